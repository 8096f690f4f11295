"""Compiles /repo's sources and the tools, dumps bytecode.  Everything goes to a scratch folder."""
import glob, json, os, shutil, subprocess, sys, tempfile, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JH = '/usr/lib/jvm/java-17-openjdk-amd64'
JAVAC, JAVA = JH + '/bin/javac', JH + '/bin/java'
ASM = ':'.join(sorted(glob.glob('/opt/veriftools/java/bytecode/asm*.jar')))
LOG4J = ':'.join(sorted(glob.glob('/root/.m2/repository/org/apache/logging/log4j/log4j-api/*/log4j-api-*.jar') +
                        glob.glob('/root/.m2/repository/org/apache/logging/log4j/log4j-core/*/log4j-core-*.jar')))


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s%s' % (' '.join(cmd)[:300], p.stdout[-3000:], p.stderr[-3000:]))
    return p.stdout


def javac(srcs, out, cp='', extra=()):
    os.makedirs(out, exist_ok=True)
    run([JAVAC, '-nowarn', '-g', '-Xlint:none', '-XDignore.symbol.file', '--release', '17', '-encoding', 'UTF-8', '-proc:none', '-d', out] + (['-cp', cp] if cp else []) + list(extra) + srcs)


def sources(d):
    r = []
    for p, _, fs in os.walk(d):
        r += [os.path.join(p, f) for f in fs if f.endswith('.java')]
    return sorted(r)


def tools():
    """the framework's own Java parts: prebuilt by setup in /verif/build, else built in scratch"""
    srcs = sources(VERIF + '/tools') + sources(VERIF + '/models')
    h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()
    d = VERIF + '/build/tools'
    if os.path.exists(d + '/hash') and open(d + '/hash').read() == h:
        return d
    tmp = tempfile.mkdtemp(prefix='vtools')
    javac(sources(VERIF + '/tools'), tmp + '/dump', ASM)
    javac(sources(VERIF + '/models'), tmp + '/models')
    open(tmp + '/hash', 'w').write(h)
    try:
        os.makedirs(VERIF + '/build', exist_ok=True)
        shutil.rmtree(d, ignore_errors=True)
        shutil.move(tmp, d)
        return d
    except OSError:
        return tmp


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compile_repo(self):
        self.classes = self.dir + '/classes'
        javac(sources(REPO + '/src/main/java'), self.classes, LOG4J)

    def dump(self):
        t = tools()
        out = self.dir + '/dump.json'
        run([JAVA, '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-cp', ':'.join([t + '/dump', ASM, self.classes, LOG4J]), 'Dump', out, self.classes, t + '/models'])
        return json.load(open(out))
