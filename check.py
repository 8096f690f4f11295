#!/opt/veriftools/pyvenv/bin/python3
"""check.py ID [quick|thorough]: decides one property for /repo's current tree.

1. compiles /repo/src/main/java into a scratch folder and dumps the bytecode of every method;
2. runs the contract module contracts/<id>.py: the verifier (vc/) generates the obligations from that bytecode and z3 discharges them
   (thorough: cvc5 re-checks the discharged ones);
3. runs the harness (harness/vh/<ID>.java) against the compiled classes: it replays the verifier's counterexamples on the real code
   (hints) and is the bounded stand-in for obligations that are out of the verifier's reach;
4. reports, and writes evidence/<ID>.json."""
import glob, importlib, json, os, re, subprocess, sys, tempfile, time, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/vc', HERE + '/contracts']
sys.dont_write_bytecode = True
import build

T0 = time.time()


def known(pid):
    r = {}
    for l in open(HERE + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            r[m.group(2)] = m.group(3).strip()
    return r


class Harness:
    def __init__(self, w, pid, tier, seed):
        self.w, self.pid, self.tier, self.seed, self.err = w, pid, tier, seed, {}
        self.out = {}

    def prepare(self):
        h = self.w.dir + '/harness'
        build.javac(build.sources(HERE + '/harness'), h, self.w.classes + ':' + build.LOG4J)
        self.hcls = h

    def instrument(self):
        t = build.tools()
        self.icls = self.w.dir + '/iclasses'
        build.run([build.JAVA, '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-cp', t + '/dump:' + build.ASM, 'Instr', self.w.classes, self.icls])

    def has(self, mode):
        s = open('%s/harness/vh/%s.java' % (HERE, self.pid)).read()
        return re.search(r'static void %s\(' % mode, s) is not None

    def run(self, mode, budget, hints, tag=''):
        out = '%s/out-%s%s.json' % (self.w.dir, mode, tag)
        hf = self.w.dir + '/hints' + tag
        with open(hf, 'w') as f:
            f.write('\n'.join(hints) + '\n')
        cp = ':'.join([self.hcls, self.icls if mode == 'conc' else self.w.classes, build.LOG4J])
        cmd = [build.JAVA, '-Xverify:none', '-Xshare:auto', '-Xmx3g', '-cp', cp, 'vh.Main', self.pid, mode, self.tier, str(self.seed), str(int(budget * 1000)), out, hf]
        try:
            with open(self.w.dir + '/log-%s%s' % (mode, tag), 'w') as lf:
                subprocess.run(cmd, stdout=lf, stderr=lf, timeout=budget + 120)
        except subprocess.TimeoutExpired:
            self.err[mode + tag] = 'timed out'
        if os.path.exists(out):
            self.out[mode + tag] = json.load(open(out))
        else:
            self.err.setdefault(mode + tag, 'no output: ' + open(self.w.dir + '/log-%s%s' % (mode, tag)).read()[-300:])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = os.environ.get('VERIF_ONLY', '')  # development: 'proof' or 'harness'
    thorough = tier == 'thorough'
    with build.Work() as w:
        w.compile_repo()
        h = Harness(w, pid, tier, seed)
        dump = {}
        errs = []

        def t_dump():
            try:
                dump['d'] = w.dump()
            except Exception as e:
                errs.append('dump: %s' % e)

        def t_h():
            try:
                h.prepare()
                if h.has('conc'):
                    h.instrument()
            except Exception as e:
                errs.append('harness: %s' % e)
        build.tools()
        ts = [threading.Thread(target=t_dump), threading.Thread(target=t_h)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if 'd' not in dump:
            print('\n'.join(errs))
            return 2
        hb = 600 if thorough else 20
        hints = ['s:' + ','.join(str(ord(x)) for x in s) for s in sorted(consts(dump['d'])) if s]
        hints += ['i:%d' % i for i in sorted(ints(dump['d']))]
        hts = []
        if not any(e.startswith('harness') for e in errs) and only != 'proof':
            for mode in ('seq', 'conc'):
                if h.has(mode):
                    t = threading.Thread(target=h.run, args=(mode, hb, hints))
                    t.start()
                    hts.append(t)
        pr = None
        if only != 'harness':
            pr = prove(pid, dump['d'], thorough)
        [t.join() for t in hts]
        return report(pid, tier, seed, thorough, w, h, pr, errs, dump['d'], hints)


def consts(d):
    r = set()
    for s in re.findall(r'\["LDC", ?\["S", ?"((?:[^"\\]|\\.)*)"\]\]', d_text(d)):
        try:
            s = json.loads('"%s"' % s)
        except ValueError:
            continue
        if len(s) <= 60:
            r.add(s)
    return sorted(r)[:120]


def ints(d):
    r = {int(x) for x in re.findall(r'\["(?:BIPUSH|SIPUSH|I|J)", ?(-?\d+)\]', d_text(d))}
    return sorted(sorted((x for x in r if abs(x) < 2 ** 31), key=abs)[:60])


_txt = {}


def d_text(d):
    if 't' not in _txt:
        _txt['t'] = json.dumps(d)
    return _txt['t']


def prove(pid, dump, thorough):
    import engine, proof
    f = '%s/contracts/%s.py' % (HERE, pid.lower())
    if not os.path.exists(f):
        return None
    sys.setrecursionlimit(20000)
    pr = proof.Proof(engine.Prog(dump), 1800 if thorough else 330, thorough)
    try:
        importlib.import_module(pid.lower()).run(pr)
    except Exception:
        pr.obs.append(proof.Ob('-', 'the contract module runs', 'undecided', detail=traceback.format_exc()[-1500:]))
    pr.join()
    if thorough:
        pr.cross = cross(pr)
    return pr


def cross(pr):
    """cvc5 on the formulas z3 found unsatisfiable"""
    ok = bad = unk = 0
    end = time.time() + 600
    for name, txt in pr.smt2:
        if time.time() > end:
            break
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
            f.write('(set-logic ALL)\n' + txt)
            f.flush()
            try:
                o = subprocess.run(['cvc5', '--tlimit=10000', f.name], capture_output=True, text=True, timeout=20).stdout
            except subprocess.TimeoutExpired:
                o = ''
        if 'unsat' in o:
            ok += 1
        elif 'sat' in o.split('\n')[0:1]:
            bad += 1
            pr.obs.append(__import__('proof').Ob('cvc5', name, 'undecided', detail='z3 says proved, cvc5 says sat'))
        else:
            unk += 1
    return {'confirmed': ok, 'contradicted': bad, 'unknown': unk}


def model_hints(pr):
    r = []
    for o in pr.obs:
        if o.status == 'refuted' and o.model:
            for v in re.findall(r'=(-?\d+)', o.model):
                if abs(int(v)) < 2 ** 31:
                    r.append('i:' + v)
    return sorted(set(r))[:40]


def report(pid, tier, seed, thorough, w, h, pr, errs, dump, hints):
    obs = pr.obs if pr else []
    refuted = [o for o in obs if o.status == 'refuted']
    undecided = [o for o in obs if o.status == 'undecided']
    proved = [o for o in obs if o.status == 'proved']
    if refuted and h.out and not any(h.out[m]['fails'] for m in h.out):
        # replay the counterexample's values, other seed
        for mode in ('seq', 'conc'):
            if h.has(mode):
                h.seed = seed + 1000
                h.run(mode, 30, hints + model_hints(pr), '-replay')
                h.seed = seed
    kn = known(pid)
    fails, seen = [], []
    for m, o in h.out.items():
        for f in o['fails']:
            if f['key'] in kn:
                if f['key'] not in seen:
                    seen.append(f['key'])
            elif not any(g['key'] == f['key'] for _, g in fails):
                fails.append((m, f))
    rc = 0
    os.makedirs(HERE + '/build/replay', exist_ok=True)
    rp = '%s/build/replay/%s.json' % (HERE, pid)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    if fails or refuted:
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'rerun': 'VERIF_SEED=%d python3-vt %s/check.py %s %s' % (seed, HERE, pid, tier),
                       'failing_inputs': [{'mode': m, 'key': x['key'], 'what': x['what'], 'scenario': x['scenario']} for m, x in fails],
                       'failed_obligations': [o.json() for o in refuted], 'undecided_obligations': [o.json() for o in undecided][:40]}, f, indent=1)
    if fails:
        rc = 1
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        for m, f in fails[:3]:
            print('  failing input (%s): %s: %s | %s' % (m, f['key'], f['what'][:600], f['scenario'][:400]))
        for o in refuted[:3]:
            print('  failed obligation: %s: %s' % (o.unit, o.name))
    elif refuted:
        rc = 1
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        for o in refuted[:5]:
            print('  failed obligation: %s: %s' % (o.unit, o.name))
    ev = sum(o['evals'] for o in h.out.values())
    print('%s %s: %d obligations, %d discharged, %d refuted, %d undecided (bounded stand-in instead); harness %d cases, %d failing kinds; %.1f s' % (
        pid, tier, len(obs), len(proved), len(refuted), len(undecided), ev, len(fails), time.time() - T0))
    for o in undecided[:8]:
        print('  undecided: %s: %s (%s)' % (o.unit, o.name, o.detail[:160].replace('\n', ' ')))
    for m, e in list(h.err.items()) + [('', e) for e in errs]:
        print('  harness %s: %s' % (m, str(e)[:300]))
    if not h.out and not refuted and (undecided or not proved) and not os.environ.get('VERIF_ONLY'):
        print('no answer: neither proved nor run')
        rc = rc or 2
    evidence(pid, tier, seed, w, h, pr, obs, proved, refuted, undecided, fails, seen, kn, rc)
    return rc


def evidence(pid, tier, seed, w, h, pr, obs, proved, refuted, undecided, fails, seen, kn, rc):
    import contracts_meta as meta
    m = meta.META.get(pid, {})
    ev = sum(o['evals'] for o in h.out.values())
    units = sorted({o.unit for o in obs})
    smp = []
    for o in proved[:: max(1, len(proved) // 6)][:6]:
        smp.append('proved: %s: %s' % (o.unit, o.name))
    for o in h.out.values():
        smp += ['harness case: ' + s for s in o['samples'][:2]]
    cov = {
        'obligations': len(obs), 'discharged': len(proved), 'refuted': len(refuted), 'undecided_bounded_stand_in': len(undecided),
        'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
        'back_end': 'z3 %s (weakest preconditions generated from the bytecode of /repo compiled in this run)%s' % (z3v(), '; cvc5 cross-check' if pr and pr.thorough else ''),
        'solver_queries': pr.queries if pr else 0, 'solver_seconds': round(pr.stime, 2) if pr else 0,
        'functions_under_contract': sorted('.'.join(x[:2]) + ''.join(x[2:]) for x in (pr.under_contract if pr else ()) if not x[0].startswith(('model/', 'java/')))[:200],
        'library_contracts_used': sorted(pr.libuse)[:200] if pr else [],
        'units': units, 'samples': smp,
        'undecided': ['%s: %s (%s)' % (o.unit, o.name, o.detail[:200]) for o in undecided][:30],
        'refuted_obligations': ['%s: %s' % (o.unit, o.name) for o in refuted][:30],
        'bounded': {'label': 'bounded: harness on the real classes, never counted as proved', 'evaluations': ev,
                    'distinct_nontrivial': sum(o['distinct'] for o in h.out.values()), 'families': {k: o['families'] for k, o in h.out.items()},
                    'errors': h.err},
        'trusted_base': meta.TRUSTED,
        'known_findings_seen': [kn[k] for k in seen],
    }
    if pr and getattr(pr, 'cross', None):
        cov['cvc5'] = pr.cross
    for k in ('evaluations', 'distinct_nontrivial'):
        cov[k] = cov['bounded'][k]
    cov['rule'] = 'obligations: one per path and postcondition; harness cases: distinct by their scenario text'
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': m.get('level', 'proof'), 'coverage': cov,
               'assumptions': meta.ASSUME + m.get('assume', []) + (pr.assumed if pr else []), 'wall_s': round(time.time() - T0, 2),
               'violations': len(fails) + (1 if refuted and not fails else 0)}, open('%s/evidence/%s.json' % (HERE, pid), 'w'), indent=1)


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as e:
        print('build failed: %s' % e)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
