"""C20: the thread factory"""
from proof import *
from engine import Call
CLS = UTIL + 'Threads'
TF = 'java/util/concurrent/ThreadFactory'


def factory(c, st, name, h):
    """the two ways to make a factory: [(label, outcomes, the handler it must install)]"""
    for m in c.prog.classes[CLS]['methods']:
        if m['access'] & 8 and m['access'] & 1 and m['desc'].endswith(')L%s;' % TF):
            ad, _ = parse_desc(m['desc'])
            if ad == ['Ljava/lang/String;', 'Ljava/lang/Thread$UncaughtExceptionHandler;']:
                yield 'with handler', m, [name, h], h
            elif ad == ['Ljava/lang/String;']:
                yield 'without handler', m, [name], IntVal(0)


def reassigned(prog, k):
    return any(x[0] == 'PUTSTATIC' and 'S:%s.%s' % (x[1], x[2]) == k for cn, d in prog.classes.items() for m in d['methods'] if m['name'] != '<clinit>' for x in m['ins'])


def new_thread(c, st, f, r):
    return c.invoke(st, Call('INVOKEINTERFACE', TF, 'newThread', '(Ljava/lang/Runnable;)Ljava/lang/Thread;', [f, r], 'contract'))


def run(p):
    p.par = 1     # the units tell each other which counter they use
    def setup(tag=''):
        c, st = p.ctx()
        name = c.param('threadName' + tag, st)
        c.note_type(name, 'Ljava/lang/String;')
        h = c.param('handler' + tag, st, False)
        return c, st, name, h
    c0, s0, n0, h0 = setup()
    vs = [x[0] for x in factory(c0, s0, n0, h0)]
    p.cur = 'Threads'
    p.cover('both factory methods', set(vs) == {'with handler', 'without handler'})

    counters = {}
    for v in vs:
        def unit(v=v):
            c, st, name, h = setup()
            _, m, args, want = [x for x in factory(c, st, name, h) if x[0] == v][0]
            task = c.param('task', st)
            cov = 0
            for o in c.call_method(st, m, args):
                p.match(c, o, [], 'making the factory')
                if o.kind != 'ret':
                    continue
                # the number: any other threads may be numbering at the same time
                def hook(ctx, s, kind, ref, key, *a):
                    if key != 'AB.val':
                        return
                    if kind in ('get', 'put', 'rmw'):
                        old = ctx.rd(s, 'AB.val', ref)
                        new = ctx.fresh('count')
                        s.assume(And(new >= old, new < IMAX))
                        ctx.wr(s, 'AB.val', ref, new)
                        s.ghost['kind'] = kind
                    elif kind == 'wrote':
                        s.ghost['num'] = s.ghost.get('num', ()) + ((ref, a[0], a[1], s.ghost['kind']),)
                c.access_hook = hook
                c.age(o.st, [('*', IntVal(n)) for n, i in c.info.items() if i.kind == 'atomic'])
                for q in new_thread(c, o.st, o.val, task):
                    p.match(c, q, [], 'newThread')
                    if q.kind != 'ret':
                        continue
                    s, t = q.st, q.val
                    cov += 1
                    i = c.info.get(num(t))
                    if i is None or i.cls != 'java/lang/Thread':
                        raise Unsupported('the thread is not a new java.lang.Thread')
                    p.oblige(c, s, 'it is a daemon', c.rd(s, 'T.daemon', t) == 1)
                    p.oblige(c, s, 'it has exactly the given handler', c.rd(s, 'T.ueh', t) == want)
                    w = s.ghost.get('num', ())
                    ps = c.pieces(s, c.rd(s, 'T.name', t))
                    if any(x[0] in ('o',) for x in ps if not isinstance(x, str)):
                        raise Unsupported('thread name %s' % (ps,))
                    # name, dash, number
                    ok = len(ps) == 3 and not isinstance(ps[0], str) and ps[1] == '-' and not isinstance(ps[2], str) and ps[0][0] == 's' and ps[2][0] == 'i'
                    p.oblige(c, s, 'it is named <name>-<number> (pieces %s)' % (ps,), And(ps[0][1] == name) if ok else BoolVal(False))
                    if len(w) != 1:
                        p.oblige(c, s, 'the number is drawn once (%d writes of a counter)' % len(w), False)
                    elif ok:
                        ref, old, new, kind = w[0]
                        p.oblige(c, s, 'the counter moves up in one atomic step', And(new == old + 1, BoolVal(kind == 'rmw')))
                        d = simplify(ps[2][1] - old)
                        p.oblige(c, s, 'the number is where the counter was, or where it is now', Or(ps[2][1] == old, ps[2][1] == new))
                        n = 0 if c.valid(s, ps[2][1] == old) else 1
                        stat = [k for k, x in s.heap.items() if k.startswith('S:') and num(x) is not None and num(x) == num(ref)]
                        fin = [k for k in stat if not reassigned(p.prog, k)]
                        p.oblige(c, s, 'the counter is one for the whole library (a static that is never reassigned)', bool(fin))
                        counters.setdefault((tuple(fin), n), 0)
                    for z in c.invoke(s, Call('INVOKEINTERFACE', 'java/lang/Runnable', 'run', '()V', [c.rd(s, 'T.target', t)], 'contract')):
                        p.match(c, z, [E('Runnable.run', task)], 'its run() runs the task')
            p.cover('a thread is made', cov)
        p.unit('Threads.newNamedDaemonThreadFactory ' + v + ', newThread', unit)
    p.cur = 'Threads'
    c, st = p.ctx()
    p.oblige(c, st, 'all factories number with the same counter in the same way', len(counters) <= 1)

    # nothing else in the library moves the counter
    def others():
        c, st = p.ctx()
        fin = {k for f, _ in counters for k in f}
        users = set()
        for cn, d in p.prog.classes.items():
            if cn.startswith('model/'):
                continue
            for m in d['methods']:
                for x in m['ins']:
                    if x[0] in ('GETSTATIC', 'PUTSTATIC') and 'S:%s.%s' % (x[1], x[2]) in fin and m['name'] != '<clinit>':
                        users.add((cn, m['name'], m['desc']))
        seen = p.under_contract
        p.oblige(c, st, 'only the functions under this contract use the counter: %s' % sorted(u for u in users if u not in seen), all(u in seen for u in users))
    p.unit('who uses the counter', others)
    p.assume('fewer than 2^32 threads are made (the counter does not come round)')
    p.assume('java.lang.Thread runs its target; Thread fields are what the setters and constructor say')
