"""C06: a failing event is reported once, its carrier recycled after it, and the next ones are processed"""
from strategy import *


def run(p):
    def drain():
        c, st, s = setup(p)
        s.alive = True
        cov = set()
        for s1, task in drains(p, c, st, s):
            s.consumer = True
            for o in run_drain(c, s1, task):
                s2 = o.st
                p.match(c, o, [FOR(s.h0, c.rd(s2, 'Q.head', s.q), lambda i: turn(p, c, s, i))], 'the task')
                cov.add(o.kind)
                for _, x in entries(c, s2):
                    cov.add((x.label, x.exc is not None and is_exception(p, c, x.exc)))
        for k in ('ret', 'exc', (PROCESS, True), (PROCESS, False), (REPORT, True), (REPORT, False), (RECYCLED, False)):
            p.cover(k, k in cov)
    p.unit('DefaultEventStrategy: the task handed to the executor', drain)

    def pool():
        # a carrier given back is there to be taken again, and only once: the pool is a concurrent queue
        c, st, s = setup(p)
        got = set()
        old = c.access_hook

        def hook(ctx, x, kind, ref, key, *a):
            if key == 'Q' and not ref.eq(s.q):
                got.add(num(ref))
            return old(ctx, x, kind, ref, key, *a)
        c.access_hook = hook
        e, pl = an_event(c, st)
        for o in fire(c, st, s, e, a_machine(c, st)):
            pass
        cls = [c.info[n].cls for n in got if n in c.info]
        p.oblige(c, st, 'carriers are pooled in a queue that threads may share %s' % cls, bool(cls) and all(x.startswith('java/util/concurrent/') for x in cls), precise=False)
    p.unit('EventMachinePairPool: the pool', pool)
    p.assume('Exception and Error stand for all throwables')
    p.assume('the queue is a first-in first-out queue whose single operations are atomic; the executor runs the tasks it is given one at a time, each once')
