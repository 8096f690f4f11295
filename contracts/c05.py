"""C05: accepted events are queued and scheduled, taken out in order and processed once"""
from strategy import *


def run(p):
    def accept():
        c, st, s = setup(p)
        e, pl = an_event(c, st)
        m = a_machine(c, st)
        cov = set()
        for o in fire(c, st, s, e, m):
            lab = labels(c, o.st)
            if QUEUED in lab or SCHEDULE in lab:
                p.match(c, o, accepted(c, o.st, s, e, pl, m), 'an accepted event')
                cov.add('accepted')
            else:
                p.oblige(c, o.st, 'nothing but a report when it is not accepted (%s)' % lab, set(lab) <= {REPORT, RECYCLED})
        p.cover('accepted', 'accepted' in cov)
    p.unit('DefaultEventStrategy.processEvent', accept)

    def drain():
        c, st, s = setup(p)
        cov = set()
        for s1, task in drains(p, c, st, s):
            s.consumer = True
            for o in run_drain(c, s1, task):
                s2 = o.st
                hd = c.rd(s2, 'Q.head', s.q)
                p.match(c, o, [FOR(s.h0, hd, lambda i: turn_order(s, i))], 'the task')
                if o.kind == 'ret':
                    lk = s2.ghost.get('looks', ())
                    p.oblige(c, s2, 'it ends only when it saw the queue empty', Or(*[And(h == t, h == hd) for h, t in lk]) if lk else BoolVal(False))
                    cov.add('done')
                else:
                    p.oblige(c, s2, 'it breaks off only after an event was taken out', hd > s.h0)
                    cov.add('broken off')
        p.cover('done and broken off', len(cov) == 2)
    p.unit('DefaultEventStrategy: the task handed to the executor', drain)
    p.assume('the queue is a first-in first-out queue whose single operations are atomic; the executor runs the tasks it is given one at a time, each once')
    p.assume('carriers in the queue and in the pool are different ones (each function proved to put in only carriers it owns)')
    p.assume('events and machines in the queue are not null')
