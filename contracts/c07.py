"""C07: the bound of the queue, and reports of events that are not queued"""
from strategy import *


def run(p):
    for declines in (False, True):
        def unit(declines=declines):
            c, st, s = setup(p)
            s.producers = False
            c.queue_may_decline = declines
            e, pl = an_event(c, st)
            m = a_machine(c, st)
            cov = set()
            for o in fire(c, st, s, e, m):
                s2 = o.st
                lab = labels(c, s2)
                dec = bool(s2.ghost.get('declined'))
                if QUEUED in lab:
                    room = lambda x: [('the event, or its copy', carried(c, s2, x, e, pl, m)[2][1]), ('there was room for it', Or(s.max <= 0, x.args[5] < s.max))]
                    p.match(c, o, [Opt([RECYCLED]), E(QUEUED, None, None, check=room), Opt([SCHEDULE])], 'a queued event')
                    cov.add(('queued', o.kind))
                else:
                    p.match(c, o, refused(c, s2, s, e, m), 'an event that is not queued')
                    full = Or(*[t - h >= s.max for h, t in s2.ghost.get('looks', ())]) if s2.ghost.get('looks') else BoolVal(False)
                    p.oblige(c, s2, 'only when as many as the maximum were waiting, or the queue declined it', Or(BoolVal(dec), And(s.max > 0, full)))
                    cov.add(('declined' if dec else 'full', o.kind))
            for k in [('queued', 'ret'), ('full', 'ret'), ('full', 'exc')] + ([('declined', 'ret'), ('declined', 'exc')] if declines else []):
                p.cover(k, k in cov)
        p.unit('DefaultEventStrategy.processEvent, %s' % ('a queue that may decline' if declines else 'a queue that takes all'), unit)

    def size():
        c, st, s = setup(p)
        c.access_hook = None
        for o in c.run_named(st, DES, 'getEventQueueSize', [s.ref], 0):
            p.match(c, o, [], 'getEventQueueSize')
            p.oblige(c, o.st, 'it is the number of waiting events', o.val == s.t0 - s.h0)
    p.unit('DefaultEventStrategy.getEventQueueSize', size)
    p.assume('one thread fires at a time (several may overrun the bound); fewer than 2^31 events wait')
