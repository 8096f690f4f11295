"""C04: the three routes of fire()"""
from machine import *
BEFORE, AFTER, PROC = 'UnexpectedFlowListener.onEventBeforeMachineStart', 'UnexpectedFlowListener.onEventAfterMachineEnd', 'EventProcessingStrategy.processEvent'


def run(p):
    def unit():
        c, st, m = live(p)
        shake(c, st, m)
        e = event_param(c, st, 'event', user=False)
        concurrent(c, st, m)
        havoc_others(c, m, m.obs)
        cov = set()
        for o in c.run_named(st, GSM, 'fire', [m.ref, e], 1):
            s = o.st
            mo = s.ghost['moments']
            at = {BEFORE: Or(*[x[0] == 0 for x in mo]), AFTER: Or(*[And(x[0] == 1, x[1] == 1) for x in mo]),
                  PROC: Or(*[And(x[0] == 1, x[1] == 0) for x in mo])}
            what = {BEFORE: 'not started', AFTER: 'started and ended', PROC: 'started and not ended'}
            lab = labels(c, s)
            if len(lab) != 1 or lab[0] not in at:
                p.fail(c, s, 'exactly one of the three routes', 'calls %s' % lab)
                continue
            l = lab[0]
            p.match(c, o, [E(l, m.strategy if l == PROC else m.ufl, [e, m.ref])], 'the route')
            p.oblige(c, s, '%s only if the machine is %s at that time' % (l.rsplit('.')[-1], what[l]), at[l])
            p.oblige(c, s, 'firing changes nothing in the machine', And(*[And(*[a == b for a, b in zip(*x)]) for x in s.ghost.get('steps', ())]) if s.ghost.get('steps') else BoolVal(True))
            cov.add((l, o.kind))
        for l in at:
            for k in ('ret', 'exc'):
                p.cover('%s, %s' % (l, k), (l, k) in cov)
    p.unit('GenericStateMachine.fire', unit)
