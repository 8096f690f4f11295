"""C08: the drop-duplicate strategy"""
from strategy import *


def scan_axioms(c, s):
    def elem(ctx, st, it, pos, v):
        # a carrier in the queue still holds the event it was put in with
        st.assume(And(event_of(ctx, st, v) == EVT(pos), EVT(pos) > 0, v > 0))
        ctx.note_type(EVT(pos), 'L%s;' % EV)
    c.elem_axiom = elem


def none_before(ctx, rule, e):
    """loop invariant: none of the events gone through so far equals it"""
    own = []

    def inv(s, loc):
        if not own:
            own.append(s.ghost['looks'][-1][0] if s.ghost.get('looks') else None)
        if own[0] is None:
            return BoolVal(True)
        i = Int('i')
        return ForAll([i], Implies(And(own[0] <= i, i < own[0] + rule._k), ctx.eqvf(EVT(i)) != ctx.eqcls(s, e)), patterns=[EVT(i)])
    return inv


def run(p):
    for named in (False, True):
        def unit(named=named):
            c, st, s = setup(p, True)
            s.producers = False
            scan_axioms(c, s)
            e, pl = an_event(c, st, named)
            m = a_machine(c, st)
            ecls = c.eqcls(st, e)
            c.loop_cands.append(lambda ctx, rule: [none_before(ctx, rule, e)])
            cov = set()
            for o in fire(c, st, s, e, m):
                s2 = o.st
                lab = labels(c, s2)
                if not lab:
                    p.match(c, o, [], 'a dropped event')
                    xs = applied(EVT, s2)
                    p.oblige(c, s2, 'an equal event was waiting', Or(*[And(s.h0 <= x, x < s.t0, c.eqvf(EVT(x)) == ecls) for x in xs]) if xs else BoolVal(False))
                    cov.add('dropped')
                    continue
                j = Int('j')
                now = [x.args[6] for _, x in entries(c, s2) if x.label == QUEUED] + [s2.ghost['looks'][-1][0] if s2.ghost.get('looks') else s.h0]
                p.oblige(c, s2, 'no equal event is waiting', Implies(And(now[0] <= j, j < s.t0), c.eqvf(EVT(j)) != ecls), [EVT(j) > 0])
                if QUEUED in lab:
                    p.match(c, o, accepted(c, s2, s, e, pl, m), 'handed on')
                    cov.add('queued')
                else:
                    p.match(c, o, refused(c, s2, s, e, m), 'handed on, and refused')
                    full = Or(*[t - h >= s.max for h, t in s2.ghost.get('looks', ())])
                    p.oblige(c, s2, 'refused only for lack of room', And(s.max > 0, full))
                    cov.add('refused')
            for k in ('dropped', 'queued', 'refused'):
                p.cover(k, k in cov)
        p.unit('DropDuplicateEventStrategy.processEvent, %s event' % ('a named' if named else 'any'), unit)

    def being_processed():
        # an event that is being processed waits no longer
        c, st, s = setup(p, True)
        c.snap_hook = lambda ctx, x: {'head': ctx.rd(x, 'Q.head', s.q)}
        n = [0]
        for s1, task in drains(p, c, st, s):
            s.consumer = True

            def processed(i):
                def chk(x):
                    n[0] += 1
                    return [('it waits no longer', x.snap['head'] > i)]
                return [OTHER, IFS(ENDED(i) != 0, [], [E(PROCESS, None, [EVT(i), MACH(i)], check=chk, on_exc=lambda x: [OTHER, END(any=True)])]), OTHER]
            for o in run_drain(c, s1, task):
                p.match(c, o, [FOR(s.h0, c.rd(o.st, 'Q.head', s.q), processed)], 'an event being processed')
        p.cover('processed', n[0] > 0)
    p.unit('DropDuplicateEventStrategy: the task handed to the executor', being_processed)

    def delegates():
        c, st, s = setup(p, True)
        c.access_hook = None
        t = c.param('table', st)
        for n, args in (('getEventQueueSize', []), ('getUnexpectedFlowListener', []), ('setStates', [t])):
            a = one(c.run_named(st.copy(), DDS, n, [s.ref] + args, len(args)))
            b = one(c.run_named(st.copy(), DES, n, [s.des] + args, len(args)))
            p.oblige(c, a.st, '%s: that of the wrapped strategy' % n, a.val == b.val if a.val is not None else BoolVal(True), b.st.pc)
            for k in sorted(set(a.st.heap) | set(b.st.heap)):
                x, y = a.st.heap.get(k, c.arr(st.copy(), k)), b.st.heap.get(k, c.arr(st.copy(), k))
                if not x.eq(y):
                    p.oblige(c, a.st, '%s: same effect as on the wrapped strategy (%s)' % (n, k), x == y)
            p.oblige(c, a.st, '%s calls nothing else' % n, labels(c, a.st) == labels(c, b.st))
            if n == 'setStates':
                p.cover('the table is kept', any(not z.eq(st.heap.get(k, z)) for k, z in a.st.heap.items()))
    p.unit('DropDuplicateEventStrategy: what it passes on', delegates)
    p.assume('one thread fires at a time; a scan of the queue sees the events that wait when it begins')
    p.assume('equals of events is an equivalence (C13 for named events)')
