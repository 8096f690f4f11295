"""C09: the payload an event carried when it was fired"""
from strategy import *
import c01


def run(p):
    for drop in (False, True):
        for named in (False, True):
            def unit(drop=drop, named=named):
                c, st, s = setup(p, drop)
                s.quiet = True
                e, pl = an_event(c, st, named)
                m = a_machine(c, st)
                if drop:
                    import c08
                    c08.scan_axioms(c, s)
                cov = set()
                for o in fire(c, st, s, e, m):
                    s2 = o.st
                    for x in [x for _, x in entries(c, s2)]:
                        if x.label.startswith('the fired event') or x.label == 'StateEvent.setPayload':
                            p.fail(c, s2, 'firing leaves the event alone', x.label)
                        if x.label != QUEUED:
                            continue
                        v, got = x.args[1], x.args[4]
                        n = num(v)
                        p.oblige(c, s2, 'the event\'s payload is untouched by then', x.args[7] == pl)
                        p.oblige(c, s2, 'an event without payload is queued itself', Implies(pl == 0, v == e))
                        made = n is not None and n in c.info and n not in (num(e),) and c.info[n].cls in p.prog.classes
                        p.oblige(c, s2, 'an event with payload is queued as a copy of its own', Implies(pl != 0, BoolVal(made)))
                        p.oblige(c, s2, 'the copy has the payload', got == pl)
                        p.oblige(c, s2, 'the copy has the name', c.cid(c.name_of(s2, v)) == c.cid(c.name_of(s2, e)))
                        if named:
                            p.oblige(c, s2, 'the copy equals the event', c.eqcls(s2, v) == c.eqcls(s2, e))
                        for k, b in (('with payload', pl != 0), ('without payload', pl == 0)):
                            if c.feasible(s2, b):
                                cov.add(k)
                p.cover('with and without payload', len(cov) == 2)
            p.unit('%s.processEvent, %s event' % ('DropDuplicateEventStrategy' if drop else 'DefaultEventStrategy', 'a named' if named else 'any'), unit)

    def drain():
        c, st, s = setup(p)
        cov = 0
        for s1, task in drains(p, c, st, s):
            s.consumer = True
            for o in run_drain(c, s1, task):
                for s2, x in entries(c, o.st):
                    if x.label == PROCESS:
                        ps = applied(EVT, s2)
                        p.oblige(c, s2, 'what is processed is a queued event itself', Or(*[And(x.args[0] == EVT(i), x.args[1] == MACH(i)) for i in ps]) if ps else BoolVal(False))
                        cov += 1
                    if x.label == 'StateEvent.setPayload':
                        p.fail(c, s2, 'nothing sets its payload', x.label)
        p.cover('processed', cov)
    p.unit('DefaultEventStrategy: the task handed to the executor', drain)

    def callbacks():
        c, st, m, t, h, e, cur, mapped, to = c01.setup(p)
        cov = set()
        for o in c01.process(c, st, t, e, m):
            for s2, x in entries(c, o.st):
                pos = {c01.BEGIN: 1, c01.END_: 1, c01.EXIT: 0, c01.ENTRY: 0, c01.HANDLER: 0}.get(x.label)
                if pos is not None:
                    p.oblige(c, s2, '%s gets the event that is processed' % x.label, x.args[pos] == e)
                    cov.add(x.label)
                if x.label == 'StateEvent.setPayload':
                    p.fail(c, s2, 'nothing sets its payload', x.label)
        p.cover('all callbacks', len(cov) == 5)
    p.unit('TransitionTask.execute', callbacks)

    def passes_on():
        c, st, m = live(p)
        shake(c, st, m)
        e = event_param(c, st, 'event', user=False)
        cov = 0
        for o in c.run_named(st, GSM, 'fire', [m.ref, e], 1):
            for s2, x in entries(c, o.st):
                if x.label == 'EventProcessingStrategy.processEvent':
                    p.oblige(c, s2, 'the strategy gets the fired event itself', x.args[0] == e)
                    cov += 1
                if x.label == 'StateEvent.setPayload':
                    p.fail(c, s2, 'nothing sets its payload', x.label)
        p.cover('handed on', cov)
    p.unit('GenericStateMachine.fire', passes_on)

    def actions():
        # a state gives its actions the event it was given
        for kind, app in (('onEntry', 'appendEntryActions'), ('onExit', 'appendExitActions')):
            c, st = p.ctx()
            n = c.new_object(st, NS)
            nm = c.param('name', st, False)
            c.note_type(nm, 'Ljava/lang/String;')
            st = one(c.run_named(st, NS, '<init>', [n, nm], 1)).st
            a = c.alloc('[L%s;' % SA, 'array')
            c.wr(st, 'A.len', a, 1)
            act = c.param('action', st)
            st.heap['A.arr'] = Store(c.arr(st, 'A.arr'), a, Store(c.rd(st, 'A.arr', a), 0, act))
            st = one(c.run_named(st, NS, app, [n, a], 1)).st
            e, m = c.param('event', st), c.param('machine', st)
            cov = 0
            for o in c.run_named(st, NS, kind, [n, e, m], 2):
                for s2, x in entries(c, o.st):
                    if x.label == 'StateAction.execute':
                        p.oblige(c, s2, '%s: the action gets the event' % kind, x.args[0] == e)
                        cov += 1
            p.cover('%s runs an action' % kind, cov)
    p.unit('NamedState.onEntry, onExit', actions)
    p.assume('nobody sets the payload of an event in the very moment it is fired')
    p.assume('event classes of the user\'s own: the copy has the event\'s name and payload, but equals it only if the class says so (known finding)')
