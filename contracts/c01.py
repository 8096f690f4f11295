"""C01 and C02: processing one event (TransitionTask.execute) with an arbitrary table"""
from machine import *


def task(c, st, m, handler):
    """(state, transition task) with the machine's table"""
    n = c.nalloc
    t = c.new_object(st, TT)
    st = one(c.run_named(st, TT, '<init>', [t, handler], 1)).st
    fs = [c.fkey(TT, f['name']) for f in c.prog.classes[TT]['fields'] if not f['access'] & 8]
    old = [c.rd(st, k, t) for k in fs]
    st = one(c.run_named(st, TT, 'setStates', [t, m.table], 1)).st
    # it has processed any events before
    c.age_also(n, [(k, t) for k, v in zip(fs, old) if not c.rd(st, k, t).eq(v)])
    return st, t


def process(c, st, t, e, m):
    return c.run_named(st, TT, 'execute', [t, e, m.ref], 2)


def setup(p, listener=True):
    c, st, m = live(p, listener)
    h = c.param('unmappedHandler', st)
    st, t = task(c, st, m, h)
    shake(c, st, m)
    any_table(c, st, m)
    e = event_param(c, st, 'event', user=False)
    started, ended, cur = see(c, st, m)
    st.assume(And(started == 1, ended == 0, cur > 0))
    not_reserved_state(c, st, cur)
    c.note_type(cur, 'L%s;' % ST)
    k, o, _ = listener_cell(c, st, m)
    m.listener0 = c.rd(st, k, o)
    mapped, to = target(c, st, m, c.eqcls(st, cur), c.eqcls(st, e))
    c.note_type(to, 'L%s;' % ST)
    # what the entered state's own row may say
    target(c, st, m, c.eqcls(st, to), c.eqcls(st, m.imm))
    target(c, st, m, c.eqcls(st, m.end), c.eqcls(st, m.imm))

    # rely: callbacks do anything else but stop the machine, replace its listener or reconfigure it
    havoc_others(c, m, reads(c, st, m, ('isStarted', 'isEnded', 'getCurrentState')) + [listener_cell(c, st, m)])
    return c, st, m, t, h, e, cur, mapped, to


BEGIN, END_, EXIT, ENTRY, HANDLER = 'StateMachineListener.onStateChangeBegin', 'StateMachineListener.onStateChangeEnd', 'State.onExit', 'State.onEntry', 'BiConsumer.accept'


def run(p, only='C01'):
    def unit():
        c, st, m, t, h, e, cur, mapped, to = setup(p)
        noop = eq(c, st, to, m.noop)
        st.assume(And(mapped, Not(noop)) if only == 'C01' else Or(Not(mapped), noop))
        L = m.listener0
        cov = set()
        for o in process(c, st, t, e, m):
            s = o.st
            at = lambda want, what: lambda x: [('the current state %s' % what, x.snap['cur'] == want)]

            def tell(label, want, what, frm, into, nxt):
                return [IFS(L != 0, [E(label, L, [frm, e, into], check=at(want, what), on_exc=lambda x: [END(exc=after(x.exc, want, what))])] + nxt, nxt)]

            def after(exc, want, what):
                def chk(st, o):
                    return [('the same exception goes on', o.val == exc), ('the machine stays where it was then', c.observe(st, GSM, 'getCurrentState', m.ref) == want)]
                return chk
            if only == 'C01':
                spec = tell(BEGIN, cur, 'is still the source', cur, to, [
                    E(EXIT, cur, [e, m.ref], check=at(cur, 'is still the source'), on_exc=lambda x: [END(exc=after(x.exc, cur, ''))]),
                    E(ENTRY, to, [e, m.ref], check=at(to, 'is the target'), on_exc=lambda x: [END(exc=after(x.exc, to, ''))])] +
                    tell(END_, to, 'is the target', cur, to, []))
            else:
                spec = [IFS(mapped, tell(BEGIN, cur, 'is unchanged', cur, to, tell(END_, cur, 'is unchanged', cur, to, [])),
                            [E(HANDLER, h, [e, m.ref], check=at(cur, 'is unchanged'), on_exc=lambda x: [END(exc=after(x.exc, cur, ''))])])]

            def normal(s2, o2):
                started, ended, now = see(c, s2, m)
                if only == 'C02':
                    return [('the current state is unchanged', now == cur), ('not ended', ended == 0), ('still started', started == 1)]
                return [('the target is current, or the machine has ended', Or(now == to, now == m.end)), ('still started', started == 1)]
            p.match(c, o, spec, 'processing', normal)
            lab = tuple(labels(c, s))
            cov.add((o.kind, len(lab)))
        for k in ([('ret', 4), ('ret', 2), ('exc', 1), ('exc', 2), ('exc', 3), ('exc', 4)] if only == 'C01' else [('ret', 1), ('ret', 2), ('ret', 0), ('exc', 1), ('exc', 2)]):
            p.cover('%s after %d callbacks' % k, k in cov)
    p.unit('TransitionTask.execute', unit)
    p.assume('callbacks do not stop or reconfigure the machine, start to process another event on it or replace its listener (C03, C21 treat those)')
    p.assume('each configured target is a state of the user\'s, the end state or the no-op state (C10), and user states have no reserved names (C10)')
