"""C03: a machine ends exactly when it should, and stays ended"""
from machine import *
import c01, c11
ENTRY = 'State.onEntry'
NOT_RUN = {'<init>', '<clinit>'}


def methods(prog):
    """every method of the machine that other code can call"""
    r = []
    for m in prog.classes[GSM]['methods']:
        if m['name'] in NOT_RUN or m['access'] & (2 | 8 | 0x1000 | 0x400):
            continue
        r.append(m)
    return r


def guarantee(p, c, s, m, what):
    """every step this call makes is one that the others may rely on"""
    steps = s.ghost.get('steps', ())
    g = [rely(a, b, m.end) for a, b in steps]
    p.oblige(c, s, '%s: no step un-ends the machine, moves it after its end, or ends it without the end state being current' % what, And(*g) if g else BoolVal(True))
    p.oblige(c, s, '%s: all steps were made under the lock or at once' % what, not s.locks)


def ends(c, st, m, cls_state):
    """entering a state of this class ends the machine: it ends immediately or was never configured"""
    ic = c.eqcls(st, m.imm)
    h, v = lookup(c, st, m.table, cls_state, ic)
    return Or(Not(Select(m.has, cls_state)), And(h, v == m.end))


def run(p):
    for me in methods(p.prog):
        def unit(me=me):
            c, st, m = c11.configured(p)
            first = concurrent(c, st, m)
            c11.havoc_and_interfere(c, m)
            c.throwing = (c.throwing[0],)
            ad, _ = parse_desc(me['desc'])
            args = [m.ref]
            for i, d in enumerate(ad):
                if d[0] == 'L':
                    a = c.param('arg%d' % i, st, False)
                    c.note_type(a, d)
                    if d == 'L%s;' % ST and me['name'] == 'updateCurrentState':
                        # its callers give it a state of the user's or the end state
                        st.assume(Or(a == m.end, a > 0))
                        a = If(Int('toEnd') == 1, m.end, a)
                        c.note_type(a, d)
                        not_reserved_state(c, st, Int('arg%d' % i))
                    args.append(a)
                else:
                    args.append(c.fresh_of(st, d, 'arg'))
            cov = 0
            for o in c.call_method(st, me, args):
                cov += 1
                guarantee(p, c, o.st, m, me['name'])
                if me['name'] == 'stop' and o.kind == 'ret':
                    z = see(c, o.st, m)
                    p.oblige(c, o.st, 'stop: a started machine has ended', Implies(z[0] == 1, And(z[1] == 1, z[2] == m.end)))
            p.cover('comes to an end', cov)
        p.unit('GenericStateMachine.%s%s' % (me['name'], me['desc'] if len([x for x in methods(p.prog) if x['name'] == me['name']]) > 1 else ''), unit)

    def execute_steps():
        c, st, m, t, h, e, cur, mapped, to = c01.setup(p)
        m.alone = True
        target(c, st, m, c.eqcls(st, m.end), c.eqcls(st, e))
        concurrent(c, st, m)
        c11.havoc_and_interfere(c, m)
        cov = 0
        c.throwing = (EXC,)
        for o in c01.process(c, st, t, e, m):
            guarantee(p, c, o.st, m, 'processing')
            cov += 1
        p.cover('comes to an end', cov)
    p.unit('TransitionTask.execute: steps', execute_steps)

    def execute():
        # nobody else stops it: it ends exactly if this transition ends it
        c, st, m, t, h, e, cur, mapped, to = c01.setup(p)
        noop = eq(c, st, to, m.noop)
        moves = And(mapped, Not(noop))
        tc = c.eqcls(st, to)
        should = And(moves, Or(to == m.end, ends(c, st, m, tc)))
        cov = set()
        for o in c01.process(c, st, t, e, m):
            s = o.st
            if o.kind != 'ret':
                continue
            z = see(c, s, m)
            p.oblige(c, s, 'it has ended exactly if the event ends it or the state entered ends or was never configured', (z[1] == 1) == should)
            p.oblige(c, s, 'the end state is current exactly if it has ended', (z[1] == 1) == (z[2] == m.end))
            for x in s.log:
                if isinstance(x, Entry) and x.label == ENTRY:
                    p.oblige(c, s, 'the entered state\'s hook runs before it ends', Implies(to != m.end, x.snap['ended'] == 0))
                    cov.add('entry')
            for k, b in (('ends', should), ('goes on', And(moves, Not(should))), ('not mapped', Not(moves)), ('unconfigured', And(moves, Not(Select(m.has, tc)), to != m.end))):
                if c.feasible(s, b):
                    cov.add(k)
        for k in ('ends', 'goes on', 'not mapped', 'entry', 'unconfigured'):
            p.cover(k, k in cov)
    p.unit('TransitionTask.execute: when it ends', execute)

    def start():
        c, st, m = c11.configured(p)
        st.assume(see(c, st, m)[0] == 0)
        c.throwing = ()
        havoc_others(c, m, m.obs + [listener_cell(c, None, m)])
        should = ends(c, st, m, c.eqcls(st, m.init))
        cov = set()
        for o in c.run_named(st, GSM, 'start', [m.ref], 0):
            s = o.st
            if o.kind != 'ret':
                continue
            z = see(c, s, m)
            p.oblige(c, s, 'it has ended exactly if the initial state ends immediately', (z[1] == 1) == should)
            p.oblige(c, s, 'the end state is current exactly if it has ended', (z[1] == 1) == (z[2] == m.end))
            p.oblige(c, s, 'it is started', z[0] == 1)
            for x in s.log:
                if isinstance(x, Entry) and x.label == ENTRY:
                    p.oblige(c, s, 'the initial state\'s hook runs before it ends', x.snap['ended'] == 0)
                    cov.add('entry')
            for k, b in (('ends', should), ('goes on', Not(should))):
                if c.feasible(s, b):
                    cov.add(k)
        for k in ('ends', 'goes on', 'entry'):
            p.cover(k, k in cov)
    p.unit('GenericStateMachine.start: when it ends', start)

    def resume():
        c, st, m = c11.configured(p)
        s0 = state_param(c, st, 'state', user=False)
        cov = 0
        for o in c.run_named(st, GSM, 'startInState', [m.ref, s0], 1):
            if o.kind == 'ret':
                z = see(c, o.st, m)
                p.oblige(c, o.st, 'resuming does not end the machine', And(z[1] == 0, z[2] == s0, z[0] == 1))
                cov += 1
        p.cover('returns', cov)
    p.unit('GenericStateMachine.startInState: when it ends', resume)

    def who():
        # the flags and the current state are written in the machine's own methods only
        c, st, m = live(p)
        obs = reads(c, st, m, ('isStarted', 'isEnded', 'getCurrentState'))
        fs = {k for k, _, _ in obs if k.startswith('F:')}
        holders = {c.fkey(GSM, f['name']) for f in p.prog.classes[GSM]['fields'] if not f['access'] & 8 and any(k == 'AB.val' and c.valid(st, c.rd(st, c.fkey(GSM, f['name']), m.ref) == o) for k, o, _ in obs)}
        out = []
        for cn, d in p.prog.classes.items():
            if p.prog.is_repo(cn) and cn != GSM:
                for me in d['methods']:
                    for x in me['ins']:
                        if x[0] in ('PUTFIELD', 'GETFIELD') and 'F:%s.%s' % (x[1].rsplit('/', 1)[-1], x[2]) in fs | holders:
                            out.append('%s.%s' % (cn, me['name']))
        p.oblige(c, st, 'only the machine\'s own methods touch them %s' % out[:5], not out)
        for me in p.prog.classes[GSM]['methods']:
            if me['access'] & 2 or me['desc'].endswith('V'):
                continue
            if parse_desc(me['desc'])[1].startswith('Ljava/util/concurrent/'):
                p.oblige(c, st, 'no method hands them out (%s)' % me['name'], BoolVal(False), precise=False)
    p.unit('who writes the flags and the current state', who)
    p.assume('the sections under the machine\'s lock count as one step also for readers that do not take the lock')
