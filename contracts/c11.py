"""C11: a machine starts at most once, only when complete, entering its initial state"""
from machine import *
BEGIN, END_, ENTRY = 'StateMachineListener.onStateChangeBegin', 'StateMachineListener.onStateChangeEnd', 'State.onEntry'


def configured(p, listener=True, init=True):
    """a machine with an initial state (or none) after any further configuration and any history"""
    c, st, m = live(p, listener)
    m.init = None
    m.obs = reads(c, st, m, ('isStarted', 'isEnded', 'getCurrentState'))
    fixed = []
    if init:
        thr, c.throwing = c.throwing, ()
        m.init = state_param(c, st, 'initial')
        other, e = state_param(c, st, 'otherState'), event_param(c, st, 'anEvent')
        st.assume(c.eqcls(st, other) != c.eqcls(st, m.init))
        for nm, a in (('initialSate', [m.init]), ('receives', [e]), ('itDoesNotTransition', []), ('when', [other])):
            st = one(c.run_named(st, GSM, nm, [m.ref] + a, len(a))).st
        fixed = [(k, o, d) for k, o, d in m.cells if c.valid(st, c.rd(st, k, o) == m.init)]
        if len(fixed) != 1:
            raise Unsupported('the initial state is kept in %d places' % len(fixed))
        c.throwing = thr
        m.noconf = list(fixed)
    else:
        # a machine just built: nothing configured
        pass
    old = [(k, o, c.rd(st, k, o)) for k, o, _ in (fixed if init else [x for x in m.cells if (x[0], num(x[1])) not in {(k, num(o)) for k, o, _ in m.obs}])]
    shake(c, st, m)
    for k, o, v in old:
        c.wr(st, k, o, v)
    k, o, _ = listener_cell(c, st, m)
    if listener:
        c.wr(st, k, o, Int('listenerNow'))
        st.assume(Int('listenerNow') >= 0)
    m.listener0 = c.rd(st, k, o)
    if init:
        any_table(c, st, m)
        ic = c.eqcls(st, m.init)
        row(c, st, m, ic)
        st.assume(Select(m.has, ic))
        for x in (ic, c.eqcls(st, m.end)):
            target(c, st, m, x, c.eqcls(st, m.imm))
    else:
        st.heap['M.has'] = Store(c.arr(st, 'M.has'), m.table, z3.K(Z, BoolVal(False)))
    return c, st, m


def havoc_and_interfere(c, m):
    havoc_others(c, m, m.obs + [listener_cell(c, None, m)])
    inner = c.havoc_hook

    def h(ctx, s):
        inner(ctx, s)
        interfere(ctx, s, m)
    c.havoc_hook = h


def changes(s):
    return [x for x in s.ghost.get('steps', ())]


def same(a, b):
    return And(*[x == y for x, y in zip(a, b)])


def starts(c, s):
    """number of steps of this call that start the machine"""
    ch = changes(s)
    return z3.Sum([If(And(a[0] == 0, b[0] == 1), 1, 0) for a, b in ch]) if ch else IntVal(0)


def rejected(p, c, o):
    s = o.st
    p.oblige(c, s, 'a rejected start throws IllegalStateException', exc_class(o) == ISE)
    p.oblige(c, s, 'a rejected start calls nothing (%s)' % labels(c, s), not labels(c, s))
    p.oblige(c, s, 'a rejected start changes nothing', And(*[same(a, b) for a, b in changes(s)]) if changes(s) else BoolVal(True))


def run(p):
    def completeness():
        c, st, m = configured(p)
        st.assume(see(c, st, m)[0] == 0)
        c.throwing = ()
        havoc_others(c, m, m.obs + [listener_cell(c, None, m)])
        c.loop_cands.append(lambda ctx, rule: [seen_so_far(ctx, rule, m)])
        cov = set()
        for o in c.run_named(st, GSM, 'start', [m.ref], 0):
            s = o.st
            a, b = Ints('someState someEvent')
            if o.kind == 'exc':
                rejected(p, c, o)
                p.oblige(c, s, 'it is rejected only if a received event has no outcome', lacking(c, s, m))
                cov.add('rejected')
                continue
            inst = []
            for mp, arr, inv, cnt, has in s.ghost.get('enums', ()):
                for x in (a, b):
                    inst.append(Implies(Select(has, x), And(0 <= inv(x), inv(x) < cnt, Select(arr, inv(x)) == x)))
            p.oblige(c, s, 'it starts only if every received event has an outcome', complete(c, s, m, a, b), inst)
            cov.add('started')
        p.cover('started and rejected', len(cov) == 2)
    p.unit('GenericStateMachine.start: completeness', completeness)

    def start():
        c, st, m = configured(p)
        concurrent(c, st, m)
        havoc_and_interfere(c, m)
        cov = set()
        L = m.listener0
        for o in c.run_named(st, GSM, 'start', [m.ref], 0):
            s = o.st
            n = starts(c, s)
            mo = s.ghost['moments']
            if o.kind == 'exc' and not labels(c, s):
                rejected(p, c, o)
                cov.add('started already' if c.feasible(s, Or(*[x[0] == 1 for x in mo])) else 'incomplete')
                continue
            p.oblige(c, s, 'exactly one step starts the machine', n == 1)
            p.oblige(c, s, 'it starts in the initial state, not ended', And(*[Implies(And(a[0] == 0, b[0] == 1), And(b[1] == 0, b[2] == m.init)) for a, b in changes(s)]))
            p.oblige(c, s, 'not before it was started', Implies(n == 1, mo[0][0] == 0))

            def at(x):
                return [('from the placeholder state', c.cid(c.name_of(s, x.args[0])) == c.litid('_UNINITIALISED_')) if len(x.args) == 3 else ('the event is the reserved one', c.cid(c.name_of(s, x.args[0])) == c.litid(IMMEDIATE)),
                        ('the machine is started by then', x.snap['started'] == 1)]
            spec = [IFS(L != 0, [E(BEGIN, L, [None, m.imm, m.init], check=at)], []), E(ENTRY, m.init, [m.imm, m.ref], check=at),
                    IFS(L != 0, [E(END_, L, [None, m.imm, m.init], check=at)], [])]
            p.match(c, o, spec, 'start')
            cov.add((o.kind, len(labels(c, s))))
        for k in ('started already', ('ret', 3), ('ret', 1), ('exc', 1), ('exc', 2), ('exc', 3)):
            p.cover(k, k in cov)
    p.unit('GenericStateMachine.start', start)

    def start0():
        c, st, m = configured(p, init=False)
        concurrent(c, st, m)
        havoc_and_interfere(c, m)
        cov = 0
        for o in c.run_named(st, GSM, 'start', [m.ref], 0):
            if o.kind == 'ret':
                p.fail(c, o.st, 'start without an initial state', 'succeeds')
            else:
                rejected(p, c, o)
                cov += 1
        p.cover('rejected', cov)
    p.unit('GenericStateMachine.start without an initial state', start0)

    def resume():
        c, st, m = configured(p)
        s0 = c.param('state', st)
        c.note_type(s0, 'L%s;' % ST)
        concurrent(c, st, m)
        havoc_and_interfere(c, m)
        h, _ = row(c, st, m, c.eqcls(st, s0))
        reserved = Or(*[c.cid(c.name_of(st, s0)) == c.litid(x) for x in RESERVED])
        ok = And(h, Not(reserved))
        cov = set()
        for o in c.run_named(st, GSM, 'startInState', [m.ref, s0], 1):
            s = o.st
            if o.kind == 'exc':
                rejected(p, c, o)
                p.oblige(c, s, 'rejected only if started already or not a state the user configured', Or(Not(ok), *[x[0] == 1 for x in s.ghost['moments']]))
            else:
                p.match(c, o, [], 'startInState')
                p.oblige(c, s, 'exactly one step starts the machine', starts(c, s) == 1)
                p.oblige(c, s, 'it starts in the given state, not ended', And(*[Implies(And(a[0] == 0, b[0] == 1), And(b[1] == 0, b[2] == s0)) for a, b in changes(s)]))
                p.oblige(c, s, 'only a state the user configured', ok)
            cov.add(o.kind)
        p.cover('accepted and rejected', len(cov) == 2)
    p.unit('GenericStateMachine.startInState', resume)
    p.assume('the flags and the current state are only changed under the machine\'s lock or in one atomic step (checked for every method in C03): other threads interfere between such steps')


def seen_so_far(ctx, rule, m):
    """loop invariant: what was gone through so far has outcomes (of the table: every row; of a row: every event)"""
    own = []

    def inv(s, loc):
        k = rule._k
        en = s.ghost.get('enums', ())
        if not own:
            own.append(len(en) - 1)
        if own[0] < 0:
            return BoolVal(True)
        i, x = Ints('i x')
        mp, arr, pos, n, has = en[own[0]]
        if num(mp) == num(m.table):
            r = Select(m.val, Select(arr, i))
            t = Select(Select(ctx.arr(s, 'M.has'), r), x)
            return ForAll([i, x], Implies(And(i >= 0, i < k, t), Select(Select(ctx.arr(s, 'M.val'), r), x) != 0), patterns=[z3.MultiPattern(Select(arr, i), t)])
        return ForAll([i], Implies(And(i >= 0, i < k), Select(ctx.rd(s, 'M.val', mp), Select(arr, i)) != 0), patterns=[Select(arr, i)])
    return inv


def complete(c, s, m, a, b):
    r = Select(m.val, a)
    return Implies(And(Select(m.has, a), Select(Select(c.arr(s, 'M.has'), r), b)), Select(Select(c.arr(s, 'M.val'), r), b) != 0)


def lacking(c, s, m):
    """a pair of this path that has no outcome"""
    ks = [Select(arr, i) for mp, arr, inv, n, has in s.ghost.get('enums', ()) for i in positions(s, arr)]
    return Or(*[Not(complete(c, s, m, a, b)) for a in ks for b in ks]) if ks else BoolVal(False)


def positions(s, arr):
    """the indices at which this path read the enumeration"""
    r, seen, todo = {}, set(), list(s.pc)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_select(x) and x.arg(0).eq(arr):
            r[x.arg(1).get_id()] = x.arg(1)
        todo.extend(x.children())
    return list(r.values())
