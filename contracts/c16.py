"""C16: MultiConsumerStateMachineListener"""
from proof import *
CLS = P + 'MultiConsumerStateMachineListener'
LST = API + 'StateMachineListener'
B2I = z3.BoolSort()


def build(p):
    """(ctx, state, the listener, its registry) after the constructor with no listeners"""
    c, st = p.ctx()
    o = c.new_object(st, CLS)
    arr = c.alloc('[L%s;' % LST, 'array')
    st.heap['A.arr'] = Store(c.arr(st, 'A.arr'), arr, z3.K(Z, IntVal(0)))
    c.wr(st, 'A.len', arr, 0)
    st = one(c.run_named(st, CLS, '<init>', [o, arr], 1)).st
    ms = []
    for f in p.prog.classes[CLS]['fields']:
        if f['access'] & 8 or f['desc'][0] != 'L':
            continue
        v = c.getf(st, o, CLS, f['name'])
        if num(v) in c.info and c.info[num(v)].kind in ('map', 'set'):
            ms.append(v)
    if len(ms) != 1:
        raise Unsupported('%d maps or sets in the listener' % len(ms))
    c.age(st, [('*', ms[0])])
    return c, st, o, ms[0]


def shake(c, st, m, what='M'):
    """any registrations that other threads may have made: values and keys belong to their equality class"""
    for n in ('M.has', 'M.val', 'M.key'):
        st.heap[n] = Store(c.arr(st, n), m, c.fresh(n, SORT[n]))


SORT = {'M.has': z3.ArraySort(Z, z3.BoolSort()), 'M.val': ARR, 'M.key': ARR}


def good(c, st, m, e, own=None):
    """registry invariant at class e (used at each access; established by every own write)"""
    v, k = Select(c.rd(st, 'M.val', m), e), Select(c.rd(st, 'M.key', m), e)
    isset = c.info[num(m)].kind == 'set'
    real = (lambda x: x > 0) if own is None else (lambda x: Or(x > 0, x == own))
    g = And(real(k), c.eqvf(k) == e)
    return g if isset else And(g, real(v), c.eqvf(v) == e)


def run(p):
    for add, own in ((True, False), (False, False), (True, True), (False, True)):
        def change(add=add, own=own):
            c, st, o, m = build(p)
            l = o if own else c.param('listener', st)
            e = c.eqcls(st, l)
            st.assume(c.eqvf(l) == e)
            i = c.info[num(m)]
            safe = 'Concurrent' in i.cls or 'CopyOnWrite' in i.cls or i.data.get('sync')
            shake(c, st, m)
            st.assume(Implies(Select(c.rd(st, 'M.has', m), e), good(c, st, m, e, o)))

            def hook(ctx, s, kind, ref, key, *a):
                if kind in ('lock', 'unlock'):
                    if not s.locks or kind == 'lock' and len(s.locks) == 1:
                        # while the lock is held nobody else (who takes it too) gets in
                        shake(ctx, s, m)
                        s.assume(Implies(Select(ctx.rd(s, 'M.has', m), e), good(ctx, s, m, e, o)))
                    return
                if key != 'M' or num(ref) != num(m):
                    return
                if kind in ('get', 'rmw'):
                    if not s.locks:
                        if not safe:
                            s.ghost['unsafe'] = True
                        shake(ctx, s, m)
                        s.assume(Implies(Select(ctx.rd(s, 'M.has', m), e), good(ctx, s, m, e, o)))
                    s.ghost['saw'] = s.ghost.get('saw', ()) + (Select(ctx.rd(s, 'M.has', m), e),)
                elif kind == 'wrote':
                    s.ghost['writes'] = s.ghost.get('writes', ()) + (a,)
                    s.ghost['inv'] = s.ghost.get('inv', ()) + (Implies(Select(ctx.rd(s, 'M.has', m), e), good(ctx, s, m, e, o)),)
            c.access_hook = hook
            c.map_steps = True
            cov = set()
            for r in c.run_named(st, CLS, 'add' if add else 'remove', [o, l], 1):
                if r.kind != 'ret':
                    p.fail(c, r.st, 'call', 'throws ' + thrown(c, r))
                    continue
                s = r.st
                p.match(c, r, [], 'no listener is called')
                p.oblige(c, s, 'the registry tolerates several threads', not s.ghost.get('unsafe'))
                w = s.ghost.get('writes', ())
                saw = s.ghost.get('saw', ())
                changed = [And(x[0] != x[1], x[1] == BoolVal(add), x[2] == e) for x in w]
                other = [Or(x[2] != e, And(x[0] != x[1], x[1] != BoolVal(add))) for x in w]
                n = z3.Sum([If(x, 1, 0) for x in changed]) if changed else IntVal(0)
                p.oblige(c, s, 'true exactly when this call made the change', And(n <= 1, (r.val == 1) == (n == 1), Or(r.val == 0, r.val == 1)))
                p.oblige(c, s, 'nothing else is changed', Not(Or(*other)) if other else BoolVal(True))
                was = [x if add else Not(x) for x in saw]
                p.oblige(c, s, 'false only when it was %s at some moment of the call' % ('registered' if add else 'not registered'), Implies(r.val == 0, Or(*was) if was else BoolVal(False)))
                p.oblige(c, s, 'what is registered is the listener that was given', And(*s.ghost.get('inv', ())) if s.ghost.get('inv') else BoolVal(True))
                for k in (0, 1):
                    if c.feasible(s, r.val == k):
                        cov.add(k)
            for k in (0, 1):
                p.cover('returns %d' % k, k in cov)
        p.unit('MultiConsumerStateMachineListener.%s%s' % ('add' if add else 'remove', ' of itself' if own else ''), change)

    for begin in (True, False):
        def notify(begin=begin):
            c, st, o, m = build(p)
            shake(c, st, m)
            c.nohavoc |= {'M.has', 'M.val', 'M.key'}
            has = c.rd(st, 'M.has', m)

            def key_axiom(c, s, mp, key, e):
                s.assume(good(c, s, m, e))
            c.key_axiom = key_axiom
            args = [c.param(n, st, False) for n in ('from', 'event', 'to')]
            lab = 'StateMachineListener.' + ('onStateChangeBegin' if begin else 'onStateChangeEnd')
            cov = set()
            for r in c.run_named(st, CLS, 'onStateChangeBegin' if begin else 'onStateChangeEnd', [o] + args, 3):
                s = r.st
                en = s.ghost.get('enums', ())
                if len(en) != 1:
                    raise Unsupported('%d passes over the registry' % len(en))
                _, arr, inv, n, h = en[0]
                p.oblige(c, s, 'goes over the registry', And(en[0][0] == m, h == has))

                def body(i):
                    return [E(lab, None, args, check=lambda e: [('it is the i-th registered one', c.eqvf(e.recv) == Select(arr, i))])]
                p.match(c, r, [FOR(0, n, body)], 'notification')
                cov.add(r.kind)
                if r.kind == 'ret' and c.feasible(s, n > 3):
                    cov.add('many')
            for k in ('ret', 'exc', 'many'):
                p.cover(k, k in cov)
        p.unit('MultiConsumerStateMachineListener.' + ('onStateChangeBegin' if begin else 'onStateChangeEnd'), notify)

    def ctor():
        c0, s0, o0, m0 = build(p)
        kind = c0.info[num(m0)].kind
        c, st = p.ctx()
        o = c.new_object(st, CLS)
        arr, n = z3.Const('given', ARR), Int('givenCount')
        i = Int('i')
        st.assume(And(n >= 0, n < 2 ** 20))
        st.assume(ForAll([i], Implies(And(i >= 0, i < n), Select(arr, i) >= 0), patterns=[Select(arr, i)]))
        g = c.param('array', st)
        st.heap['A.arr'] = Store(c.arr(st, 'A.arr'), g, arr)
        c.wr(st, 'A.len', g, n)
        B = z3.ArraySort(Z, z3.BoolSort())
        H, V, K = z3.Function('reg', Z, B), z3.Function('regVal', Z, ARR), z3.Function('regKey', Z, ARR)

        def step(k):
            x = Select(arr, k)
            e = c.eqvf(x)
            new = And(x != 0, Not(Select(H(k), e)))
            # and the lemma below: what is registered is not null
            return And(H(k + 1) == If(new, Store(H(k), e, BoolVal(True)), H(k)),
                       V(k + 1) == If(new, Store(V(k), e, x if kind == 'map' else IntVal(1)), V(k)), K(k + 1) == If(new, Store(K(k), e, x), K(k)))

        def lemma(k, e):
            return Implies(Select(H(k), e), And(Select(V(k), e) > 0, Select(K(k), e) > 0, c.eqvf(Select(K(k), e)) == e, c.eqvf(Select(V(k), e)) == e if kind == 'map' else BoolVal(True)))

        def cands(ctx, rule):
            regs = {x for x in range(1, ctx.nalloc + 1) if ctx.info.get(-x) is not None and ctx.info[-x].kind == kind}
            ms = [x for x in regs if any(num(v) == -x for v in [ctx.getf(rule.st, o, CLS, f['name']) for f in p.prog.classes[CLS]['fields'] if not f['access'] & 8 and f['desc'][0] == 'L'])]
            if len(ms) != 1:
                return []
            m = IntVal(-ms[0])
            rd = lambda s, nm: Select(ctx.arr(s, nm), m)

            def inv(s, loc):
                k = rule._k
                if num(k) == 0:
                    # definition of the start
                    s.assume(And(H(0) == z3.K(Z, BoolVal(False)), V(0) == rd(s, 'M.val'), K(0) == rd(s, 'M.key')))
                else:
                    b = k.arg(0) if z3.is_add(k) else k
                    s.assume(Implies(And(b >= 0, b < n), And(step(b), lemma(b, c.eqvf(Select(arr, b))), Implies(Select(arr, b) != 0, c.eqvf(Select(arr, b)) > 0))))
                return And(k >= 0, k <= n, rd(s, 'M.has') == H(k), rd(s, 'M.val') == V(k), rd(s, 'M.key') == K(k))
            inv.covers = {('h', x, str(m)) for x in ('M.has', 'M.val', 'M.key')} | {('H', x) for x in ('M.has', 'M.val', 'M.key')}
            return [inv]
        c.loop_cands.append(cands)
        q = Int('q')
        for r in c.run_named(st, CLS, '<init>', [o, g], 1):
            p.match(c, r, [], 'constructor')
            if r.kind != 'ret':
                continue
            s = r.st
            ms = [v for v in [c.getf(s, o, CLS, f['name']) for f in p.prog.classes[CLS]['fields'] if not f['access'] & 8 and f['desc'][0] == 'L'] if num(v) in c.info and c.info[num(v)].kind == kind]
            m = ms[0]
            s.assume(H(0) == z3.K(Z, BoolVal(False)))
            for i in range(8):
                s.assume(Implies(i < n, And(step(IntVal(i)), lemma(IntVal(i), c.eqvf(Select(arr, i))))))
            p.oblige(c, s, 'exactly the non-null ones are registered', c.rd(s, 'M.has', m) == H(n))
        # lemmas over the description
        k, e, j = Ints('k e j')
        s = State()
        s.assume(H(0) == z3.K(Z, BoolVal(False)))
        p.oblige(c, s, 'lemma (base): the registry invariant', lemma(IntVal(0), e))
        s = State()
        s.assume(And(k >= 0, k < n, step(k), lemma(k, e), Select(arr, k) >= 0))
        p.oblige(c, s, 'lemma (step): the registry invariant', lemma(k + 1, e))
        p.oblige(c, s, 'lemma (step): registered stays registered, the next non-null one is, nothing else', And(
            Select(H(k + 1), e) == Or(Select(H(k), e), And(Select(arr, k) != 0, e == c.eqvf(Select(arr, k))))))
    p.unit('MultiConsumerStateMachineListener.<init>', ctor)
    p.assume('listeners\' equals/hashCode are consistent; ConcurrentHashMap operations are atomic; iteration over it visits each entry present throughout exactly once')
