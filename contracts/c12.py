"""C12: the actions of NamedState"""
from proof import *

COLL = ('Ljava/util/List;', 'Ljava/util/ArrayList;', 'Ljava/util/Collection;', 'Ljava/util/LinkedList;', 'Ljava/util/concurrent/CopyOnWriteArrayList;')


def lists(p):
    """(field of the entry actions, field of the exit actions): found by appending one action to a new state"""
    c, st = p.ctx()
    o = c.new_object(st, NS)
    st = one(c.run_named_desc(st, NS, '<init>', '(Ljava/lang/String;)V', [o, c.param('name', st, False)])).st
    fs = [f['name'] for f in p.prog.classes[NS]['fields'] if f['desc'] in COLL and not f['access'] & 8]
    res = []
    for m in ('appendEntryActions', 'appendExitActions'):
        s = st.copy()
        a = c.param('action', s)
        arr = c.alloc('[Ljava/lang/Object;', 'array')
        s.heap['A.arr'] = Store(c.arr(s, 'A.arr'), arr, Store(z3.K(Z, IntVal(0)), 0, a))
        c.wr(s, 'A.len', arr, 1)
        r = one(c.run_named(s, NS, m, [o, arr], 1)).st
        ch = [f for f in fs if num(simplify(c.rd(r, 'L.len', c.getf(r, o, NS, f)))) == 1]
        if len(ch) != 1:
            raise Unsupported('no single list receives the action of ' + m)
        res.append(ch[0])
    return res


def state(p):
    """a state with arbitrary action lists, without null actions"""
    fe, fx = lists(p)
    c, st = p.ctx()
    o = c.new_object(st, NS)
    st = one(c.run_named_desc(st, NS, '<init>', '(Ljava/lang/String;)V', [o, c.param('name', st, False)])).st
    le, lx = c.getf(st, o, NS, fe), c.getf(st, o, NS, fx)
    d = {}
    i = Int('i')
    for l, nm in ((le, 'entry'), (lx, 'exit')):
        n, a = Int(nm + 'Count'), z3.Const(nm + 'Actions', ARR)
        st.assume(And(n >= 0, n < 2 ** 20))
        st.assume(ForAll([i], Implies(And(i >= 0, i < n), Select(a, i) > 0), patterns=[Select(a, i)]))
        st.heap['L.arr'] = Store(c.arr(st, 'L.arr'), l, a)
        c.wr(st, 'L.len', l, n)
        d[nm] = (l, n, a)
    c.age(st, [('*', le), ('*', lx)])
    return c, st, o, d


def run(p):
    def ctor():
        fe, fx = lists(p)
        c, st = p.ctx()
        o = c.new_object(st, NS)
        for r in c.run_named_desc(st, NS, '<init>', '(Ljava/lang/String;)V', [o, c.param('name', st, False)]):
            p.match(c, r, [], 'constructor')
            if r.kind == 'ret':
                a, b = c.getf(r.st, o, NS, fe), c.getf(r.st, o, NS, fx)
                p.oblige(c, r.st, 'two separate lists, not shared with other states', And(a != b, a < 0, b < 0, a != 0))
                p.oblige(c, r.st, 'no actions yet', And(c.rd(r.st, 'L.len', a) == 0, c.rd(r.st, 'L.len', b) == 0))
    p.unit('NamedState.<init>', ctor)

    for enter in (True, False):
        def run_actions(enter=enter):
            c, st, o, d = state(p)
            ev, sm = c.param('event', st, False), c.param('machine', st, False)
            l, n, a = d['entry' if enter else 'exit']
            # actions do not append to the state that is executing them (stated assumption)
            c.nohavoc |= {'L.arr', 'L.len'}
            cov = set()
            for r in c.run_named(st, NS, 'onEntry' if enter else 'onExit', [o, ev, sm], 2):
                p.match(c, r, [FOR(0, n, lambda i: [E('StateAction.execute', Select(a, i), [ev, sm])])], 'actions')
                cov.add(r.kind)
                if r.kind == 'ret' and c.feasible(r.st, n > 3):
                    cov.add('many')
            for k in ('ret', 'exc', 'many'):
                p.cover(k, k in cov)
        p.unit('NamedState.' + ('onEntry' if enter else 'onExit'), run_actions)

        def append(enter=enter):
            c, st, o, d = state(p)
            l, n, a = d['entry' if enter else 'exit']
            ol, on, oa = d['exit' if enter else 'entry']
            arr, m = z3.Const('given', ARR), Int('givenCount')
            j = Int('i')
            st.assume(And(m >= 0, m < 2 ** 20))
            st.assume(ForAll([j], Implies(And(j >= 0, j < m), Select(arr, j) >= 0), patterns=[Select(arr, j)]))
            g = c.param('array', st)
            st.heap['A.arr'] = Store(c.arr(st, 'A.arr'), g, arr)
            c.wr(st, 'A.len', g, m)
            # what the list holds after k elements of the argument: C(0)=a, L(0)=n
            C, L = z3.Function('appended', Z, ARR), z3.Function('appendedLen', Z, Z)

            def step(k):
                e = Select(arr, k)
                return And(C(k + 1) == If(e != 0, Store(C(k), L(k), e), C(k)), L(k + 1) == If(e != 0, L(k) + 1, L(k)), L(k) >= n, L(k) <= n + k)
            st.assume(And(C(0) == a, L(0) == n))

            def cands(ctx, rule):
                def inv(s, loc):
                    k = rule._k
                    if num(k) is None:
                        # k or k'+1
                        b = k.arg(0) if z3.is_add(k) else k
                        s.assume(Implies(And(b >= 0, b < m), step(b)))
                    return And(k >= 0, k <= m, c.rd(s, 'L.arr', l) == C(k), c.rd(s, 'L.len', l) == L(k), L(k) >= n, L(k) <= n + k)
                inv.covers = {('h', 'L.arr', str(l)), ('h', 'L.len', str(l))}

                def new_ones(r):
                    # a list of its own: the ones that are to be appended
                    def inv2(s, loc):
                        k = rule._k
                        if num(k) is None:
                            b = k.arg(0) if z3.is_add(k) else k
                            s.assume(Implies(And(b >= 0, b < m), step(b)))
                        la, q = c.rd(s, 'L.arr', r), Int('q')
                        return And(k >= 0, k <= m, c.rd(s, 'L.len', r) == L(k) - n, L(k) >= n, L(k) <= n + k,
                                   ForAll([q], Implies(And(q >= 0, q < L(k) - n), Select(la, q) == Select(C(k), n + q)), patterns=[Select(la, q)]),
                                   ForAll([q], Implies(And(q >= 0, q < n), Select(C(k), q) == Select(a, q)), patterns=[Select(C(k), q)]))
                    inv2.covers = {('h', 'L.arr', str(r)), ('h', 'L.len', str(r))}
                    return inv2
                return [inv] + [new_ones(rule.terms[x]) for x in rule.mods if x[:2] == ('h', 'L.len') and x[2] != str(l)]
            c.loop_cands.append(cands)
            for r in c.run_named(st, NS, 'appendEntryActions' if enter else 'appendExitActions', [o, g], 1):
                p.match(c, r, [], 'append')
                if r.kind == 'ret':
                    # L(m) <= n+m etc. unfold at small sizes (needed for unrolled loops)
                    for i in range(8):
                        r.st.assume(Implies(i < m, step(IntVal(i))))
                    q = c.fresh('place')
                    p.oblige(c, r.st, 'the list holds what it held, then each non-null action in order', And(
                        c.rd(r.st, 'L.len', l) == L(m), Implies(And(q >= 0, q < L(m)), Select(c.rd(r.st, 'L.arr', l), q) == Select(C(m), q))))
                    p.oblige(c, r.st, 'the actions of the other kind stay', And(c.rd(r.st, 'L.arr', ol) == oa, c.rd(r.st, 'L.len', ol) == on))
            # lemmas on the recursive description (induction over k): old actions stay, no null gets in, each non-null one is in its place
            k, q = Ints('k q')
            s = State()
            s.pc = list(st.pc)
            p.oblige(c, s, 'lemma (base): old actions kept, none is null', ForAll([q], Implies(And(q >= 0, q < L(0)), And(Select(C(0), q) > 0, Implies(q < n, Select(C(0), q) == Select(a, q))))))
            s.assume(And(k >= 0, k < m, step(k)))
            s.assume(ForAll([q], Implies(And(q >= 0, q < L(k)), And(Select(C(k), q) > 0, Implies(q < n, Select(C(k), q) == Select(a, q)))), patterns=[Select(C(k), q)]))
            q2 = Int('q2')
            s.assume(And(q2 >= 0, q2 < L(k + 1)))
            p.oblige(c, s, 'lemma (step): old actions kept, none is null', And(Select(C(k + 1), q2) > 0, Implies(q2 < n, Select(C(k + 1), q2) == Select(a, q2))))
            p.oblige(c, s, 'lemma (step): the next non-null action goes behind all before it', Implies(Select(arr, k) != 0, And(L(k + 1) == L(k) + 1, Select(C(k + 1), L(k)) == Select(arr, k), Implies(q2 < L(k), Select(C(k + 1), q2) == Select(C(k), q2)))))
        p.unit('NamedState.' + ('appendEntryActions' if enter else 'appendExitActions'), append)
    p.assume('an action does not append actions to the state whose actions are just being executed')
