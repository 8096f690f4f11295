"""C10: the configuration methods, each from every configuration state and with an arbitrary table

Configuration state: no initial state yet; clean (nothing marked); a state marked; a state and an event marked.  The states are
reached by running the methods themselves; the table is arbitrary in each.  Each method either throws IllegalStateException and
leaves everything as it was, or changes the table as specified and moves to the specified configuration state, in which the
machine's own cells are what they always are in that state: the contracts compose to every sequence of calls."""
from machine import *

TAKES_STATE = ('initialSate', 'when', 'itTransitionsTo')
METHODS = ('initialSate', 'when', 'receives', 'itEnds', 'itTransitionsTo', 'itDoesNotTransition')


class K:
    """c, st, m; s, e: the marked state and event; cells0: the cells when nothing is marked"""


def cellsof(c, st, m):
    return [(k, o, c.rd(st, k, o)) for k, o, _ in m.cells]


def run_cfg(c, st, m, name, args):
    return c.run_named(st, GSM, name, [m.ref] + args, len(args))


def distinct_from_own(c, st, m, *states):
    for s in states:
        for o in (m.end, m.noop, m.none):
            st.assume(c.eqcls(st, s) != c.eqcls(st, o))


def fresh_machine(p):
    c, st, m = live(p, listener=False)
    c.throwing = ()
    k = K()
    k.c, k.m, k.st = c, m, st
    k.cls = []
    m.has, m.val = c.rd(st, 'M.has', m.table), c.rd(st, 'M.val', m.table)
    x = Int('noState')
    p.oblige(c, st, 'a new machine has no states', Not(Select(m.has, x)))
    return k


def user_state(k, name, reserved=False):
    s = state_param(k.c, k.st, name, user=not reserved)
    if not reserved:
        distinct_from_own(k.c, k.st, k.m, s)
    return s


def user_event(k, name, reserved=False):
    e = event_param(k.c, k.st, name, user=not reserved)
    if not reserved:
        k.st.assume(k.c.eqcls(k.st, e) != k.c.eqcls(k.st, k.m.imm))
    return e


def configured(p, also=()):
    """nothing marked: an initial state was set, and any table results from what was configured so far"""
    k = fresh_machine(p)
    c, m = k.c, k.m
    k.init, e0, t0 = user_state(k, 'initial'), user_event(k, 'event0'), user_state(k, 'target0')
    st = k.st
    for nm, a in (('initialSate', [k.init]), ('receives', [e0]), ('itTransitionsTo', [t0])):
        st = one(run_cfg(c, st, m, nm, a)).st
    k.st = st
    k.clean = cellsof(c, st, m)
    arbitrary(k)
    rows(k, c.eqcls(st, k.init))
    st.assume(Select(m.has, c.eqcls(st, k.init)))
    return k


def arbitrary(k):
    any_table(k.c, k.st, k.m)
    # nothing about the rows' own contents either
    k.m.rh0, k.m.rv0 = k.c.arr(k.st, 'M.has'), k.c.arr(k.st, 'M.val')


def rows(k, *classes):
    """rows of different states are different maps"""
    c, st, m = k.c, k.st, k.m
    for x in classes:
        row(c, st, m, x)
        for y in k.cls:
            st.assume(Implies(And(Select(m.has, x), Select(m.has, y), x != y), Select(m.val, x) != Select(m.val, y)))
        k.cls.append(x)


def look(c, st, m, x, y):
    """(mapped, target) of classes x, y"""
    h, v = lookup(c, st, m.table, x, y)
    return And(h, v != 0), v


def has_row(c, st, m, x):
    return Select(c.rd(st, 'M.has', m.table), x)


def same_cells(c, s, cells):
    return And(*[c.rd(s, a, o) == v for a, o, v in cells])


def unchanged(k, s, x, y):
    """the table at x, y"""
    c, m = k.c, k.m
    a, va = look(c, k.st, m, x, y)
    b, vb = look(c, s, m, x, y)
    return And(a == b, Implies(a, va == vb), has_row(c, k.st, m, x) == has_row(c, s, m, x))


def rejected(p, k, o, x, y, why=None):
    s = o.st
    p.oblige(k.c, s, 'a rejected call throws IllegalStateException', exc_class(o) == ISE)
    p.oblige(k.c, s, 'a rejected call leaves the table as it was', unchanged(k, s, x, y))
    p.oblige(k.c, s, 'a rejected call leaves what is marked as it was', same_cells(k.c, s, cellsof(k.c, k.st, k.m)))
    p.oblige(k.c, s, 'a rejected call calls nothing', not labels(k.c, s))
    if why is not None:
        p.oblige(k.c, s, 'it is rejected for a reason', why)


def anywhere(k):
    """an arbitrary state and event class"""
    x, y = Ints('anyState anyEvent')
    rows(k, x)
    return x, y


def args_for(k, name, reserved=None):
    if name in TAKES_STATE:
        s = user_state(k, 'argState', reserved is not None)
        if reserved is not None:
            k.st.assume(k.c.cid(k.c.name_of(k.st, s)) == k.c.litid(reserved))
        return [s]
    if name == 'receives':
        e = user_event(k, 'argEvent', reserved is not None)
        if reserved is not None:
            k.st.assume(k.c.cid(k.c.name_of(k.st, e)) == k.c.litid(reserved))
        return [e]
    return []


def must_reject(p, k, name, args, tag):
    x, y = anywhere(k)
    cov = 0
    for o in run_cfg(k.c, k.st.copy(), k.m, name, args):
        if o.kind == 'ret':
            p.fail(k.c, o.st, tag, name + ' is accepted')
        else:
            rejected(p, k, o, x, y)
            cov += 1
    p.cover('%s: %s is rejected' % (tag, name), cov)


def marked(p, event=False):
    """configuration states with a state marked, and an event: one per path of the methods that mark them"""
    k = configured(p)
    s = user_state(k, 'marked')
    sc = k.c.eqcls(k.st, s)
    rows(k, sc)
    es = user_event(k, 'markedEvent') if event else None
    r = []
    for o in run_cfg(k.c, k.st, k.m, 'when', [s]):
        if o.kind != 'ret':
            continue
        for q in (run_cfg(k.c, o.st, k.m, 'receives', [es]) if event else [o]):
            if q.kind == 'ret':
                k2 = K()
                k2.__dict__.update(k.__dict__)
                k2.st, k2.s, k2.sc, k2.e, k2.before = q.st, s, sc, es, k.st
                k2.ec = k.c.eqcls(q.st, es) if event else None
                k2.cls = list(k.cls)
                r.append(k2)
    if not r:
        raise Unsupported('nothing can be marked')
    return r


def run(p):
    def start():
        k = fresh_machine(p)
        k.st.assume(BoolVal(True))
        c, m = k.c, k.m
        x, y = Ints('anyState anyEvent')
        for nm in METHODS:
            if nm != 'initialSate':
                must_reject(p, k, nm, args_for(k, nm), 'before the initial state is set')
        i = user_state(k, 'initial')
        cov = 0
        for o in run_cfg(c, k.st.copy(), m, 'initialSate', [i]):
            if o.kind != 'ret':
                p.fail(c, o.st, 'the first initial state', 'is rejected')
                continue
            cov += 1
            p.match(c, o, [], 'initialSate')
            p.oblige(c, o.st, 'nothing is mapped yet', Not(look(c, o.st, m, x, y)[0]))
            p.oblige(c, o.st, 'the initial state has a row', has_row(c, o.st, m, c.eqcls(o.st, i)))
            # it marks the initial state: as when() would
            for e2 in run_cfg(c, o.st.copy(), m, 'when', [i]):
                p.oblige(c, e2.st, 'the initial state is marked', e2.kind == 'exc' and exc_class(e2) == ISE)
            e, t = user_event(k, 'e'), user_state(k, 't')
            for z in k.st.pc:
                o.st.assume(z)
            z = one(run_cfg(c, o.st, m, 'receives', [e]))
            z = one(run_cfg(c, z.st, m, 'itTransitionsTo', [t]))
            h, v = look(c, z.st, m, c.eqcls(z.st, i), c.eqcls(z.st, e))
            p.oblige(c, z.st, 'an event of the initial state can be mapped next', And(h, v == t))
        p.cover('accepted', cov)
    p.unit('a machine without initial state', start)

    def reserved():
        for nm in ('initialSate', 'when', 'itTransitionsTo'):
            for r in RESERVED:
                k = fresh_machine(p)
                must_reject(p, k, nm, args_for(k, nm, r), 'a state named ' + r + ', before the initial state is set')
                k = configured(p)
                must_reject(p, k, nm, args_for(k, nm, r), 'a state named ' + r)
                for k in marked(p, True):
                    must_reject(p, k, nm, args_for(k, nm, r), 'a state named ' + r + ', with an event marked')
        k = fresh_machine(p)
        must_reject(p, k, 'receives', args_for(k, 'receives', IMMEDIATE), 'the reserved event, before the initial state is set')
        for ev in (False, True):
            for k in marked(p, ev):
                must_reject(p, k, 'receives', args_for(k, 'receives', IMMEDIATE), 'the reserved event')
    p.unit('reserved names', reserved)

    def clean():
        for nm in METHODS:
            if nm != 'when':
                k = configured(p)
                must_reject(p, k, nm, args_for(k, nm), 'nothing marked')
        k = configured(p)
        c, m = k.c, k.m
        p.oblige(c, k.st, 'the initial state is kept', BoolVal(any(v is not None and c.valid(k.st, v == k.init) for _, _, v in k.clean)))
        s = user_state(k, 'argState')
        sc = c.eqcls(k.st, s)
        rows(k, sc)
        x, y = anywhere(k)
        cov, cells1 = 0, None
        for o in run_cfg(c, k.st.copy(), m, 'when', [s]):
            if o.kind != 'ret':
                p.fail(c, o.st, 'when() with nothing marked', 'is rejected')
                continue
            cov += 1
            p.match(c, o, [], 'when')
            same_as_before(p, k, o.st, x, y, 'when')
            p.oblige(c, o.st, 'when: the state has a row', has_row(c, o.st, m, sc))
            p.oblige(c, o.st, 'when: no other state gets a row', Implies(x != sc, has_row(c, o.st, m, x) == has_row(c, k.st, m, x)))
            now = cellsof(c, o.st, m)
            cells1 = cells1 or now
            p.oblige(c, o.st, 'when: the machine\'s cells depend on the state only', same_cells(c, o.st, cells1))
        p.cover('when', cov)
    p.unit('nothing marked', clean)

    def one_marked():
        cov = set()
        for nm in ('initialSate', 'when', 'itTransitionsTo', 'itDoesNotTransition'):
            for k in marked(p):
                must_reject(p, k, nm, args_for(k, nm), 'a state marked')
        for k in marked(p):
            c, m = k.c, k.m
            x, y = anywhere(k)
            e = user_event(k, 'argEvent')
            ec = c.eqcls(k.st, e)
            for o in run_cfg(c, k.st.copy(), m, 'receives', [e]):
                if o.kind != 'ret':
                    p.fail(c, o.st, 'receives() with a state marked', 'is rejected')
                    continue
                cov.add('receives')
                p.match(c, o, [], 'receives')
                same_as_before(p, k, o.st, x, y, 'receives')
                p.oblige(c, o.st, 'receives: no row is made', has_row(c, o.st, m, x) == has_row(c, k.st, m, x))
            # ending at once
            imm = c.eqcls(k.st, m.imm)
            for o in run_cfg(c, k.st.copy(), m, 'itEnds', []):
                r = Select(c.rd(k.st, 'M.val', m.table), k.sc)
                rh, rv = Select(c.arr(k.st, 'M.has'), r), Select(c.arr(k.st, 'M.val'), r)
                if o.kind != 'ret':
                    rejected(p, k, o, x, y)
                    p.oblige(c, o.st, 'ending at once is rejected only in a state that receives something', Or(*[Select(rh, w) for w in keys(o.st, c, r)]))
                    cov.add('itEnds rejected')
                    continue
                cov.add('itEnds')
                p.match(c, o, [], 'itEnds')
                p.oblige(c, o.st, 'ending at once is accepted only in a state without mappings', Not(look(c, k.st, m, k.sc, y)[0]))
                mapped_to(p, k, o.st, x, y, k.sc, imm, m.end, 'itEnds')
        for z in ('receives', 'itEnds', 'itEnds rejected'):
            p.cover(z, z in cov)
    p.unit('a state marked', one_marked)

    def both_marked():
        cov = set()
        for nm in ('initialSate', 'when'):
            for k in marked(p, True):
                must_reject(p, k, nm, args_for(k, nm), 'a state and an event marked')
        for nm in ('itTransitionsTo', 'itDoesNotTransition', 'itEnds'):
            for k in marked(p, True):
                c, m = k.c, k.m
                x, y = anywhere(k)
                a = args_for(k, nm)
                to = a[0] if a else m.noop if nm == 'itDoesNotTransition' else m.end
                had, _ = look(c, k.st, m, k.sc, k.ec)
                was, _ = look(c, k.before, m, k.sc, k.ec)
                for o in run_cfg(c, k.st.copy(), m, nm, a):
                    if o.kind != 'ret':
                        rejected(p, k, o, x, y, why=was)
                        cov.add(nm + ' rejected')
                        continue
                    p.match(c, o, [], nm)
                    p.oblige(c, o.st, nm + ': a state and event that have a mapping get no second one', Not(was))
                    mapped_to(p, k, o.st, x, y, k.sc, k.ec, to, nm)
                    cov.add(nm)
            p.cover(nm, {nm, nm + ' rejected'} <= cov)
        # another event may be marked instead
        for k in marked(p, True):
            c, m = k.c, k.m
            x, y = anywhere(k)
            e = user_event(k, 'argEvent')
            cells2 = []
            for o in run_cfg(c, k.st.copy(), m, 'receives', [e]):
                if o.kind == 'ret':
                    same_as_before(p, k, o.st, x, y, 'receives again')
                    cells2.append(o.st)
                    cov.add('again')
                else:
                    p.fail(c, o.st, 'receives() with an event marked', 'is rejected')
            # ... and the outcome then is that event's
            for s2 in cells2:
                was, _ = look(c, k.before, m, k.sc, c.eqcls(s2, e))
                k3 = K()
                k3.__dict__.update(k.__dict__)
                k3.st = s2
                for o in run_cfg(c, s2.copy(), m, 'itDoesNotTransition', []):
                    if o.kind != 'ret':
                        rejected(p, k3, o, x, y, why=was)
                    else:
                        p.oblige(c, o.st, 'a second mapping', Not(was))
                        mapped_to(p, k3, o.st, x, y, k.sc, c.eqcls(s2, e), m.noop, 'after another event was marked')
        p.cover('marked again', 'again' in cov)
    p.unit('a state and an event marked', both_marked)
    p.assume('states and events are not null; no user state equals one of the three reserved states (they have other names), no user event the reserved one')
    p.assume('the machine is not configured by two threads at once, nor while it runs')


def keys(st, c, r):
    """keys of row r this path has come across"""
    got, seen, todo = {}, set(), list(st.pc)
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.sort() == z3.BoolSort() and not z3.is_array(x):
            got[x.arg(1).get_id()] = x.arg(1)
        todo.extend(x.children())
    return list(got.values()) or [IntVal(0)]


def same_as_before(p, k, s, x, y, what):
    c, m = k.c, k.m
    a, va = look(c, k.st, m, x, y)
    b, vb = look(c, s, m, x, y)
    p.oblige(c, s, what + ': every mapping stays as it was', And(a == b, Implies(a, va == vb)))


def mapped_to(p, k, s, x, y, sc, ec, to, what):
    c, m = k.c, k.m
    h, v = look(c, s, m, sc, ec)
    p.oblige(c, s, what + ': the mapping is made', And(h, v == to))
    a, va = look(c, k.st, m, x, y)
    b, vb = look(c, s, m, x, y)
    p.oblige(c, s, what + ': every other mapping stays as it was', Implies(Or(x != sc, y != ec), And(a == b, Implies(a, va == vb))))
    p.oblige(c, s, what + ': nothing is marked any more', same_cells(c, s, k.clean))
