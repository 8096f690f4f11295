"""C13: names, equality and payload of NamedState and NamedStateEvent"""
from proof import *


def make(p, c, st, cls, name):
    o = c.new_object(st, cls)
    return o, c.run_named_desc(st, cls, '<init>', '(Ljava/lang/String;)V', [o, name])


def sname(c, st, n):
    v = Int(n)
    st.assume(v >= 0)
    c.note_type(v, 'Ljava/lang/String;')
    return v


def observe_name(c, st, cls, ref):
    v = c.observe(st, cls, 'getName', ref)
    c.note_type(v, 'Ljava/lang/String;')
    return v


def run(p):
    for cls in (NS, NSE):
        short = cls.rsplit('/', 1)[-1]

        def eq():
            c, st = p.ctx()
            a, b = c.param('a', st), c.param('b', st, nonnull=False)
            st.assume(c.clsf(a) == c.clsid(cls))
            c.note_type(a, 'L%s;' % cls)
            kinds = set()
            for r in c.run_named(st, cls, 'equals', [a, b], 1):
                if r.kind != 'ret':
                    p.fail(c, r.st, 'equals', 'throws ' + thrown(c, r))
                    continue
                s = r.st
                na = observe_name(c, s, cls, a)
                # name of b when it is of this kind
                t = s.copy()
                t.assume(And(b != 0, c.clsf(b) == c.clsid(cls)))
                isb = c.feasible(t, BoolVal(True))
                nb = observe_name(c, t, cls, b) if isb else IntVal(0)
                for x in (na, nb):
                    s.assume(x >= 0)
                    s.assume(Implies(x != 0, c.cid(x) > 0))
                want = And(b != 0, c.clsf(b) == c.clsid(cls), c.cid(na) == c.cid(nb))
                p.oblige(c, s, 'equal exactly when of the same kind with equal names', (r.val == 1) == Or(a == b, want))
                p.oblige(c, s, 'result is a boolean', Or(r.val == 0, r.val == 1))
                p.match(c, r, [], 'equals has no effect')
                for k, cond in (('equal', And(r.val == 1, a != b)), ('not equal', r.val == 0), ('null', b == 0), ('other kind', And(b != 0, c.clsf(b) != c.clsid(cls)))):
                    if c.feasible(s, cond):
                        kinds.add(k)
            for k in ('equal', 'not equal', 'null', 'other kind'):
                p.cover(k, k in kinds)
        p.unit(short + '.equals', eq)

        def hash_():
            c, st = p.ctx()
            a, b = c.param('a', st), c.param('b', st)
            for x in (a, b):
                c.note_type(x, 'L%s;' % cls)
                st.assume(c.clsf(x) == c.clsid(cls))
            na, nb = observe_name(c, st, cls, a), observe_name(c, st, cls, b)
            st.assume(c.cid(na) == c.cid(nb))
            st.assume(And(na >= 0, nb >= 0))
            for x in (na, nb):
                st.assume(Implies(x != 0, c.cid(x) > 0))
            cov = False
            for r in c.run_named(st, cls, 'hashCode', [a], 0):
                if r.kind != 'ret':
                    p.fail(c, r.st, 'hashCode', 'throws ' + thrown(c, r))
                    continue
                for q in c.run_named(r.st, cls, 'hashCode', [b], 0):
                    if q.kind != 'ret':
                        p.fail(c, q.st, 'hashCode', 'throws ' + thrown(c, q))
                        continue
                    p.oblige(c, q.st, 'equal names, equal hash codes', r.val == q.val)
                    p.match(c, q, [], 'hashCode has no effect')
                    cov = cov or c.feasible(q.st, a != b)
            p.cover('two objects', cov)
        p.unit(short + '.hashCode', hash_)

        def ctor():
            c, st = p.ctx()
            n = sname(c, st, 'name')
            o, outs = make(p, c, st, cls, n)
            for r in outs:
                p.match(c, r, [], 'constructor')
                if r.kind == 'ret':
                    p.oblige(c, r.st, 'it has the given name', observe_name(c, r.st, cls, o) == n)
                    if cls == NSE:
                        p.oblige(c, r.st, 'it has no payload', c.observe(r.st, cls, 'getPayload', o) == 0)
        p.unit(short + '.<init>', ctor)

    def setp():
        c, st = p.ctx()
        a, b, v = c.param('a', st), c.param('b', st), c.param('v', st, nonnull=False)
        for x in (a, b):
            c.note_type(x, 'L%s;' % NSE)
            st.assume(c.clsf(x) == c.clsid(NSE))
        st.assume(a != b)
        na, nb, pb = observe_name(c, st, NSE, a), observe_name(c, st, NSE, b), c.observe(st, NSE, 'getPayload', b)
        for r in c.run_named(st, NSE, 'setPayload', [a, v], 1):
            p.match(c, r, [], 'setPayload')
            if r.kind == 'ret':
                p.oblige(c, r.st, 'the payload is the given one', c.observe(r.st, NSE, 'getPayload', a) == v)
                p.oblige(c, r.st, 'the name stays', observe_name(c, r.st, NSE, a) == na)
                p.oblige(c, r.st, 'other events stay', And(observe_name(c, r.st, NSE, b) == nb, c.observe(r.st, NSE, 'getPayload', b) == pb))
    p.unit('NamedStateEvent.setPayload', setp)

    for custom in (False, True):
        def copy(custom=custom):
            c, st = p.ctx()
            a = c.param('source', st)
            o = c.new_object(st, NSE)
            if custom:
                c.note_type(a, 'L%s;' % (API + 'StateEvent'))
                na, pa = c.name_of(st, a), c.rd(st, 'PL.val', a)
            else:
                # an event of the named kind: made by its constructor, then given any payload
                n = sname(c, st, 'name')
                a, outs = make(p, c, st, NSE, n)
                st = one(outs).st
                v = c.param('payload', st, nonnull=False)
                st = one(c.run_named(st, NSE, 'setPayload', [a, v], 1)).st
                na, pa = n, v
            outs = c.run_named_desc(st, NSE, '<init>', '(L%sStateEvent;)V' % API, [o, a])
            for r in outs:
                p.match(c, r, [], 'copy')
                if r.kind == 'ret':
                    p.oblige(c, r.st, 'name and payload preserved', And(observe_name(c, r.st, NSE, o) == na, c.observe(r.st, NSE, 'getPayload', o) == pa))
                    if not custom:
                        p.oblige(c, r.st, 'the source stays', And(observe_name(c, r.st, NSE, a) == na, c.observe(r.st, NSE, 'getPayload', a) == pa))
                        w = c.param('later', r.st, nonnull=False)
                        q = one(c.run_named(r.st.copy(), NSE, 'setPayload', [a, w], 1))
                        p.oblige(c, q.st, 'a later payload of the source does not reach the copy', c.observe(q.st, NSE, 'getPayload', o) == pa)
        p.unit('NamedStateEvent.<init>(StateEvent), %s source' % ('foreign' if custom else 'named'), copy)

    # the name never changes: every public method leaves getName as it was
    for cls in (NS, NSE):
        for m in p.prog.classes[cls]['methods']:
            if m['name'].startswith('<') or m['access'] & 0x1000 or m['access'] & 8 or not m['access'] & 1 or m['name'] in ('equals', 'hashCode'):
                continue

            def keep(m=m, cls=cls):
                c, st = p.ctx()
                n = sname(c, st, 'name')
                o, outs = make(p, c, st, cls, n)
                st = one(outs).st
                ad, _ = parse_desc(m['desc'])
                args = []
                for i, d in enumerate(ad):
                    if d[0] == '[':
                        args.append(c.param('arr%d' % i, st))
                    else:
                        args.append(c.fresh_of(st, d, 'arg'))
                for r in c.run(st, cls, m['name'], m['desc'], [o] + args):
                    p.oblige(c, r.st, 'the name is the given one', observe_name(c, r.st, cls, o) == n)
            p.unit('%s.%s keeps the name' % (cls.rsplit('/', 1)[-1], m['name']), keep, 30)
