"""C14: separately built machines do not influence each other"""
from built import *
from machine import build, used
from c21 import SET, settings, used_machine, ENTRY
EXIT = 'State.onExit'


def ways():
    """how two machines come about: name, f(p, c, st) -> [(state, machine, machine)]"""
    def strategies(first, second, which, config_too):
        def f(p, c, st):
            v = settings(c, st, which)
            g = None
            if config_too:
                st, g = config(c, st, {SET[k][0]: v[k] for k in which})
            for a in create(p, c, st, first, g):
                if g is not None:
                    used(c, a.st, g, CFG)
                for b in create(p, c, a.st, second, g):
                    for x in build(c, b.st, a.val, None, None):
                        for y in build(c, x.st, b.val, None, None):
                            yield y.st, x.val, y.val
        return f

    def builders(reused, which=()):
        def f(p, c, st):
            b = [c.new_object(st, BLD) for _ in range(1 if reused else 2)]
            for x in b:
                st = one(c.run_named(st, BLD, '<init>', [x], 0)).st
            for nm in which:
                v = c.param(nm, st)
                for x in b:
                    st = one(c.run_named(st, BLD, nm, [x, v], 1)).st
            if reused:
                used(c, st, b[0], BLD)
            for x in c.run_named(st, BLD, 'build', [b[0]], 0):
                for y in c.run_named(x.st, BLD, 'build', [b[-1]], 0):
                    yield y.st, x.val, y.val
        return f

    def rebuilt(p, c, st):
        # one builder that is given another strategy between
        b = c.new_object(st, BLD)
        st = one(c.run_named(st, BLD, '<init>', [b], 0)).st
        for s1 in create(p, c, st, 'createDefaultStrategy'):
            z = one(c.run_named(s1.st, BLD, 'setEventProcessingStrategy', [b, s1.val], 1)).st
            for x in c.run_named(z, BLD, 'build', [b], 0):
                for s2 in create(p, c, x.st, 'createDropDuplicateStrategy'):
                    z = one(c.run_named(s2.st, BLD, 'setEventProcessingStrategy', [b, s2.val], 1)).st
                    for y in c.run_named(z, BLD, 'build', [b], 0):
                        yield y.st, x.val, y.val
    D, U = 'createDefaultStrategy', 'createDropDuplicateStrategy'
    rest = ('executor', 'handler', 'ufl', 'max', 'threadName')
    return [('two builders, default strategy', builders(False)), ('one builder used twice, default strategy', builders(True)),
            ('one builder with context used twice', builders(True, ('setContext',))), ('one builder, another strategy', rebuilt),
            ('%s() twice' % D, strategies(D, D, (), False)), ('%s() twice' % U, strategies(U, U, (), False)), ('%s(), %s()' % (D, U), strategies(D, U, (), False)),
            ('one new configuration, %s twice' % D, strategies(D, D, (), True)), ('one new configuration, %s twice' % U, strategies(U, U, (), True)),
            ('one new configuration, %s, %s' % (U, D), strategies(U, D, (), True)),
            ('one configuration with all but a queue, %s twice' % D, strategies(D, D, rest, True)), ('one configuration with all but a queue, %s twice' % U, strategies(U, U, rest, True))]


def size(c, st, m):
    return [(o.st, o.val) for o in c.run_named(st.copy(), GSM, 'getEventQueueSize', [m], 0)]


class Two:
    pass


def shared_nothing(p, c, st, m1, m2):
    t = Two()
    t.q = [the_queue(c, st, lambda x, m=m: c.run_named(x, GSM, 'getEventQueueSize', [m], 0))[0] for m in (m1, m2)]
    p.oblige(c, st, 'two event queues', t.q[0] != t.q[1])
    p.oblige(c, st, 'made by the library, and empty', And(*[And(BoolVal(num(q) in c.info), c.rd(st, 'Q.head', q) == c.rd(st, 'Q.tail', q)) for q in t.q]))
    t.cells = []
    for m in (m1, m2):
        own = M()
        own.ref = m
        own.cells = cells(c, st, own)
        t.cells.append({(k, num(o)): (k, o) for k, o, _ in reads(c, st, own, ('isStarted', 'isEnded', 'getCurrentState'))})
    p.oblige(c, st, 'flags and current state of each its own', not set(t.cells[0]) & set(t.cells[1]))
    return t


def reach(c, st, ref):
    """the objects of the library that changes of, or calls on, this one may use: {number: reference}"""
    r, todo = {}, [ref]
    while todo:
        o = todo.pop()
        n = num(o)
        if n in r or n not in c.info:
            continue
        i = c.info[n]
        r[n] = o
        if i.kind is None and c.prog.is_repo(i.cls):
            for k in c.prog.supers(i.cls):
                for f in (c.prog.classes.get(k) or {'fields': ()})['fields']:
                    if not f['access'] & 8 and f['desc'][0] in 'L[':
                        todo.append(c.rd(st, c.fkey(k, f['name']), o))
        elif i.kind == 'atomic':
            todo.append(c.rd(st, 'AB.val', o))
        elif i.kind == 'lambda':
            todo += [getattr(x, 'v', x) for x in i.data['cap']]
    return r


def changeable(c, n):
    i = c.info[n]
    if i.kind is None:
        return c.prog.is_repo(i.cls) and any(not f['access'] & 8 and c.fkey(k, f['name']) not in c.prog.constant_fields()
                                             for k in c.prog.supers(i.cls) for f in (c.prog.classes.get(k) or {'fields': ()})['fields'])
    return i.kind in c.AGES and not i.data.get('immut')


def separate(p, c, st, m1, m2):
    """all that can change is of each its own, but for what was made for carriers: those are proved to be overwritten (carriers())"""
    a, b = reach(c, st, m1), reach(c, st, m2)
    for n in sorted(set(a) & set(b)):
        if changeable(c, n):
            pool = c.info[n].kind == 'queue' and any(c.info[x].cls == POOL and any(num(c.rd(st, c.fkey(POOL, f['name']), a[x])) == n
                                                     for f in c.prog.classes[POOL]['fields'] if not f['access'] & 8) for x in a if c.info[x].kind is None)
            p.oblige(c, st, 'nothing that can change is shared: %s' % c.info[n].cls, pool, precise=False)
    p.cover('objects of each its own', len(set(a) - set(b)) > 3)


POOL = STR + 'EventMachinePairPool'


def carriers(p):
    """a carrier that was used before, for any machine, carries what it is given now"""
    for drop in (False, True):
        def unit(drop=drop):
            c, st, s = setup(p, drop)
            e, pl = an_event(c, st)
            m = a_machine(c, st)
            if drop:
                import c08
                c08.scan_axioms(c, s)
            cov = 0
            for o in fire(c, st, s, e, m):
                for s2, x in entries(c, o.st):
                    if x.label == QUEUED:
                        p.oblige(c, s2, 'an event waits with the machine it was fired on', And(x.args[2] == m, x.args[3]))
                        cov += 1
            p.cover('queued', cov)
        p.unit('%s.processEvent with used carriers' % ('DropDuplicateEventStrategy' if drop else 'DefaultEventStrategy'), unit)


def run(p):
    carriers(p)
    p.age_statics = False
    for tag, way in ways():
        def unit(way=way):
            c, st = p.ctx()
            c.throwing = ()
            n = 0
            for st, m1, m2 in way(p, c, st):
                n += 1
                p.oblige(c, st, 'two machines', m1 != m2)
                st.log = []
                # what the class initialisers made may have been used by others
                c.age(st, only=c.statics)
                t = shared_nothing(p, c, st, m1, m2)
                separate(p, c, st, m1, m2)
                side_by_side(p, c, st, m1, m2)
            p.cover('built', n)
        p.unit(tag, unit)
    frame(p)
    p.assume('user callbacks do not pass on to the other machine what happens on the one')
    p.assume('sharing an executor or loggers is no influence')


def calls(st):
    return [x for x in st.log if isinstance(x, Entry) and x.label in (ENTRY, EXIT)]


def side_by_side(p, c, st, m1, m2):
    """the same initial state and event, mapped to different targets; both running; each fired once"""
    c.havoc_hook = lambda ctx, z: None
    a, b1, b2, k = [state_param(c, st, x) for x in ('first', 'second', 'third', 'fourth')]
    e = event_param(c, st, 'mapped')
    st.assume(payload_of(c, st, e) == 0)
    for m in (m1, m2):
        own = M()
        own.ref = m
        rs = [c.observe(st, GSM, 'getEndState', m), c.observe(st, GSM, 'getNoopState', m), the_none(c, st, own)]
        st.assume(z3.Distinct(*[c.eqcls(st, x) for x in [a, b1, b2, k]]))
        for x in (a, b1, b2, k):
            for r in rs:
                st.assume(c.eqcls(st, x) != c.eqcls(st, r))
        st.assume(c.eqcls(st, e) != c.eqcls(st, c.observe(st, GSM, 'getImmediateEvent', m)))
    # the configuring of the two is interleaved
    for nm, x in (('initialSate', lambda b: [a]), ('receives', lambda b: [e]), ('itTransitionsTo', lambda b: [b]), ('when', lambda b: [b]), ('receives', lambda b: [e]), ('itTransitionsTo', lambda b: [a]),
                  ('when', lambda b: [k]), ('receives', lambda b: [e]), ('itTransitionsTo', lambda b: [a])):
        for m, b in ((m1, b1), (m2, b2)):
            outs = [o for o in c.run_named(st, GSM, nm, [m] + x(b), 1 if x(b) else 0)]
            if any(o.kind != 'ret' and c.feasible(o.st) for o in outs):
                p.fail(c, [o for o in outs if o.kind != 'ret'][0].st, 'configuring one after the other', nm + ' is rejected')
            st = one(outs).st
    obs = lambda s, m: [c.observe(s, GSM, x, m) for x in ('isStarted', 'isEnded', 'getCurrentState')]
    same = lambda s, m, old: And(*[x == y for x, y in zip(obs(s, m), old)])
    old2 = obs(st, m2)
    st = one(c.run_named(st, GSM, 'startInState', [m1, a], 1)).st
    p.oblige(c, st, 'starting one does not start the other', same(st, m2, old2))
    st = one(c.run_named(st, GSM, 'startInState', [m2, a], 1)).st
    st.log = []
    n = 0
    for o1 in c.run_named(st, GSM, 'fire', [m1, e], 1):
        for o2 in c.run_named(o1.st, GSM, 'fire', [m2, e], 1):
            s = o2.st
            for m, nm in ((m1, 'one'), (m2, 'the other')):
                for z, v in size(c, s, m):
                    p.oblige(c, z, 'the event fired on %s is counted for it only, and not taken for a duplicate' % nm, v == 1)
            jobs = [x.args[0] for x in s.log if isinstance(x, Entry) and x.label == SCHEDULE]
            p.oblige(c, s, 'each is to be processed', len(jobs) == 2)
            if len(jobs) != 2:
                continue
            for first, second in ((0, 1), (1, 0)):
                s1 = s.copy()
                s1.log = []
                ms, bs = (m1, m2), (b1, b2)
                w = obs(s1, ms[second])
                for q in c.invoke(s1, run_call(jobs[first])):
                    if q.kind != 'ret':
                        p.fail(c, q.st, 'processing', thrown(c, q))
                        continue
                    p.oblige(c, q.st, 'the other machine stays as it is', same(q.st, ms[second], w))
                    p.match(c, q, [E(EXIT, a, [e, ms[first]]), E(ENTRY, bs[first], [e, ms[first]])], 'only its own events, with its own table')
                    p.oblige(c, q.st, 'its event is done', And(*[v == 0 for _, v in size(c, q.st, ms[first])]))
                    p.oblige(c, q.st, 'the other\'s waits', And(*[v == 1 for _, v in size(c, q.st, ms[second])]))
                    q.st.log = []
                    for r in c.invoke(q.st, run_call(jobs[second])):
                        p.match(c, r, [E(EXIT, a, [e, ms[second]]), E(ENTRY, bs[second], [e, ms[second]])], 'then the other\'s, with the other\'s table')
                        p.oblige(c, r.st, 'where each belongs', And(c.observe(r.st, GSM, 'getCurrentState', m1) == b1, c.observe(r.st, GSM, 'getCurrentState', m2) == b2))
                        n += 1
            stopped = one(c.run_named(s.copy(), GSM, 'stop', [m1], 0)).st
            p.oblige(c, stopped, 'stopping one does not stop the other', same(stopped, m2, obs(s, m2)))
    p.cover('processed', n)
    c.havoc_hook = None


def run_call(job):
    return Call('INVOKEINTERFACE', 'java/lang/Runnable', 'run', '()V', [job], 'contract')


# ---------------------------------------------------------------- frame: whatever runs on one machine leaves the other's things alone
def frame(p):
    for tag, way in ways():
        if tag not in ('one builder used twice, default strategy', 'one new configuration, createDropDuplicateStrategy twice') and not p.thorough:
            continue

        def unit(way=way):
            c, st = p.ctx()
            c.throwing = ()
            n = 0
            for st, m1, m2 in way(p, c, st):
                st.log = []
                c.age(st, only=c.statics)
                t = shared_nothing(p, c, st, m1, m2)
                c.havoc_hook = lambda ctx, z: None
                m = M()
                m.ref = m1
                m.end, m.noop, m.imm = [c.observe(st, GSM, x, m1) for x in ('getEndState', 'getNoopState', 'getImmediateEvent')]
                m.none = the_none(c, st, m)
                m.cells = cells(c, st, m)
                shake(c, st, m)
                o2 = M()
                o2.ref, o2.end, o2.noop, o2.imm = m2, *[c.observe(st, GSM, x, m2) for x in ('getEndState', 'getNoopState', 'getImmediateEvent')]
                o2.none = the_none(c, st, o2)
                o2.cells = [x for x in cells(c, st, o2)]
                shake(c, st, o2)
                own = [(k, o) for k, o, _ in o2.cells] + [(k, t.q[1]) for k in ('Q.head', 'Q.tail')]
                x = state_param(c, st, 'aState')
                e = event_param(c, st, 'anEvent')
                L = c.param('aListener', st, False)
                r = Int('anyMap')

                def same(s, what):
                    for k, o in own:
                        p.oblige(c, s, '%s leaves the other machine alone: %s' % (what, k), c.rd(s, k, o) == c.rd(st, k, o))
                    for k in ('M.has', 'M.val'):
                        p.oblige(c, s, '%s leaves all tables alone' % what, c.rd(s, k, r) == c.rd(st, k, r), [r < 0, r >= -c.nalloc])
                for op, args in (('stop', []), ('setStateMachineListener', [L]), ('startInState', [x])):
                    for o in c.run_named(st.copy(), GSM, op, [m1] + args, len(args)):
                        same(o.st, op)
                        n += 1
                for o in c.run_named(st.copy(), GSM, 'fire', [m1, e], 1):
                    same(o.st, 'fire')
            p.cover('run', n)
        p.unit('frame: ' + tag, unit)
