"""C21: strategies and machines use exactly what they were configured with"""
import itertools
from built import *
from machine import build, settable
import c11
from c11 import BEGIN, END_, ENTRY

SET = {'executor': ('withExecutor', 'Ljava/util/concurrent/ExecutorService;'), 'handler': ('withUnmappedEventHandler', 'Ljava/util/function/BiConsumer;'),
       'ufl': ('withUnexpectedFlowListener', 'L%s;' % UFL), 'queue': ('withEventQueue', 'Ljava/util/Queue;'), 'max': ('withMaxQueueSize', 'I'),
       'threadName': ('withThreadName', 'Ljava/lang/String;')}


def settings(c, st, which, tag=''):
    v = {}
    for k in which:
        if k == 'max':
            v[k] = c.fresh_int(st, 'max' + tag)
        else:
            v[k] = c.param(k + tag, st)
            c.note_type(v[k], SET[k][1])
    return v


def kind_of(c, v):
    n = num(v)
    return c.info.get(n)


def run(p):
    p.age_statics = lambda c, st: ([(k, IntVal(n)) for n, i in c.info.items() if i.cls == CFG for k in settable(c, CFG)[0]], True)
    ks = sorted(SET)
    combos = [x for r in (0, 1, len(ks) - 1, len(ks)) + ((2,) if p.thorough else ()) for x in itertools.combinations(ks, r)]

    def plain(maker):
        """which parts it has, for every combination of settings"""
        def unit():
            for which in combos:
                for again in (False, True):
                    if again and len(which) not in (0, len(ks)):
                        continue
                    c, st = p.ctx()
                    v = settings(c, st, which)
                    first = settings(c, st, which, 'First') if again else {}
                    st, g = config(c, st, {SET[k][0]: v[k] for k in which}, {SET[k][0]: first[k] for k in which} if again else None)
                    if again and not which:
                        st = list(create(p, c, st, maker, g))[0].st
                    for o in create(p, c, st, maker, g):
                        used(p, c, o.st, o.val, v, 'with %s%s' % (', '.join(which) or 'nothing set', (', set again' if which else ', made again') if again else ''))
        p.unit('%s(config)' % maker, unit)

        def none():
            c, st = p.ctx()
            for o in create(p, c, st, maker):
                used(p, c, o.st, o.val, {}, 'without a configuration')
        p.unit('%s()' % maker, none)
    for maker, _ in MAKERS:
        plain(maker)
    machines(p)
    p.assume('the settings are made before the strategy is (a thread name set after an executor was made for the configuration is too late)')
    p.assume('Executors.newSingleThreadExecutor runs its tasks one after the other, in order, on one thread made by its factory')


def used(p, c, st, ref, v, tag):
    ok = lambda nm, g: p.oblige(c, s2, '%s: %s' % (tag, nm), g)
    s = parts(p, c, st, ref)
    # the listener
    s2 = st
    if 'ufl' in v:
        ok('its unexpected flow listener', s.ufl == v['ufl'])
    else:
        i = kind_of(c, s.ufl)
        p.oblige(c, st, tag + ': a listener of its own', i is not None)
        s3 = st.copy()
        m, e, t, x = observed_machine(c, s3), c.param('anEvent', s3), c.param('aThread', s3), c.param('anException', s3)
        for nm, a in (('onEventBeforeMachineStart', [e, m]), ('onEventAfterMachineEnd', [e, m]), ('onExceptionDuringEventProcessing', [e, m, t, x])):
            if i is not None:
                only_logs(p, c, s3, '%s: the default listener only logs' % tag, lambda z: c.run_named(z, i.cls, nm, [s.ufl] + a, len(a)))
    # the queue
    if 'queue' in v:
        ok('its queue', s.q == v['queue'])
    else:
        i = kind_of(c, s.q)
        p.oblige(c, st, tag + ': a queue of its own', i is not None and i.kind == 'queue')
        if i is not None:
            p.oblige(c, st, '%s: an unbounded queue (%s)' % (tag, i.cls), not i.data.get('bounded') and i.data.get('cap') is None)
            p.oblige(c, st, tag + ': it is empty', c.rd(st, 'Q.head', s.q) == c.rd(st, 'Q.tail', s.q))
    # firing: executor, bound
    hooked(c, st, s)
    import c08
    c08.scan_axioms(c, s)
    e, pl = an_event(c, st)
    m = a_machine(c, st)
    exe = None
    cov = set()
    for o in fire(c, st.copy(), s, e, m):
        s2 = o.st
        looks = s2.ghost.get('looks', ())
        for x in s2.log:
            if not isinstance(x, Entry):
                continue
            if x.label == SCHEDULE:
                if exe is None:
                    exe = x.recv
                ok('its executor', x.recv == (v['executor'] if 'executor' in v else exe))
                cov.add('queued')
            elif x.label == QUEUED and 'max' in v:
                # queued only if there was room
                ok('no more than its maximum are waiting', Or(v['max'] <= 0, *[b - a < v['max'] for a, b in looks]))
            elif x.label == REPORT:
                ok('its listener is told', x.recv == s.ufl)
        if QUEUED not in labels(c, s2) and o.kind == 'ret':
            full = And(v['max'] > 0, Or(*[b - a >= v['max'] for a, b in looks])) if 'max' in v else BoolVal(False)
            dup = Or(*[c.eqvf(EVT(x)) == c.eqcls(s2, e) for x in applied(EVT, s2)]) if s.cls == DDS else BoolVal(False)
            ok('events are refused only if it has a maximum, and as many are waiting', Or(full, dup))
            if c.feasible(s2, full):
                cov.add('refused')
    p.cover(tag + ': queued', 'queued' in cov)
    if 'max' in v:
        p.cover(tag + ': refused', 'refused' in cov)
    if 'executor' not in v:
        daemon(p, c, st, exe, v.get('threadName'), tag)
    # the handler
    for t in processors(p, c, st, s):
        unmapped(p, c, st, s, t, v.get('handler'), tag)


def daemon(p, c, st, exe, name, tag):
    i = kind_of(c, exe) if exe is not None else None
    p.oblige(c, st, tag + ': an executor of its own', i is not None and i.kind == 'executor')
    if i is None:
        return
    p.oblige(c, st, tag + ': one thread', i.data['make'] in ('newSingleThreadExecutor', 'newSingleThreadScheduledExecutor')
             or i.data['make'] == 'newFixedThreadPool' and num(i.data['args'][0]) == 1)
    f = [a for a, d in zip(i.data['args'], i.data['adesc']) if d == 'Ljava/util/concurrent/ThreadFactory;']
    if not f:
        return p.fail(c, st, tag, 'the executor has no thread factory: its thread is no daemon')
    r = c.param('worker', st)
    c.access_hook = c.havoc_hook = None
    n = 0
    for o in c.invoke(st.copy(), Call('INVOKEINTERFACE', 'java/util/concurrent/ThreadFactory', 'newThread', '(Ljava/lang/Runnable;)Ljava/lang/Thread;', [f[0], r], 'contract')):
        p.match(c, o, [], tag + ': its factory')
        if o.kind != 'ret':
            continue
        s, t = o.st, o.val
        n += 1
        p.oblige(c, s, tag + ': a daemon', c.rd(s, 'T.daemon', t) == 1)
        p.oblige(c, s, tag + ': it runs the executor\'s worker', c.rd(s, 'T.target', t) == r)
        ps = c.pieces(s, c.rd(s, 'T.name', t))
        if name is None:
            p.oblige(c, s, '%s: named after the library\'s default (%s)' % (tag, ps), isinstance(ps[0], str) and ps[0].startswith('state-machine'))
        else:
            p.oblige(c, s, '%s: named after the given name (%s)' % (tag, ps), ps[0][1] == name if not isinstance(ps[0], str) and ps[0][0] == 's' else BoolVal(False))
        u = c.rd(s, 'T.ueh', t)
        s.assume(u != 0) if not c.feasible(s, u == 0) else None
        if num(u) is not None and num(u) in c.info:
            th, ex = c.param('aThread', s), c.param('anException', s)
            only_logs(p, c, s, tag + ': its uncaught exception handler only logs', lambda z: c.invoke(z, Call('INVOKEINTERFACE', UEH, 'uncaughtException', '(Ljava/lang/Thread;Ljava/lang/Throwable;)V', [u, th, ex], 'contract')))
    p.cover(tag + ': a thread', n)


def unmapped(p, c, st, s, t, handler, tag):
    """what the task that processes events does with an event that is not mapped"""
    st = st.copy()
    st.log = []
    c.access_hook = c.havoc_hook = None
    c.boundary.pop((TT, 'execute'), None)
    mp = c.alloc('java/util/HashMap', 'map')
    st.heap['M.has'] = Store(c.arr(st, 'M.has'), mp, z3.K(Z, BoolVal(False)))
    st = one(c.run_named(st, s.cls, 'setStates', [s.ref, mp], 1)).st
    m = observed_machine(c, st)
    e = c.param('anEvent', st)
    c.note_type(e, 'L%s;' % EV)
    for nm in ('notifyStateMachineListener', 'updateCurrentState'):
        c.boundary[(GSM, nm)] = lambda ctx, z, k, nm=nm: ctx.callback(z, nm, k.args[0], k.args[1:], 'V', k.where)
    for nm in ('getEndState', 'getNoopState', 'getImmediateEvent'):
        x = c.param(nm, st)
        c.boundary[(GSM, nm)] = lambda ctx, z, k, x=x: [Out(z, 'ret', x)]
    c.throwing = ()
    n = 0
    for o in c.run_named(st, TT, 'execute', [t, e, m], 2):
        if handler is not None:
            p.match(c, o, [E(c01.HANDLER, handler, [e, m])], tag + ': an event that is not mapped, its handler')
        else:
            p.match(c, o, [], tag + ': an event that is not mapped is only logged')
        n += 1
    p.cover(tag + ': not mapped', n)


# ---------------------------------------------------------------- machines
def machines(p):
    for w in itertools.product((False, True), repeat=3):
        def unit(w=w):
            with_ctx, with_l, with_s = w
            c, st = p.ctx()
            strategy_boundary(c)
            context = c.param('context', st, False) if with_ctx else None
            listener = c.param('listener', st, False) if with_l else None
            strategy = c.param('strategy', st) if with_s else None
            n = 0
            for o in build(c, st, strategy, listener, context):
                s = o.st
                if o.kind != 'ret':
                    p.fail(c, s, 'building', 'throws ' + thrown(c, o))
                    continue
                n += 1
                m = o.val
                ok = lambda nm, g: p.oblige(c, s, nm, g)
                ok('the machine is new', num(m) in c.info)
                ok('its context', c.observe(s, GSM, 'getContext', m) == (context if with_ctx else 0))
                ok('not started', c.observe(s, GSM, 'isStarted', m) == 0)
                ok('not ended', c.observe(s, GSM, 'isEnded', m) == 0)
                if with_s:
                    p.match(c, o, [E('EventProcessingStrategy.setStates', strategy)], 'the strategy is given its table')
                    t = [x for x in s.log if isinstance(x, Entry) and x.label == 'EventProcessingStrategy.setStates']
                    ok('a table of its own', bool(t) and num(t[0].args[0]) in c.info)
                else:
                    p.match(c, o, [], 'no calls')
                s.log = []
                if with_s:
                    routed(p, c, s.copy(), m, strategy)
                elif p.thorough or not with_ctx:
                    defaults(p, c, s.copy(), m)
                if not p.thorough and with_ctx != with_s:
                    continue
                told(p, c, s.copy(), m, listener if with_l else IntVal(0), 'after building')
                l2 = c.param('listener2', s, False)
                for q in c.run_named(s.copy(), GSM, 'setStateMachineListener', [m, l2], 1):
                    p.match(c, q, [], 'setting the listener')
                    told(p, c, q.st, m, l2, 'after the listener was replaced')
            p.cover('built', n)
        p.unit('Builder.build with %s' % (', '.join(x for x, y in zip(('context', 'listener', 'strategy'), w) if y) or 'nothing'), unit)

    def last(between):
        c, st = p.ctx()
        strategy_boundary(c)
        b = c.new_object(st, BLD)
        st = one(c.run_named(st, BLD, '<init>', [b], 0)).st
        v = {}
        for i in (1, 2):
            for nm in ('setContext', 'setStateMachineListener', 'setEventProcessingStrategy'):
                if i == 2 and nm == between:
                    continue
                v[nm] = c.param('%s%d' % (nm, i), st)
                o = one(c.run_named(st, BLD, nm, [b, v[nm]], 1))
                st = o.st
            if i == 1 and between:
                # one machine was built with the first settings; all but one of them are made again
                st = one(c.run_named(st, BLD, 'build', [b], 0)).st
                st.log = []
        o = one(c.run_named(st, BLD, 'build', [b], 0))
        p.match(c, o, [E('EventProcessingStrategy.setStates', v['setEventProcessingStrategy'])], 'the last strategy is the one')
        p.oblige(c, o.st, 'the last context is the one', c.observe(o.st, GSM, 'getContext', o.val) == v['setContext'])
        o.st.log = []
        told(p, c, o.st, o.val, v['setStateMachineListener'], 'the last listener is the one')
    for nm in (None, 'setContext', 'setStateMachineListener', 'setEventProcessingStrategy'):
        p.unit('Builder: setting things again' + (', all but %s, after building' % nm if nm else ''), lambda nm=nm: last(nm))

    def replaced():
        c, st, m, t, h, e, cur, mapped, to = c01.setup(p)
        st.assume(And(mapped, Not(eq(c, st, to, m.noop))))
        key, obj, _ = listener_cell(c, st, m)
        old, osnap = c.havoc_hook, c.snap_hook

        def havoc(ctx, s):
            old(ctx, s)
            # callbacks replace the listener, or not
            v = ctx.fresh('listenerThen')
            s.assume(v >= 0)
            ctx.wr(s, key, obj, v)
        c.havoc_hook = havoc
        c.snap_hook = lambda ctx, s: dict(osnap(ctx, s), listener=ctx.rd(s, key, obj))
        cov = set()
        for o in c01.process(c, st, t, e, m):
            for s2, x in entries(c, o.st):
                if x.label in (BEGIN, END_):
                    p.oblige(c, s2, '%s: the listener that is set then' % x.label, x.recv == x.snap['listener'])
                    cov.add(x.label)
        p.cover('told', len(cov) == 2)
    p.unit('TransitionTask.execute: the listener', replaced)


def used_machine(p, c, st, m):
    """configures and starts it: an initial state that maps an event"""
    c.throwing = ()
    a, b = state_param(c, st, 'first'), state_param(c, st, 'second')
    st.assume(c.eqcls(st, a) != c.eqcls(st, b))
    e = event_param(c, st, 'mapped')
    # (with a payload an event of the user's own class is copied, which C09 treats)
    st.assume(payload_of(c, st, e) == 0)
    own = M()
    own.ref = m
    for x in (a, b):
        # no state of the user's equals a reserved one
        for r in (c.observe(st, GSM, 'getEndState', m), c.observe(st, GSM, 'getNoopState', m), the_none(c, st, own)):
            st.assume(c.eqcls(st, x) != c.eqcls(st, r))
    st.assume(c.eqcls(st, e) != c.eqcls(st, c.observe(st, GSM, 'getImmediateEvent', m)))
    for nm, x in (('initialSate', [a]), ('receives', [e]), ('itTransitionsTo', [b])):
        st = one(c.run_named(st, GSM, nm, [m] + x, len(x))).st
    return st, a, b, e


def told(p, c, st, m, L, tag):
    st, a, b, e = used_machine(p, c, st, m)
    c.havoc_hook = lambda ctx, z: None
    n = 0
    for o in c.run_named(st, GSM, 'start', [m], 0):
        p.match(c, o, [IFS(L != 0, [E(BEGIN, L)], []), E(ENTRY, a), IFS(L != 0, [E(END_, L)], [])], 'starting, ' + tag)
        n += 1
    c.havoc_hook = None
    p.cover('told ' + tag, n)


def routed(p, c, st, m, strategy):
    e = c.param('anEvent', st)
    c.note_type(e, 'L%s;' % EV)
    BEFORE = 'UnexpectedFlowListener.onEventBeforeMachineStart'
    for o in c.run_named(st.copy(), GSM, 'fire', [m, e], 1):
        p.match(c, o, [E(BEFORE, z3.Function('listenerOf', Z, Z)(strategy), [e, m])], 'fired before it is started: the strategy\'s listener')
    size = z3.Function('sizeOf', Z, Z)(strategy)
    c.boundary[(EPS, 'getEventQueueSize')] = lambda ctx, s, k: [Out(s, 'ret', z3.Function('sizeOf', Z, Z)(k.args[0]))] if foreign(ctx, k) else None
    for o in c.run_named(st.copy(), GSM, 'getEventQueueSize', [m], 0):
        p.oblige(c, o.st, 'the queue size is the strategy\'s', o.val == size if o.kind == 'ret' else BoolVal(False))
    s, a, b, x = used_machine(p, c, st.copy(), m)
    c.havoc_hook = lambda ctx, z: None
    for q in c.run_named(s, GSM, 'startInState', [m, a], 1):
        s = q.st
        s.log = []
        for o in c.run_named(s, GSM, 'fire', [m, x], 1):
            p.match(c, o, [E('EventProcessingStrategy.processEvent', strategy, [x, m])], 'fired when it runs: the strategy')
    c.havoc_hook = None


def defaults(p, c, st, m):
    """no strategy was given"""
    q, _ = the_queue(c, st, lambda x: c.run_named(x, GSM, 'getEventQueueSize', [m], 0))
    i = kind_of(c, q)
    p.oblige(c, st, 'a queue of its own', i is not None and i.kind == 'queue')
    st, a, b, e = used_machine(p, c, st, m)
    c.havoc_hook = lambda ctx, z: None
    for o in c.run_named(st.copy(), GSM, 'startInState', [m, a], 1):
        if o.kind != 'ret':
            p.fail(c, o.st, 'a complete machine starts', thrown(c, o))
            continue
        o.st.log = []
        owner(p, c, o.st, m, q, b, e, 'the default strategy')


def owner(p, c, s2, m, q, b, e, tag):
    """a started machine without strategy of the user's: what it fires is processed with its table, its executor and listener are the library's"""
    c.havoc_hook = lambda ctx, z: None
    jobs = []
    for o in c.run_named(s2, GSM, 'fire', [m, e], 1):
        if o.kind != 'ret':
            p.fail(c, o.st, tag, 'fire throws ' + thrown(c, o))
            continue
        for x in o.st.log:
            if isinstance(x, Entry) and x.label == SCHEDULE:
                k = kind_of(c, x.recv)
                p.oblige(c, o.st, tag + ': an executor of the library\'s', k is not None and k.kind == 'executor')
                s3 = o.st.copy()
                s3.log = []
                jobs.append((s3, x.args[0]))
        for z in c.run_named(o.st.copy(), GSM, 'fire', [m, e], 1):
            p.oblige(c, z.st, tag + ': it takes an event that waits already', c.rd(z.st, 'Q.tail', q) - c.rd(z.st, 'Q.head', q) == 2)
    n = 0
    for s3, job in jobs:
        for o in run_drain(c, s3, job):
            if o.kind == 'ret':
                n += 1
                got = [x.recv for x in o.st.log if isinstance(x, Entry) and x.label == ENTRY]
                p.oblige(c, o.st, tag + ': an event is processed with the machine\'s own table', And(BoolVal(len(got) == 1), got[0] == b) if got else BoolVal(False))
    c.havoc_hook = None
    p.cover(tag + ': processed', n)
