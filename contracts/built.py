"""what a strategy is made of, found by using it: its queue, executor, listener, and the task that processes its events"""
from strategy import *
import c01

MAKERS = (('createDefaultStrategy', False), ('createDropDuplicateStrategy', True))
UEH = 'java/lang/Thread$UncaughtExceptionHandler'


def config(c, st, set_, first=None):
    """(state, Config) with these settings made: {method: value}; first: settings made before, which they replace"""
    g = c.new_object(st, CFG)
    st = one(c.run_named(st, CFG, '<init>', [g], 0)).st
    for d in (first or {}, set_):
        for nm in sorted(d):
            o = one(c.run_named(st, CFG, nm, [g, d[nm]], 1))
            st = o.st
    used(c, st, g, CFG)
    return st, g


def create(p, c, st, maker, g=None):
    """the strategies the factory makes: outcomes"""
    for o in c.run_named(st, FAC, maker, [] if g is None else [g], 0 if g is None else 1):
        if o.kind != 'ret':
            p.fail(c, o.st, maker, 'throws ' + thrown(c, o))
        else:
            yield o


def the_queue(c, st, call):
    """the queue that this call looks at"""
    got = {}

    def h(ctx, s, kind, ref, key, *a):
        if key == 'Q':
            got[str(ref)] = ref
    old, c.access_hook = c.access_hook, h
    try:
        outs = call(st.copy())
    finally:
        c.access_hook = old
    if len(got) != 1:
        raise Unsupported('%d queues are looked at for the queue size' % len(got))
    return list(got.values())[0], outs


def parts(p, c, st, ref):
    """S of a strategy whose making is not known"""
    s = S()
    s.ref = s.des = ref
    cls = c.info[num(ref)].cls
    s.cls = cls
    s.q, _ = the_queue(c, st, lambda x: c.run_named(x, cls, 'getEventQueueSize', [ref], 0))
    s.ufl = c.observe(st, cls, 'getUnexpectedFlowListener', ref)
    return s


def hooked(c, st, s):
    """from now on the strategy's queue is used by others too"""
    st.log = []
    boundaries(c, s)
    s.acc, s.h0, s.t0 = z3.Const('accepted', ARR), Int('head0'), Int('tail0')
    fill(c, st, s)
    c.access_hook = lambda *a: access(s, *a)
    c.havoc_hook = lambda ctx, x: rely_havoc(s, ctx, x)
    c.queue_may_decline = False


def processors(p, c, st, s):
    """the tasks that process the strategy's events: one event is fired on an empty queue, and what was handed to the executor is run"""
    got = {}
    c.access_hook = None
    c.havoc_hook = lambda ctx, x: None
    thr, c.throwing = c.throwing, ()
    st = st.copy()
    st.heap['Q.head'] = Store(c.arr(st, 'Q.head'), s.q, 0)
    st.heap['Q.tail'] = Store(c.arr(st, 'Q.tail'), s.q, 0)
    e, pl = an_event(c, st, payload=False)
    m = a_machine(c, st)
    for o in fire(c, st, s, e, m):
        for x in o.st.log:
            if isinstance(x, Entry) and x.label == SCHEDULE and o.kind == 'ret':
                s1 = o.st.copy()
                s1.log = []
                s1.assume(c.rd(s1, 'X.ended', m) == 0)
                for q in run_drain(c, s1, x.args[0]):
                    for s2, y in entries(c, q.st):
                        if y.label == PROCESS:
                            got.setdefault(str(y.recv), y.recv)
    c.throwing = thr
    c.havoc_hook = None
    if not got:
        raise Unsupported('no event is processed')
    return list(got.values())


def only_logs(p, c, st, name, call):
    """the call returns and calls nothing of the user's"""
    n = 0
    for o in call(st.copy()):
        p.match(c, o, [], name)
        n += 1
    p.cover(name + ' returns', n)


def observed_machine(c, st):
    """a machine as a default handler may look at it"""
    m = c.param('aMachine', st)
    c.note_type(m, 'L%s;' % GSM)
    cur = c.param('itsState', st)
    c.note_type(cur, 'L%s;' % ST)
    for o in (GSM, SM):
        c.boundary[(o, 'getCurrentState')] = lambda ctx, s, k, cur=cur: [Out(s, 'ret', cur)] if foreign_machine(ctx, k) else None
    return m
