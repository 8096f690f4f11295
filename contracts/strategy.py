"""an event processing strategy as its constructor makes it, its queue, the carriers of its events, and its drain

Carriers (EventMachinePair) are owned by whoever took them out of the pool or made them, until they are put into the event
queue (log item 'queued') or back into the pool ('recycled'); after that anybody else may change them.  Only the owner
may write one.  So what the carrier at position i of the queue holds when it is taken out is what it held when it was put in:
EVT(i), MACH(i)."""
from machine import *

EMP = STR + 'EventMachinePair'
QUEUED, RECYCLED, SCHEDULE, REPORT, PROCESS = 'queued', 'recycled', 'Executor.execute', 'UnexpectedFlowListener.onExceptionDuringEventProcessing', 'TransitionTask.execute'
EVT, MACH, ENDED = z3.Function('eventAt', Z, Z), z3.Function('machineAt', Z, Z), z3.Function('endedAt', Z, Z)
# the thread that constructs, the one that fires, the one that processes: any three threads
BUILDER, THREAD, WORKER = Int('constructingThread'), Int('firingThread'), Int('processingThread')


class S:
    """q queue, executor, ufl, handler, max; h0, t0, acc: the queue's contents at first"""
    producers = True   # other threads fire too
    consumer = False   # this code is the one that takes events out
    alive = False      # no machine has ended
    fired = IntVal(0)
    quiet = False      # nobody sets the payload of the fired event meanwhile


def ctor_args(c, st, cls, given):
    """arguments for the public constructor, by type"""
    ms = [m for m in c.prog.classes[cls]['methods'] if m['name'] == '<init>' and m['access'] & 1]
    if len(ms) != 1:
        raise Unsupported('%d public constructors of %s' % (len(ms), cls))
    return ms[0], [given[d] for d in parse_desc(ms[0]['desc'])[0]]


def default_strategy(p, c, st, s):
    s.q, s.executor, s.ufl, s.handler = [c.param(n, st) for n in ('queue', 'executor', 'unexpectedFlowListener', 'unmappedHandler')]
    s.max = c.fresh_int(st, 'max')
    for v, t in ((s.q, 'java/util/Queue'), (s.executor, 'java/util/concurrent/ExecutorService'), (s.ufl, UFL), (s.handler, 'java/util/function/BiConsumer')):
        c.note_type(v, 'L%s;' % t)
    r = c.new_object(st, DES)
    m, a = ctor_args(c, st, DES, {'Ljava/util/Queue;': s.q, 'Ljava/util/concurrent/ExecutorService;': s.executor, 'L%s;' % UFL: s.ufl,
                                  'Ljava/util/function/BiConsumer;': s.handler, 'I': s.max})
    o = one(c.call_method(st, m, [r] + a))
    if labels(c, o.st):
        raise Unsupported('the constructor calls something')
    s.ref = s.des = r
    return o.st


def setup(p, drop=False):
    """(ctx, state, S): a strategy with an arbitrary queue, its pool and its boundary"""
    c, st = p.ctx()
    s = S()
    st.ghost['thread'] = BUILDER
    st = default_strategy(p, c, st, s)
    if drop:
        r = c.new_object(st, DDS)
        m, a = ctor_args(c, st, DDS, {'L%s;' % DES: s.des})
        st = one(c.call_method(st, m, [r] + a)).st
        s.ref = r
    st.log = []
    st.ghost['thread'] = THREAD
    boundaries(c, s)
    s.acc, s.h0, s.t0 = z3.Const('accepted', ARR), Int('head0'), Int('tail0')
    fill(c, st, s)
    c.access_hook = lambda *a: access(s, *a)
    c.havoc_hook = lambda ctx, x: rely_havoc(s, ctx, x)
    c.queue_may_decline = False
    c.loop_cands.append(in_hand(s))
    # its event queue, carriers and pool are as described above; whatever else it keeps may have changed
    c.age(st, [('*', IntVal(n)) for n, i in c.info.items() if i.kind == 'queue'])
    return c, st, s


def fill(c, st, s):
    st.heap['Q.arr'] = Store(c.arr(st, 'Q.arr'), s.q, s.acc)
    st.heap['Q.head'] = Store(c.arr(st, 'Q.head'), s.q, s.h0)
    st.heap['Q.tail'] = Store(c.arr(st, 'Q.tail'), s.q, s.t0)
    st.assume(And(0 <= s.h0, s.h0 <= s.t0))


def foreign_machine(ctx, k):
    n = num(k.args[0])
    return n is None or n not in ctx.info


def boundaries(c, s):
    def submit(ctx, st, k):
        return ctx.callback(st, SCHEDULE, k.args[0], [k.args[1]], k.rdesc, k.where, throwing=())
    c.boundary[('java/util/concurrent/ExecutorService', 'submit')] = submit
    c.boundary[('java/util/concurrent/Executor', 'execute')] = submit

    def ended(ctx, st, k):
        if not foreign_machine(ctx, k):
            return None
        v = ctx.rd(st, 'X.ended', k.args[0])
        st.assume(Or(v == 0, v == 1))
        return [Out(st, 'ret', v)]
    c.boundary[(GSM, 'isEnded')] = ended

    def process(ctx, st, k):
        return ctx.callback(st, PROCESS, k.args[0], k.args[1:], 'V', k.where)
    c.boundary[(TT, 'execute')] = process


# ---------------------------------------------------------------- carriers
def event_of(c, st, pair):
    return c.observe(st, EMP, 'getStateEvent', pair)


def machine_of(c, st, pair):
    return c.observe(st, EMP, 'getStateMachine', pair)


def is_carrier_field(k):
    return k.startswith('F:EventMachinePair.')


def owned(c, st, v):
    n = num(v)
    gone = st.ghost.get('gone', ())
    if n is not None and n in c.info and c.info[n].cls == EMP:
        return not any(v.eq(g) for g in gone)
    own = st.ghost.get('own', ())
    if any(v.eq(o) for o in own):
        return True
    if n is None and any(c.feasible(st, v == o) for o in own):
        if any(c.valid(st, v == o) for o in own):
            return True
        st.flags.add('whose carrier this is is not known')
    return False


def give(c, st, v):
    st.ghost['own'] = tuple(o for o in st.ghost.get('own', ()) if not o.eq(v) and (num(v) is not None or not c.feasible(st, v == o)))
    st.ghost['gone'] = st.ghost.get('gone', ()) + (v,)
    # from now on anybody may change it
    for k in list(st.heap):
        if is_carrier_field(k):
            c.wr(st, k, v, c.fresh('others'))


def note(c, st, label, *args):
    st.log.append(Entry(label, IntVal(0), args, c.snapshot(st), 'carrier'))


def access(s, c, st, kind, ref, key, *a):
    if key is None:
        return
    if key == 'Q' and ref.eq(s.q):
        if kind in ('get', 'rmw'):
            meanwhile(s, c, st)
            st.ghost['looks'] = st.ghost.get('looks', ()) + ((c.rd(st, 'Q.head', s.q), c.rd(st, 'Q.tail', s.q)),)
        elif kind == 'wrote':
            t, e = a
            own = owned(c, st, e)
            v = event_of(c, st, e)
            w = simplify(t - c.rd(st, 'Q.head', s.q))
            note(c, st, QUEUED, e, v, machine_of(c, st, e), BoolVal(own), payload_of(c, st, v), w, c.rd(st, 'Q.head', s.q), payload_of(c, st, s.fired))
            give(c, st, e)
        elif kind == 'polled':
            h, v = a
            if not s.consumer:
                note(c, st, 'an event is taken out', v)
                return
            st.ghost['own'] = st.ghost.get('own', ()) + (v,)
            contents(s, c, st, h, v)
        return
    if key == 'Q':
        # the pool: anybody uses it
        if kind in ('get', 'rmw'):
            h, t = c.fresh('poolHead'), c.fresh('poolTail')
            st.assume(And(0 <= h, h <= t))
            c.wr(st, 'Q.head', ref, h)
            c.wr(st, 'Q.tail', ref, t)
            st.heap['Q.arr'] = Store(c.arr(st, 'Q.arr'), ref, c.fresh('pool', ARR))
        elif kind == 'polled':
            h, v = a
            st.assume(v > 0)
            for o in st.ghost.get('own', ()):
                st.assume(v != o)
            st.ghost['own'] = st.ghost.get('own', ()) + (v,)
        elif kind == 'wrote':
            t, e = a
            note(c, st, RECYCLED if owned(c, st, e) else 'a carrier is recycled that is not its own', e)
            give(c, st, e)
        return
    if kind == 'put' and ref.eq(s.fired):
        note(c, st, 'the fired event is written', ref)
    if kind == 'put' and is_carrier_field(key) and not owned(c, st, ref):
        note(c, st, 'a carrier is changed that is not its own', ref)


def contents(s, c, st, h, v):
    """what the carrier taken out at position h holds"""
    for x in holds(s, c, st, h, v):
        st.assume(x)
    c.note_type(MACH(h), 'L%s;' % GSM)
    c.note_type(EVT(h), 'L%s;' % EV)


def holds(s, c, st, h, v):
    e = c.rd(st, 'X.ended', MACH(h))
    return [And(event_of(c, st, v) == EVT(h), machine_of(c, st, v) == MACH(h), EVT(h) > 0, MACH(h) > 0), e == ENDED(h), Or(ENDED(h) == 0, ENDED(h) == 1)] + (
        [ENDED(h) == 0] if s.alive else [])


def in_hand(s):
    """loop invariant candidates: a local variable holds the carrier taken out last (or null: the queue was empty)"""
    def cands(c, rule):
        if not s.consumer:
            return []
        return [one_in_hand(s, c, rule, i) for i in sorted(rule.loc) if z3.is_expr(rule.loc[i]) and ('l', i) in rule.mods and rule.isref(i)]
    return cands


def one_in_hand(s, c, rule, i):
    h0 = c.rd(rule.st, 'Q.head', s.q) - z3.If(rule.loc[i] != 0, 1, 0)

    def inv(st, loc):
        v = loc.get(i)
        if not z3.is_expr(v):
            return BoolVal(False)
        h = c.rd(st, 'Q.head', s.q)
        if rule.assuming:
            st.ghost['own'] = st.ghost.get('own', ()) + (v,)
            st.ghost['looks'] = st.ghost.get('looks', ()) + ((c.fresh('lookHead'), c.fresh('lookTail')),)
            c.note_type(MACH(h - 1), 'L%s;' % GSM)
            c.note_type(EVT(h - 1), 'L%s;' % EV)
        elif num(v) != 0 and not any(v.eq(o) for o in st.ghost.get('own', ())):
            return BoolVal(False)
        r = And(h == h0 + rule._k + z3.If(v != 0, 1, 0), h <= c.rd(st, 'Q.tail', s.q))
        # null: it saw the queue empty
        look = st.ghost.get('looks', ())[-1:]
        r = And(r, Implies(v == 0, And(look[0][0] == look[0][1], look[0][0] == h) if look else BoolVal(False)))
        s2 = st.copy()
        s2.assume(v != 0)
        if not c.feasible(s2):
            return r
        return And(r, Implies(v != 0, And(v == Select(s.acc, h - 1), c.rd(st, 'Q.arr', s.q) == s.acc, *holds(s, c, s2, h - 1, v))))
    inv.covers = {('l', i), ('h', 'Q.head', str(s.q))}
    return inv


def meanwhile(s, c, st):
    """other threads use the event queue: they append if others fire, and take out unless this code is the one that does"""
    h, t = c.rd(st, 'Q.head', s.q), c.rd(st, 'Q.tail', s.q)
    h2, t2 = h, t
    if s.producers:
        t2 = c.fresh('tail')
        st.assume(t2 >= t)
        c.wr(st, 'Q.tail', s.q, t2)
    if not s.consumer:
        h2 = c.fresh('head')
        st.assume(h2 >= h)
        c.wr(st, 'Q.head', s.q, h2)
    st.assume(h2 <= t2)


def rely_havoc(s, c, st):
    """callbacks: anything, but not the carriers owned here; the event queue as other threads change it"""
    h, t, a = [c.rd(st, k, s.q) for k in ('Q.head', 'Q.tail', 'Q.arr')]
    own = [(k, o, c.rd(st, k, o)) for k in st.heap if is_carrier_field(k) for o in
           list(st.ghost.get('own', ())) + [IntVal(n) for n, i in c.info.items() if i.cls == EMP and owned(c, st, IntVal(n))]]
    if s.quiet:
        own += [(k, s.fired, c.rd(st, k, s.fired)) for k in st.heap if k == 'PL.val' or k.startswith('F:NamedStateEvent.')]
    c.default_havoc(st)
    for k, o, v in own:
        c.wr(st, k, o, v)
    c.wr(st, 'Q.head', s.q, h)
    c.wr(st, 'Q.tail', s.q, t)
    st.heap['Q.arr'] = Store(c.arr(st, 'Q.arr'), s.q, a)
    if s.consumer or s.producers:
        # callbacks may fire events themselves
        t2 = c.fresh('tail')
        st.assume(t2 >= t)
        c.wr(st, 'Q.tail', s.q, t2)
    if not s.consumer:
        h2 = c.fresh('head')
        st.assume(And(h2 >= h, h2 <= c.rd(st, 'Q.tail', s.q)))
        c.wr(st, 'Q.head', s.q, h2)


# ---------------------------------------------------------------- firing
def an_event(c, st, named=False, payload=None):
    """an event fired by a user; payload: None arbitrary, False none, True some"""
    if named:
        e = c.new_object(st, NSE)
        nm = c.param('name', st, False)
        c.note_type(nm, 'Ljava/lang/String;')
        pl = c.param('payload', st, False)
        c.wr(st, c.fkey(NSE, field_by_desc(c.prog, NSE, 'Ljava/lang/String;', 'name')), e, nm)
        c.wr(st, c.fkey(NSE, field_by_desc(c.prog, NSE, 'Ljava/lang/Object;', 'payload')), e, pl)
    else:
        e = c.param('event', st)
        c.note_type(e, 'L%s;' % EV)
        pl = payload_of(c, st, e)
    if payload is not None:
        st.assume(pl != 0 if payload else pl == 0)
    return e, pl


def payload_of(c, st, e):
    n = num(e)
    if n is not None and n in c.info and c.info[n].cls == NSE:
        return c.observe(st, NSE, 'getPayload', e)
    return c.rd(st, 'PL.val', e)


def a_machine(c, st):
    m = c.param('machine', st)
    c.note_type(m, 'L%s;' % GSM)
    return m


def fire(c, st, s, e, m):
    s.fired = e
    cls = c.info[num(s.ref)].cls
    return c.run_named(st, cls, 'processEvent', [s.ref, e, m], 2)


def carried(c, s2, x, e, pl, m):
    """what a 'queued' item must hold for event e (payload pl) of machine m"""
    v = x.args[1]
    n = num(v)
    made = n is not None and n in c.info and c.info[n].cls == NSE and not v.eq(e)
    return [('the carrier belongs to this call', x.args[3]), ('it holds the machine', x.args[2] == m),
            ('it holds the event, or a copy with its name and payload', Or(v == e, And(BoolVal(made), c.cid(c.name_of(s2, v)) == c.cid(c.name_of(s2, e)),
                                                                                  x.args[4] == pl)))]


def accepted(c, s2, s, e, pl, m):
    """the calls of an accepted event"""
    return [E(QUEUED, None, None, check=lambda x: carried(c, s2, x, e, pl, m)), E(SCHEDULE, s.executor, [None])]


def refused(c, s2, s, e, m):
    def chk(x):
        n = num(x.args[3])
        return [('with an IllegalStateException', n in s2.exct and c.prog.subtype(s2.exct[n][0], ISE))]
    return [Opt([RECYCLED]), E(REPORT, s.ufl, [e, m, THREAD, None], check=chk)]


def drains(p, c, st, s):
    """[(state, task)]: what the strategy hands to its executor, to be run at any later time"""
    e, pl = an_event(c, st)
    m = a_machine(c, st)
    got, seen = [], set()
    for o in fire(c, st, s, e, m):
        for x in o.st.log:
            if isinstance(x, Entry) and x.label == SCHEDULE:
                i = c.info.get(num(x.args[0]))
                key = str((i.data.get('impl'), [str(z) for z in i.data['cap']])) if i is not None and i.kind == 'lambda' else str(x.args[0])
                if key not in seen:
                    seen.add(key)
                    got.append((o.st.copy(), x.args[0]))
    if not got:
        raise Unsupported('nothing is handed to the executor')
    r = []
    for s2, task in got:
        s2.log = []
        s2.ghost = {'gone': tuple(IntVal(n) for n, i in c.info.items() if i.cls == EMP)}
        s2.pc = [x for x in s2.pc]
        hook, c.havoc_hook = c.havoc_hook, None
        c.havoc(s2)
        c.havoc_hook = hook
        fill(c, s2, s)
        r.append((s2, task))
    return r


def run_drain(c, st, task):
    st = st.copy()
    st.ghost['thread'] = WORKER
    return c.invoke(st, Call('INVOKEINTERFACE', 'java/lang/Runnable', 'run', '()V', [task], 'contract'))


def is_exception(p, c, x):
    return p.prog.subtype(c.info[num(x)].cls, EXC)


def turn(p, c, s, i):
    """what happens with the event at position i, its failure and its carrier"""
    pair = Select(s.acc, i)
    rec = lambda then=(): [E(RECYCLED, None, [pair])] + list(then)

    def failed(x):
        if not is_exception(p, c, x.exc):
            return rec([END(exc=x.exc)])
        return [E(REPORT, s.ufl, [EVT(i), MACH(i), WORKER, x.exc], on_exc=lambda y: rec([END(exc=y.exc)]))] + rec()
    return [E(PROCESS, None, [EVT(i), MACH(i)], on_exc=failed)] + rec()


OTHER = Opt([REPORT, RECYCLED])


def turn_order(s, i):
    """what happens with the event at position i; how a failure is reported and the carrier recycled is left open"""
    return [OTHER, IFS(ENDED(i) != 0, [], [E(PROCESS, None, [EVT(i), MACH(i)], on_exc=lambda x: [OTHER, END(any=True)])]), OTHER]


def applied(f, s):
    """the arguments f is applied to in the path condition"""
    r, seen, todo = {}, set(), list(s.pc)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().eq(f):
            r[x.arg(0).get_id()] = x.arg(0)
        todo.extend(x.children())
    return list(r.values())


def entries(c, st, log=None):
    """[(state, entry)] of all calls, those of loop iterations under the iteration's conditions"""
    for x in st.log if log is None else log:
        if isinstance(x, Entry):
            yield st, x
        else:
            t = c.fresh('t')
            for conds, lg, loops in x.at(t):
                s = st.copy()
                s.assume(And(t >= 0, t < x.N))
                for y in conds:
                    s.assume(y)
                if lg and c.feasible(s):
                    yield from entries(c, s, lg)
