"""a GenericStateMachine as its builder makes it, and its parts"""
from proof import *
from engine import Call

ST, EV, SM, SA = API + 'State', API + 'StateEvent', API + 'StateMachine', API + 'StateAction'
EPS = STR + 'EventProcessingStrategy'
RESERVED = ('_UNINITIALISED_', '_END_', '_NOOP_')
IMMEDIATE = '_immediate_'


class M:
    alone = False
    """ref, table (the map handed to the strategy), end/noop/none states, immediate event, started/ended observers"""


def foreign(c, k):
    n = num(k.args[0])
    i = c.info.get(n) if n is not None else None
    return i is None or i.cls not in c.prog.classes


def strategy_boundary(c):
    def set_states(ctx, st, k):
        if not foreign(ctx, k):
            return None
        st.log.append(Entry('EventProcessingStrategy.setStates', k.args[0], k.args[1:], {}, k.where))
        return [Out(st, 'ret')]

    def get_ufl(ctx, st, k):
        if not foreign(ctx, k):
            return None
        v = z3.Function('listenerOf', Z, Z)(k.args[0])
        st.assume(v > 0)
        return [Out(st, 'ret', v)]
    c.boundary[(EPS, 'setStates')] = set_states
    c.boundary[(EPS, 'getUnexpectedFlowListener')] = get_ufl


def build(c, st, strategy, listener, context):
    """outcomes of Builder.build() with these settings (None: not set)"""
    b = c.new_object(st, BLD)
    st = one(c.run_named(st, BLD, '<init>', [b], 0)).st
    for nm, v in (('setContext', context), ('setStateMachineListener', listener), ('setEventProcessingStrategy', strategy)):
        if v is not None:
            o = one(c.run_named(st, BLD, nm, [b, v], 1))
            st = o.st
    return c.run_named(st, BLD, 'build', [b], 0)


def machine(p, listener=True, keep=()):
    """(ctx, state, M): a machine just built with an arbitrary strategy, listener and context"""
    c, st = p.ctx()
    m = M()
    m.strategy, m.context = c.param('strategy', st), c.param('context', st, False)
    m.ufl = z3.Function('listenerOf', Z, Z)(m.strategy)
    m.listener = c.param('listener', st, False) if listener else IntVal(0)
    strategy_boundary(c)
    o = one(build(c, st, m.strategy, m.listener, m.context))
    st = o.st
    m.ref = o.val
    ss = [e for e in st.log if isinstance(e, Entry) and e.label == 'EventProcessingStrategy.setStates']
    if len(ss) != 1:
        raise Unsupported('the table is given to the strategy %d times' % len(ss))
    m.table = ss[0].args[0]
    if num(m.table) not in c.info or c.info[num(m.table)].kind != 'map':
        raise Unsupported('the table is not a new map')
    st.log = []
    m.end = c.observe(st, GSM, 'getEndState', m.ref)
    m.noop = c.observe(st, GSM, 'getNoopState', m.ref)
    m.imm = c.observe(st, GSM, 'getImmediateEvent', m.ref)
    return c, st, m


def not_reserved_state(c, st, s):
    for r in RESERVED:
        st.assume(c.cid(c.name_of(st, s)) != c.litid(r))


def not_reserved_event(c, st, e):
    st.assume(c.cid(c.name_of(st, e)) != c.litid(IMMEDIATE))


def event_param(c, st, name, nonnull=True, user=True):
    e = c.param(name, st, nonnull)
    c.note_type(e, 'L%s;' % EV)
    if user:
        not_reserved_event(c, st, e)
    return e


def state_param(c, st, name, nonnull=True, user=True):
    e = c.param(name, st, nonnull)
    c.note_type(e, 'L%s;' % ST)
    if user:
        not_reserved_state(c, st, e)
    return e


def lookup(c, st, table, s, e):
    """(mapped?, target) of the table at classes s, e"""
    has, val = c.rd(st, 'M.has', table), c.rd(st, 'M.val', table)
    row = simplify(Select(val, s))
    h = And(Select(has, s), row != 0, Select(Select(c.arr(st, 'M.has'), row), e))
    return h, Select(Select(c.arr(st, 'M.val'), row), e)


TT = STR + 'TransitionTask'
DES, DDS = STR + 'DefaultEventStrategy', STR + 'DropDuplicateEventStrategy'
UFL = P + 'UnexpectedFlowListener'
LSN = API + 'StateMachineListener'


def cells(c, st, m):
    """where the machine keeps what changes: [(heap array, reference, type)]"""
    r, todo, seen = [], [m.ref], set()
    while todo:
        o = todo.pop()
        if num(o) in seen or num(o) not in c.info:
            continue
        seen.add(num(o))
        i = c.info[num(o)]
        if i.kind == 'atomic':
            r.append(('AB.val', o, 'I' if i.cls.endswith(('Integer', 'Boolean', 'Long')) else 'Ljava/lang/Object;'))
        elif i.cls in c.prog.classes and i.cls.startswith(P) and not i.cls.startswith((NS, NSE)):
            for k in c.prog.supers(i.cls):
                for f in (c.prog.classes.get(k) or {'fields': ()})['fields']:
                    if f['access'] & 8:
                        continue
                    key = c.fkey(k, f['name'])
                    if not f['access'] & 0x10:
                        r.append((key, o, f['desc']))
                    if f['desc'][0] == 'L':
                        todo.append(c.rd(st, key, o))
    return r


def shake(c, st, m, keep=()):
    """any contents of the machine's own cells"""
    for key, o, d in m.cells:
        if key in keep:
            continue
        if key == 'AB.val' and d == 'I' and c.info[num(o)].cls.endswith('Boolean'):
            v = c.fresh_of(st, 'Z', 'cell')
        elif key == 'AB.val' and d == 'I':
            v = c.fresh_of(st, 'I', 'cell')
        elif d[0] in 'L[':
            v = c.fresh('cell')
            # what the machine holds: the user's objects, null, or its own
            st.assume(Or(v >= 0, v == m.end, v == m.none, v == m.noop, v == m.imm))
            c.note_type(v, d)
        else:
            v = c.fresh_of(st, d, 'cell')
        st.heap[key] = Store(c.arr(st, key), o, v)


def see(c, st, m):
    """(started, ended, current state) as the machine reports them"""
    return [c.observe(st, GSM, n, m.ref) for n in ('isStarted', 'isEnded', 'getCurrentState')]


def named_states_are_states(c):
    """hooks of a NamedState (the reserved ones) are user code like those of any other state: actions may be appended to them"""
    for n in ('onEntry', 'onExit'):
        def h(ctx, st, k, n=n):
            if k.op == 'INVOKESPECIAL':
                return None
            return ctx.callback(st, 'State.' + n, k.args[0], k.args[1:], 'V', k.where)
        for o in (NS, ST):
            c.boundary[(o, n)] = h


def live(p, listener=True):
    """a machine after any history: arbitrary cells and an arbitrary table of what a user can configure"""
    c, st, m = machine(p, listener)
    m.none = the_none(c, st, m)
    m.cells = cells(c, st, m)
    for o in (m.end, m.noop, m.none, m.imm):
        # a value that turns out to be one of the reserved objects has its name and identity
        if num(o):
            st.assume(And(c.eqvf(o) == c.eqv(st, o), c.cid(z3.Function('nameOf', Z, Z)(o)) == c.cid(c.name_of(st, o))))
    named_states_are_states(c)
    c.age(st, [(k, o) for k, o, _ in m.cells] + [('*', m.table)] + [(k, None) for k in settled(c.prog)])
    c.snap_hook = lambda ctx, s: dict(zip(('started', 'ended', 'cur'), see(ctx, s, m)))
    return c, st, m


def the_none(c, st, m):
    """the placeholder state (named _UNINITIALISED_) of the machine"""
    for f in c.prog.classes[GSM]['fields']:
        if f['access'] & 8 or f['desc'] != 'L%s;' % ST:
            continue
        v = c.getf(st, m.ref, GSM, f['name'])
        if num(v) in c.info and c.info[num(v)].cls == NS and c.valid(st, c.cid(c.name_of(st, v)) == c.litid('_UNINITIALISED_')):
            return v
    return IntVal(0)


def any_table(c, st, m):
    """an arbitrary configuration: per state class a row or none, per event class a target or none"""
    has, val = z3.Const('tableHas', z3.ArraySort(Z, z3.BoolSort())), z3.Const('tableRow', ARR)
    st.heap['M.has'] = Store(c.base('M.has'), m.table, has)
    st.heap['M.val'] = Store(c.base('M.val'), m.table, val)
    m.has, m.val = has, val

    def key_axiom(ctx, s, mp, key, cls):
        # a stored key is a non-null object of its equality class
        s.assume(And(key > 0, ctx.eqvf(key) == cls))
        if num(mp) == num(m.table):
            row(ctx, s, m, cls)
    c.key_axiom = key_axiom
    return has, val


def row(c, st, m, cls):
    """the row of a state class; assumes what every row satisfies"""
    r = Select(m.val, cls)
    st.assume(Implies(Select(m.has, cls), r > 0))
    return Select(m.has, cls), r


def target(c, st, m, scls, ecls):
    """(mapped, target) in the arbitrary table, with what every entry satisfies: user states, the end state or the no-op state"""
    h, r = row(c, st, m, scls)
    rh, rv = Select(Select(c.arr(st, 'M.has'), r), ecls), Select(Select(c.arr(st, 'M.val'), r), ecls)
    st.assume(Implies(And(h, rh), Or(rv >= 0, rv == m.end, rv == m.noop)))
    nm = c.cid(c.name_of(st, rv))
    st.assume(Implies(And(h, rh, rv > 0), And(*[nm != c.litid(x) for x in RESERVED])))
    return simplify(And(h, rh, rv != 0)), simplify(rv)


def eq(c, st, a, b):
    """equal states"""
    return simplify(Or(a == b, And(a != 0, b != 0, c.eqcls(st, a) == c.eqcls(st, b))))


CONFIGURING = {'initialSate', 'when', 'receives', 'itEnds', 'itTransitionsTo', 'itDoesNotTransition', 'setStates', '<init>', '<clinit>'}


def settled(prog):
    """fields that only configuring code writes: nothing that runs later changes them"""
    written, calls, cfg = {}, {}, set()
    for cn, d in prog.classes.items():
        if not prog.is_repo(cn):
            continue
        for m in d['methods']:
            k = (cn, m['name'], m['desc'])
            for x in m['ins']:
                if x[0] == 'PUTFIELD':
                    o = prog.field_owner(x[1], x[2])
                    written.setdefault('F:%s.%s' % (o.rsplit('/', 1)[-1], x[2]), set()).add(k)
                elif x[0].startswith('INVOKE') and x[0] != 'INVOKEDYNAMIC':
                    calls.setdefault((x[1], x[2], x[3]), set()).add(k)
            if m['name'] in CONFIGURING or cn in (BLD, CFG):
                cfg.add(k)
    # private helpers called by configuring code only
    more = True
    while more:
        more = False
        for cn, d in prog.classes.items():
            if prog.is_repo(cn):
                for m in d['methods']:
                    k = (cn, m['name'], m['desc'])
                    if k not in cfg and m['access'] & 2 and calls.get(k) and calls[k] <= cfg and not m['name'].startswith('lambda$'):
                        cfg.add(k)
                        more = True
    allf = {'F:%s.%s' % (cn.rsplit('/', 1)[-1], f['name']) for cn, d in prog.classes.items() if prog.is_repo(cn) for f in d['fields'] if not f['access'] & 8}
    return {k for k in allf if written.get(k, set()) <= cfg}


def used(c, st, o, cls):
    """from here on, this configuration or builder may have been used before: what its setters do not deal with may be anything"""
    named, keys = settable(c, cls)
    mine = {num(o)}
    for k in keys:
        if k not in named:
            n = num(c.rd(st, k, o))
            if n is not None and n in c.info:
                mine.add(n)
    c.age(st, [(k, o) for k in keys if k in named], only=mine, fresh=True)


def settable(c, cls):
    """(the fields that the setters of a class deal with, its fields)"""
    d = c.prog.classes[cls]
    named, todo, seen = set(), [m for m in d['methods'] if m['name'].startswith(('with', 'set'))], set()
    while todo:
        m = todo.pop()
        if (m['name'], m['desc']) in seen:
            continue
        seen.add((m['name'], m['desc']))
        for x in m['ins']:
            if x[0] in ('GETFIELD', 'PUTFIELD'):
                named.add(c.fkey(c.prog.field_owner(x[1], x[2]), x[2]))
            elif x[0].startswith('INVOKE') and x[0] != 'INVOKEDYNAMIC' and x[1] == cls:
                todo += [q for q in d['methods'] if (q['name'], q['desc']) == (x[2], x[3])]
    return named, [c.fkey(cls, f['name']) for f in d['fields'] if not f['access'] & 8]


def reads(c, st, m, getters):
    """the machine's cells that these observers read"""
    got = set()

    def h(ctx, s, kind, ref, key, *a):
        if kind == 'get':
            got.add((key, num(ref)))
    old, c.access_hook = c.access_hook, h
    try:
        for g in getters:
            c.run_named(st.copy(), GSM, g, [m.ref], 0)
    finally:
        c.access_hook = old
    return [(k, o, d) for k, o, d in m.cells if (k, num(o)) in got]


def listener_cell(c, st, m):
    r = [(k, o, d) for k, o, d in m.cells if d == 'L%s;' % LSN]
    if len(r) != 1:
        raise Unsupported('%d listener cells' % len(r))
    return r[0]


def havoc_others(c, m, keep, tables=True):
    """rely: callbacks and other threads change anything but these cells, what only configuring code writes, and the tables"""
    fix = settled(c.prog) | ({'M.has', 'M.val', 'M.key'} if tables else set())

    def h(ctx, s):
        old = [(k, o, ctx.rd(s, k, o)) for k, o, _ in keep]
        ctx.default_havoc(s, fix)
        for k, o, v in old:
            ctx.wr(s, k, o, v)
    c.havoc_hook = h


def rely(old, new, end):
    """what other threads may do to (started, ended, current) between two steps: start it, let it change state, end it for good"""
    s0, e0, c0 = old
    s1, e1, c1 = new
    return And(Implies(s0 == 1, s1 == 1), Implies(And(s0 == 1, e0 == 1), And(e1 == 1, c1 == end)),
               Implies(s1 == 1, And((e1 == 1) == (c1 == end), c1 != 0)))


def interfere(c, st, m, cur=True):
    """one moment at which other threads ran; the observers' values then are kept in ghost 'moments'"""
    old = see(c, st, m)
    shake(c, st, m, {k for k, _, _ in m.cells if k not in {x[0] for x in m.obs}})
    new = see(c, st, m)
    st.assume(rely(old, new, m.end))
    if m.alone:
        # this thread is the one that processes events: others can only stop the machine
        st.assume(Or(new[2] == old[2], new[2] == m.end))
    st.assume(Implies(new[2] > 0, And(*[c.cid(c.name_of(st, new[2])) != c.litid(r) for r in RESERVED])))
    st.ghost['moments'] = st.ghost.get('moments', ()) + (tuple(new),)
    return new


def concurrent(c, st, m):
    """other threads run before every access to the machine's flags and current state that is made without holding the lock"""
    m.obs = reads(c, st, m, ('isStarted', 'isEnded', 'getCurrentState'))
    keys = {(k, num(o)) for k, o, _ in m.obs}

    def hook(ctx, s, kind, ref, key, *a):
        if kind == 'lock' and len(s.locks) == 1:
            s.ghost['held'] = tuple(interfere(ctx, s, m))
            return
        if kind == 'unlock' and not s.locks:
            step(ctx, s, s.ghost.get('held'))
            return
        if (key, num(ref)) not in keys or s.locks:
            return
        if kind in ('get', 'put', 'rmw'):
            s.ghost['held'] = tuple(interfere(ctx, s, m))
        elif kind == 'wrote':
            step(ctx, s, s.ghost.get('held'))

    def step(ctx, s, old):
        new = tuple(see(ctx, s, m))
        s.ghost['steps'] = s.ghost.get('steps', ()) + ((old, new),)
        s.ghost['moments'] = s.ghost.get('moments', ()) + (new,)
    c.access_hook = hook
    first = tuple(see(c, st, m))
    st.assume(Implies(first[0] == 1, And((first[1] == 1) == (first[2] == m.end), first[2] != 0)))
    st.ghost['moments'] = (first,)
    return first
