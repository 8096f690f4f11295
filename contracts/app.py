"""an AbstractAppService as its constructor makes it, its machine and its lifecycle states"""
from machine import *
import c17

AAS, AAC, CTXI, SUB = SVC + 'AbstractAppService', SVC + 'AbstractAppContext', SAPI + 'AppContext', SAPI + 'Subsystem'
START, STOP, FIRE = 'Subsystem.start', 'Subsystem.stop', 'StateMachine.fire'
AWAIT, DOWN = 'Latch.await', 'Latch.countDown'


class A:
    """ref: the app; m: its machine; ctx: its context; subs, n: the configured subsystems; ev, s: lifecycle events and states; exit: the mode"""


def context(c, st, a, own):
    """the app's context, with an arbitrary list of subsystems: an AbstractAppContext, or the user's own AppContext"""
    a.lst = c.param('subsystemList', st)
    c.note_type(a.lst, 'Ljava/util/List;')
    a.n, a.subs = Int('subsystemCount'), z3.Const('subsystems', ARR)
    i = Int('i')
    st.assume(And(a.n >= 0, a.n < 2 ** 20))
    st.assume(ForAll([i], Implies(And(i >= 0, i < a.n), Select(a.subs, i) > 0), patterns=[Select(a.subs, i)]))
    st.heap['L.arr'] = Store(c.arr(st, 'L.arr'), a.lst, a.subs)
    c.wr(st, 'L.len', a.lst, a.n)
    # the list does not change while the app runs (stated assumption)
    c.nohavoc |= {'L.arr', 'L.len'}
    if own:
        a.ctx = c.param('appContext', st)
        c.note_type(a.ctx, 'L%s;' % CTXI)
        vals = {'getSubsystems': a.lst, 'getAppName': c.param('appName', st, False), 'getAppThreadName': c.param('threadName', st), 'getInitArgs': c.param('initArgs', st, False)}
        for nm, v in vals.items():
            c.boundary[(CTXI, nm)] = lambda ctx, s, k, v=v: [Out(s, 'ret', v)]
        return st
    a.ctx = c.new_object(st, AAC)
    st = one(c.run_named_desc(st, AAC, '<init>', '(Ljava/lang/String;[Ljava/lang/String;)V', [a.ctx, c.param('appName', st, False), c.param('initArgs', st, False)])).st
    for nm, v in (('withSubsystems', a.lst), ('withAppThreadName', c.param('threadName', st))):
        st = one(c.run_named(st, AAC, nm, [a.ctx, v], 1)).st
    return st


def app(p, exit, own=False):
    """(ctx, state, A)"""
    c, st = p.ctx()
    c.throwing = ()
    c.havoc_hook = lambda ctx, z: None      # nothing else runs while the app is constructed
    a = A()
    a.exit = exit
    st = context(c, st, a, own)
    a.first = c.nalloc
    a.ref = c.new_object(st, AAS)
    tables = []

    def set_states(ctx, s, k):
        if not any(x.eq(k.args[1]) for x in tables):
            tables.append(k.args[1])
        return None
    for o in (EPS, DES, DDS):
        c.boundary[(o, 'setStates')] = set_states
    conf = []
    for nm in ('initialSate', 'when', 'receives', 'itTransitionsTo', 'itEnds', 'itDoesNotTransition'):
        def seen(ctx, s, k, nm=nm):
            if k.where and not (conf and conf[-1][2] is k):
                conf.append((nm, k.args[1:], k))
            return None
        for o in (SM, GSM):
            c.boundary[(o, nm)] = seen
    o = one(c.run_named(st, AAS, '<init>', [a.ref, a.ctx, IntVal(1 if exit else 0)], 2))
    if o.kind != 'ret':
        raise Unsupported('the constructor throws ' + thrown(c, o))
    st = o.st
    ms = [k for k, i in c.info.items() if i.cls == GSM]
    if len(ms) != 1 or len(tables) != 1 or num(tables[0]) not in c.info:
        raise Unsupported('the app has %d machines, %s' % (len(ms), tables))
    a.m, a.table = IntVal(ms[0]), tables[0]
    a.made = [e for e in st.log if isinstance(e, Entry)]
    st.log = []
    # the lifecycle events and states
    a.ev = dict(zip(c17.EVN, c17.events(c, st)))
    a.end = c.observe(st, GSM, 'getEndState', a.m)
    a.s, a.conf = {}, []
    for nm, args, k in conf:
        # a call through the interface is seen twice
        if a.conf and a.conf[-1][0] == nm and all(x.eq(y) for x, y in zip(a.conf[-1][1], args)):
            continue
        a.conf.append((nm, args))
        if nm in ('initialSate', 'when', 'itTransitionsTo'):
            x = simplify(args[0])
            if num(x) is None or num(x) not in c.info:
                raise Unsupported('a lifecycle state is not known: %s' % str(x)[:200])
            n = [n for n in c17.NAMES if c.valid(st, c.cid(c.name_of(st, x)) == c.litid(n), quant=False)]
            if not n or n[0] in a.s and not a.s[n[0]].eq(x):
                raise Unsupported('two lifecycle states have one name, or another one')
            a.s[n[0]] = x
    if set(a.s) != set(c17.NAMES):
        raise Unsupported('the lifecycle states found are ' + ' '.join(sorted(a.s)))
    # every operation of the app leaves what the actions use as it was (the obligations of unchanged()): so do callbacks

    def fire(ctx, s, k):
        if num(k.args[0]) != num(a.m):
            return None
        s.log.append(Entry(FIRE, k.args[0], k.args[1:], ctx.snapshot(s), k.where))
        return [Out(s, 'ret')]
    for o in (SM, GSM):
        c.boundary[(o, 'fire')] = fire
        for nm in ('isStarted', 'isEnded', 'getCurrentState'):
            def see(ctx, s, k):
                if num(k.args[0]) != num(a.m):
                    return None
                return [Out(s, 'ret', ctx.fresh_of(s, k.rdesc, k.name))]
            c.boundary[(o, nm)] = see

        def size(ctx, s, k):
            if num(k.args[0]) != num(a.m):
                return None
            n = ctx.fresh_of(s, k.rdesc, k.name)
            s.assume(n >= 0)
            return [Out(s, 'ret', n)]
        c.boundary[(o, 'getEventQueueSize')] = size
    return c, st, a


def shown(c, a, started, ended, state):
    """from now on the machine shows itself so"""
    for o in (SM, GSM):
        for nm, v in (('isStarted', IntVal(int(started))), ('isEnded', IntVal(int(ended))), ('getCurrentState', state)):
            c.boundary[(o, nm)] = lambda ctx, s, k, v=v: [Out(s, 'ret', v)] if num(k.args[0]) == num(a.m) else None


def FIRES(c, st, a, name):
    """this lifecycle event, or an equal one, is fired"""
    return E(FIRE, a.m, [None], check=lambda e: [('fires ' + name, And(e.args[0] != 0, c.eqcls(st, e.args[0]) == c.eqcls(st, a.ev[name])))])


def hook_events(c, st, a, name, hook):
    """the events with which the app's machine can enter or leave a state, by the documented lifecycle (C17)"""
    i = c17.NAMES.index(name)
    if hook == 'onExit':
        ks = [j for j, t in enumerate(c17.TO[i]) if t is not None]
    else:
        ks = sorted({j for r in c17.TO for j, t in enumerate(r) if t == i})
    r = [(c17.EVN[j], a.ev[c17.EVN[j]]) for j in ks]
    return r or [('immediate', c.observe(st, GSM, 'getImmediateEvent', a.m))]


def run_hook(c, st, a, name, hook, ev, machine=None):
    return c.run_named(st, NS, hook, [a.s[name], ev, machine if machine is not None else a.m], 2)


def rest(p, c, st, a, na, done, bad=()):
    """every other method that the app offers changes nothing either (listeners of the machine are the machine's)"""
    for m in c.prog.classes[AAS]['methods']:
        if m['name'] in done or m['name'] == '<init>' or not m['access'] & 5 or m['access'] & 0x408:
            continue
        args = [c.param('arg%d' % i, st, False) if d[0] in 'L[' else c.fresh_of(st, d, 'arg') for i, d in enumerate(parse_desc(m['desc'])[0])]
        for o in c.call_method(st.copy(), m, [a.ref] + args):
            for e in o.st.log:
                if isinstance(e, Entry) and e.label in bad:
                    p.fail(c, o.st, m['name'], 'does %s' % e.label)
            unchanged(p, c, st, o.st, m['name'], na, tuple(k for k in o.st.heap if k.startswith('F:GenericStateMachine.')))


def unchanged(p, c, st, s, what, na, leave=()):
    """nothing that existed before is different, apart from the logs"""
    r = Int('anyObject')
    for k in sorted(set(s.heap)):
        if k in leave or k.startswith('T.') or k.startswith('It.'):
            continue
        y = s.heap[k]
        x = st.heap.get(k, c.__dict__.get('init', {}).get(k)) if k.startswith('S:') else c.arr(st, k)
        if x is None:
            continue      # a static of a library class, read for the first time
        if hasattr(y, 'eq') and y.eq(x):
            continue
        if not z3.is_array(y):
            p.oblige(c, s, '%s: %s is left as it was' % (what, k), y == x, precise=False)
        else:
            p.oblige(c, s, '%s: %s is left as it was' % (what, k), Select(y, r) == Select(x, r), [r >= -na], precise=False)
