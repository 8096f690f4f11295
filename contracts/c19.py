"""C19: start, stop and error are gated by the app's state; the first start waits for a latch that opens exactly when the app is over

The machine of the app is used through its contracts: what it shows of itself (started, state) is every combination it can show, firing
is a call.  The latch is opened in the stopped state's actions only, so: start() returns iff the app is over."""
from app import *

S_START = 'StateMachine.start'
# (what the machine shows): before it is started, just started, in each state, ended
SHOWN = [('not started', 0, 0, None), ('just started', 1, 0, None)] + [(n, 1, 0, n) for n in c17.NAMES] + [('ended', 1, 1, '_END_')]


def run(p):
    for exit in (True, False):
        for own in (False, True):
            if p.thorough or exit != own:
                tag = 'exit on stop' if exit else 'restartable'
                p.unit(tag + (', the user\'s AppContext' if own else ', AbstractAppContext'), lambda e=exit, o=own: both(p, e, o))
    p.assume('the machine that an app runs on behaves as C01-C05 and C17 say; what it shows of itself during one call of start() or stop() is one moment\'s (a stop() that races with a change of state is decided by either)')
    p.assume('the thread that called start() is not interrupted; CountDownLatch.await() returns exactly when the count has reached 0')


def both(p, exit, own):
    c, st, a = app(p, exit, own)
    na = c.nalloc
    c.throwing = ('java/lang/Exception', 'java/lang/Error')

    def begin(ctx, s, k):
        if num(k.args[0]) != num(a.m):
            return None
        s.log.append(Entry(S_START, k.args[0], k.args[1:], ctx.snapshot(s), k.where))
        return [Out(s, 'ret')]
    for o in (SM, GSM):
        c.boundary[(o, 'start')] = begin

    def wait(ctx, s, k):
        s.log.append(Entry(AWAIT, k.args[0], k.args[1:], {}, k.where))
        return [Out(s, 'ret', IntVal(1) if k.rdesc == 'Z' else None)]
    c.boundary[('java/util/concurrent/CountDownLatch', 'await')] = wait
    latch = calls(p, c, st, a, na)
    if latch is None:
        return
    p.oblige(c, st, 'the latch is closed when the app is made', And(c.rd(st, 'Latch.count', latch) > 0, BoolVal(not [e for e in a.made if e.label == DOWN])))
    p.oblige(c, st, 'the latch is the app\'s own', BoolVal(num(latch) is not None and -num(latch) > a.first and num(latch) not in {num(x) for x in c.statics}))
    rest(p, c, st, a, na, ('start', 'stop', 'error'), (S_START, AWAIT, DOWN, FIRE))
    lifecycle(p, c, st, a)
    hooks(p, c, st, a, na, latch)


def lifecycle(p, c, st, a):
    """the machine is configured as C17 says for the states found"""
    names = {num(v): k for k, v in a.s.items()}
    got, s, e = set(), None, None
    for nm, args in a.conf:
        if nm in ('initialSate', 'when'):
            s, e = names.get(num(args[0])), None
            if nm == 'initialSate':
                p.oblige(c, st, 'the app begins uninitialised', BoolVal(s == 'UNINITIALISED'), precise=False)
        elif nm == 'receives':
            e = [k for k, v in a.ev.items() if c.valid(st, v == args[0], quant=False)]
        else:
            got.add((s, e[0] if e else None, names.get(num(args[0])) if args else nm))
    want = set()
    for i, r in enumerate(c17.TO):
        for j, t in enumerate(r):
            if t is not None:
                want.add((c17.NAMES[i], c17.EVN[j], 'itEnds' if t == 5 else c17.NAMES[t]))
    p.oblige(c, st, 'the app\'s machine is configured with the documented lifecycle: %s' % sorted(map(str, got ^ want)), BoolVal(got == want), precise=False)


def calls(p, c, st, a, na):
    x = c.param('problem', st, False)
    latches = {}
    cov = set()
    for what, started, ended, name in SHOWN:
        state = IntVal(0) if name is None else a.end if name == '_END_' else a.s[name]
        shown(c, a, started, ended, state)
        for op, args in (('start', []), ('stop', []), ('error', [x])):
            if op == 'error':
                spec = [FIRES(c, st, a, 'error')]
            elif op == 'start' and not started:
                spec = [E(S_START, a.m, []), FIRES(c, st, a, 'start'), E(AWAIT, None, [])]
            elif op == 'start' and not a.exit and name == 'STOPPED':
                spec = [FIRES(c, st, a, 'start')]
            elif op == 'stop' and (name == 'STARTED' or not a.exit and name == 'STOPPED'):
                spec = [FIRES(c, st, a, 'stop')]
            elif op == 'stop' and a.exit and name == 'STOPPED':
                spec = []
            else:
                spec = None
            tag = '%s(), %s' % (op, what)
            if started and name is None and op == 'stop':
                pass
            for o in c.run_named(st.copy(), AAS, op, [a.ref] + args, len(args)):
                unchanged(p, c, st, o.st, tag, na)
                if spec is None:
                    p.oblige(c, o.st, tag + ': fires nothing', BoolVal(not labels(c, o.st)))
                    p.oblige(c, o.st, tag + ': IllegalStateException', BoolVal(o.kind == 'exc' and exc_class(o) == ISE))
                else:
                    p.match(c, o, spec, tag)
                    for e in o.st.log:
                        if isinstance(e, Entry) and e.label == AWAIT:
                            latches[num(e.recv)] = e.recv
                cov.add(tag)
    p.cover('all calls return', len(cov) == 3 * len(SHOWN))
    if len(latches) != 1 or list(latches)[0] is None:
        raise Unsupported('start() waits for %d latches' % len(latches))
    return list(latches.values())[0]


def hooks(p, c, st, a, na, latch):
    """what the actions of the lifecycle states do to the latch"""
    for o in (SM, GSM):
        for nm in ('isStarted', 'isEnded', 'getCurrentState'):
            c.boundary[(o, nm)] = lambda ctx, s, k: [Out(s, 'ret', ctx.fresh_of(s, k.rdesc, k.name))] if num(k.args[0]) == num(a.m) else None
    stopc = c.eqcls(st, a.ev['stop'])
    mine = (DOWN, FIRE, AWAIT, S_START)
    closed = num(simplify(c.rd(st, 'Latch.count', latch)))
    if closed is None:
        raise Unsupported('the count of the latch')
    # how often the latch is counted down: on entry, and on exit for each event
    downs = {}
    for name in c17.NAMES:
        for hook in ('onEntry', 'onExit'):
            for en, ev in hook_events(c, st, a, name, hook):
                tag, n = '%s %s with %s' % (name, hook, en), 0
                for o in run_hook(c, st.copy(), a, name, hook, ev):
                    n += 1
                    s = o.st
                    if name != 'STOPPED':
                        for r in flat(s.log):
                            if r.label == DOWN:
                                p.fail(c, s, tag, 'the latch is opened although the app is not over')
                        continue
                    p.oblige(c, s, tag + ': returns', BoolVal(o.kind == 'ret'))
                    es = [e for e in s.log if isinstance(e, Entry) and e.label in mine]
                    if len(es) != len([e for e in flat(s.log) if e.label in mine]):
                        raise Unsupported('calls in a loop of ' + tag)
                    fires = [e for e in es if e.label == FIRE]
                    k = len([e for e in es if e.label == DOWN and e.recv.eq(latch)])
                    downs.setdefault((hook, en), set()).add(k)
                    p.oblige(c, s, tag + ': waits for nothing', BoolVal(not [e for e in es if e.label in (AWAIT, S_START)]))
                    if hook == 'onEntry' and a.exit:
                        p.oblige(c, s, tag + ' fires stop once', And(BoolVal(len(fires) == 1), *[And(e.recv == a.m, e.args[0] != 0, c.eqcls(s, e.args[0]) == stopc) for e in fires]))
                    else:
                        p.oblige(c, s, tag + ' fires nothing', BoolVal(not fires))
                    unchanged(p, c, st, s, tag, na)
                p.cover(tag, n)
    entry = [k for (h, _), v in downs.items() if h == 'onEntry' for k in v]
    stop = min(downs['onExit', 'stop'])
    if a.exit:
        # entering the stopped state opens the latch, or leaving it for the stop event that entering it fires
        p.oblige(c, st, 'the latch is open once the app is over', BoolVal(min(entry) + stop >= closed))
    else:
        p.oblige(c, st, 'entering the stopped state leaves the latch closed: the app can be restarted', BoolVal(max(entry) == 0))
        p.oblige(c, st, 'restarting leaves the latch closed', BoolVal(max(downs['onExit', 'start']) == 0))
        p.oblige(c, st, 'the latch is open once the app is over', BoolVal(stop >= closed))


def flat(log):
    for e in log:
        if isinstance(e, Entry):
            yield e
        else:
            for _, lg, _ in e.paths:
                yield from flat(lg)
