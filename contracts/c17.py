"""C17: the application lifecycle"""
from machine import *
U = SVC + 'LifecycleStateMachineUtil'
NAMES = ['UNINITIALISED', 'STARTING', 'STARTED', 'STOPPING', 'STOPPED']
FACT = ['newUnitialisedState', 'newStartingState', 'newStartedState', 'newStoppingState', 'newStoppedState']
EVN = ['start', 'complete', 'stop', 'error']
EVF = ['evtStart', 'evtComplete', 'evtStop', 'evtError']
TO = [[1, None, None, None], [None, 2, None, 4], [None, None, 3, 4], [None, 4, None, 4], [1, None, 5, None]]


def events(c, st):
    r = []
    for f in EVF:
        v = c.getstatic(st, U, f, 'L%s;' % EV)
        r.append(v)
    return r


def run(p):
    def evs():
        c, st = p.ctx()
        es = events(c, st)
        for i, e in enumerate(es):
            p.oblige(c, st, '%s is an event' % EVF[i], e != 0)
            p.oblige(c, st, 'the name of ' + EVF[i], c.cid(c.name_of(st, e)) == c.litid(EVN[i]))
            for j in range(i):
                p.oblige(c, st, '%s and %s are different events' % (EVF[i], EVF[j]), c.eqcls(st, e) != c.eqcls(st, es[j]))
        for m in p.prog.classes[U]['methods']:
            for x in m['ins']:
                if x[0] == 'PUTSTATIC' and m['name'] != '<clinit>':
                    p.fail(c, st, 'the events are constants', 'written in ' + m['name'])
    p.unit('the lifecycle events', evs)

    for i in range(5):
        def fact(i=i):
            c, st = p.ctx()
            a = c.param('actions', st)
            got = []

            def append(ctx, s, k):
                s.log.append(Entry('State.appendEntryActions', k.args[0], k.args[1:], {}, k.where))
                return [Out(s, 'ret')]
            # the contract of appendEntryActions/appendExitActions is C12
            for o in (ST, NS):
                c.boundary[(o, 'appendEntryActions')] = append
            cov = 0
            for r in c.run_named(st, U, FACT[i], [a], 1):
                if r.kind != 'ret':
                    p.fail(c, r.st, FACT[i], 'throws ' + thrown(c, r))
                    continue
                cov += 1
                s = r.st
                n = num(r.val)
                p.oblige(c, s, 'a new state', n is not None and n < 0)
                p.oblige(c, s, 'with its documented name', c.cid(c.name_of(s, r.val)) == c.litid(NAMES[i]))
                if len(s.log) > 1 or any(not isinstance(x, Entry) for x in s.log):
                    s.flags.add('appended piece by piece')
                # appending none is the same as appending an empty list of actions
                p.match(c, r, [IFS(c.rd(s, 'A.len', a) == 0, [Opt(['State.appendEntryActions'])], [E('State.appendEntryActions', r.val, [a])])],
                        'exactly the given entry actions are appended')
            p.cover('returns', cov)
        p.unit('LifecycleStateMachineUtil.' + FACT[i], fact)

    def table():
        c, st, m = machine(p, listener=False)
        es = events(c, st)
        ec = [c.eqcls(st, e) for e in es]
        S = [state_param(c, st, 's%d' % i) for i in range(5)]
        sc = [c.eqcls(st, s) for s in S]
        st.assume(z3.Distinct(*sc))
        c.throwing = ()
        ends = c.eqcls(st, m.end)
        cov = 0
        for r in c.run_named(st, U, 'configureAppStateMachine', [m.ref] + S, 6):
            p.match(c, r, [], 'no callback')
            if r.kind != 'ret':
                continue
            cov += 1
            s = r.st
            for i in range(5):
                for j in range(4):
                    h, v = lookup(c, s, m.table, sc[i], ec[j])
                    t = TO[i][j]
                    nm = '%s receives %s' % (NAMES[i], EVN[j])
                    if t is None:
                        p.oblige(c, s, nm + ': not mapped', Not(h))
                    elif t == 5:
                        p.oblige(c, s, nm + ': ends', And(h, v == m.end))
                    else:
                        p.oblige(c, s, nm + ': to ' + NAMES[t], And(h, v == S[t]))
            x, y = Int('anyState'), Int('anyEvent')
            h, v = lookup(c, s, m.table, x, y)
            p.oblige(c, s, 'no other mapping', Implies(Or(And(*[x != k for k in sc]), And(*[y != k for k in ec])), Not(h)))
            p.oblige(c, s, 'every mapping has a target: the machine is complete (and can be started, C11)', Implies(h, v != 0))
            # UNINITIALISED is initial: whatever the table, starting the machine enters it, unless it is rejected as incomplete (C11)
            q0 = s.copy()
            any_table(c, q0, m)
            row(c, q0, m, sc[0])
            q0.assume(Select(m.has, sc[0]))
            target(c, q0, m, sc[0], c.eqcls(q0, m.imm))
            c.havoc_hook = lambda ctx, z: None
            n = 0
            for q in c.run_named(q0, GSM, 'start', [m.ref], 0):
                if q.kind != 'ret':
                    p.oblige(c, q.st, 'a rejected start calls nothing', not labels(c, q.st))
                    continue
                n += 1
                ent = [e for e in q.st.log if isinstance(e, Entry) and e.label == 'State.onEntry']
                p.oblige(c, q.st, 'UNINITIALISED is the initial state', And(BoolVal(len(ent) == 1), ent[0].recv == S[0]) if ent else BoolVal(False), precise=bool(ent))
            p.cover('started', n)
        p.cover('configured', cov)
    p.unit('LifecycleStateMachineUtil.configureAppStateMachine', table)
    p.assume('NamedState.appendEntryActions is used by its contract (C12)')
