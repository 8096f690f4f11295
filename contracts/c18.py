"""C18: subsystems are started in order and stopped in reverse by the entry actions of the starting and stopping states"""
from app import *

ACTS = {'STARTING': (START, lambda a, i: i), 'STOPPING': (STOP, lambda a, i: a.n - 1 - i)}


def run(p):
    for exit in (True, False):
        for own in (False, True):
            if p.thorough or exit != own:
                p.unit('%s, %s' % ('exit on stop' if exit else 'restartable', 'the user\'s AppContext' if own else 'AbstractAppContext'), lambda e=exit, o=own: actions(p, e, o))

    def subsystems():
        c, st = p.ctx()
        c.throwing = ()
        ds = [m['desc'] for m in p.prog.classes[AAC]['methods'] if m['name'] == '<init>']
        if not set(ds) <= {'(Ljava/lang/String;)V', '(Ljava/lang/String;[Ljava/lang/String;)V'}:
            raise Unsupported('another constructor')
        for d in ds:
            x = c.new_object(st, AAC)
            ps = [c.param('name', st, False), c.param('args', st, False)]
            s = one(c.run_named_desc(st.copy(), AAC, '<init>', d, [x] + ps[:d.count(';')])).st
            v = c.observe(s, AAC, 'getSubsystems', x)
            n = one(c.invoke(s.copy(), Call('INVOKEINTERFACE', 'java/util/List', 'size', '()I', [v], None))).val
            p.oblige(c, s, 'without further settings there are no subsystems', n == 0)
            l1, l2 = c.param('list1', s), c.param('list2', s)
            for l in (l1, l2):
                o = one(c.run_named(s, AAC, 'withSubsystems', [x, l], 1))
                s = o.st
                p.oblige(c, s, 'withSubsystems gives the context', o.val == x)
                p.oblige(c, s, 'the subsystems are those last set', c.observe(s, AAC, 'getSubsystems', x) == l)
    p.unit('AbstractAppContext', subsystems)
    p.assume('the list of subsystems has no null elements and does not change while the app runs; an AppContext of the user\'s own always gives the same list')
    p.assume('firing an event on the app\'s machine returns without an exception (C03, C05)')
    p.assume('that entering a lifecycle state runs its entry actions once is C01 and C12, which transitions the app makes C17')


def actions(p, exit, own):
    c, st, a = app(p, exit, own)
    na = c.nalloc
    c.throwing = ('java/lang/Exception', 'java/lang/Error')
    for e in a.made:
        if e.label in (START, STOP):
            p.fail(c, st, 'the constructor starts and stops nothing', e.label)
    for name, (label, order) in ACTS.items():
        cov = set()
        for o in [o for _, ev in hook_events(c, st, a, name, 'onEntry') for o in run_hook(c, st.copy(), a, name, 'onEntry', ev)]:
            def failed(x):
                if c.info[num(x.exc)].cls == 'java/lang/Error':
                    return [Opt((FIRE,)), END(any=True)]      # not an Exception: not specified
                return [FIRES(c, st, a, 'error')]
            body = lambda i: [E(label, Select(a.subs, order(a, i)), [a.ctx], on_exc=failed)]
            p.match(c, o, [FOR(0, a.n, body), FIRES(c, st, a, 'complete')], name)
            unchanged(p, c, st, o.st, name, na)
            cov.add(tuple(labels(c, o.st)))
        p.cover('%s: all start, one throws, an error' % name, len(cov) >= 3)
    for name in c17.NAMES:
        for hook in ('onEntry', 'onExit'):
            if hook == 'onEntry' and name in ACTS:
                continue
            n = 0
            for o in [o for _, ev in hook_events(c, st, a, name, hook) for o in run_hook(c, st.copy(), a, name, hook, ev)]:
                p.match(c, o, [Opt((FIRE, DOWN)), END(any=True)], '%s %s starts and stops nothing' % (name, hook))
                unchanged(p, c, st, o.st, '%s %s' % (name, hook), na, ('Latch.count',))
                n += 1
            p.cover('%s %s' % (name, hook), n)
    # nor do the calls on the app itself
    x = c.param('problem', st, False)
    c.boundary[(GSM, 'start')] = lambda ctx, s, k: [Out(s, 'ret')] if num(k.args[0]) == num(a.m) else None
    for nm, args in (('start', []), ('stop', []), ('error', [x])):
        n = 0
        for o in c.run_named(st.copy(), AAS, nm, [a.ref] + args, len(args)):
            for e in o.st.log:
                if isinstance(e, Entry) and e.label in (START, STOP):
                    p.fail(c, o.st, nm + '() itself starts and stops nothing', e.label)
            unchanged(p, c, st, o.st, nm, na, ('Latch.count',))
            n += 1
        p.cover(nm, n)
    rest(p, c, st, a, na, ('start', 'stop', 'error'), (START, STOP))
