"""C22: LoggingStateMachineListener"""
from proof import *
CLS = P + 'LoggingStateMachineListener'


def message(c, p, e):
    """pieces of the formatted message of a Logger call: literals and (kind, term)"""
    desc = e.snap['desc']
    ad, _ = parse_desc(desc)
    if not ad or ad[0] != 'Ljava/lang/String;':
        raise Unsupported('logger call ' + desc)
    fmt = c.pieces(None, e.args[0])
    args = list(e.args[1:])
    if ad[-1] == '[Ljava/lang/Object;':
        if 'array' not in e.snap:
            raise Unsupported('array of log arguments')
        args[-1:] = e.snap['array']
    if not args:
        return list(fmt), None
    if any(not isinstance(x, str) for x in fmt):
        return list(fmt), 'the message pattern itself contains text that is not constant'
    f = ''.join(fmt)
    out = []
    while '{}' in f and args:
        i = f.index('{}')
        out.append(f[:i])
        out.append(args.pop(0))
        f = f[i + 2:]
    out.append(f)
    res = []
    for x in out:
        if isinstance(x, str):
            res.append(x)
        else:
            res += list(c.to_pieces(None, x, 'Lx;'))
    return res, None


def run(p):
    for begin in (True, False):
        for ctor in (1, 0):
            def unit(begin=begin, ctor=ctor):
                c, st = p.ctx()
                c.log_logger = True
                c.boundary[('org/apache/logging/log4j/Logger', 'isInfoEnabled')] = lambda c, st, k: [Out(st, 'ret', IntVal(1))]
                name = Int('listenerName')
                st.assume(name >= 0)
                c.note_type(name, 'Ljava/lang/String;')
                f, e, t = [c.param(n, st) for n in ('from', 'event', 'to')]
                l = c.new_object(st, CLS)
                named = And(name != 0, c.cid(name) != c.litid('')) if ctor else BoolVal(False)
                cov = set()
                for o in c.run_named(st, CLS, '<init>', [l, name] if ctor else [l], ctor):
                    p.match(c, o, [], 'constructor')
                    if o.kind != 'ret':
                        continue
                    c.age(o.st, fresh=True)
                    for r in c.run_named(o.st, CLS, 'onStateChangeBegin' if begin else 'onStateChangeEnd', [l, f, e, t], 3):
                        if r.kind != 'ret':
                            p.fail(c, r.st, 'notification', 'throws ' + thrown(c, r))
                            continue
                        log = r.st.log
                        if [getattr(x, 'label', 'loop') for x in log] != ['Logger.info']:
                            p.fail(c, r.st, 'exactly one message at info level', 'calls %s' % labels(c, r.st))
                            continue
                        ps, bad = message(c, p, log[0])
                        if bad:
                            p.fail(c, r.st, 'message', bad)
                            continue
                        dyn = [x for x in ps if not isinstance(x, str)]
                        want = [c.name_of(r.st, x) for x in ((f, e, t) if begin else (t,))]

                        def same(xs, ys):
                            return And(*[a[1] == b if a[0] in ('s', 'o') else BoolVal(False) for a, b in zip(xs, ys)]) if len(xs) == len(ys) else BoolVal(False)
                        p.oblige(c, r.st, 'without a name: exactly the names, in order', Implies(Not(named), same(dyn, want)))
                        alts = [And(dyn[i][1] == name, same(dyn[:i] + dyn[i + 1:], want)) for i in range(len(dyn)) if dyn[i][0] in ('s', 'o')]
                        p.oblige(c, r.st, 'with a name: its name and exactly the names, in order', Implies(named, Or(*alts) if alts else BoolVal(False)))
                        p.oblige(c, r.st, 'the text has no "null"', 'null' not in ''.join(x for x in ps if isinstance(x, str)))
                        if c.feasible(r.st, named):
                            cov.add('named')
                        if c.feasible(r.st, Not(named)):
                            cov.add('unnamed')
                if ctor:
                    p.cover('named', 'named' in cov)
                p.cover('unnamed', 'unnamed' in cov)
            p.unit('LoggingStateMachineListener.%s (constructor with %d arguments)' % ('onStateChangeBegin' if begin else 'onStateChangeEnd', ctor), unit)
    p.assume('log4j Logger.info(pattern, args) replaces each {} by the text of the next argument')
