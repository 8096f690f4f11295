"""C15: HandleExceptionAction.execute"""
from proof import *
CLS = P + 'HandleExceptionAction'


def run(p):
    def unit():
        c, st = p.ctx()
        act, hdl, ev, sm = [c.param(n, st) for n in ('action', 'handler', 'event', 'machine')]
        a = c.new_object(st, CLS)
        seen = set()
        for o in c.run_named(st, CLS, '<init>', [a, act, hdl], 2):
            if o.kind != 'ret':
                p.oblige(c, o.st, 'constructing does not throw', False)
                continue
            p.match(c, o, [], 'constructor')
            c.age(o.st, fresh=True)
            for r in c.run_named(o.st, CLS, 'execute', [a, ev, sm], 2):
                def handled(e):
                    n = num(e.exc)
                    cl = r.st.exct[n][0]
                    if p.prog.subtype(cl, EXC):
                        seen.add('exception')
                        return [E('HandleExceptionAction$ExceptionHandler.onException', hdl, [ev, sm, e.exc]), END()]
                    seen.add('error')
                    return [END(exc=e.exc)]
                p.match(c, r, [E('StateAction.execute', act, [ev, sm], on_exc=handled)], 'execute')
                if r.kind == 'ret' and len(r.st.log) == 1:
                    seen.add('normal')
                if r.kind == 'exc' and len(r.st.log) == 2:
                    seen.add('handler throws')
        for k in ('normal', 'exception', 'error', 'handler throws'):
            p.cover(k, k in seen)
    p.unit('HandleExceptionAction.execute', unit)
