"""Obligations, sequence specifications over boundary calls, and the object set-ups shared by the contracts."""
import os
import pickle
import signal
import tempfile
import time
import z3
from z3 import And, Or, Not, Implies, If, Int, Ints, IntVal, Select, Store, BoolVal, simplify, ForAll
import engine, lib
from engine import (Ctx, State, Entry, LoopRec, Unsupported, Budget, Out, num, Z, ARR, EXC, ERR, THR, RTE, NPE, ISE, IMIN, IMAX, parse_desc,
                    hasq, is_true, is_false)

P = 'com/webotech/statemachine/'
API, STR, SVC, SAPI, UTIL = P + 'api/', P + 'strategy/', P + 'service/', P + 'service/api/', P + 'util/'
GSM, BLD = P + 'GenericStateMachine', P + 'GenericStateMachine$Builder'
NS, NSE = P + 'NamedState', P + 'NamedStateEvent'
FAC, CFG = STR + 'EventProcessingStrategyFactory', STR + 'EventProcessingStrategyFactory$Config'


class Ob:
    def __init__(self, unit, name, status, t=0.0, detail='', model=None, precise=True):
        self.unit, self.name, self.status, self.t, self.detail, self.model, self.precise = unit, name, status, t, detail, model, precise

    def json(self):
        d = {'unit': self.unit, 'obligation': self.name, 'status': self.status, 'seconds': round(self.t, 3)}
        if self.detail:
            d['detail'] = self.detail[:3000]
        if self.model:
            d['model'] = self.model[:3000]
        return d


class Proof:
    """collects the obligations of one property"""
    age_statics = True      # statics may hold what any earlier use of the library left there


    def __init__(self, prog, budget=240, thorough=False):
        self.prog, self.obs, self.thorough = prog, [], thorough
        self.end = self.uend = time.time() + budget
        self.cur = '-'
        self.under_contract = set()
        self.libuse = set()
        self.queries, self.stime = 0, 0.0
        self.ctxs = []
        self.smt2 = []
        self.assumed = []
        self.notes = []
        self.par, self.kids, self.done = int(os.environ.get('VERIF_PAR', '6')), [], []

    # ---- running
    def unit(self, name, f, budget=None):
        """one unit of the proof, in a process of its own: it must not change anything the others read"""
        if self.par < 2:
            return self.unit1(name, f, budget)
        while len(self.kids) >= self.par:
            self.reap()
        fd, path = tempfile.mkstemp()
        os.close(fd)
        pid = os.fork()
        if pid == 0:
            try:
                self.obs, self.under_contract, self.libuse, self.smt2, self.assumed, self.notes = [], set(), set(), [], [], []
                self.queries, self.stime = 0, 0.0
                self.unit1(name, f, budget)
                with open(path, 'wb') as w:
                    pickle.dump((self.obs, self.under_contract, self.libuse, self.smt2, self.assumed, self.notes, self.queries, self.stime), w)
                os._exit(0)
            except BaseException:
                os._exit(3)
        self.kids.append((pid, path, name, len(self.done)))
        self.done.append(None)

    def reap(self):
        while True:
            for k in self.kids:
                p, _ = os.waitpid(k[0], os.WNOHANG)
                late = not p and time.time() > self.end + 60
                if late:
                    os.kill(k[0], signal.SIGKILL)
                    os.waitpid(k[0], 0)
                if p or late:
                    self.kids.remove(k)
                    try:
                        with open(k[1], 'rb') as r:
                            self.done[k[3]] = pickle.load(r)
                    except (EOFError, pickle.UnpicklingError):
                        self.done[k[3]] = ([Ob(k[2], 'within the verifier\'s reach', 'undecided', detail='the verifier broke off')], set(), set(), [], [], [], 0, 0.0)
                    os.unlink(k[1])
                    return
            time.sleep(0.02)

    def join(self):
        """the units' results"""
        while self.kids:
            self.reap()
        for obs, uc, lu, smt2, assumed, notes, q, t in self.done:
            self.obs += obs
            self.under_contract |= uc
            self.libuse |= lu
            self.smt2 += smt2[:max(0, 400 - len(self.smt2))]
            for a in assumed:
                self.assume(a)
            self.notes += notes
            self.queries += q
            self.stime += t
        self.done = []

    def unit1(self, name, f, budget=None):
        self.cur = name
        self.ctxs = []
        n0 = len(self.obs)
        self.uend = min(self.end, time.time() + budget) if budget else self.end
        try:
            f()
            if len(self.obs) == n0:
                self.obs.append(Ob(name, 'the unit has obligations', 'undecided', detail='no obligation was generated'))
        except Unsupported as e:
            self.obs.append(Ob(name, 'within the verifier\'s reach', 'undecided', detail='unsupported: %s' % e))
        except Budget as e:
            self.obs.append(Ob(name, 'within the verifier\'s reach', 'undecided', detail='budget: %s' % e))
        except z3.Z3Exception as e:
            self.obs.append(Ob(name, 'within the verifier\'s reach', 'undecided', detail='solver: %s' % e))
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            import traceback
            self.obs.append(Ob(name, 'within the verifier\'s reach', 'undecided', detail='internal: %s' % traceback.format_exc()[-1500:]))
        for c in self.ctxs:
            self.queries += c.queries
            self.stime += c.solver_time
            self.under_contract |= c.executed
            self.libuse |= c.libuse

    def ctx(self, statics=True):
        c = Ctx(self.prog)
        c.deadline = self.uend
        self.ctxs.append(c)
        st = State()
        pure_observers(c)
        if statics:
            c.init_statics(st)
            c.statics = set(c.info)
            if self.age_statics:
                c.age(st, *(self.age_statics(c, st) if callable(self.age_statics) else ()))
        return c, st

    # ---- obligations
    def oblige(self, c, st, name, goal, extra=(), precise=True):
        t = time.time()
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        goal = simplify(goal)
        if is_true(goal):
            self.obs.append(Ob(self.cur, name, 'proved'))
            return True
        conds = list(st.pc) + list(extra) + [Not(goal)]
        q = [x for x in conds if not hasq(x)]
        r, s = c.solve(q, 6000)
        if r != z3.unsat and len(q) != len(conds):
            r, s = c.solve(conds, 12000)
        elif r == z3.unknown:
            r, s = c.solve(conds, 30000)
        dt = time.time() - t
        if r == z3.unsat:
            self.obs.append(Ob(self.cur, name, 'proved', dt))
            if self.thorough and len(self.smt2) < 400:
                self.smt2.append((self.cur + ': ' + name, s.to_smt2()))
            return True
        flags = set(st.flags)
        if r == z3.sat and flags and precise and all(f in c.firsts for f in flags):
            # where no loop has an earlier iteration, the imprecision does not matter
            r2, s2 = c.solve(conds + [c.firsts[f] for f in flags], 12000)
            if r2 == z3.sat:
                s, flags = s2, set()
        if r == z3.sat and not flags and precise:
            self.obs.append(Ob(self.cur, name, 'refuted', dt, detail=self.describe(st, goal), model=self.model(s)))
        else:
            self.obs.append(Ob(self.cur, name, 'undecided', dt, detail=('solver gave up' if r != z3.sat else 'imprecise: ' + '; '.join(sorted(flags))) + ' | ' + self.describe(st, goal)))
        return False

    def fail(self, c, st, name, why):
        """the path must be infeasible"""
        return self.oblige(c, st, name + ': ' + why, BoolVal(False))

    def describe(self, st, goal):
        return 'goal %s; calls %s' % (str(goal)[:400], [str(x)[:160] for x in st.log][-12:])

    def model(self, s):
        try:
            m = s.model()
            return ', '.join('%s=%s' % (d.name(), str(m[d])[:80]) for d in sorted(m.decls(), key=lambda d: d.name())[:60])
        except z3.Z3Exception:
            return ''

    def cover(self, name, cond):
        """vacuity guard: the contract's cases are reached"""
        self.obs.append(Ob(self.cur, 'cover: %s' % (name,), 'proved' if cond else 'undecided', detail='' if cond else 'no path reaches this case'))

    def assume(self, text):
        if text not in self.assumed:
            self.assumed.append(text)

    # ---- log specifications
    def match(self, c, out, spec, name, normal=None):
        """the path's boundary calls are a run of spec; outcome accordingly.  normal: check(st, out) for a normal end"""
        Matcher(self, c, out, name, normal).go(out.st, list(out.st.log), 0, list(spec), ())


class E:
    """an expected call"""

    def __init__(self, label, recv=None, args=None, check=None, on_exc=None, bind=None, go_on=False):
        self.go_on = go_on     # after on_exc the rest is as specified
        self.label, self.recv, self.args, self.check, self.on_exc, self.bind = label, recv, args, check, on_exc, bind

    def __repr__(self):
        return 'E(%s)' % self.label


class FOR:
    """body(i) for lo <= i < hi"""

    def __init__(self, lo, hi, body):
        self.lo, self.hi, self.body = engine.iv(lo), engine.iv(hi), body


class IFS:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class END:
    """how the call ends: ret (value check) or a given exception"""

    def __init__(self, check=None, exc=None, any=False):
        self.check, self.exc, self.any = check, exc, any


class Opt:
    """calls with one of these labels may occur here any number of times and do not matter"""

    def __init__(self, labels):
        self.labels = labels


class Matcher:
    def __init__(self, proof, c, out, name, normal):
        self.p, self.c, self.out, self.name, self.normal = proof, c, out, name, normal
        self.splits = 0

    def ok(self, st, conds, cond):
        s = st.copy()
        for x in conds:
            s.assume(x)
        return self.c.valid(s, cond)

    def feas(self, st, conds, cond):
        return self.c.feasible(st, And(*conds, cond) if conds else cond)

    def bad(self, st, conds, why):
        self.p.oblige(self.c, st, '%s: %s' % (self.name, why), BoolVal(False), conds)

    def go(self, st, log, i, spec, conds):
        c = self.c
        while True:
            while spec and isinstance(spec[0], IFS):
                x = spec[0]
                cond = simplify(x.cond)
                if is_true(cond) or (not is_false(cond) and self.ok(st, conds, cond)):
                    spec = list(x.a) + spec[1:]
                elif is_false(cond) or self.ok(st, conds, Not(cond)):
                    spec = list(x.b) + spec[1:]
                else:
                    self.split()
                    self.go(st, log, i, list(x.a) + spec[1:], conds + (cond,))
                    self.go(st, log, i, list(x.b) + spec[1:], conds + (Not(cond),))
                    return
            if i >= len(log) and spec and isinstance(spec[0], Opt):
                spec = spec[1:]
                continue
            if i >= len(log):
                return self.finish(st, spec, conds)
            e = log[i]
            if isinstance(e, LoopRec):
                if not spec or not isinstance(spec[0], FOR):
                    # iterations must not happen, or their calls match nothing
                    if spec and isinstance(spec[0], E) and self.ok(st, conds, e.N == 0):
                        i += 1
                        continue
                    if self.ok(st, conds, e.N == 0):
                        i += 1
                        continue
                    return self.loopbad(st, e, conds, spec)
                f = spec[0]
                self.p.oblige(c, st, self.name + ': number of iterations', And(e.N >= 0, f.lo + e.N <= If(f.hi >= f.lo, f.hi, f.lo)), conds)
                t = c.fresh('t')
                for pc, lg, loops in e.at(t):
                    s = st.copy()
                    for x in pc:
                        s.assume(x)
                    s.assume(And(t >= 0, t < e.N))
                    s.assume(f.lo + t < f.hi)
                    if not c.feasible(s, And(*conds) if conds else BoolVal(True)):
                        continue
                    m = Matcher(self.p, c, None, self.name + ' (iteration)', None)
                    m.go(s, lg, 0, list(f.body(simplify(f.lo + t))), conds)
                spec = [FOR(simplify(f.lo + e.N), f.hi, f.body)] + spec[1:]
                i += 1
                continue
            if not spec:
                return self.bad(st, conds, 'unexpected call %s' % e.label)
            x = spec[0]
            if isinstance(x, Opt):
                if e.label in x.labels:
                    i += 1
                    if e.exc is not None:
                        spec = [x, END(any=True)]
                    continue
                spec = spec[1:]
                continue
            if isinstance(x, END):
                return self.bad(st, conds, 'unexpected call %s at the end' % e.label)
            if isinstance(x, FOR):
                more = simplify(x.lo < x.hi)
                if is_true(more) or (not is_false(more) and self.ok(st, conds, more)):
                    spec = list(x.body(x.lo)) + [FOR(simplify(x.lo + 1), x.hi, x.body)] + spec[1:]
                elif is_false(more) or self.ok(st, conds, Not(more)):
                    spec = spec[1:]
                else:
                    self.split()
                    self.go(st, log, i, list(x.body(x.lo)) + [FOR(simplify(x.lo + 1), x.hi, x.body)] + spec[1:], conds + (more,))
                    self.go(st, log, i, spec[1:], conds + (Not(more),))
                    return
                continue
            # E
            if x.label != e.label:
                return self.bad(st, conds, 'call %s where %s is expected' % (e.label, x.label))
            goals = []
            if x.recv is not None:
                goals.append(e.recv == x.recv)
            if x.args is not None:
                if len(x.args) != len(e.args):
                    return self.bad(st, conds, 'arguments of %s' % e.label)
                goals += [a == b for a, b in zip(e.args, x.args) if b is not None]
            if goals:
                self.p.oblige(c, st, '%s: arguments of %s' % (self.name, x.label), And(*goals), conds)
            if x.check:
                for nm, g in x.check(e):
                    self.p.oblige(c, st, '%s: %s' % (self.name, nm), g, conds)
            if x.bind:
                x.bind(e)
            i += 1
            spec = spec[1:]
            if e.exc is not None:
                if x.on_exc is not None:
                    spec = list(x.on_exc(e)) + (spec if x.go_on else [])
                else:
                    spec = [END(exc=e.exc)]

    def loopbad(self, st, e, conds, spec):
        """a loop with calls where none are expected: fine if no iteration makes a call"""
        c = self.c
        t = c.fresh('t')
        for pc, lg, loops in e.at(t):
            if not lg:
                continue
            s = st.copy()
            for x in pc:
                s.assume(x)
            s.assume(And(t >= 0, t < e.N))
            self.p.oblige(c, s, '%s: no calls in the loop at %s (has %s)' % (self.name, e.where, [getattr(x, 'label', 'loop') for x in lg][:3]), BoolVal(False), conds)

    def split(self):
        self.splits += 1
        if self.splits > 60:
            raise Budget('case splits')

    def finish(self, st, spec, conds):
        c = self.c
        while spec:
            x = spec[0]
            if isinstance(x, Opt):
                spec = spec[1:]
                continue
            if isinstance(x, FOR):
                more = simplify(x.lo < x.hi)
                if is_false(more):
                    spec = spec[1:]
                    continue
                first = x.body(x.lo)
                # remaining iterations must be none, unless they make no calls
                self.p.oblige(c, st, self.name + ': no iteration is missing', Not(more), conds)
                spec = spec[1:]
                continue
            if isinstance(x, END):
                break
            return self.bad(st, conds, 'call %s is missing' % x.label)
        if self.out is None:
            return
        o = self.out
        if spec:
            x = spec[0]
            if x.any:
                return
            if x.exc is not None:
                if o.kind != 'exc':
                    return self.bad(st, conds, 'the exception is swallowed')
                if callable(x.exc):
                    for nm, g in x.exc(st, o):
                        self.p.oblige(c, st, '%s: %s' % (self.name, nm), g, conds)
                else:
                    self.p.oblige(c, st, self.name + ': the same exception goes on', o.val == x.exc, conds)
                return
            if o.kind != 'ret':
                return self.bad(st, conds, 'throws %s' % thrown(c, o))
            if x.check:
                for nm, g in x.check(st, o):
                    self.p.oblige(c, st, '%s: %s' % (self.name, nm), g, conds)
            return
        if o.kind != 'ret':
            return self.bad(st, conds, 'throws %s' % thrown(c, o))
        if self.normal:
            for nm, g in self.normal(st, o):
                self.p.oblige(c, st, '%s: %s' % (self.name, nm), g, conds)
        else:
            self.p.oblige(c, st, self.name + ': returns normally', BoolVal(True), conds)


def thrown(c, o):
    n = num(o.val)
    if n in o.st.exct:
        return o.st.exct[n][0].rsplit('/', 1)[-1]
    return 'an exception'


def exc_class(o):
    """(class, exact) of the exception of an outcome"""
    n = num(o.val)
    return o.st.exct[n][0] if n in o.st.exct else None


# ---------------------------------------------------------------- observers of foreign objects
def pure_observers(c):
    """getName() and getPayload() of states and events of unknown class: pure, do not throw"""
    def named(ctx, call):
        i = ctx.info.get(num(call.args[0])) if num(call.args[0]) is not None else None
        return i is not None and i.cls in ctx.prog.classes

    def name(ctx, st, call):
        if named(ctx, call) or call.op == 'INVOKESPECIAL':
            return None
        v = ctx.name_of(st, call.args[0])
        ctx.note_type(v, 'Ljava/lang/String;')
        return [Out(st, 'ret', v)]

    def payload(ctx, st, call):
        if named(ctx, call) or call.op == 'INVOKESPECIAL':
            return None
        v = ctx.rd(st, 'PL.val', call.args[0])
        st.assume(v >= -ctx.nalloc)
        return [Out(st, 'ret', v)]
    c.boundary[(API + 'State', 'getName')] = name
    c.boundary[(API + 'StateEvent', 'getName')] = name
    c.boundary[(API + 'StateEvent', 'getPayload')] = payload


def pure(ctx, owner, name, value):
    """boundary call without effect: value(ctx, st, call) -> term"""
    def h(c, st, call):
        i = c.info.get(num(call.args[0])) if num(call.args[0]) is not None else None
        if i is not None and i.cls in c.prog.classes:
            return None
        return [Out(st, 'ret', value(c, st, call))]
    ctx.boundary[(owner, name)] = h


def labels(ctx, st):
    return [e.label if isinstance(e, Entry) else 'FOR' for e in st.log]


def field_by_desc(prog, cls, desc, name=None):
    """the name of the (only) instance field of the given type; falls back on the given name"""
    fs = [f for f in prog.classes[cls]['fields'] if not f['access'] & 8]
    if name and any(f['name'] == name and f['desc'] == desc for f in fs):
        return name
    fs = [f for f in fs if f['desc'] == desc]
    if len(fs) == 1:
        return fs[0]['name']
    raise Unsupported('no unique field of type %s in %s' % (desc, cls))


def one(outs):
    """the single normal outcome"""
    r = [o for o in outs if o.kind == 'ret']
    if len(r) != 1:
        raise Unsupported('%d normal outcomes where one is expected' % len(r))
    return r[0]
