"""Verification-condition generator over JVM bytecode (symbolic execution, one path condition per path).

Values (int, boolean, references) are z3 Ints.  null = 0, references that exist before the call under proof are
positive, the k-th object allocated by the code is the numeral -k.  The heap maps a field name to a z3 array.
Methods of the repository are executed (a callee with a registered contract is replaced by it); calls that leave the
repository go to the library contracts (lib.py, models/) or are boundary calls: they are appended to the path's log,
everything they may change is havocked, and they return or throw.
"""
import itertools
import z3
from z3 import And, Or, Not, Implies, If, Int, IntVal, Select, Store, BoolVal, simplify, is_int_value

Z = z3.IntSort()
ARR = z3.ArraySort(Z, Z)
SORTS = {'L.arr': ARR, 'A.arr': ARR, 'M.val': ARR, 'M.key': ARR, 'Q.arr': ARR, 'It.arr': ARR,
         'M.has': z3.ArraySort(Z, z3.BoolSort())}
IMIN, IMAX = -2**31, 2**31 - 1
EXC, ERR, THR, RTE = 'java/lang/Exception', 'java/lang/Error', 'java/lang/Throwable', 'java/lang/RuntimeException'
NPE, CCE, ISE = 'java/lang/NullPointerException', 'java/lang/ClassCastException', 'java/lang/IllegalStateException'


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def num(v):
    """python int of a numeral, else None"""
    if isinstance(v, int):
        return v
    return v.as_long() if is_int_value(v) else None


QCACHE = {}


def hasq(t):
    """mentions a quantifier"""
    i = t.get_id()
    if i in QCACHE:
        return QCACHE[i][1]
    todo, seen, r = [t], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                r = True
                break
            continue
        todo.extend(x.children())
    QCACHE[i] = (t, r)
    return r


def iv(x):
    return IntVal(x) if isinstance(x, int) else x


def b2i(c):
    return If(c, IntVal(1), IntVal(0))


def is_true(c):
    return z3.is_true(c)


def is_false(c):
    return z3.is_false(c)


class Entry:
    """one boundary call in the log"""
    __slots__ = ('label', 'recv', 'args', 'snap', 'res', 'exc', 'where')

    def __init__(self, label, recv, args, snap=None, where=None):
        self.label, self.recv, self.args, self.snap, self.where = label, recv, list(args), snap or {}, where
        self.res = self.exc = None

    def copy(self):
        e = Entry(self.label, self.recv, self.args, dict(self.snap), self.where)
        e.res, e.exc = self.res, self.exc
        return e

    def sub(self, f):
        e = Entry(self.label, f(self.recv), [f(a) for a in self.args], {k: f(v) for k, v in self.snap.items()}, self.where)
        e.res, e.exc = f(self.res), f(self.exc)
        return e

    def __repr__(self):
        return '%s(%s; %s)%s' % (self.label, self.recv, ', '.join(map(str, self.args)), ' throws' if self.exc is not None else '')


class LoopRec:
    """summary of the completed iterations 0..N-1 of a loop: per iteration one of `paths` (condition, log) happened"""
    kind = 'FOR'

    def __init__(self, var, where):
        self.var, self.where, self.N, self.paths, self.lo, self.hi, self.ctx = var, where, var, [], 0, 0, None
        self.base = []

    def at(self, t):
        """paths of iteration t with the symbols of the iteration renamed apart: [(conds, log, loops)]"""
        ctx = self.ctx
        out = []
        for conds, log, loops in self.paths:
            ren = {}
            f = ctx.renamer(self.lo, self.hi, self.var, t, ren)
            out.append(([f(c) for c in self.base] + [f(c) for c in conds], [sub_item(e, f) for e in log], [sub_item(e, f) for e in loops]))
        return out

    def sub(self, f):
        r = LoopRec(self.var, self.where)
        r.N, r.lo, r.hi, r.ctx = f(self.N), self.lo, self.hi, self.ctx
        keep = f.__dict__.get('without', lambda v: f)(self.var)
        r.base = [keep(c) for c in self.base]
        r.paths = [([keep(c) for c in cs], [sub_item(e, keep) for e in lg], [sub_item(e, keep) for e in lp]) for cs, lg, lp in self.paths]
        return r

    def haslog(self):
        return any(log for _, log, _ in self.paths)

    def __repr__(self):
        return 'FOR(%s<%s)%s' % (self.var, self.N, [lg for _, lg, _ in self.paths])


def sub_item(e, f):
    return e.sub(f)


class State:
    __slots__ = ('pc', 'heap', 'log', 'loops', 'flags', 'locks', 'exct', 'epoch', 'ghost', 'trace')

    def __init__(self):
        self.pc, self.heap, self.log, self.loops = [], {}, [], []
        self.flags, self.locks, self.exct, self.epoch, self.ghost, self.trace = set(), [], {}, 0, {}, []

    def copy(self):
        s = State()
        s.pc, s.heap, s.log, s.loops = list(self.pc), dict(self.heap), list(self.log), list(self.loops)
        s.flags, s.locks, s.exct, s.epoch = set(self.flags), list(self.locks), dict(self.exct), self.epoch
        s.ghost, s.trace = dict(self.ghost), list(self.trace)
        return s

    def assume(self, c):
        c = simplify(c) if not isinstance(c, bool) else BoolVal(c)
        if not is_true(c):
            self.pc.append(c)
        return self


class Out:
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val

    def __iter__(self):
        return iter((self.st, self.kind, self.val))


class Info:
    def __init__(self, cls, kind=None, **data):
        self.cls, self.kind, self.data = cls, kind, data


class Prog:
    """the classes dumped from /repo (and the library models)"""

    def __init__(self, dump):
        self.classes, self.hier = dump['classes'], dump['hier']
        self.methods = {}
        for cn, c in self.classes.items():
            for m in c['methods']:
                m['cls'] = cn
                self.methods[(cn, m['name'], m['desc'])] = m
        self.cfg = {}

    def supers(self, c):
        """c and all its supertypes, nearest first"""
        seen, q = [], [c]
        while q:
            x = q.pop(0)
            if x is None or x in seen:
                continue
            seen.append(x)
            d = self.classes.get(x) or self.hier.get(x)
            if d:
                q.append(d.get('super'))
                q.extend(d.get('interfaces', []))
        if 'java/lang/Object' not in seen:
            seen.append('java/lang/Object')
        return seen

    def subtype(self, a, b):
        return b in self.supers(a)

    def find(self, cls, name, desc):
        for c in self.supers(cls):
            m = self.methods.get((c, name, desc))
            if m and not (m['access'] & 0x400):
                return m
        return None

    def switched(self):
        """string constants of methods that switch over a string's hash"""
        if not hasattr(self, '_switched'):
            self._switched = set()
            for n, cl in self.classes.items():
                if self.is_repo(n):
                    for m in cl['methods']:
                        if any(x[0] in ('LOOKUPSWITCH', 'TABLESWITCH') for x in m.get('ins') or ()):
                            self._switched |= {x[1][1] for x in m['ins'] if x[0] == 'LDC' and x[1][0] == 'S'}
        return self._switched

    def constant_fields(self):
        """keys of the fields (F:) and statics (S:) that nothing writes once the object (class) is made"""
        if not hasattr(self, 'consts'):
            allf, written = set(), set()
            for cn, d in self.classes.items():
                for f in d['fields']:
                    allf.add('S:%s.%s' % (cn, f['name']) if f['access'] & 8 else 'F:%s.%s' % (cn.rsplit('/', 1)[-1], f['name']))
                for m in d['methods']:
                    for x in m['ins']:
                        if x[0] in ('PUTFIELD', 'PUTSTATIC'):
                            o = self.field_owner(x[1], x[2])
                            if m['name'] != ('<init>' if x[0] == 'PUTFIELD' else '<clinit>') or o != cn:
                                written.add('F:%s.%s' % (o.rsplit('/', 1)[-1], x[2]) if x[0] == 'PUTFIELD' else 'S:%s.%s' % (o, x[2]))
            self.consts = allf - written
        return self.consts

    def field_owner(self, cls, name):
        for c in self.supers(cls):
            d = self.classes.get(c)
            if d and any(f['name'] == name for f in d['fields']):
                return c
        return cls

    def field(self, cls, name):
        d = self.classes.get(self.field_owner(cls, name))
        if d:
            for f in d['fields']:
                if f['name'] == name:
                    return f
        return None

    def is_repo(self, c):
        return c in self.classes and not c.startswith('model/')

    def loops(self, m):
        key = (m['cls'], m['name'], m['desc'])
        if key in self.cfg:
            return self.cfg[key]
        ins = m['ins']
        n = len(ins)
        succ = [set() for _ in range(n)]
        for i, x in enumerate(ins):
            op = x[0]
            if op in ('GOTO',):
                succ[i].add(x[1])
            elif op.startswith('IF'):
                succ[i].add(x[1])
                succ[i].add(i + 1)
            elif op in ('TABLESWITCH', 'LOOKUPSWITCH'):
                for _, t in x[1]:
                    succ[i].add(t)
                succ[i].add(x[2])
            elif op.endswith('RETURN') or op == 'ATHROW':
                pass
            else:
                succ[i].add(i + 1)
            for s, e, h, _ in m['tc']:
                if s <= i < e:
                    succ[i].add(h)
        heads = {}
        color = {}
        stack = [(0, iter(sorted(succ[0])))] if n else []
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if v >= n:
                    continue
                if color.get(v, 0) == 0:
                    color[v] = 1
                    stack.append((v, iter(sorted(succ[v]))))
                    break
                elif color[v] == 1:
                    heads.setdefault(v, set()).add(u)
            else:
                color[u] = 2
                stack.pop()
        pred = [set() for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                if v < n:
                    pred[v].add(u)
        res = {}
        for h, us in heads.items():
            body = {h}
            w = list(us)
            while w:
                u = w.pop()
                if u not in body:
                    body.add(u)
                    w.extend(pred[u])
            res[h] = body
        self.cfg[key] = res
        return res


def parse_desc(d):
    args, i = [], 1
    while d[i] != ')':
        j = i
        while d[j] == '[':
            j += 1
        if d[j] == 'L':
            j = d.index(';', j)
        args.append(d[i:j + 1])
        i = j + 1
    return args, d[i + 1:]


class Ctx:
    """one proof: program, symbols, contracts in force"""

    def __init__(self, prog, timeout=8000):
        self.prog = prog
        self.n, self.nalloc = 0, 0
        self.info = {}
        self.lits = {}
        self.bound = {}       # base array name -> allocations when it was made
        self.timeout = timeout
        self.boundary = {}    # (owner or '*', name) -> handler(ctx, st, call)
        self.symloops = set()
        self.executed = set()
        self.loop_cands = []  # user candidates
        self.firsts = {}      # imprecision -> condition under which there is none
        self.log_logger = False
        self.throwing = (EXC, ERR)
        self.havoc_hook = None
        self.snap_hook = None
        self.access_hook = None
        self.aged_fresh = set()
        self.aged = None      # what may have changed since it was made: see age()
        self.pathcount, self.maxpaths = 0, 6000
        self.queries, self.solver_time = 0, 0.0
        self.axioms = []
        self.nohavoc = set()
        self.ctypes = {}
        self.cid_lit = {}
        self.libuse = set()
        self.depth = 0
        self.deadline = None
        self.fcache = {}
        ns = z3.Function('NSK', Z, Z, Z)
        self.NSK = ns
        self.NSKk = z3.Function('NSKk', Z, Z)
        self.NSKn = z3.Function('NSKn', Z, Z)
        self.eqvf = z3.Function('eqv', Z, Z)
        self.cidf = z3.Function('cid', Z, Z)
        self.clsf = z3.Function('clsOf', Z, Z)
        self.clsids = {}
        self.nskseen = {}

    # ---- symbols
    def fresh(self, p='x', sort=Z):
        self.n += 1
        return z3.Const('%s!%d' % (p, self.n), sort)

    def fresh_bool(self, p='b'):
        return self.fresh(p, z3.BoolSort())

    def fresh_int(self, st, p='i'):
        v = self.fresh(p)
        st.assume(And(v >= IMIN, v <= IMAX))
        return v

    def fresh_ref(self, st, p='r', nonnull=False):
        v = self.fresh(p)
        st.assume(v >= -self.nalloc)
        if nonnull:
            st.assume(v != 0)
        return v

    def param(self, name, st, nonnull=True):
        """a reference that exists before the call"""
        v = Int(name)
        st.assume(v > 0 if nonnull else v >= 0)
        return v

    def fresh_of(self, st, desc, p='v'):
        if desc == 'Z':
            v = self.fresh(p)
            st.assume(Or(v == 0, v == 1))
            return v
        if desc in 'BCSIJ':
            v = self.fresh(p)
            if desc != 'J':
                st.assume(And(v >= IMIN, v <= IMAX))
            return v
        if desc in 'FD':
            raise Unsupported('floating point')
        return self.fresh_ref(st, p)

    def renamer(self, lo, hi, var, t, ren):
        """substitution: var -> t, symbols numbered lo..hi renamed apart"""
        ctx = self

        def consts(e, acc, seen):
            todo = [e]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.append(x)
                elif z3.is_quantifier(x):
                    todo.append(x.body())
                else:
                    todo.extend(x.children())

        def mk(skip):
            def f(e):
                if e is None or isinstance(e, (int, str, bool, tuple)):
                    return e
                cs = []
                consts(e, cs, set())
                pairs = []
                for c in cs:
                    nm = str(c)
                    if nm in skip:
                        continue
                    if c.eq(var):
                        pairs.append((c, t))
                    elif '!' in nm and nm.rsplit('!', 1)[1].isdigit():
                        i = int(nm.rsplit('!', 1)[1])
                        if lo < i <= hi:
                            if nm not in ren:
                                ren[nm] = ctx.fresh('n', c.sort())
                            pairs.append((c, ren[nm]))
                return z3.substitute(e, *pairs) if pairs else e
            f.without = lambda v: mk(skip | {str(v)})
            return f
        return mk(frozenset())

    # ---- heap
    def base(self, name):
        sort = z3.ArraySort(Z, SORTS.get(name, Z))
        self.n += 1
        a = z3.Const('%s!%d' % (name, self.n), sort)
        self.bound[str(a)] = self.nalloc
        return a

    def arr(self, st, name):
        if name not in st.heap:
            if not hasattr(self, 'init'):
                self.init = {}
            if name not in self.init:
                sort = z3.ArraySort(Z, SORTS.get(name, Z))
                a = z3.Const('%s0' % name, sort)
                self.bound[str(a)] = 0
                self.init[name] = a
            st.heap[name] = self.init[name]
        return st.heap[name]

    def rd(self, st, name, ref):
        return simplify(Select(self.arr(st, name), ref))

    def wr(self, st, name, ref, val):
        st.heap[name] = Store(self.arr(st, name), iv(ref), iv(val) if isinstance(val, int) else val)

    def bound_read(self, st, name, ref, v, desc):
        """facts about a value read from the heap"""
        if num(v) is not None:
            return
        if desc[0] in 'L[':
            a = self.arr(st, name)
            while z3.is_store(a):
                a = a.arg(0)
            if z3.is_const(a):
                st.assume(Select(a, ref) >= -self.bound.get(str(a), 0))
        elif desc == 'Z':
            st.assume(Or(v == 0, v == 1))
        elif desc in 'IBSC':
            st.assume(And(v >= IMIN, v <= IMAX))

    def alloc(self, cls, kind=None, **data):
        self.nalloc += 1
        self.info[-self.nalloc] = Info(cls, kind, **data)
        return IntVal(-self.nalloc)

    def new_object(self, st, cls):
        r = self.alloc(cls)
        for c in self.prog.supers(cls):
            d = self.prog.classes.get(c)
            if d:
                for f in d['fields']:
                    if not f['access'] & 8:
                        self.wr(st, self.fkey(c, f['name']), r, 0)
        return r

    def fkey(self, cls, name):
        o = self.prog.field_owner(cls, name)
        return 'F:%s.%s' % (o.rsplit('/', 1)[-1], name)

    def getf(self, st, ref, cls, name):
        """field value (for contracts)"""
        f = self.prog.field(cls, name)
        k = self.fkey(cls, name)
        v = self.rd(st, k, ref)
        self.bound_read(st, k, ref, v, f['desc'] if f else 'Lx;')
        return v

    # ---- strings
    def lit(self, s):
        if s not in self.lits:
            r = self.alloc('java/lang/String', 'str', pieces=((s,) if s else ()))
            self.lits[s] = r
        return self.lits[s]

    def litid(self, s):
        """content id of a literal"""
        if s not in self.cid_lit:
            self.cid_lit[s] = IntVal(1000000 + len(self.cid_lit))
        return self.cid_lit[s]

    def cid(self, ref):
        """content id of a String reference (null: 0)"""
        n = num(ref)
        if n == 0:
            return IntVal(0)
        if n is not None and n in self.info and self.info[n].kind == 'str':
            p = self.info[n].data['pieces']
            if all(isinstance(x, str) for x in p):
                return self.litid(''.join(p))
            return self.cidf(IntVal(n))
        return If(ref == 0, IntVal(0), self.cidf(ref))

    def pieces(self, st, ref):
        n = num(ref)
        if n is not None and n in self.info and self.info[n].kind == 'str':
            return self.info[n].data['pieces']
        return (('s', ref),)

    def new_string(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        if all(isinstance(p, str) for p in out):
            return self.alloc('java/lang/String', 'str', pieces=tuple(out))
        return self.alloc('java/lang/String', 'str', pieces=tuple(out))

    # ---- equality classes of State / StateEvent objects (contract of equals, proved for the named ones in C13)
    def clsid(self, c):
        if c not in self.clsids:
            self.clsids[c] = IntVal(len(self.clsids) + 1)
        return self.clsids[c]

    NAMED = {'com/webotech/statemachine/NamedState': 1, 'com/webotech/statemachine/NamedStateEvent': 2}

    def name_of(self, st, ref):
        """getName() of a State/StateEvent: a pure function of the object"""
        n = num(ref)
        if n is not None and n in self.info and self.info[n].cls in self.NAMED:
            f = self.name_field(self.info[n].cls)
            if f:
                return self.rd(st, f, ref)
        v = z3.Function('nameOf', Z, Z)(ref)
        st.assume(v >= 0)
        return v

    def name_field(self, cls):
        d = self.prog.classes[cls]
        fs = [f for f in d['fields'] if f['desc'] == 'Ljava/lang/String;' and not f['access'] & 8]
        return self.fkey(cls, fs[0]['name']) if len(fs) == 1 else None

    def nsk(self, k, s):
        """equality class of the named object of kind k with name s (injective)"""
        s = simplify(s)
        t = self.NSK(k, s)
        if t.get_id() not in self.nskseen:
            self.nskseen[t.get_id()] = t
            self.axioms.append(And(self.NSKk(t) == k, self.NSKn(t) == s, t > 0))
        return t

    def eqv(self, st, ref):
        n = num(ref)
        if n == 0:
            return IntVal(0)
        if n is not None and n in self.info:
            i = self.info[n]
            if i.cls in self.NAMED:
                return self.nsk(IntVal(self.NAMED[i.cls]), self.cid(self.name_of(st, ref)))
            return IntVal(n)
        e = self.eqvf(ref)
        # an object equal to a named one has that one's name
        st.assume(And((e == 0) == (ref == 0), e >= 0))
        for k in (1, 2):
            st.assume(Implies(And(self.NSKk(e) == k, e == self.nsk(IntVal(k), self.NSKn(e))), self.cid(self.name_of(st, ref)) == self.NSKn(e)))
        return e

    # ---- solving
    def solve(self, conds, timeout=None, extra=()):
        import time
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.set('random_seed', 1)
        for a in self.axioms:
            s.add(a)
        for c in conds:
            s.add(c)
        for c in extra:
            s.add(c)
        r = s.check()
        self.queries += 1
        self.solver_time += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise Budget('time limit of the proof')
        return r, s

    def qf(self, conds):
        return [c for c in conds if not hasq(c)]

    def feasible(self, st, c=None):
        conds = self.qf(st.pc)
        if c is not None:
            c = simplify(c)
            if is_false(c):
                return False
            if is_true(c) and not conds:
                return True
            conds.append(c)
        r, _ = self.solve(conds, 3000)
        return r != z3.unsat

    def valid(self, st, c, timeout=None, quant=True):
        c = simplify(c)
        if is_true(c):
            return True
        q = self.qf(st.pc)
        r, _ = self.solve(q + [Not(c)], timeout or 3000)
        if r != z3.unsat and quant and len(q) != len(st.pc):
            r, _ = self.solve(list(st.pc) + [Not(c)], 1000)
        return r == z3.unsat

    def resolve(self, st, t):
        """numeral the term must equal on this path, if there is one among those it mentions"""
        t = simplify(t)
        if num(t) is not None:
            return t
        cands, todo, seen = set(), [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if is_int_value(x):
                if x.as_long() in self.info:
                    cands.add(x.as_long())
            else:
                todo.extend(x.children())
        for p in st.pc:
            if z3.is_eq(p) and (p.arg(0).eq(t) or p.arg(1).eq(t)):
                o = p.arg(1) if p.arg(0).eq(t) else p.arg(0)
                if is_int_value(o):
                    cands.add(o.as_long())
        if not cands:
            return t
        # the value it has in one model is the only candidate
        q = self.qf(st.pc)
        r, s = self.solve(q, 2000)
        if r != z3.sat:
            return t
        c = num(s.model().eval(t, model_completion=True))
        if c not in cands:
            return t
        r, _ = self.solve(q + [t != c], 2000)
        return IntVal(c) if r == z3.unsat else t

    def fork(self, st, c):
        """[(state, True/False)] for the feasible outcomes of c"""
        c = simplify(c)
        if is_true(c):
            return [(st, True)]
        if is_false(c):
            return [(st, False)]
        res = []
        ft = self.feasible(st, c)
        ff = self.feasible(st, Not(c))
        if ft and ff:
            a = st.copy()
            a.assume(c)
            b = st
            b.assume(Not(c))
            return [(a, True), (b, False)]
        if ft:
            st.assume(c)
            return [(st, True)]
        if ff:
            st.assume(Not(c))
            return [(st, False)]
        return res

    # ---- exceptions
    def throw(self, st, cls):
        e = self.alloc(cls)
        st.exct[num(e)] = (cls, frozenset())
        return Out(st, 'exc', e)

    def throw_new(self, st, upper):
        """an exception object of unknown class below upper"""
        e = self.alloc(upper, 'anyexc')
        st.exct[num(e)] = (upper, frozenset())
        return e

    def catches(self, st, e, T):
        """[(state, caught)]"""
        if T is None or T == THR:
            return [(st, True)]
        n = num(e)
        if n is None or n not in st.exct:
            n2 = self.resolve(st, e)
            n = num(n2)
            if n is None or n not in st.exct:
                a = st.copy()
                return [(a, True), (st, False)]
        up, ex = st.exct[n]
        if self.prog.subtype(up, T):
            return [(st, True)]
        exact = self.info[n].kind != 'anyexc'
        if not exact and self.prog.subtype(T, up) and T not in ex and not any(self.prog.subtype(T, x) for x in ex):
            a = st.copy()
            a.exct[n] = (T, ex)
            st.exct[n] = (up, ex | {T})
            return [(a, True), (st, False)]
        return [(st, False)]

    # ---- methods
    def call_method(self, st, m, args):
        import time
        if self.deadline and time.time() > self.deadline:
            raise Budget('time limit of the proof')
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion in %s.%s' % (m['cls'], m['name']))
        try:
            if m['access'] & 0x100:
                raise Unsupported('native method ' + m['name'])
            self.executed.add((m['cls'], m['name'], m['desc']))
            ad, _ = parse_desc(m['desc'])
            loc, i = {}, 0
            ds = ([] if m['access'] & 8 else ['L']) + ad
            for a, d in zip(args, ds):
                loc[i] = a
                i += 2 if d in 'JD' else 1
            sync = m['access'] & 0x20
            if sync:
                st.locks.append(args[0] if not m['access'] & 8 else IntVal(0))
                if self.access_hook:
                    self.access_hook(self, st, 'lock', st.locks[-1], None)
            backs, exits, outs = Frame(self, m).region([(st, 0, loc, [])], None, None)
            if sync:
                for o in outs:
                    o.st.locks.pop()
                    if self.access_hook:
                        self.access_hook(self, o.st, 'unlock', args[0] if args else IntVal(0), None)
            return outs
        finally:
            self.depth -= 1

    def run(self, st, cls, name, desc, args):
        m = self.prog.find(cls, name, desc)
        if not m:
            raise Unsupported('no method %s.%s%s' % (cls, name, desc))
        return self.call_method(st, m, args)

    def run_named(self, st, cls, name, args, nparams=None):
        """by name; nparams disambiguates overloads"""
        ms = []
        for c in self.prog.supers(cls):
            d = self.prog.classes.get(c)
            if d:
                ms += [m for m in d['methods'] if m['name'] == name and not m['access'] & 0x1400
                       and (nparams is None or len(parse_desc(m['desc'])[0]) == nparams)]
            if ms:
                break
        if len(ms) != 1:
            raise Unsupported('%d methods %s.%s' % (len(ms), cls, name))
        return self.call_method(st, ms[0], args)

    def run_named_desc(self, st, cls, name, desc, args):
        m = self.prog.methods.get((cls, name, desc)) or self.prog.find(cls, name, desc)
        if not m:
            raise Unsupported('no method %s.%s%s' % (cls, name, desc))
        return self.call_method(st, m, args)

    def observe(self, st, cls, name, ref):
        """value of a side-effect free observer: evaluated by executing it on a copy of the state"""
        s = st.copy()
        h, self.access_hook = self.access_hook, None
        n0 = len(st.log)
        try:
            outs = [o for o in self.run_named(s, cls, name, [ref], 0)]
        finally:
            self.access_hook = h
        if not outs or any(o.kind != 'ret' for o in outs):
            outs = [o for o in outs if o.kind == 'ret']
            if not outs:
                raise Unsupported('observer %s throws' % name)
        v = None
        base = len(st.pc)
        for o in outs:
            if len(o.st.log) != n0:
                raise Unsupported('observer %s has effects' % name)
            c = o.st.pc[base:]
            if v is None:
                v = o.val
                if len(outs) == 1:
                    for x in c:
                        st.assume(x)
            else:
                v = If(And(*c) if c else BoolVal(True), o.val, v)
        return simplify(v)

    # ---- what earlier calls and other threads may have left
    AGES = ('atomic', 'list', 'map', 'set', 'queue', 'array')

    def age(self, st, exempt=(), fresh=False, only=None):
        """from here on the objects made so far may hold what any earlier calls and other threads left in them: every read of a field
        that is not final, and of the contents of their collections, gives any value.  exempt: cells and objects the unit speaks about
        itself [(heap array or '*', reference)].  fresh: the objects' first state is one the unit allows, so a failure there is one, and
        what was aged so before still is"""
        before = self.aged if fresh else None
        never = {num(o) for k, o in exempt if k == '*'}
        self.aged = ({n for n, i in self.info.items() if n not in never and (only is None or n in only) and (i.kind in self.AGES or i.kind is None and self.prog.is_repo(i.cls))},
                     {(k, num(o) if o is not None else None) for k, o in exempt}, z3.Const('history', z3.BoolSort()) if fresh else BoolVal(True))
        if before and not z3.is_true(before[2]):
            self.aged = (self.aged[0] | before[0], self.aged[1] | before[1], self.aged[2])

    def age_also(self, first, exempt=()):
        """so may the objects made since there were `first` of them; their first state is one the unit allows"""
        if self.aged is None:
            return
        new = {n for n, i in self.info.items() if -n > first and (i.kind in self.AGES or i.kind is None and self.prog.is_repo(i.cls))}
        self.aged = (self.aged[0] | new, self.aged[1] | {(k, num(o)) for k, o in exempt}, self.aged[2])
        self.aged_fresh |= new

    def aging(self, st, ref, key, desc=None):
        n = num(ref)
        if self.aged is None or n not in self.aged[0] or (key, n) in self.aged[1] or (key, None) in self.aged[1]:
            return
        if key[:2] == 'F:' and key in self.prog.constant_fields():
            return
        if self.info[n].data.get('immut'):
            return
        h = z3.Const('history', z3.BoolSort()) if n in self.aged_fresh else self.aged[2]
        flag = 'anything may be in %s by now' % (key if key[:2] == 'F:' else 'the %s %s' % (self.info[n].kind, self.info[n].cls))
        st.flags.add(flag)
        if not z3.is_true(h):
            self.firsts[flag] = Not(h)
        if desc is not None:
            new = {key: self.fresh_of(st, desc, 'aged')}
        else:
            new = {}
            for k in {'atomic': ('AB.val',), 'list': ('L.arr', 'L.len'), 'array': ('A.arr',), 'queue': ('Q.arr', 'Q.head', 'Q.tail')}.get(self.info[n].kind, ('M.has', 'M.val', 'M.key')):
                new[k] = self.fresh('aged', self.arr(st, k).sort().range())
            if 'L.len' in new:
                st.assume(And(new['L.len'] >= 0, new['L.len'] < 2 ** 20))
            if 'Q.head' in new:
                st.assume(And(0 <= new['Q.head'], new['Q.head'] <= new['Q.tail']))
        for k, v in new.items():
            self.wr(st, k, ref, v if z3.is_true(h) else If(h, v, self.rd(st, k, ref)))

    # ---- boundary calls
    def snapshot(self, st):
        return self.snap_hook(self, st) if self.snap_hook else {}

    def havoc(self, st):
        st.epoch += 1
        if self.havoc_hook:
            self.havoc_hook(self, st)
        else:
            self.default_havoc(st)

    def final_field(self, name):
        if not name.startswith('F:'):
            return False
        cn, fn = name[2:].rsplit('.', 1)
        for c, d in self.prog.classes.items():
            if c.rsplit('/', 1)[-1] == cn:
                for f in d['fields']:
                    if f['name'] == fn:
                        return bool(f['access'] & 0x10)
        return False

    NEVER = {'It.pos', 'It.len', 'It.arr', 'A.arr', 'A.len'}

    def default_havoc(self, st, keep=()):
        for name in list(st.heap):
            if name.startswith('F:model/') or name in self.NEVER or name in keep or name in self.nohavoc or self.final_field(name) or name.startswith('F:M'):
                continue
            if name.startswith('S:'):
                if not st.ghost.get('final:' + name):
                    st.heap[name] = self.fresh('static')
                continue
            st.heap[name] = self.base(name)

    def callback(self, st, label, recv, args, rdesc, where=None, throwing=None, havoc=True):
        e = Entry(label, recv, args, self.snapshot(st), where)
        st.log.append(e)
        at = len(st.log) - 1
        if havoc:
            self.havoc(st)
        outs = []
        for up in (self.throwing if throwing is None else throwing):
            s = st.copy()
            x = self.throw_new(s, up)
            e2 = e.copy()
            e2.exc = x
            s.log[at] = e2
            outs.append(Out(s, 'exc', x))
        v = None
        if rdesc != 'V':
            v = self.fresh_of(st, rdesc, 'ret')
            e.res = v
        outs.append(Out(st, 'ret', v))
        return outs


class Call:
    def __init__(self, op, owner, name, desc, args, where):
        self.op, self.owner, self.name, self.desc, self.args, self.where = op, owner, name, desc, args, where
        self.adesc, self.rdesc = parse_desc(desc)

    def __repr__(self):
        return '%s.%s%s' % (self.owner, self.name, self.desc)


def wrap32(e):
    e = simplify(e)
    n = num(e)
    if n is not None:
        return IntVal((n + 2**31) % 2**32 - 2**31)
    return If(And(e >= IMIN, e <= IMAX), e, (e + 2**31) % 2**32 - 2**31)


CMP = {'EQ': lambda a, b: a == b, 'NE': lambda a, b: a != b, 'LT': lambda a, b: a < b, 'GE': lambda a, b: a >= b,
       'GT': lambda a, b: a > b, 'LE': lambda a, b: a <= b}


class Wide:
    """category-2 value on the operand stack"""

    def __init__(self, v):
        self.v = v


class Frame:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.ins = m['ins']
        self.loopmap = ctx.prog.loops(m)
        self.lines = sorted(map(tuple, m['lines']))

    def line(self, ip):
        r = None
        for i, l in self.lines:
            if i <= ip:
                r = l
        return r

    def where(self, ip):
        return '%s.%s:%s' % (self.m['cls'].rsplit('/', 1)[-1], self.m['name'], self.line(ip))

    # run items until they leave the region (a set of instruction indexes) or come back to head
    def region(self, items, region, head):
        work = list(items)
        backs, exits, outs = [], [], []
        first = {id(it) for it in items} if head is not None else set()
        keep = items
        while work:
            it = work.pop()
            st, ip, loc, stack = it
            entering = id(it) in first
            if not entering:
                if head is not None and ip == head:
                    backs.append(it)
                    continue
                if region is not None and ip not in region:
                    exits.append(it)
                    continue
                if ip in self.loopmap:
                    ex, os = self.loop(ip, st, loc, stack)
                    for e in ex:
                        work.append(e)
                    outs.extend(os)
                    continue
            self.ctx.pathcount += 1
            if self.ctx.pathcount > 200000:
                raise Budget('too many steps')
            if len(work) + len(backs) + len(exits) + len(outs) > self.ctx.maxpaths:
                raise Budget('too many paths')
            nxt, os = self.block(st, ip, loc, stack)
            outs.extend(os)
            work.extend(nxt)
        return backs, exits, outs

    def loop(self, head, st, loc, stack):
        ctx = self.ctx
        body = self.loopmap[head]
        key = (self.m['cls'], self.m['name'], self.m['desc'], head)
        if self.m['cls'].startswith('model/') and 0 in loc and not isinstance(loc[0], Wide):
            # library loops run over many things: some of known length
            key += (str(loc[0])[:200],)
        if key not in ctx.symloops:
            # exact unrolling
            save = (ctx.n, ctx.nalloc)
            items, ex, os = [(st.copy(), head, dict(loc), list(stack))], [], []
            ok = True
            for i in range(ctx.__dict__.get('unroll', 6)):
                b, e, o = self.region(items, body, head)
                ex += e
                os += o
                items = [x for x in b]
                if not items:
                    break
                if len(items) > 40:
                    ok = False
                    break
            else:
                ok = not items
            if ok and not items:
                return ex, os
            ctx.symloops.add(key)
        return LoopRule(self, head, body, st, loc, stack).run()

    # straight-line execution until a control transfer; returns (items, outs)
    def block(self, st, ip, loc, stack):
        loc, stack = dict(loc), list(stack)
        first = True
        while True:
            if not first and (ip in self.loopmap or self.isjoin(ip)):
                return [(st, ip, loc, stack)], []
            first = False
            x = self.ins[ip]
            r = self.step(st, ip, x, loc, stack)
            if r is None:
                ip += 1
                continue
            return r

    def isjoin(self, ip):
        # region borders are only crossed at jump targets: stop there
        t = self.m.get('_targets')
        if t is None:
            t = set()
            for i, x in enumerate(self.ins):
                if x[0] == 'GOTO' or x[0].startswith('IF'):
                    t.add(x[1])
                    t.add(i + 1)
                elif x[0] in ('TABLESWITCH', 'LOOKUPSWITCH'):
                    t |= {q for _, q in x[1]} | {x[2]}
            for b in self.loopmap.values():
                for i in b:
                    if i + 1 not in b:
                        t.add(i + 1)
            self.m['_targets'] = t
        return ip in t

    def exceptional(self, st, ip, loc, exc):
        """dispatch an exception raised at ip"""
        items, outs = [], []
        todo = [st]
        for s, e, h, T in self.m['tc']:
            if not (s <= ip < e):
                continue
            nt = []
            for q in todo:
                for s2, c in self.ctx.catches(q, exc, T):
                    if c:
                        items.append((s2, h, dict(loc), [exc]))
                    else:
                        nt.append(s2)
            todo = nt
        for q in todo:
            outs.append(Out(q, 'exc', exc))
        return items, outs

    def spread(self, res, ip, loc, stack, push):
        """outcomes of a call -> items"""
        items, outs = [], []
        for o in res:
            if o.kind == 'exc':
                a, b = self.exceptional(o.st, ip, loc, o.val)
                items += a
                outs += b
            else:
                sk = list(stack)
                if push != 'V':
                    v = o.val
                    sk.append(Wide(v) if push in ('J', 'D') else v)
                items.append((o.st, ip + 1, dict(loc), sk))
        return items, outs

    def npe(self, st, ip, loc, ref, items, outs):
        """split off the null case; returns the non-null states"""
        good = []
        for s, isnull in self.ctx.fork(st, ref == 0):
            if isnull:
                o = self.ctx.throw(s, NPE)
                a, b = self.exceptional(o.st, ip, loc, o.val)
                items += a
                outs += b
            else:
                good.append(s)
        return good

    def step(self, st, ip, x, loc, stack):
        ctx = self.ctx
        op = x[0]
        pop = stack.pop
        if op == 'NOP':
            return None
        if op == 'ACONST_NULL':
            stack.append(IntVal(0))
        elif op.startswith('ICONST_'):
            stack.append(IntVal(-1 if op.endswith('M1') else int(op[7:])))
        elif op.startswith('LCONST_'):
            stack.append(Wide(IntVal(int(op[7:]))))
        elif op in ('BIPUSH', 'SIPUSH'):
            stack.append(IntVal(x[1]))
        elif op == 'LDC':
            c = x[1]
            if c[0] == 'S':
                stack.append(ctx.lit(c[1]))
            elif c[0] == 'I':
                stack.append(IntVal(c[1]))
            elif c[0] == 'J':
                stack.append(Wide(IntVal(c[1])))
            elif c[0] == 'T':
                key = 'class ' + c[1]
                if key not in ctx.lits:
                    ctx.lits[key] = ctx.alloc('java/lang/Class', 'class', name=c[1].strip('L;'))
                stack.append(ctx.lits[key])
            else:
                raise Unsupported('constant ' + str(c))
        elif op in ('ILOAD', 'ALOAD'):
            stack.append(loc[x[1]])
        elif op == 'LLOAD':
            stack.append(Wide(loc[x[1]]))
        elif op in ('ISTORE', 'ASTORE'):
            loc[x[1]] = pop()
        elif op == 'LSTORE':
            loc[x[1]] = pop().v
        elif op == 'POP':
            pop()
        elif op == 'POP2':
            v = pop()
            if not isinstance(v, Wide):
                pop()
        elif op == 'DUP':
            stack.append(stack[-1])
        elif op == 'DUP_X1':
            a, b = pop(), pop()
            stack += [a, b, a]
        elif op == 'DUP_X2':
            a, b = pop(), pop()
            if isinstance(b, Wide):
                stack += [a, b, a]
            else:
                c = pop()
                stack += [a, c, b, a]
        elif op == 'DUP2':
            a = stack[-1]
            stack += [a] if isinstance(a, Wide) else [stack[-2], a]
        elif op == 'SWAP':
            stack[-1], stack[-2] = stack[-2], stack[-1]
        elif op in ('IADD', 'ISUB', 'IMUL'):
            b, a = pop(), pop()
            stack.append(simplify(wrap32({'IADD': a + b, 'ISUB': a - b, 'IMUL': a * b}[op])))
        elif op in ('LADD', 'LSUB', 'LMUL'):
            b, a = pop().v, pop().v
            stack.append(Wide(simplify({'LADD': a + b, 'LSUB': a - b, 'LMUL': a * b}[op])))
        elif op in ('IDIV', 'IREM'):
            b, a = pop(), pop()
            items, outs = [], []
            for s, z in ctx.fork(st, b == 0):
                if z:
                    o = ctx.throw(s, 'java/lang/ArithmeticException')
                    i2, o2 = self.exceptional(s, ip, loc, o.val)
                    items += i2
                    outs += o2
                else:
                    aa = If(a >= 0, a, -a)
                    bb = If(b >= 0, b, -b)
                    q = aa / bb
                    v = If((a >= 0) == (b >= 0), q, -q) if op == 'IDIV' else If(a >= 0, aa % bb, -(aa % bb))
                    items.append((s, ip + 1, dict(loc), stack + [simplify(wrap32(v))]))
            return items, outs
        elif op == 'INEG':
            stack.append(simplify(wrap32(-pop())))
        elif op == 'IINC':
            loc[x[1]] = simplify(wrap32(loc[x[1]] + x[2]))
        elif op in ('IAND', 'IOR', 'IXOR'):
            b, a = pop(), pop()
            na, nb = num(a), num(b)
            if na is not None and nb is not None:
                stack.append(IntVal({'IAND': na & nb, 'IOR': na | nb, 'IXOR': na ^ nb}[op]))
            elif nb is not None and op == 'IAND' and nb >= 0 and (nb & (nb + 1)) == 0:
                stack.append(simplify(a % (nb + 1)))
            elif ctx.valid(st, And(Or(a == 0, a == 1), Or(b == 0, b == 1))):
                A, B = a != 0, b != 0
                stack.append(simplify(b2i({'IAND': And(A, B), 'IOR': Or(A, B), 'IXOR': z3.Xor(A, B)}[op])))
            else:
                f = z3.Function('bit' + op, Z, Z, Z)
                v = f(a, b)
                st.assume(And(v >= IMIN, v <= IMAX))
                st.flags.add('bit operation')
                stack.append(v)
        elif op in ('ISHL', 'ISHR', 'IUSHR'):
            b, a = pop(), pop()
            if num(b) is not None and op == 'ISHL':
                stack.append(simplify(wrap32(a * 2**(num(b) & 31))))
            elif num(b) is not None and op == 'ISHR':
                stack.append(simplify(a / 2**(num(b) & 31)))
            else:
                v = z3.Function('sh' + op, Z, Z, Z)(a, b)
                st.assume(And(v >= IMIN, v <= IMAX))
                st.flags.add('shift')
                stack.append(v)
        elif op == 'I2L':
            stack.append(Wide(pop()))
        elif op == 'L2I':
            stack.append(simplify(wrap32(pop().v)))
        elif op in ('I2B', 'I2S', 'I2C'):
            pass
        elif op == 'LCMP':
            b, a = pop().v, pop().v
            stack.append(If(a < b, IntVal(-1), If(a == b, IntVal(0), IntVal(1))))
        elif op == 'GOTO':
            return [(st, x[1], loc, stack)], []
        elif op in ('IFNULL', 'IFNONNULL'):
            v = pop()
            return self.branch(st, v == 0 if op == 'IFNULL' else v != 0, x[1], ip, loc, stack)
        elif op.startswith('IF_'):
            b, a = pop(), pop()
            return self.branch(st, CMP[op[-2:]](a, b), x[1], ip, loc, stack)
        elif op.startswith('IF'):
            a = pop()
            return self.branch(st, CMP[op[2:]](a, IntVal(0)), x[1], ip, loc, stack)
        elif op in ('TABLESWITCH', 'LOOKUPSWITCH'):
            v = pop()
            items = []
            cur = st
            for k, t in x[1]:
                nxt = None
                for s, c in ctx.fork(cur, v == k):
                    if c:
                        items.append((s, t, dict(loc), list(stack)))
                    else:
                        nxt = s
                cur = nxt
                if cur is None:
                    break
            if cur is not None:
                items.append((cur, x[2], dict(loc), list(stack)))
            return items, []
        elif op == 'RETURN':
            return [], [Out(st, 'ret', None)]
        elif op in ('IRETURN', 'ARETURN'):
            return [], [Out(st, 'ret', pop())]
        elif op == 'LRETURN':
            return [], [Out(st, 'ret', pop().v)]
        elif op == 'ATHROW':
            e = pop()
            e = ctx.resolve(st, e)
            return self.exceptional(st, ip, loc, e)
        elif op == 'NEW':
            stack.append(ctx.new_object_any(st, x[1]))
        elif op in ('NEWARRAY', 'ANEWARRAY'):
            n = pop()
            r = ctx.alloc('[' + str(x[1]), 'array')
            ctx.wr(st, 'A.len', r, n)
            st.heap['A.arr'] = Store(ctx.arr(st, 'A.arr'), r, z3.K(Z, IntVal(0)))
            stack.append(r)
        elif op == 'ARRAYLENGTH':
            a = pop()
            items, outs = [], []
            for s in self.npe(st, ip, loc, a, items, outs):
                v = ctx.rd(s, 'A.len', a)
                s.assume(And(v >= 0, v <= IMAX))
                items.append((s, ip + 1, dict(loc), stack + [v]))
            return items, outs
        elif op in ('AALOAD', 'IALOAD', 'BALOAD', 'CALOAD'):
            i, a = pop(), pop()
            items, outs = [], []
            for s in self.npe(st, ip, loc, a, items, outs):
                ctx.aging(s, a, 'A')
                n = ctx.rd(s, 'A.len', a)
                s.assume(And(n >= 0, n <= IMAX))
                for s2, ok in ctx.fork(s, And(i >= 0, i < n)):
                    if ok:
                        v = simplify(Select(ctx.rd(s2, 'A.arr', a), i))
                        if op == 'AALOAD':
                            s2.assume(v >= -ctx.nalloc)
                        items.append((s2, ip + 1, dict(loc), stack + [v]))
                    else:
                        o = ctx.throw(s2, 'java/lang/ArrayIndexOutOfBoundsException')
                        a2, b2 = self.exceptional(s2, ip, loc, o.val)
                        items += a2
                        outs += b2
            return items, outs
        elif op in ('AASTORE', 'IASTORE', 'BASTORE', 'CASTORE'):
            v, i, a = pop(), pop(), pop()
            items, outs = [], []
            for s in self.npe(st, ip, loc, a, items, outs):
                n = ctx.rd(s, 'A.len', a)
                for s2, ok in ctx.fork(s, And(i >= 0, i < n)):
                    if ok:
                        s2.heap['A.arr'] = Store(ctx.arr(s2, 'A.arr'), a, Store(ctx.rd(s2, 'A.arr', a), i, v))
                        items.append((s2, ip + 1, dict(loc), list(stack)))
                    else:
                        o = ctx.throw(s2, 'java/lang/ArrayIndexOutOfBoundsException')
                        a2, b2 = self.exceptional(s2, ip, loc, o.val)
                        items += a2
                        outs += b2
            return items, outs
        elif op in ('GETFIELD', 'PUTFIELD'):
            v = pop() if op == 'PUTFIELD' else None
            if isinstance(v, Wide):
                v = v.v
            ref = pop()
            items, outs = [], []
            k = ctx.fkey(x[1], x[2])
            for s in self.npe(st, ip, loc, ref, items, outs):
                if ctx.access_hook:
                    ctx.access_hook(ctx, s, 'get' if v is None else 'put', ref, k)
                if v is None:
                    ctx.aging(s, ref, k, x[3])
                    r = ctx.rd(s, k, ref)
                    ctx.bound_read(s, k, ref, r, x[3])
                    ctx.note_type(r, x[3])
                    if x[3] in ('J', 'D'):
                        r = Wide(r)
                    items.append((s, ip + 1, dict(loc), stack + [r]))
                else:
                    old = ctx.rd(s, k, ref) if ctx.access_hook else None
                    ctx.wr(s, k, ref, v)
                    if ctx.access_hook:
                        ctx.access_hook(ctx, s, 'wrote', ref, k, old, v)
                    items.append((s, ip + 1, dict(loc), list(stack)))
            return items, outs
        elif op == 'GETSTATIC':
            stack.append(ctx.getstatic(st, x[1], x[2], x[3]))
        elif op == 'PUTSTATIC':
            v = pop()
            st.heap['S:%s.%s' % (x[1], x[2])] = v.v if isinstance(v, Wide) else v
        elif op == 'CHECKCAST':
            v = stack[-1]
            n = num(v)
            if n is not None and n in ctx.info and self.cast_fails(st, n, x[1]):
                pop()
                o = ctx.throw(st, CCE)
                return self.exceptional(st, ip, loc, o.val)
            if n is None:
                ctx.note_cast(st, v, x[1])
        elif op == 'INSTANCEOF':
            v = pop()
            stack.append(simplify(b2i(ctx.instance_of(st, v, x[1]))))
        elif op == 'MONITORENTER':
            st.locks.append(pop())
            if ctx.access_hook:
                ctx.access_hook(ctx, st, 'lock', st.locks[-1], None)
        elif op == 'MONITOREXIT':
            pop()
            r = st.locks.pop()
            if ctx.access_hook:
                ctx.access_hook(ctx, st, 'unlock', r, None)
        elif op == 'INVOKEDYNAMIC':
            ad, rd = parse_desc(x[2])
            args = [pop() for _ in ad][::-1]
            args = [a.v if isinstance(a, Wide) else a for a in args]
            bsm = x[3]
            if bsm[2] == 'java/lang/invoke/LambdaMetafactory':
                h = x[4][1]
                r = ctx.alloc(rd[1:-1], 'lambda', impl=h, cap=args, sam=x[1], iface=rd[1:-1])
                if h[1] in (5, 7, 9) and args:   # bound receiver must not be null
                    items, outs = [], []
                    for s in self.npe(st, ip, loc, args[0], items, outs):
                        items.append((s, ip + 1, dict(loc), stack + [r]))
                    return items, outs
                stack.append(r)
            elif bsm[2] == 'java/lang/invoke/StringConcatFactory':
                recipe = x[4][0][1] if x[1] == 'makeConcatWithConstants' else '\1' * len(ad)
                pcs, ai, ci = [], 0, 1
                for ch in recipe:
                    if ch == '\1':
                        pcs += ctx.to_pieces(st, args[ai], ad[ai])
                        ai += 1
                    elif ch == '\2':
                        pcs.append(str(x[4][ci][1]))
                        ci += 1
                    else:
                        pcs.append(ch)
                stack.append(ctx.new_string(pcs))
            else:
                raise Unsupported('invokedynamic ' + str(bsm))
        elif op.startswith('INVOKE'):
            owner, name, desc = x[1], x[2], x[3]
            ad, rd = parse_desc(desc)
            args = [pop() for _ in ad][::-1]
            args = [a.v if isinstance(a, Wide) else a for a in args]
            items, outs = [], []
            if op != 'INVOKESTATIC':
                ref = pop()
                args = [ref] + args
                sts = self.npe(st, ip, loc, ref, items, outs) if not (op == 'INVOKESPECIAL') else [st]
            else:
                sts = [st]
            for s in sts:
                res = ctx.invoke(s, Call(op, owner, name, desc, args, self.where(ip)))
                a, b = self.spread(res, ip, loc, stack, rd)
                items += a
                outs += b
            return items, outs
        else:
            raise Unsupported('instruction ' + op)
        return None

    def cast_fails(self, st, n, T):
        i = self.ctx.info[n]
        if T.startswith('[') or i.kind in ('lambda', 'anyexc') or i.cls.startswith('['):
            return False
        if T.startswith('java/') or i.cls.startswith('model/'):
            return False
        if self.ctx.prog.is_repo(T) and self.ctx.prog.is_repo(i.cls):
            return not self.ctx.prog.subtype(i.cls, T)
        return False

    def branch(self, st, c, target, ip, loc, stack):
        return [(s, target if t else ip + 1, dict(loc), list(stack)) for s, t in self.ctx.fork(st, c)], []


class LoopRule:
    """invariant rule: iteration counter k, closed forms for counters, the rest havocked, Houdini for bounds"""

    def __init__(self, fr, head, body, st, loc, stack):
        self.fr, self.head, self.body, self.st, self.loc, self.stack = fr, head, body, st, loc, stack
        self.ctx = fr.ctx
        self.mods = {}       # ('l', i) / ('h', name, refkey) / ('H', name) -> mode
        self.terms = {}      # heap cell -> reference term
        self.called = False
        self.cands, self.user, self.lost, self.assuming, self.tried = [], [], [], False, set()

    def head_state(self, rec, k):
        ctx = self.ctx
        s = self.st.copy()
        s.log.append(rec)
        s.loops.append(rec)
        s.assume(k >= 0)
        loc = dict(self.loc)
        pend = {}
        if self.called:
            ctx.havoc(s)
        for key, mode in self.mods.items():
            if key[0] == 'H':
                s.heap[key[1]] = ctx.base(key[1])
                pend[key] = ['loop havoc of %s at %s' % (key[1], self.fr.where(self.head))]
        for key, mode in self.mods.items():
            if key[0] == 'l':
                old = self.loc.get(key[1])
                if mode[0] == 'lin' and old is not None:
                    loc[key[1]] = simplify(old + mode[1] * k)
                else:
                    v = ctx.fresh('loc')
                    if mode[0] == 'ref':
                        s.assume(v >= -ctx.nalloc)
                    else:
                        s.assume(And(v >= IMIN, v <= IMAX))
                    pend[key] = ['loop havoc of local %d at %s' % (key[1], self.fr.where(self.head))]
                    loc[key[1]] = v
            elif key[0] == 'h':
                ref = self.terms[key]
                old = ctx.rd(self.st, key[1], ref)
                if mode[0] == 'lin':
                    ctx.wr(s, key[1], ref, simplify(old + mode[1] * k))
                else:
                    v = ctx.fresh('cell', SORTS.get(key[1], Z))
                    ctx.wr(s, key[1], ref, v)
                    pend[key] = ['loop havoc of %s at %s' % (key[1], self.fr.where(self.head))]
        self._k = k
        covered = set()
        # what an iteration gives away is not there in later ones
        if self.lost:
            s.ghost['own'] = tuple(o for o in s.ghost.get('own', ()) if not any(o.eq(x) for x in self.lost))
            s.ghost['gone'] = s.ghost.get('gone', ()) + tuple(self.lost)
        self.assuming = True
        for c in self.cands:
            s.assume(c(s, loc))
            covered |= getattr(c, 'covers', set())
        self.assuming = False
        # in the first iteration the head state is exactly the state before the loop
        self.kname = str(k)
        self.first = self.before(s, loc, k)
        for key in self.mods:
            # a cell whose value the invariant states exactly is not imprecise
            if key not in covered:
                for f in pend.get(key, ()):
                    self.flag(s, f)
        return s, loc

    def before(self, s, loc, k):
        ctx, cs = self.ctx, [k == 0]
        for name, a in s.heap.items():
            if z3.is_expr(a):
                b = self.st.heap.get(name)
                if b is None:
                    b = ctx.arr(self.st.copy(), name) if z3.is_array(a) else a
                if not a.eq(b):
                    cs.append(a == b)
        for i, v in loc.items():
            o = self.loc.get(i)
            if z3.is_expr(v) and z3.is_expr(o) and not v.eq(o):
                cs.append(v == o)
        return And(*cs)

    def flag(self, s, f):
        f = '%s (%s)' % (f, self.kname)
        s.flags.add(f)
        self.ctx.firsts[f] = self.first

    def isref(self, i):
        """is local i a reference at the head?"""
        for idx, nm, d, a, b in self.fr.m['lv']:
            if idx == i and a <= self.head < b:
                return d[0] in 'L['
        return None

    def live(self, i):
        """is local i read in the method on a path from the head before being written (approximation: live at head)"""
        lv = self.fr.m.get('_live')
        if lv is None:
            lv = liveness(self.fr.m, self.ctx.prog)
            self.fr.m['_live'] = lv
        return i in lv[self.head]

    def body_run(self):
        ctx = self.ctx
        k = ctx.fresh('k')
        rec = LoopRec(k, self.fr.where(self.head))
        rec.ctx = ctx
        rec.lo = ctx.n
        na = ctx.nalloc
        H, loc = self.head_state(rec, k)
        hp, hl, hlp = len(H.pc), len(H.log), len(H.loops)
        backs, exits, outs = self.fr.region([(H.copy(), self.head, dict(loc), list(self.stack))], self.body, self.head)
        backs, leave = self.leaving(loc, backs)
        exits = exits + leave
        rec.hi = ctx.n
        rec.base = H.pc[len(self.st.pc):]
        return k, rec, H, loc, backs, exits, outs, hp, hl, hlp, na

    def leaving(self, loc, backs):
        """ways back to the head that leave the loop there at once (a local was set to say so) are exits of their iteration"""
        stay, leave = [], []
        for it in backs:
            st, ip, l2, sk = it
            if any(z3.is_expr(v) and num(v) is not None and self.live(i) and not (i in loc and z3.is_expr(loc[i]) and v.eq(loc[i])) for i, v in l2.items()):
                nxt, os = self.fr.block(st.copy(), ip, dict(l2), list(sk))
                if nxt and not os and all(x[1] not in self.body and len(x[0].log) == len(st.log) for x in nxt):
                    leave += nxt
                    continue
            stay.append(it)
        return stay, leave

    def diff(self, k, H, loc, backs, na):
        """new modification info; True when something changed"""
        ctx = self.ctx
        changed = False
        for st, ip, l2, sk in backs:
            if st.epoch > H.epoch and not self.called:
                self.called = changed = True
        for st, ip, l2, sk in backs:
            for i in set(loc) | set(l2):
                if ('l', i) in self.mods or not self.live(i):
                    continue
                a, b = loc.get(i), l2.get(i)
                if a is None or b is None or not a.eq(b):
                    if a is not None and b is not None and ctx.valid(st, a == b, quant=False):
                        continue
                    self.mods[('l', i)] = self.mode(k, [(s, x.get(i)) for s, _, x, _ in backs], a, self.isref(i))
                    changed = True
            for name in set(H.heap) | set(st.heap):
                if name not in H.heap and name in ctx.__dict__.get('init', {}):
                    ha = ctx.init[name]
                else:
                    ha = H.heap.get(name)
                a = st.heap[name]
                if ('H', name) in self.mods or ha is None or (hasattr(a, 'eq') and a.eq(ha)):
                    continue
                if not z3.is_array(a):
                    if ('H', name) not in self.mods and not (self.called and name.startswith('S:')):
                        raise Unsupported('static field written in a loop: ' + name)
                    continue
                refs, x = [], a
                while z3.is_store(x) and not x.eq(ha):
                    refs.append(x.arg(1))
                    x = x.arg(0)
                if not x.eq(ha):
                    # base replaced
                    if self.called and self.rebased(name):
                        # cells that calls leave alone may still be written by the loop itself
                        for r in refs:
                            if self.outer(r, na, k, H) and self.preserved(name, r, st) is True:
                                changed |= self.cellmod(k, name, r, H, st, backs)
                            elif not self.outer(r, na, k, H) and num(r) is None and self.preserved(name, r, st) is None:
                                self.mods[('H', name)] = ('arr',)
                                changed = True
                                break
                        continue
                    # the head array may itself be a store chain over the same base
                    self.mods[('H', name)] = ('arr',)
                    changed = True
                    continue
                for r in refs:
                    n = num(r)
                    if n is not None and -n > na:
                        continue      # object of this iteration
                    key = ('h', name, str(r))
                    if key in self.mods:
                        continue
                    covered = self.called and self.rebased(name) and self.preserved(name, r, st) is False
                    if covered:
                        continue      # the havoc at the head covers it
                    if n is None and self.mentions(r, k, H):
                        self.mods[('H', name)] = ('arr',)
                        changed = True
                        break
                    changed |= self.cellmod(k, name, r, H, st, backs)
        for g in ('own', 'gone'):
            had = H.ghost.get(g, ())
            for st, ip, l2, sk in backs:
                has = st.ghost.get(g, ())
                for x in self.st.ghost.get('own', ()) if g == 'own' else has:
                    here = any(x.eq(o) for o in has)
                    if any(x.eq(o) for o in self.lost) or self.mentions(x, k, H) or (num(x) is not None and -num(x) > na):
                        continue
                    if (g == 'own') != here and (g == 'own' or not any(x.eq(o) for o in had)):
                        self.lost.append(x)
                        changed = True
        # verify the closed forms
        for key, mode in list(self.mods.items()):
            if mode[0] != 'lin':
                continue
            for st, ip, l2, sk in backs:
                if key[0] == 'l':
                    a, b = loc.get(key[1]), l2.get(key[1])
                else:
                    a, b = ctx.rd(H, key[1], self.terms[key]), ctx.rd(st, key[1], self.terms[key])
                if b is None or not ctx.valid(st, b == a + mode[1], quant=False):
                    if key not in self.tried and b is not None and a.sort() == Z and not (key[0] == 'l' and self.isref(key[1])):
                        # it may be that it only does not wrap around
                        self.tried.add(key)
                        self.user.append(self.no_wrap(key))
                        self.cands.append(self.user[-1])
                        changed = True
                        break
                    self.mods[key] = ('ref',) if key[0] == 'l' and self.isref(key[1]) else ('any',)
                    changed = True
                    break
        return changed

    def no_wrap(self, key):
        def f(s, lo):
            v = lo.get(key[1]) if key[0] == 'l' else self.ctx.rd(s, key[1], self.terms[key])
            return And(v > IMIN, v < IMAX) if z3.is_expr(v) else BoolVal(False)
        f.auto = True
        return f

    def outer(self, r, na, k, H):
        """not an object of this iteration"""
        n = num(r)
        return -n <= na if n is not None else not self.mentions(r, k, H)

    def cellmod(self, k, name, r, H, st, backs):
        ctx = self.ctx
        key = ('h', name, str(r))
        if key in self.mods:
            return False
        va, vb = ctx.rd(H, name, r), ctx.rd(st, name, r)
        if va.eq(vb) or ctx.valid(st, va == vb, quant=False):
            return False
        self.terms[key] = r
        self.mods[key] = self.mode(k, [(s, ctx.rd(s, name, r)) for s, _, _, _ in backs], va, False)
        return True

    def preserved(self, name, r, st):
        """do boundary calls leave this cell alone?  None: it may be one of those they leave alone"""
        ctx = self.ctx
        t = self.st.copy()
        ctx.arr(t, name)
        base = t.heap[name]
        ctx.havoc(t)
        x, kept = t.heap[name], []
        while z3.is_store(x):
            kept.append(x.arg(1))
            x = x.arg(0)
        may = None
        for o in kept:
            if o.eq(r):
                t2 = self.st.copy()
                v = ctx.fresh('probe', SORTS.get(name, Z))
                ctx.wr(t2, name, r, v)
                ctx.havoc(t2)
                w = ctx.rd(t2, name, r)
                return w.eq(v) or ctx.valid(t2, w == v, quant=False)
            if num(o) is not None and num(r) is not None:
                continue
            if not ctx.valid(st, o != r, quant=False):
                may = o
        return False if may is None else None

    def rebased(self, name):
        """is the array one that boundary calls havoc?"""
        t = self.st.copy()
        self.ctx.arr(t, name)
        before = t.heap[name]
        self.ctx.havoc(t)
        return not t.heap[name].eq(before)

    def mentions(self, r, k, H):
        todo, seen = [r], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = str(x)
                if x.eq(k):
                    return True
                if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > int(str(k).rsplit('!', 1)[1]):
                    return True
            todo.extend(x.children())
        return False

    def mode(self, k, vals, a, isref):
        ctx = self.ctx
        if isref:
            return ('ref',)
        if a is None or a.sort() != Z:
            return ('any',)
        c = None
        for s, b in vals:
            if b is None:
                return ('any',)
            d = simplify(b - a)
            n = num(d)
            if n is None:
                for g in (1, -1, 2, -2):
                    if ctx.valid(s, d == g, quant=False):
                        n = g
                        break
            if n is None or (c is not None and c != n):
                return ('any',) if isref is not None or True else ('ref',)
            c = n
        return ('lin', c) if c is not None else ('any',)

    def find_cands(self, k, H, loc, backs, exits, outs, hp):
        """comparisons on the iteration paths give candidate bounds"""
        atoms = []
        for st in [b[0] for b in backs] + [e[0] for e in exits]:
            for c in st.pc[hp:]:
                todo = [c]
                while todo:
                    x = todo.pop()
                    if z3.is_not(x) or z3.is_and(x) or z3.is_or(x):
                        todo.extend(x.children())
                    elif z3.is_le(x) or z3.is_lt(x) or z3.is_ge(x) or z3.is_gt(x) or (z3.is_eq(x) and x.arg(0).sort() == Z):
                        if self.mentions(x, k, H):
                            atoms.append((x.arg(0), x.arg(1)))
        res, seen = [], set()
        for a, b in atoms:
            for l, r in ((a, b), (b, a)):
                key = (str(l), str(r))
                if key not in seen:
                    seen.add(key)
                    res.append((l, r))
        return res[:16]

    def run(self):
        ctx = self.ctx
        for rnd in range(14):
            k, rec, H, loc, backs, exits, outs, hp, hl, hlp, na = self.body_run()
            if self.diff(k, H, loc, backs, na):
                continue
            # candidate bounds: Houdini
            if not hasattr(self, 'done'):
                self.done = True
                # expressions over k only (closed forms): candidate l<=r
                for l, r in self.find_cands(k, H, loc, backs, exits, outs, hp):
                    if self.only_k(l, k) and self.only_k(r, k):
                        for d in (0, 1):      # i < n, and i >= 0 counting down
                            f = lambda s, lo, l=l, r=r, kk=k, d=d: z3.substitute(l <= r + d, (kk, self.kof(s)))
                            f.auto = True
                            self.user.append(f)
                for f in [c for g in ctx.loop_cands for c in g(ctx, self)]:
                    self.user.append(f)
                keep = []
                s0 = self.st.copy()
                s0.log.append(rec)
                for f in self.user:
                    z = self.safe(f, self.st, self.loc, IntVal(0))
                    if ctx.valid(self.st, z, quant=not getattr(f, 'auto', False)):
                        keep.append(f)
                had, self.user = self.cands, keep
                self.cands = list(keep)
                if keep or had:
                    continue
            bad = []
            for f in self.cands:
                for st, ip, l2, sk in backs:
                    g = self.safe(f, st, l2, k + 1)
                    if not ctx.valid(st, g, quant=not getattr(f, 'auto', False)):
                        bad.append(f)
                        break
            if bad:
                self.cands = [f for f in self.cands if f not in bad]
                continue
            break
        else:
            raise Budget('no stable loop invariant at ' + self.fr.where(self.head))
        rec.N = k
        for st, ip, l2, sk in backs:
            rec.paths.append((st.pc[hp:], st.log[hl:], st.loops[hlp:]))
        outs = [o for o in outs if len(o.st.pc) == hp or not ctx.valid(o.st, BoolVal(False))]
        # an exit says nothing of the earlier iterations' other ways out, unless the invariant does
        ways = set(it[1] for it in exits) | set(('out', o.kind) for o in outs if len(o.st.pc) > hp and not any(getattr(e, 'exc', None) is not None for e in o.st.log[hl:]))
        if len(ways) > 1 and not any(not getattr(f, 'auto', False) for f in self.cands):
            for s in [it[0] for it in exits] + [o.st for o in outs]:
                self.flag(s, 'loop with several exits at %s: earlier iterations not described' % self.fr.where(self.head))
        for f in set().union(*[it[0].flags for it in backs]) if backs else ():
            for s in [it[0] for it in exits] + [o.st for o in outs]:
                if f not in s.flags:
                    self.flag(s, 'earlier iteration: ' + f)
        ex2 = []
        for it in exits:
            self.finish(it[0], rec)
            ex2.append(it)
        for o in outs:
            self.finish(o.st, rec)
        return ex2, outs

    def finish(self, st, rec):
        if not rec.haslog():
            st.log = [e for e in st.log if e is not rec]

    def kof(self, s):
        return self._k

    def safe(self, f, st, loc, k):
        self._k = k
        return f(st, loc)

    def only_k(self, t, k):
        """mentions no symbol made after k"""
        todo, seen = [t], set()
        kn = int(str(k).rsplit('!', 1)[1])
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = str(x)
                if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > kn:
                    return False
            todo.extend(x.children())
        return True


def liveness(m, prog):
    """live locals per instruction"""
    ins = m['ins']
    n = len(ins)
    succ = [[] for _ in range(n)]
    for i, x in enumerate(ins):
        op = x[0]
        if op == 'GOTO':
            succ[i] = [x[1]]
        elif op.startswith('IF'):
            succ[i] = [x[1], i + 1]
        elif op in ('TABLESWITCH', 'LOOKUPSWITCH'):
            succ[i] = [t for _, t in x[1]] + [x[2]]
        elif op.endswith('RETURN') or op == 'ATHROW':
            succ[i] = []
        else:
            succ[i] = [i + 1]
        for s, e, h, _ in m['tc']:
            if s <= i < e:
                succ[i] = succ[i] + [h]
    live = [set() for _ in range(n + 1)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            x = ins[i]
            o = set()
            for s in succ[i]:
                if s < n:
                    o |= live[s]
            if x[0] in ('ILOAD', 'ALOAD', 'LLOAD', 'IINC'):
                o = o | {x[1]}
            elif x[0] in ('ISTORE', 'ASTORE', 'LSTORE'):
                o = o - {x[1]} if not any(s <= i < e for s, e, _, _ in m['tc']) else o - {x[1]}
            if o != live[i]:
                live[i] = o
                ch = True
    return live
