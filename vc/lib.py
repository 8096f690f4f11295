"""Contracts of the library code (JDK, log4j) the repository calls: trusted, listed in the evidence."""
import z3
from z3 import And, Or, Not, Implies, If, Int, IntVal, Select, Store, BoolVal, simplify, ForAll, Exists
from engine import (Ctx, Unsupported, Out, Entry, Call, num, b2i, Z, ARR, EXC, ERR, NPE, ISE, IMIN, IMAX, parse_desc, is_true, is_false)

LISTS = {'java/util/ArrayList', 'java/util/LinkedList', 'java/util/concurrent/CopyOnWriteArrayList', 'java/util/Vector'}
MAPS = {'java/util/HashMap', 'java/util/concurrent/ConcurrentHashMap', 'java/util/LinkedHashMap'}
SETS = {'java/util/HashSet', 'java/util/LinkedHashSet', 'java/util/concurrent/CopyOnWriteArraySet'}
QUEUES = {'java/util/concurrent/ConcurrentLinkedQueue', 'java/util/ArrayDeque', 'java/util/concurrent/LinkedBlockingQueue',
          'java/util/concurrent/ConcurrentLinkedDeque', 'java/util/concurrent/LinkedBlockingDeque'}
ATOMICS = {'java/util/concurrent/atomic/Atomic' + x for x in ('Boolean', 'Integer', 'Long', 'Reference')}
PKG = 'com/webotech/statemachine/'
EVTS = {PKG + 'api/StateEvent', PKG + 'NamedStateEvent', PKG + 'api/State', PKG + 'NamedState'}
CLASSOBJ = 5000000

LIB = {}


def lib(*keys):
    def d(f):
        for k in keys:
            LIB[k] = f
        return f
    return d


def ret(st, v=None):
    return [Out(st, 'ret', v)]


def kind_of(ctx, st, ref, owner):
    n = num(ref)
    if n is not None and n in ctx.info:
        i = ctx.info[n]
        if i.kind:
            return i.kind
    for c in ctx.prog.supers(owner):
        if c in ('java/util/List', 'java/util/ArrayList'):
            return 'list'
        if c in ('java/util/Map',):
            return 'map'
        if c in ('java/util/Queue', 'java/util/Deque'):
            return 'queue'
        if c in ('java/util/Set',):
            return 'set'
    h = ctx.hint(ref)
    if h and h != owner and h.startswith('java/util'):
        return kind_of(ctx, st, IntVal(10**8), h)
    return None


# ---------------------------------------------------------------- Ctx methods living here
def hint(self, t):
    r = self.ctypes.get(t.get_id())
    return r[1] if r else None


def note_type(self, t, desc):
    if num(t) is None and desc and desc[0] == 'L':
        self.ctypes[t.get_id()] = (t, desc[1:-1])


def note_cast(self, st, v, cls):
    h = self.hint(v)
    if h is None or h == 'java/lang/Object':
        self.note_type(v, 'L' + cls + ';')


def is_string(self, t):
    n = num(t)
    if n is not None and n in self.info:
        return self.info[n].kind == 'str'
    return self.hint(t) == 'java/lang/String'


def eqcls(self, st, t):
    """equality class of any reference"""
    if num(t) == 0:
        return IntVal(0)
    if self.is_string(t):
        return If(t == 0, IntVal(0), self.nsk(IntVal(3), self.cid(t)))
    n = num(t)
    if n is not None and n in self.info and self.info[n].kind == 'box':
        return self.nsk(IntVal(4), self.info[n].data['val'])
    return self.eqv(st, t)


def new_object_any(self, st, cls):
    if cls in self.prog.classes:
        r = self.new_object(st, cls)
    elif cls in LISTS:
        r = self.alloc(cls, 'list')
    elif cls in MAPS:
        r = self.alloc(cls, 'map')
    elif cls in SETS:
        r = self.alloc(cls, 'set')
    elif cls in QUEUES:
        r = self.alloc(cls, 'queue')
    elif cls in ATOMICS:
        r = self.alloc(cls, 'atomic')
        self.wr(st, 'AB.val', r, 0)
    else:
        r = self.alloc(cls)
    if self.prog.subtype(cls, 'java/lang/Throwable'):
        st.exct[num(r)] = (cls, frozenset())
    return r


def getstatic(self, st, owner, name, desc):
    o = self.prog.field_owner(owner, name)
    k = 'S:%s.%s' % (o, name)
    if k not in st.heap:
        f = self.prog.field(o, name)
        if f is not None and f['value']:
            c = f['value']
            st.heap[k] = self.lit(c[1]) if c[0] == 'S' else IntVal(c[1])
        elif f is not None:
            self.clinit(st, o)
            if k not in st.heap:
                st.heap[k] = IntVal(0)
        else:
            v = Int('static %s.%s' % (o, name))
            st.assume(v > 0)
            st.heap[k] = v
            st.ghost['final:' + k] = True
    if self.aged and self.prog.is_repo(o) and k not in self.prog.constant_fields() and (k, None) not in self.aged[1]:
        st.flags.add('anything may be in %s by now' % k)
        st.heap[k] = self.fresh_of(st, desc, 'aged')
    v = st.heap[k]
    if desc[0] == 'L':
        self.note_type(v, desc)
    return v


def clinit(self, st, cls):
    g = 'clinit:' + cls
    if st.ghost.get(g):
        return
    st.ghost[g] = True
    m = self.prog.methods.get((cls, '<clinit>', '()V'))
    for f in self.prog.classes[cls]['fields']:
        if f['access'] & 8:
            k = 'S:%s.%s' % (cls, f['name'])
            if f['access'] & 0x10:
                st.ghost['final:' + k] = True
    if not m:
        return
    # class initialisation runs once, before any history: its effects are part of the initial state
    s = st.copy()
    outs = [o for o in self.call_method(s, m, []) if o.kind == 'ret']
    if len(outs) != 1:
        raise Unsupported('class initialiser of ' + cls)
    o = outs[0].st
    for slot in State_slots:
        setattr(st, slot, getattr(o, slot))


State_slots = ('pc', 'heap', 'log', 'loops', 'flags', 'locks', 'exct', 'epoch', 'ghost', 'trace')


def init_statics(self, st):
    for c in sorted(self.prog.classes):
        if self.prog.is_repo(c) and (c, '<clinit>', '()V') in self.prog.methods:
            self.clinit(st, c)


def instance_of(self, st, v, T):
    n = num(v)
    if n == 0:
        return BoolVal(False)
    if n is not None and n in self.info:
        i = self.info[n]
        if i.kind == 'anyexc':
            up, ex = st.exct[n]
            if self.prog.subtype(up, T):
                return BoolVal(True)
            if not self.prog.subtype(T, up) or T in ex:
                return BoolVal(False)
            return z3.Function('inst:' + T, Z, z3.BoolSort())(v)
        if i.cls in self.prog.classes or i.cls in self.prog.hier:
            return BoolVal(self.prog.subtype(i.cls, T))
        return z3.Function('inst:' + T, Z, z3.BoolSort())(v)
    h = self.hint(v)
    if h and self.prog.subtype(h, T):
        return v != 0
    d = self.prog.classes.get(T) or {}
    if T in self.prog.classes and not d['access'] & 0x600:
        return And(v != 0, self.clsf(v) == self.clsid(T))
    return And(v != 0, z3.Function('inst:' + T, Z, z3.BoolSort())(v))


def class_obj(self, st, ref):
    n = num(ref)
    if n is not None and n in self.info:
        return simplify(CLASSOBJ + self.clsid(self.info[n].cls))
    return CLASSOBJ + self.clsf(ref)


def to_pieces(self, st, v, desc):
    if desc in ('I', 'J', 'S', 'B'):
        n = num(v)
        return [str(n)] if n is not None else [('i', v)]
    if desc == 'Z' or desc == 'C':
        return [(desc, v)]
    n = num(v)
    if n == 0:
        return ['null']
    if n is not None and n in self.info:
        i = self.info[n]
        if i.kind == 'str':
            return list(i.data['pieces'])
        if i.kind == 'box':
            return self.to_pieces(st, i.data['val'], i.data['desc'])
    if self.is_string(v):
        return [('s', v)]
    return [('o', v)]


def invoke(self, st, call):
    prog = self.prog
    a = call.args
    if call.op != 'INVOKESTATIC' and num(a[0]) is None:
        a[0] = self.resolve(st, a[0])
        if num(a[0]) is None and call.owner not in ('java/lang/Object', 'java/lang/Iterable') and self.hint(a[0]) in (None, 'java/lang/Object'):
            self.note_type(a[0], 'L' + call.owner + ';')
    for x, d in zip(a if call.op == 'INVOKESTATIC' else a[1:], call.adesc):
        if d[0] == 'L' and d != 'Ljava/lang/Object;' and num(x) is None and self.hint(x) is None:
            self.note_type(x, d)
    recv = a[0] if call.op != 'INVOKESTATIC' else None
    info = self.info.get(num(recv)) if recv is not None and num(recv) is not None else None
    # contracts registered by the proof
    owners = []
    if info is not None and info.kind != 'lambda' and call.op != 'INVOKESPECIAL':
        owners += prog.supers(info.cls)
    owners += [o for o in prog.supers(call.owner) if o not in owners]
    for o in owners:
        h = self.boundary.get((o, call.name))
        if h is not None:
            r = h(self, st, call)
            if r is not None:
                return post(self, r, call)
    # closures
    if info is not None and info.kind == 'lambda' and call.op != 'INVOKESPECIAL':
        d = info.data
        if call.name == d['sam']:
            return post(self, run_lambda(self, st, info, a[1:], call), call)
    # code
    target = None
    if call.op == 'INVOKESTATIC' or call.op == 'INVOKESPECIAL':
        target = prog.find(call.owner, call.name, call.desc) if call.owner in prog.classes else None
    elif info is not None and info.cls in prog.classes:
        if info.cls.startswith('model/'):
            target = by_arity(prog, info.cls, call.name, len(a) - 1)
        else:
            target = prog.find(info.cls, call.name, call.desc)
    elif call.owner in prog.classes and info is None:
        d = prog.classes[call.owner]
        if not d['access'] & 0x600 and not has_subclass(prog, call.owner):
            target = prog.find(call.owner, call.name, call.desc)
        elif d['access'] & 0x400 and not d['access'] & 0x200 or has_subclass(prog, call.owner) or d['access'] & 0x200:
            m = prog.find(call.owner, call.name, call.desc)
            if m is not None and m['access'] & 0x12:   # final or private
                target = m
            elif m is not None and d['access'] & 0x200:  # default method
                target = m
    if target is not None and self.equality_contract(call, info):
        target = None
    if target is not None:
        if call.op == 'INVOKESTATIC' and prog.is_repo(target['cls']):
            self.clinit(st, target['cls'])
        return post(self, self.call_method(st, target, a), call)
    r = library(self, st, call, info)
    return post(self, r, call)


def equality_contract(self, call, info):
    """equals/hashCode of named states and events are used through their contract (C13)"""
    return call.name in ('equals', 'hashCode') and call.op != 'INVOKESPECIAL' and (
        (info is not None and info.cls in self.NAMED) or (info is None and call.owner in EVTS))


def has_subclass(prog, c):
    return any(d.get('super') == c for n, d in prog.classes.items() if not n.startswith('model/'))


def by_arity(prog, cls, name, n):
    for c in prog.supers(cls):
        d = prog.classes.get(c)
        if d:
            for m in d['methods']:
                if m['name'] == name and not m['access'] & 0x408 and len(parse_desc(m['desc'])[0]) == n:
                    return m
    return None


def post(self, outs, call):
    for o in outs:
        if o.kind == 'ret' and o.val is not None and call.rdesc[0] == 'L':
            if self.hint(o.val) is None:
                self.note_type(o.val, call.rdesc)
    return outs


def run_lambda(self, st, info, args, call):
    d = info.data
    _, tag, owner, name, desc = d['impl']
    full = list(d['cap']) + list(args)
    ad, rd = parse_desc(desc)
    if tag == 6:
        c = Call('INVOKESTATIC', owner, name, desc, full, call.where)
    elif tag in (5, 9):
        if not d['cap']:
            res = []
            for s, z in self.fork(st, full[0] == 0):
                if z:
                    res.append(self.throw(s, NPE))
                else:
                    res += self.invoke(s, Call('INVOKEVIRTUAL' if tag == 5 else 'INVOKEINTERFACE', owner, name, desc, list(full), call.where))
            return adapt(self, res, rd, call)
        c = Call('INVOKEVIRTUAL' if tag == 5 else 'INVOKEINTERFACE', owner, name, desc, full, call.where)
    elif tag == 7:
        c = Call('INVOKESPECIAL', owner, name, desc, full, call.where)
    elif tag == 8:
        r = self.new_object_any(st, owner)
        res = self.invoke(st, Call('INVOKESPECIAL', owner, name, desc, [r] + full, call.where))
        return [Out(o.st, o.kind, r if o.kind == 'ret' else o.val) for o in res]
    else:
        raise Unsupported('method handle %d' % tag)
    # unboxing/boxing between the functional interface and the implementation
    off = 0 if tag == 6 else 1
    for i, de in enumerate(ad):
        j = i + off
        if len(de) == 1 and j < len(c.args):
            inf = self.info.get(num(c.args[j])) if num(c.args[j]) is not None else None
            if inf is not None and inf.kind == 'box':
                c.args[j] = inf.data['val']
    return adapt(self, self.invoke(st, c), rd, call)


def adapt(self, outs, rd, call):
    """box / unbox / drop the result of a method used as a functional interface"""
    want = call.rdesc
    for o in outs:
        if o.kind != 'ret':
            continue
        if want == 'V':
            o.val = None
        elif len(rd) == 1 and rd != 'V' and len(want) > 1:
            o.val = self.box(o.val, rd)
        elif len(rd) > 1 and len(want) == 1 and o.val is not None:
            o.val = self.unbox(o.st, o.val)
    return outs


def box(self, v, desc):
    return self.alloc({'I': 'java/lang/Integer', 'Z': 'java/lang/Boolean', 'J': 'java/lang/Long'}.get(desc, 'java/lang/Object'), 'box', val=v, desc=desc)


def unbox(self, st, v):
    v = self.resolve(st, v)
    i = self.info.get(num(v)) if num(v) is not None else None
    if i is not None and i.kind == 'box':
        return i.data['val']
    return z3.Function('unbox', Z, Z)(v)


FUNC = ('java/util/function/', 'java/lang/Runnable', 'java/util/concurrent/Callable', 'java/lang/Thread$UncaughtExceptionHandler',
        'java/util/Comparator', 'java/util/concurrent/ThreadFactory')


def library(self, st, call, info):
    prog = self.prog
    owners = []
    if info is not None and call.op not in ('INVOKESTATIC', 'INVOKESPECIAL') and info.kind != 'lambda':
        owners += prog.supers(info.cls)
    owners += [o for o in prog.supers(call.owner) if o not in owners]
    if call.op == 'INVOKESPECIAL' and call.name == '<init>':
        owners = [call.owner, 'java/lang/Object'] if not prog.subtype(call.owner, 'java/lang/Throwable') else ['java/lang/Throwable']
    n = len(call.args)
    if self.aged and info is not None and info.kind in self.AGES and call.name != '<init>':
        self.aging(st, call.args[0], {'list': 'L', 'array': 'A', 'queue': 'Q', 'atomic': 'AB.val'}.get(info.kind, 'M'))
    for o in owners:
        f = LIB.get('%s.%s' % (o, call.name))
        if f is not None:
            self.libuse.add('%s.%s' % (o, call.name))
            r = f(self, st, call)
            if r is not None:
                return r
        sn = o.rsplit('/', 1)[-1].replace('$', '_')
        m = self.model(sn + '_' + call.name, n)
        if m is not None:
            self.libuse.add('%s.%s' % (o, call.name))
            return self.call_method(st, m, call.args)
    if call.name == '<init>' and (prog.subtype(call.owner, 'java/lang/Throwable') or call.owner == 'java/lang/Object'):
        return ret(st)
    # an object of unknown class behind an interface or a function object: boundary call
    d = prog.classes.get(call.owner)
    if (d is not None and d['access'] & 0x600) or call.owner.startswith(FUNC):
        return self.callback(st, '%s.%s' % (call.owner.rsplit('/', 1)[-1], call.name), call.args[0], call.args[1:], call.rdesc, call.where)
    raise Unsupported('call of %s' % call)


def model(self, name, n):
    d = self.prog.classes.get('model/J')
    if d:
        for m in d['methods']:
            if m['name'] == name and len(parse_desc(m['desc'])[0]) == n:
                return m
    return None


for f in (hint, note_type, note_cast, is_string, eqcls, new_object_any, getstatic, clinit, init_statics, instance_of, class_obj,
          to_pieces, invoke, equality_contract, library, model, box, unbox):
    setattr(Ctx, f.__name__, f)


# ---------------------------------------------------------------- Object, Objects, boxes
@lib('java/lang/Object.<init>')
def _(c, st, k):
    return ret(st)


@lib('java/lang/Object.getClass')
def _(c, st, k):
    return ret(st, c.class_obj(st, k.args[0]))


@lib('java/lang/Class.getSimpleName', 'java/lang/Class.getName')
def _(c, st, k):
    v = z3.Function('className', Z, Z)(k.args[0])
    st.assume(v > 0)
    return ret(st, v)


@lib('java/lang/Object.equals')
def _(c, st, k):
    a, b = k.args
    if c.is_string(a) or c.is_string(b):
        return ret(st, simplify(b2i(And(b != 0, c.cid(a) == c.cid(b)) if c.is_string(a) and c.is_string(b) else c.eqcls(st, a) == c.eqcls(st, b))))
    return ret(st, simplify(b2i(Or(a == b, And(b != 0, c.eqcls(st, a) == c.eqcls(st, b))))))


@lib('java/lang/Object.hashCode')
def _(c, st, k):
    v = z3.Function('hashOf', Z, Z)(c.eqcls(st, k.args[0]))
    st.assume(And(v >= IMIN, v <= IMAX))
    return ret(st, v)


@lib('java/lang/System.identityHashCode')
def _(c, st, k):
    v = z3.Function('identityHash', Z, Z)(k.args[0])
    st.assume(And(v >= IMIN, v <= IMAX))
    return ret(st, v)


@lib('java/lang/Object.toString', 'java/lang/String.valueOf', 'java/util/Objects.toString')
def _(c, st, k):
    if len(k.args) != 1:
        return None
    d = k.adesc[0] if k.op == 'INVOKESTATIC' else 'Lx;'
    if c.is_string(k.args[0]) and k.name == 'toString' and k.op != 'INVOKESTATIC':
        return ret(st, k.args[0])
    return ret(st, c.new_string(c.to_pieces(st, k.args[0], d)))


@lib('java/util/Objects.equals')
def _(c, st, k):
    a, b = k.args
    return ret(st, simplify(b2i(Or(a == b, And(a != 0, b != 0, c.eqcls(st, a) == c.eqcls(st, b))))))


@lib('java/util/Objects.hashCode')
def _(c, st, k):
    a = k.args[0]
    v = If(a == 0, IntVal(0), z3.Function('hashOf', Z, Z)(c.eqcls(st, a)))
    st.assume(And(v >= IMIN, v <= IMAX))
    return ret(st, v)


@lib('java/util/Objects.hash', 'java/util/Arrays.hashCode')
def _(c, st, k):
    a = k.args[0]
    n = num(c.rd(st, 'A.len', a))
    if n is None:
        raise Unsupported('Objects.hash of an unknown array')
    v = IntVal(1)
    for i in range(n):
        e = simplify(Select(c.rd(st, 'A.arr', a), i))
        e = c.resolve(st, e)
        v = 31 * v + If(e == 0, IntVal(0), z3.Function('hashOf', Z, Z)(c.eqcls(st, e)))
    w = c.fresh('hash')
    st.assume(w == (v + 2**31) % 2**32 - 2**31)
    return ret(st, w)


@lib('java/lang/Integer.valueOf', 'java/lang/Boolean.valueOf', 'java/lang/Long.valueOf', 'java/lang/Character.valueOf')
def _(c, st, k):
    if len(k.adesc[0]) != 1:
        return None
    return ret(st, c.box(k.args[0], k.adesc[0]))


@lib('java/lang/Integer.intValue', 'java/lang/Boolean.booleanValue', 'java/lang/Long.longValue', 'java/lang/Number.intValue')
def _(c, st, k):
    return ret(st, c.unbox(st, k.args[0]))


@lib('java/lang/Integer.toString', 'java/lang/Long.toString')
def _(c, st, k):
    if k.op == 'INVOKESTATIC':
        return ret(st, c.new_string(c.to_pieces(st, k.args[0], 'I')))
    return ret(st, c.new_string(c.to_pieces(st, c.unbox(st, k.args[0]), 'I')))


@lib('java/lang/Math.max', 'java/lang/Math.min')
def _(c, st, k):
    a, b = k.args
    return ret(st, simplify(If(a >= b, a, b) if k.name == 'max' else If(a <= b, a, b)))


@lib('java/lang/Math.abs')
def _(c, st, k):
    a = k.args[0]
    return ret(st, simplify(If(Or(a >= 0, a == IMIN), a, -a)))


@lib('java/lang/System.nanoTime', 'java/lang/System.currentTimeMillis')
def _(c, st, k):
    return ret(st, c.fresh('time'))


@lib('java/lang/Thread.yield', 'java/lang/Thread.onSpinWait')
def _(c, st, k):
    return ret(st)


# ---------------------------------------------------------------- strings
@lib('java/lang/String.equals')
def _(c, st, k):
    a, b = k.args
    if not c.is_string(b) and num(b) != 0:
        h = c.hint(b)
        if h not in (None, 'java/lang/Object'):
            return ret(st, IntVal(0))
    return ret(st, simplify(b2i(And(b != 0, c.cid(a) == c.cid(b)))))


def litval(c, ref):
    n = num(ref)
    if n is not None and n in c.info and c.info[n].kind == 'str':
        p = c.info[n].data['pieces']
        if all(isinstance(x, str) for x in p):
            return ''.join(p)
    return None


@lib('java/lang/String.isEmpty')
def _(c, st, k):
    s = litval(c, k.args[0])
    if s is not None:
        return ret(st, IntVal(0 if s else 1))
    if any(isinstance(p, str) for p in c.pieces(st, k.args[0])):
        return ret(st, IntVal(0))
    return ret(st, simplify(b2i(c.cid(k.args[0]) == c.litid(''))))


@lib('java/lang/String.length')
def _(c, st, k):
    s = litval(c, k.args[0])
    if s is not None:
        return ret(st, IntVal(len(s)))
    i = c.cid(k.args[0])
    v = z3.Function('strlen', Z, Z)(i)
    st.assume(And(v >= 0, v <= IMAX, (v == 0) == (i == c.litid(''))))
    return ret(st, v)


STRFUN = {'contentEquals': 'b', 'equalsIgnoreCase': 'b', 'startsWith': 'b', 'endsWith': 'b', 'contains': 'b', 'isBlank': 'b', 'matches': 'b',
          'hashCode': 'i', 'compareTo': 'i', 'indexOf': 'i', 'charAt': 'i', 'trim': 's', 'toLowerCase': 's', 'toUpperCase': 's',
          'strip': 's', 'substring': 's', 'replace': 's', 'intern': 's', 'repeat': 's', 'compareToIgnoreCase': 'i', 'lastIndexOf': 'i'}


def java_hash(s):
    h, b = 0, s.encode('utf-16-be', 'surrogatepass')
    for i in range(0, len(b), 2):
        h = (h * 31 + b[i] * 256 + b[i + 1]) & 0xffffffff
    return h - (1 << 32) if h >= 1 << 31 else h


def strfun(c, st, k):
    t = STRFUN[k.name]
    lv = [litval(c, a) for a in k.args]
    ids = [c.cid(a) if (i == 0 or k.adesc[i - 1][0] == 'L') else a for i, a in enumerate(k.args)]
    f = z3.Function('str.%s/%d' % (k.name, len(ids)), *([Z] * (len(ids) + 1)))
    v = f(*ids)
    if all(x is not None for x in lv):
        # the characters these do not agree on do not occur in literals here
        sp = ''.join(map(chr, range(33)))
        py = {'equalsIgnoreCase': lambda a, b: int(a.lower() == b.lower()), 'startsWith': lambda a, b: int(a.startswith(b)),
              'endsWith': lambda a, b: int(a.endswith(b)), 'contains': lambda a, b: int(b in a), 'isBlank': lambda a: int(not a.strip()),
              'trim': lambda a: a.strip(sp), 'strip': lambda a: a.strip(), 'toLowerCase': lambda a: a.lower(), 'toUpperCase': lambda a: a.upper(),
              'contentEquals': lambda a, b: int(a == b), 'indexOf': lambda a, b: a.find(b), 'lastIndexOf': lambda a, b: a.rfind(b)}.get(k.name)
        if py and len(lv) <= 2 and all(x.isascii() for x in lv):
            r = py(*lv)
            return ret(st, c.new_string([r]) if isinstance(r, str) else IntVal(r))
    if k.name == 'contentEquals':
        return ret(st, simplify(b2i(ids[0] == ids[1])))
    if k.name not in ('hashCode', 'compareTo', 'intern'):
        st.flags.add('String.%s: any function' % k.name)
    if t == 'b':
        st.assume(Or(v == 0, v == 1))
        if k.name in ('equalsIgnoreCase', 'startsWith', 'endsWith', 'contains'):
            st.assume(Implies(ids[0] == ids[1], v == 1))
        return ret(st, v)
    if t == 'i':
        if k.name == 'hashCode':
            h = lambda i: z3.Function('hashOf', Z, Z)(c.nsk(IntVal(3), i))
            v = h(ids[0])
            for s in c.prog.switched() | ({lv[0]} if lv[0] is not None else set()):
                st.assume(h(c.litid(s)) == java_hash(s))
        if k.name == 'compareTo':
            st.assume((v == 0) == (ids[0] == ids[1]))
        st.assume(And(v >= IMIN, v <= IMAX))
        return ret(st, v)
    r = c.fresh_ref(st, 'str', True)
    c.note_type(r, 'Ljava/lang/String;')
    st.assume(c.cidf(r) == (ids[0] if k.name == 'intern' else v))
    return ret(st, r)


for _n in STRFUN:
    LIB['java/lang/String.' + _n] = strfun


@lib('java/lang/String.concat')
def _(c, st, k):
    return ret(st, c.new_string(list(c.pieces(st, k.args[0])) + c.to_pieces(st, k.args[1], 'Lx;')))


@lib('java/lang/String.format', 'java/lang/String.formatted')
def _(c, st, k):
    if k.adesc and k.adesc[0] == 'Ljava/util/Locale;':
        k.args = k.args[1:]
    f = litval(c, c.resolve(st, k.args[0]))
    n = num(c.rd(st, 'A.len', k.args[1]))
    if f is None or n is None:
        # the format itself is not a literal: the text is unknown and formatting may fail
        s = st.copy()
        v = c.fresh_ref(st, 'fmt', True)
        return [c.throw(s, 'java/util/UnknownFormatConversionException'), Out(st, 'ret', v)]
    out, i, ai = [], 0, 0
    while i < len(f):
        if f[i] == '%':
            cv = f[i + 1] if i + 1 < len(f) else ''
            if cv == '%':
                out.append('%')
            elif cv in 'sd':
                if ai >= n:
                    return [c.throw(st, 'java/util/MissingFormatArgumentException')]
                e = c.resolve(st, simplify(Select(c.rd(st, 'A.arr', k.args[1]), ai)))
                out += c.to_pieces(st, e, 'Lx;')
                ai += 1
            else:
                raise Unsupported('format ' + f)
            i += 2
        else:
            out.append(f[i])
            i += 1
    return ret(st, c.new_string(out))


for _o in ('java/lang/StringBuilder', 'java/lang/StringBuffer'):
    @lib(_o + '.<init>')
    def _(c, st, k):
        s = k.args[1] if len(k.args) > 1 and k.adesc[0] == 'Ljava/lang/String;' else c.lit('')
        c.wr(st, 'SB.s', k.args[0], s)
        return ret(st)

    @lib(_o + '.append')
    def _(c, st, k):
        s = c.rd(st, 'SB.s', k.args[0])
        c.wr(st, 'SB.s', k.args[0], c.new_string(list(c.pieces(st, s)) + c.to_pieces(st, k.args[1], k.adesc[0])))
        return ret(st, k.args[0])

    @lib(_o + '.toString')
    def _(c, st, k):
        return ret(st, c.rd(st, 'SB.s', k.args[0]))


@lib('java/util/StringJoiner.<init>', 'java/util/StringJoiner.add', 'java/util/StringJoiner.toString')
def _(c, st, k):
    if k.name == '<init>':
        return ret(st)
    if k.name == 'add':
        return ret(st, k.args[0])
    v = c.fresh_ref(st, 'joined', True)
    c.note_type(v, 'Ljava/lang/String;')
    return ret(st, v)


# ---------------------------------------------------------------- atomics
def atomic_pre(c, st, ref, what):
    if c.access_hook:
        c.access_hook(c, st, what, ref, 'AB.val')


def atomic_post(c, st, ref, old, new):
    c.wr(st, 'AB.val', ref, new)
    if c.access_hook:
        c.access_hook(c, st, 'wrote', ref, 'AB.val', old, new)


def aval(c, st, ref, owner):
    v = c.rd(st, 'AB.val', ref)
    if owner.endswith('Boolean'):
        st.assume(Or(v == 0, v == 1))
    elif owner.endswith('Integer'):
        st.assume(And(v >= IMIN, v <= IMAX))
    elif owner.endswith('Reference'):
        c.bound_read(st, 'AB.val', ref, v, 'Lx;')
    return v


def w32(v, owner):
    from engine import wrap32
    return simplify(wrap32(v)) if owner.endswith('Integer') else simplify(v)


def reg_atomic(o):
    P = o + '.'

    @lib(P + '<init>')
    def _(c, st, k):
        c.wr(st, 'AB.val', k.args[0], k.args[1] if len(k.args) > 1 else 0)
        return ret(st)

    @lib(*[P + x for x in ('get', 'getPlain', 'getAcquire', 'getOpaque', 'intValue', 'longValue')])
    def _(c, st, k):
        atomic_pre(c, st, k.args[0], 'get')
        return ret(st, aval(c, st, k.args[0], o))

    @lib(*[P + x for x in ('set', 'lazySet', 'setRelease', 'setPlain', 'setOpaque')])
    def _(c, st, k):
        atomic_pre(c, st, k.args[0], 'put')
        old = aval(c, st, k.args[0], o)
        atomic_post(c, st, k.args[0], old, k.args[1])
        return ret(st)

    @lib(P + 'getAndSet')
    def _(c, st, k):
        atomic_pre(c, st, k.args[0], 'rmw')
        old = aval(c, st, k.args[0], o)
        atomic_post(c, st, k.args[0], old, k.args[1])
        return ret(st, old)

    @lib(*[P + x for x in ('compareAndSet', 'weakCompareAndSet', 'compareAndExchange', 'weakCompareAndSetPlain', 'weakCompareAndSetVolatile')])
    def _(c, st, k):
        atomic_pre(c, st, k.args[0], 'rmw')
        res = []
        old = aval(c, st, k.args[0], o)
        if k.name.startswith('weak'):
            s0 = st.copy()
            res += ret(s0, IntVal(0))
        for s, ok in c.fork(st, old == k.args[1]):
            if ok:
                atomic_post(c, s, k.args[0], k.args[1], k.args[2])
            v = old if k.name == 'compareAndExchange' else IntVal(1 if ok else 0)
            res += ret(s, v)
        return res

    def arith(delta, after):
        def f(c, st, k):
            atomic_pre(c, st, k.args[0], 'rmw')
            old = aval(c, st, k.args[0], o)
            d = delta if delta is not None else k.args[1]
            new = w32(old + d, o)
            if o.endswith('Integer') and delta is not None:
                c.assumed_no_wrap = True
                st.assume(And(old + d >= IMIN, old + d <= IMAX))
                new = simplify(old + d)
            atomic_post(c, st, k.args[0], old, new)
            return ret(st, new if after else old)
        return f
    if o.endswith(('Integer', 'Long')):
        for nm, d, af in (('getAndIncrement', 1, 0), ('incrementAndGet', 1, 1), ('getAndDecrement', -1, 0), ('decrementAndGet', -1, 1),
                          ('getAndAdd', None, 0), ('addAndGet', None, 1)):
            LIB[P + nm] = arith(d, af)

    @lib(P + 'updateAndGet', P + 'getAndUpdate')
    def _(c, st, k):
        atomic_pre(c, st, k.args[0], 'rmw')
        old = aval(c, st, k.args[0], o)
        inf = c.info.get(num(k.args[1]))
        if inf is None or inf.kind != 'lambda':
            raise Unsupported('atomic update with an unknown function')
        sig = {'Integer': ('applyAsInt', '(I)I'), 'Long': ('applyAsLong', '(J)J')}.get(o[len('java/util/concurrent/atomic/Atomic'):], ('apply', '(Ljava/lang/Object;)Ljava/lang/Object;'))
        res = []
        for q in run_lambda(c, st, inf, [old], Call('INVOKEINTERFACE', inf.cls, sig[0], sig[1], [], k.where)):
            if q.kind == 'ret':
                atomic_post(c, q.st, k.args[0], old, q.val)
                res += ret(q.st, q.val if k.name == 'updateAndGet' else old)
            else:
                res.append(q)
        return res


for _o in ATOMICS:
    reg_atomic(_o)


# ---------------------------------------------------------------- logging, threads, executors
@lib('org/apache/logging/log4j/LogManager.getLogger')
def _(c, st, k):
    return ret(st, c.alloc('org/apache/logging/log4j/Logger', 'logger', of=k.args[0] if k.args else None))


def logger_call(c, st, k):
    if k.rdesc == 'Z':
        v = c.fresh_of(st, 'Z', 'lvl')
        return ret(st, v)
    if c.log_logger:
        st.log.append(Entry('Logger.' + k.name, k.args[0], k.args[1:], c.snapshot(st), k.where))
        st.log[-1].snap['desc'] = k.desc
        n = num(simplify(c.rd(st, 'A.len', k.args[-1]))) if k.desc.split(')')[0].endswith('[Ljava/lang/Object;') else None
        if n is not None and n < 20:
            st.log[-1].snap['array'] = [simplify(Select(c.rd(st, 'A.arr', k.args[-1]), i)) for i in range(n)]
    return ret(st)


for _n in ('trace', 'debug', 'info', 'warn', 'error', 'fatal', 'isInfoEnabled', 'isDebugEnabled', 'isTraceEnabled', 'isWarnEnabled', 'isErrorEnabled'):
    LIB['org/apache/logging/log4j/Logger.' + _n] = logger_call


@lib('java/lang/Thread.currentThread')
def _(c, st, k):
    v = st.ghost.get('thread', Int('currentThread'))
    st.assume(v > 0)
    return ret(st, v)


@lib('java/lang/Thread.<init>')
def _(c, st, k):
    t = k.args[0]
    c.wr(st, 'T.target', t, 0)
    c.wr(st, 'T.name', t, c.fresh_ref(st, 'defname', True))
    d = c.fresh_of(st, 'Z', 'inherited')
    c.wr(st, 'T.daemon', t, d)
    c.wr(st, 'T.ueh', t, 0)
    for a, de in zip(k.args[1:], k.adesc):
        if de == 'Ljava/lang/Runnable;':
            c.wr(st, 'T.target', t, a)
        elif de == 'Ljava/lang/String;':
            c.wr(st, 'T.name', t, a)
    return ret(st)


@lib('java/lang/Thread.setName')
def _(c, st, k):
    c.wr(st, 'T.name', k.args[0], k.args[1])
    return ret(st)


@lib('java/lang/Thread.getName')
def _(c, st, k):
    v = c.rd(st, 'T.name', k.args[0])
    c.bound_read(st, 'T.name', k.args[0], v, 'Lx;')
    st.assume(v != 0)
    return ret(st, v)


@lib('java/lang/Thread.setDaemon')
def _(c, st, k):
    c.wr(st, 'T.daemon', k.args[0], k.args[1])
    return ret(st)


@lib('java/lang/Thread.isDaemon')
def _(c, st, k):
    v = c.rd(st, 'T.daemon', k.args[0])
    st.assume(Or(v == 0, v == 1))
    return ret(st, v)


@lib('java/lang/Thread.setUncaughtExceptionHandler')
def _(c, st, k):
    c.wr(st, 'T.ueh', k.args[0], k.args[1])
    return ret(st)


@lib('java/lang/Thread.setPriority')
def _(c, st, k):
    return ret(st)


@lib('java/lang/Thread.interrupt')
def _(c, st, k):
    st.log.append(Entry('Thread.interrupt', k.args[0], [], {}, k.where))
    return ret(st)


@lib('java/lang/Thread.start')
def _(c, st, k):
    return c.callback(st, 'Thread.start', k.args[0], [], 'V', k.where, throwing=())


def executors(c, st, k):
    r = c.alloc('java/util/concurrent/ExecutorService', 'executor', make=k.name, args=list(k.args), adesc=k.adesc)
    return ret(st, r)


for _n in ('newSingleThreadExecutor', 'newFixedThreadPool', 'newCachedThreadPool', 'newWorkStealingPool', 'newScheduledThreadPool', 'newSingleThreadScheduledExecutor'):
    LIB['java/util/concurrent/Executors.' + _n] = executors


@lib('java/util/concurrent/Executor.execute')
def _(c, st, k):
    return c.callback(st, 'Executor.execute', k.args[0], [k.args[1]], 'V', k.where, throwing=())


@lib('java/util/concurrent/ExecutorService.submit')
def _(c, st, k):
    return c.callback(st, 'Executor.submit', k.args[0], [k.args[1]], 'Lx;', k.where, throwing=())


@lib('java/util/concurrent/CountDownLatch.<init>')
def _(c, st, k):
    c.wr(st, 'Latch.count', k.args[0], k.args[1])
    return ret(st)


@lib('java/util/concurrent/CountDownLatch.await')
def _(c, st, k):
    return c.callback(st, 'Latch.await', k.args[0], k.args[1:], k.rdesc, k.where, throwing=('java/lang/InterruptedException',))


@lib('java/util/concurrent/CountDownLatch.countDown')
def _(c, st, k):
    st.log.append(Entry('Latch.countDown', k.args[0], [], c.snapshot(st), k.where))
    return ret(st)


@lib('java/util/concurrent/CountDownLatch.getCount')
def _(c, st, k):
    v = c.fresh('count')
    st.assume(v >= 0)
    return ret(st, v)


LOCKS = {'java/util/concurrent/locks/ReentrantLock', 'java/util/concurrent/locks/Lock'}


@lib('java/util/concurrent/locks/Lock.lock', 'java/util/concurrent/locks/ReentrantLock.lock')
def _(c, st, k):
    st.locks.append(k.args[0])
    if c.access_hook:
        c.access_hook(c, st, 'lock', k.args[0], None)
    return ret(st)


@lib('java/util/concurrent/locks/Lock.unlock', 'java/util/concurrent/locks/ReentrantLock.unlock')
def _(c, st, k):
    st.locks = [x for x in st.locks if not x.eq(k.args[0])]
    if c.access_hook:
        c.access_hook(c, st, 'unlock', k.args[0], None)
    return ret(st)


@lib('java/util/concurrent/locks/ReentrantLock.<init>')
def _(c, st, k):
    return ret(st)


@lib('java/lang/Throwable.<init>', 'java/lang/Throwable.addSuppressed', 'java/lang/Throwable.printStackTrace')
def _(c, st, k):
    return ret(st)


@lib('java/lang/Throwable.getMessage', 'java/lang/Throwable.getCause', 'java/lang/Throwable.initCause', 'java/lang/Throwable.getLocalizedMessage',
     'java/lang/Throwable.fillInStackTrace', 'java/lang/Throwable.getStackTrace')
def _(c, st, k):
    return ret(st, c.fresh_ref(st, 'thr'))


# ---------------------------------------------------------------- lists
def immutable(c, ref):
    n = num(ref)
    return n is not None and n in c.info and c.info[n].data.get('immut')


def unsupported_op(c, st):
    return [c.throw(st, 'java/lang/UnsupportedOperationException')]


def llen(c, st, l):
    v = c.rd(st, 'L.len', l)
    st.assume(And(v >= 0, v <= IMAX))
    return v


def new_list(c, st, arr, n, immut=False):
    r = c.alloc('java/util/ArrayList', 'list', immut=immut)
    st.heap['L.arr'] = Store(c.arr(st, 'L.arr'), r, arr)
    c.wr(st, 'L.len', r, n)
    if immut:
        c.info[num(r)].data['arr'], c.info[num(r)].data['len'] = arr, n
    return r


@lib(*['%s.<init>' % x for x in LISTS])
def _(c, st, k):
    if len(k.args) == 2 and k.adesc[0] == 'Ljava/util/Collection;':
        c.wr(st, 'L.len', k.args[0], 0)
        st.heap['L.arr'] = Store(c.arr(st, 'L.arr'), k.args[0], z3.K(Z, IntVal(0)))
        return add_all(c, st, k)
    st.heap['L.arr'] = Store(c.arr(st, 'L.arr'), k.args[0], z3.K(Z, IntVal(0)))
    c.wr(st, 'L.len', k.args[0], 0)
    return ret(st)


@lib('java/util/Collection.addAll')
def add_all(c, st, k):
    """the elements of a list go after those of another; anything else one by one"""
    to, frm = k.args
    res = []
    for s, z in c.fork(st, frm == 0):
        if z:
            res.append(c.throw(s, NPE))
            continue
        try:
            lists = num(to) in c.info and kind_of(c, s, to, k.owner) == kind_of(c, s, frm, 'java/util/Collection') == 'list' and not immutable(c, to)
        except Unsupported:
            lists = False
        if not lists:
            res += c.call_method(s, c.model('Collection_addAll', 2), [to, frm])
            continue
        a, n, b, m = c.rd(s, 'L.arr', to), llen(c, s, to), c.rd(s, 'L.arr', frm), llen(c, s, frm)
        s.assume(n + m <= IMAX)
        i = z3.Int('i')
        s.heap['L.arr'] = Store(c.arr(s, 'L.arr'), to, b if num(simplify(n)) == 0 else z3.Lambda([i], z3.If(i < n, Select(a, i), Select(b, i - n))))
        c.wr(s, 'L.len', to, simplify(n + m))
        res += ret(s, simplify(b2i(m > 0)))
    return res


@lib('java/util/List.of', 'java/util/Arrays.asList', 'java/util/Collections.emptyList', 'java/util/Collections.singletonList', 'java/util/Set.of',
     'java/util/Collections.emptySet', 'java/util/Collections.singleton', 'java/util/stream/Stream.of', 'java/util/Arrays.stream')
def _(c, st, k):
    stream = 'tream' in k.owner + k.name
    if len(k.args) == 1 and k.adesc[0].startswith('['):
        a = k.args[0]
        res = []
        for s, z in c.fork(st, a == 0):
            if z:
                res.append(c.throw(s, NPE))
                continue
            n = c.rd(s, 'A.len', a)
            s.assume(And(n >= 0, n <= IMAX))
            arr = c.rd(s, 'A.arr', a)
            if k.name == 'of' and not stream:
                e = c.fresh('nul')
                bad = And(e >= 0, e < n, Select(arr, e) == 0)
                if num(n) is not None:
                    bad = Or(*[Select(arr, i) == 0 for i in range(num(n))]) if num(n) else BoolVal(False)
                    for s2, b in c.fork(s, bad):
                        if b:
                            res.append(c.throw(s2, NPE))
                        else:
                            res += ret(s2, new_list(c, s2, arr, n, True))
                    continue
            r = new_list(c, s, arr, n, True)
            if stream:
                res += c.call_method(s, c.model('Collection_stream', 1), [r])
            else:
                res += ret(s, r)
        return res
    if k.name == 'stream':
        return None
    arr = z3.K(Z, IntVal(0))
    for i, a in enumerate(k.args):
        arr = Store(arr, i, a)
    r = new_list(c, st, arr, IntVal(len(k.args)), True)
    if stream:
        return c.call_method(st, c.model('Collection_stream', 1), [r])
    return ret(st, r)


@lib('java/util/Collection.add', 'java/util/Queue.add', 'java/util/List.add', 'java/util/Set.add', 'java/util/Deque.addLast')
def _(c, st, k):
    kd = kind_of(c, st, k.args[0], k.owner)
    if immutable(c, k.args[0]):
        return unsupported_op(c, st)
    if kd == 'list':
        if len(k.args) == 3:
            raise Unsupported('List.add(int, E)')
        n = llen(c, st, k.args[0])
        a = c.rd(st, 'L.arr', k.args[0])
        st.heap['L.arr'] = Store(c.arr(st, 'L.arr'), k.args[0], Store(a, n, k.args[1]))
        c.wr(st, 'L.len', k.args[0], simplify(n + 1))
        return ret(st, IntVal(1))
    if kd == 'queue':
        return q_offer(c, st, k)
    if kd == 'set':
        return map_put(c, st, k.args[0], k.args[1], IntVal(1), True, lambda s, old, had: simplify(b2i(Not(had))))
    raise Unsupported('add on %s' % kd)


@lib('java/util/List.get')
def _(c, st, k):
    l, i = k.args
    res = []
    for s, ok in c.fork(st, And(i >= 0, i < llen(c, st, l))):
        if ok:
            v = simplify(Select(c.rd(s, 'L.arr', l), i))
            s.assume(v >= -c.nalloc)
            res += ret(s, v)
        else:
            res.append(c.throw(s, 'java/lang/IndexOutOfBoundsException'))
    return res


@lib('java/util/List.set')
def _(c, st, k):
    l, i, v = k.args
    if immutable(c, l):
        return unsupported_op(c, st)
    res = []
    for s, ok in c.fork(st, And(i >= 0, i < llen(c, st, l))):
        if ok:
            a = c.rd(s, 'L.arr', l)
            old = simplify(Select(a, i))
            s.heap['L.arr'] = Store(c.arr(s, 'L.arr'), l, Store(a, i, v))
            res += ret(s, old)
        else:
            res.append(c.throw(s, 'java/lang/IndexOutOfBoundsException'))
    return res


@lib('java/util/Collection.size', 'java/util/Map.size', 'java/util/Collection.isEmpty', 'java/util/Map.isEmpty')
def _(c, st, k):
    ref = k.args[0]
    kd = kind_of(c, st, ref, k.owner)
    if kd == 'list':
        n = llen(c, st, ref)
        return ret(st, n if k.name == 'size' else simplify(b2i(n == 0)))
    if kd == 'queue':
        if c.access_hook:
            c.access_hook(c, st, 'get', ref, 'Q')
        n = simplify(c.rd(st, 'Q.tail', ref) - c.rd(st, 'Q.head', ref))
        st.assume(n >= 0)
        if k.name == 'size':
            st.assume(n <= IMAX)
            return ret(st, n)
        return ret(st, simplify(b2i(n == 0)))
    if kd == 'view':
        ref = c.info[num(ref)].data['map']
        kd = 'map'
    if kd in ('map', 'set'):
        has = c.rd(st, 'M.has', ref)
        if z3.is_const_array(has) if hasattr(z3, 'is_const_array') else z3.is_K(has):
            return ret(st, IntVal(0 if k.name == 'size' else 1))
        x = z3.Int('x')
        if k.name == 'isEmpty':
            a = st.copy()
            w = c.fresh('elem')
            a.assume(Select(has, w))
            st.assume(ForAll([x], Not(Select(has, x))))
            res = []
            if c.feasible(st):
                res += ret(st, IntVal(1))
            if c.feasible(a):
                res += ret(a, IntVal(0))
            return res
        n = c.fresh('size')
        w = c.fresh('elem')
        st.assume(And(n >= 0, n <= IMAX, Implies(n > 0, Select(has, w)), Implies(n == 0, ForAll([x], Not(Select(has, x))))))
        return ret(st, n)
    raise Unsupported('size of %s' % kd)


@lib('java/util/Collection.clear', 'java/util/Map.clear')
def _(c, st, k):
    ref = k.args[0]
    kd = kind_of(c, st, ref, k.owner)
    if immutable(c, ref):
        return unsupported_op(c, st)
    if kd == 'list':
        c.wr(st, 'L.len', ref, 0)
    elif kd in ('map', 'set'):
        st.heap['M.has'] = Store(c.arr(st, 'M.has'), ref, z3.K(Z, BoolVal(False)))
    elif kd == 'queue':
        if c.access_hook:
            c.access_hook(c, st, 'rmw', ref, 'Q')
        t = c.rd(st, 'Q.tail', ref)
        st.assume(c.rd(st, 'Q.head', ref) <= t)
        c.wr(st, 'Q.head', ref, t)
        if c.access_hook:
            c.access_hook(c, st, 'cleared', ref, 'Q')
    else:
        raise Unsupported('clear')
    return ret(st)


def new_iter(c, st, arr, pos, n, **data):
    r = c.alloc('java/util/ListIterator', 'iter', **data)
    st.heap['It.arr'] = Store(c.arr(st, 'It.arr'), r, arr)
    c.wr(st, 'It.pos', r, pos)
    c.wr(st, 'It.len', r, n)
    return r


def enumerate_map(c, st, m):
    """snapshot of the keys of a map: (array index -> key class, size)"""
    has = c.rd(st, 'M.has', m)
    arr = z3.Const('enum!%d' % (c.n + 1), ARR)
    c.n += 1
    inv = z3.Function('idx!%d' % c.n, Z, Z)
    n = c.fresh('count')
    i, x = z3.Ints('i x')
    st.assume(And(n >= 0, n <= IMAX))
    st.assume(ForAll([i], Implies(And(0 <= i, i < n), And(Select(has, Select(arr, i)), inv(Select(arr, i)) == i)), patterns=[Select(arr, i)]))
    st.assume(ForAll([x], Implies(Select(has, x), And(0 <= inv(x), inv(x) < n, Select(arr, inv(x)) == x)), patterns=[inv(x)]))
    st.ghost.setdefault('enums', ())
    st.ghost['enums'] = st.ghost['enums'] + ((m, arr, inv, n, has),)
    return arr, n, inv


@lib('java/lang/Iterable.iterator', 'java/util/List.listIterator', 'java/util/Collection.iterator')
def _(c, st, k):
    ref = k.args[0]
    kd = kind_of(c, st, ref, k.owner)
    if kd == 'list':
        n = llen(c, st, ref)
        if len(k.args) == 2:
            res = []
            for s, ok in c.fork(st, And(k.args[1] >= 0, k.args[1] <= n)):
                if ok:
                    res += ret(s, new_iter(c, s, c.rd(s, 'L.arr', ref), k.args[1], n))
                else:
                    res.append(c.throw(s, 'java/lang/IndexOutOfBoundsException'))
            return res
        return ret(st, new_iter(c, st, c.rd(st, 'L.arr', ref), 0, n))
    if kd == 'queue':
        if c.access_hook:
            c.access_hook(c, st, 'get', ref, 'Q')
        h, t = c.rd(st, 'Q.head', ref), c.rd(st, 'Q.tail', ref)
        st.assume(h <= t)
        return ret(st, new_iter(c, st, c.rd(st, 'Q.arr', ref), h, t))
    if kd == 'view':
        d = c.info[num(ref)].data
        m = d['map']
        arr, n, inv = enumerate_map(c, st, m)
        return ret(st, new_iter(c, st, arr, 0, n, which=d['which'], map=m, mval=c.rd(st, 'M.val', m), mkey=c.rd(st, 'M.key', m)))
    if kd == 'set':
        arr, n, inv = enumerate_map(c, st, ref)
        return ret(st, new_iter(c, st, arr, 0, n, which='key', map=ref, mval=c.rd(st, 'M.val', ref), mkey=c.rd(st, 'M.key', ref)))
    raise Unsupported('iterator of %s (%s)' % (k.owner, kd))


def it_elem(c, st, it, pos):
    v = simplify(Select(c.rd(st, 'It.arr', it), pos))
    d = c.info[num(it)].data if num(it) in c.info else {}
    w = d.get('which')
    if w is None:
        st.assume(v >= -c.nalloc)
        if c.__dict__.get('elem_axiom'):
            c.elem_axiom(c, st, it, pos, v)
        return v
    key, val = simplify(Select(d['mkey'], v)), simplify(Select(d['mval'], v))
    st.assume(And(key >= -c.nalloc, val >= -c.nalloc))
    # the stored key belongs to its equality class
    if c.__dict__.get('key_axiom'):
        c.key_axiom(c, st, d['map'], key, v)
    elif key.sort() == Z:
        st.assume(c.eqvf(key) == v)
    if w == 'key':
        return key
    if w == 'val':
        return val
    return c.alloc('java/util/Map$Entry', 'entry', key=key, val=val, cls_=v, map=d['map'])


@lib('java/util/Iterator.hasNext', 'java/util/Iterator.next', 'java/util/ListIterator.hasNext', 'java/util/ListIterator.next')
def _(c, st, k):
    it = k.args[0]
    i = c.info.get(num(it))
    if i is None or i.kind != 'iter':
        raise Unsupported('unknown iterator')
    pos, n = c.rd(st, 'It.pos', it), c.rd(st, 'It.len', it)
    if k.name == 'hasNext':
        return ret(st, simplify(b2i(pos < n)))
    res = []
    for s, ok in c.fork(st, pos < n):
        if ok:
            v = it_elem(c, s, it, pos)
            c.wr(s, 'It.pos', it, simplify(pos + 1))
            res += ret(s, v)
        else:
            res.append(c.throw(s, 'java/util/NoSuchElementException'))
    return res


@lib('java/util/ListIterator.hasPrevious', 'java/util/ListIterator.previous')
def _(c, st, k):
    it = k.args[0]
    pos = c.rd(st, 'It.pos', it)
    if k.name == 'hasPrevious':
        return ret(st, simplify(b2i(pos > 0)))
    res = []
    for s, ok in c.fork(st, pos > 0):
        if ok:
            v = it_elem(c, s, it, simplify(pos - 1))
            c.wr(s, 'It.pos', it, simplify(pos - 1))
            res += ret(s, v)
        else:
            res.append(c.throw(s, 'java/util/NoSuchElementException'))
    return res


@lib('java/util/Map$Entry.getKey', 'java/util/Map$Entry.getValue')
def _(c, st, k):
    i = c.info.get(num(k.args[0]))
    if i is None or i.kind != 'entry':
        raise Unsupported('unknown map entry')
    return ret(st, i.data['key' if k.name == 'getKey' else 'val'])


@lib('java/util/Collections.reverse')
def _(c, st, k):
    l = k.args[0]
    if immutable(c, l):
        return unsupported_op(c, st)
    n = llen(c, st, l)
    a = c.rd(st, 'L.arr', l)
    i = z3.Int('i')
    st.heap['L.arr'] = Store(c.arr(st, 'L.arr'), l, z3.Lambda([i], Select(a, n - 1 - i)))
    return ret(st)


@lib('java/util/Collections.unmodifiableList', 'java/util/Collections.unmodifiableMap', 'java/util/Collections.unmodifiableCollection', 'java/util/Collections.synchronizedList', 'java/util/Collections.synchronizedMap')
def _(c, st, k):
    if k.name.startswith('sync') and num(k.args[0]) in c.info:
        c.info[num(k.args[0])].data['sync'] = True
    return ret(st, k.args[0])


@lib('java/util/List.copyOf')
def _(c, st, k):
    l = k.args[0]
    return ret(st, new_list(c, st, c.rd(st, 'L.arr', l), llen(c, st, l), True))


@lib('java/util/List.toArray', 'java/util/Collection.toArray')
def _(c, st, k):
    l = k.args[0]
    if kind_of(c, st, l, k.owner) != 'list':
        raise Unsupported('toArray')
    r = c.alloc('[Ljava/lang/Object;', 'array')
    st.heap['A.arr'] = Store(c.arr(st, 'A.arr'), r, c.rd(st, 'L.arr', l))
    c.wr(st, 'A.len', r, llen(c, st, l))
    return ret(st, r)


@lib('[Ljava/lang/Object;.clone', 'java/lang/Object.clone')
def _(c, st, k):
    a = k.args[0]
    r = c.alloc('[Ljava/lang/Object;', 'array')
    st.heap['A.arr'] = Store(c.arr(st, 'A.arr'), r, c.rd(st, 'A.arr', a))
    c.wr(st, 'A.len', r, c.rd(st, 'A.len', a))
    return ret(st, r)


# ---------------------------------------------------------------- maps and sets
def init_map(c, st, m):
    st.heap['M.has'] = Store(c.arr(st, 'M.has'), m, z3.K(Z, BoolVal(False)))


@lib(*['%s.<init>' % x for x in MAPS | SETS])
def _(c, st, k):
    if len(k.args) == 2 and k.adesc[0] in ('Ljava/util/Map;', 'Ljava/util/Collection;'):
        src = k.args[1]
        for n in ('M.has', 'M.val', 'M.key'):
            st.heap[n] = Store(c.arr(st, n), k.args[0], c.rd(st, n, src))
        return ret(st)
    init_map(c, st, k.args[0])
    return ret(st)


@lib('java/util/Collections.emptyMap', 'java/util/Map.of', 'java/util/concurrent/ConcurrentHashMap.newKeySet', 'java/util/Collections.newSetFromMap')
def _(c, st, k):
    if k.name == 'newKeySet':
        r = c.alloc('java/util/concurrent/CopyOnWriteArraySet', 'set')
        init_map(c, st, r)
        return ret(st, r)
    if k.name == 'newSetFromMap':
        r = c.alloc('java/util/HashSet', 'set')
        i = c.info.get(num(k.args[0]))
        if i is not None and ('Concurrent' in i.cls or i.data.get('sync')):
            c.info[num(r)].data['sync'] = True
        init_map(c, st, r)
        return ret(st, r)
    if k.args:
        raise Unsupported('Map.of with entries')
    r = c.alloc('java/util/Map', 'map', immut=True)
    init_map(c, st, r)
    return ret(st, r)


def null_key(c, st, m, key):
    """ConcurrentHashMap rejects null keys: [(state, rejected)]"""
    n = num(m)
    if n is not None and n in c.info and 'Concurrent' in c.info[n].cls:
        return c.fork(st, key == 0)
    return [(st, False)]


def map_put(c, st, m, key, val, only_absent, result):
    res = []
    if immutable(c, m):
        return unsupported_op(c, st)
    for st, bad in null_key(c, st, m, key):
        if bad:
            res.append(c.throw(st, NPE))
            continue
        if c.access_hook:
            c.access_hook(c, st, 'rmw', m, 'M')
        e = c.eqcls(st, key)
        has, vals, keys = c.rd(st, 'M.has', m), c.rd(st, 'M.val', m), c.rd(st, 'M.key', m)
        had = simplify(Select(has, e))
        for s, h in c.fork(st, had):
            old = simplify(Select(vals, e)) if h else IntVal(0)
            if h:
                s.assume(old >= -c.nalloc)
            write = True
            ss = [(s, True)]
            if only_absent and h:
                # present with a null value counts as absent (HashMap)
                ss = c.fork(s, old == 0)
            for s2, w in ss:
                if w:
                    s2.heap['M.has'] = Store(c.arr(s2, 'M.has'), m, Store(has, e, BoolVal(True)))
                    s2.heap['M.val'] = Store(c.arr(s2, 'M.val'), m, Store(vals, e, val))
                    if not h:
                        s2.heap['M.key'] = Store(c.arr(s2, 'M.key'), m, Store(keys, e, key))
                    if c.access_hook:
                        c.access_hook(c, s2, 'wrote', m, 'M', BoolVal(h), BoolVal(True), e, key, val)
                res += ret(s2, result(s2, old, BoolVal(h)))
    return res


@lib('java/util/Map.put')
def _(c, st, k):
    return map_put(c, st, k.args[0], k.args[1], k.args[2], False, lambda s, old, h: old)


@lib('java/util/Map.computeIfAbsent', 'java/util/Map.compute', 'java/util/Map.computeIfPresent', 'java/util/Map.merge')
def _(c, st, k):
    """one atomic step on a ConcurrentHashMap, several on others"""
    m = k.args[0]
    if immutable(c, m):
        return unsupported_op(c, st)
    i = c.info.get(num(m))
    atomic = i is not None and i.cls.endswith('/ConcurrentHashMap') and c.__dict__.get('map_steps') and c.access_hook
    if atomic:
        st.locks.append(m)
        c.access_hook(c, st, 'lock', m, None)
    outs = []
    for s, bad in null_key(c, st, m, k.args[1]):
        outs += [c.throw(s, NPE)] if bad else c.call_method(s, c.model('Map_' + k.name, len(k.args)), k.args)
    if atomic:
        for o in outs:
            o.st.locks.pop()
            c.access_hook(c, o.st, 'unlock', m, None)
    return outs


@lib('java/util/Map.putIfAbsent')
def _(c, st, k):
    return map_put(c, st, k.args[0], k.args[1], k.args[2], True, lambda s, old, h: old)


@lib('java/util/Map.get', 'java/util/Map.containsKey', 'java/util/Map.getOrDefault', 'java/util/Collection.contains')
def _(c, st, k):
    m = k.args[0]
    if k.name == 'contains':
        kd = kind_of(c, st, m, k.owner)
        if kd == 'view' and c.info[num(m)].data['which'] == 'key':
            m = c.info[num(m)].data['map']
        elif kd == 'set':
            pass
        else:
            return c.call_method(st, c.model('Collection_containsModel', 2), k.args)
    res = []
    for s, bad in null_key(c, st, m, k.args[1]):
        if bad:
            res.append(c.throw(s, NPE))
            continue
        if c.access_hook:
            c.access_hook(c, s, 'get', m, 'M')
        e = c.eqcls(s, k.args[1])
        had = simplify(Select(c.rd(s, 'M.has', m), e))
        if k.name in ('containsKey', 'contains'):
            res += ret(s, simplify(b2i(had)))
            continue
        for s2, h in c.fork(s, had):
            v = simplify(Select(c.rd(s2, 'M.val', m), e)) if h else (k.args[2] if k.name == 'getOrDefault' else IntVal(0))
            if h:
                s2.assume(v >= -c.nalloc)
            res += ret(s2, v)
    return res


@lib('java/util/Map.remove', 'java/util/Set.remove', 'java/util/Collection.remove')
def _(c, st, k):
    m = k.args[0]
    kd = kind_of(c, st, m, k.owner)
    if kd == 'view' and c.info[num(m)].data['which'] == 'key':
        m = c.info[num(m)].data['map']
    elif kd not in ('map', 'set'):
        raise Unsupported('remove on %s' % kd)
    if immutable(c, m):
        return unsupported_op(c, st)
    res = []
    for s, bad in null_key(c, st, m, k.args[1]):
        if bad:
            res.append(c.throw(s, NPE))
            continue
        if c.access_hook:
            c.access_hook(c, s, 'rmw', m, 'M')
        e = c.eqcls(s, k.args[1])
        has = c.rd(s, 'M.has', m)
        cond = Select(has, e)
        if len(k.args) == 3:
            cond = And(cond, c.eqcls(s, simplify(Select(c.rd(s, 'M.val', m), e))) == c.eqcls(s, k.args[2]))
        for s2, h in c.fork(s, simplify(cond)):
            old = IntVal(0)
            if h:
                old = simplify(Select(c.rd(s2, 'M.val', m), e))
                s2.assume(old >= -c.nalloc)
                s2.heap['M.has'] = Store(c.arr(s2, 'M.has'), m, Store(has, e, BoolVal(False)))
                if c.access_hook:
                    c.access_hook(c, s2, 'wrote', m, 'M', BoolVal(True), BoolVal(False), e, k.args[1], IntVal(0))
            res += ret(s2, IntVal(1 if h else 0) if k.rdesc == 'Z' else old)
    return res


@lib('java/util/Map.entrySet', 'java/util/Map.values', 'java/util/Map.keySet')
def _(c, st, k):
    return ret(st, c.alloc('java/util/Set', 'view', map=k.args[0], which={'entrySet': 'entry', 'values': 'val', 'keySet': 'key'}[k.name]))


# ---------------------------------------------------------------- queues (FIFO)
@lib(*['%s.<init>' % x for x in QUEUES])
def _(c, st, k):
    if len(k.args) > 1 and k.owner.endswith('Blocking') and False:
        return None
    c.wr(st, 'Q.head', k.args[0], 0)
    c.wr(st, 'Q.tail', k.args[0], 0)
    if len(k.args) > 1:
        c.info[num(k.args[0])].data['bounded'] = True
    return ret(st)


def q_offer(c, st, k):
    q, e = k.args[0], k.args[1]
    res = []
    n = num(q)
    for s, isnull in c.fork(st, e == 0):
        if isnull:
            res.append(c.throw(s, NPE))
            continue
        if c.access_hook:
            c.access_hook(c, s, 'rmw', q, 'Q')
        declines = (n is None or n not in c.info or c.info[n].data.get('bounded')) and c.__dict__.get('queue_may_decline')
        if declines:
            d = s.copy()
            dec = c.fresh_bool('declined')
            d.assume(dec)
            s.assume(Not(dec))
            d.ghost['declined'] = d.ghost.get('declined', ()) + (e,)
            if k.name == 'add':
                res.append(c.throw(d, ISE))
            else:
                res += ret(d, IntVal(0))
        t = c.rd(s, 'Q.tail', q)
        s.assume(t >= c.rd(s, 'Q.head', q))
        a = c.rd(s, 'Q.arr', q)
        s.heap['Q.arr'] = Store(c.arr(s, 'Q.arr'), q, Store(a, t, e))
        c.wr(s, 'Q.tail', q, simplify(t + 1))
        if c.access_hook:
            c.access_hook(c, s, 'wrote', q, 'Q', t, e)
        res += ret(s, IntVal(1))
    return res


LIB['java/util/Queue.offer'] = q_offer
LIB['java/util/Deque.offerLast'] = q_offer


@lib('java/util/Queue.poll', 'java/util/Queue.peek', 'java/util/Queue.remove', 'java/util/Queue.element', 'java/util/Deque.pollFirst', 'java/util/Deque.peekFirst')
def _(c, st, k):
    q = k.args[0]
    if kind_of(c, st, q, k.owner) != 'queue' or len(k.args) > 1:
        raise Unsupported('queue operation %s' % k)
    if c.access_hook:
        c.access_hook(c, st, 'rmw', q, 'Q')
    h, t = c.rd(st, 'Q.head', q), c.rd(st, 'Q.tail', q)
    st.assume(h <= t)
    res = []
    for s, empty in c.fork(st, h == t):
        if empty:
            s.ghost['saw_empty'] = s.epoch
            if k.name in ('remove', 'element'):
                res.append(c.throw(s, 'java/util/NoSuchElementException'))
            else:
                res += ret(s, IntVal(0))
            continue
        v = simplify(Select(c.rd(s, 'Q.arr', q), h))
        s.assume(And(v != 0, v >= -c.nalloc))
        if not k.name.startswith(('peek', 'element')):
            c.wr(s, 'Q.head', q, simplify(h + 1))
            if c.access_hook:
                c.access_hook(c, s, 'polled', q, 'Q', h, v)
        res += ret(s, v)
    return res
