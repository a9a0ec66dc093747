"""Value-graph evaluation of functions: forward dataflow over the IR that gives every value its normal form
(vg.py), merges states at joins, and keeps the sequence of external effects."""
from . import vg, llvm
from .vg import V

PTR = 64


class Unsupported(Exception):
    pass


class Region:
    _n = 0

    def __init__(self, name, kind='in', size=None, data=None, obj=None):
        self.name = name          # unique for input regions: the key of their initial contents
        self.kind = kind          # in: symbolic initial contents, local: undefined, const: data
        self.size = size
        self.data = data
        self.obj = obj

    def __repr__(self):
        return 'R(%s)' % self.name


NULLR = Region('null', 'null')


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off=None):
        self.r = r
        self.off = off if off is not None else vg.const(64, 0)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r is o.r and self.off == o.off

    def __hash__(self):
        return hash((id(self.r), self.off))

    def __repr__(self):
        return '&%s+%s' % (self.r.name, self.off.const() if self.off.const() is not None else '?')


NULL = Ptr(NULLR)


class Fn:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '@' + self.name


class Undef:
    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 0

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class BadShift(Undef):
    """the result of an out-of-range shift: an error only where something observes it"""
    def __init__(self, rec):
        self.rec = rec


class CondPtr:
    """one of two pointers, by condition"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, CondPtr) and (self.c, self.a, self.b) == (o.c, o.a, o.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))


class State:
    __slots__ = ('regs', 'mem', 'ev', 'facts', 'gd', 'pc')

    def __init__(self):
        self.regs = {}
        self.mem = {}      # region -> {(base terms, const): cell}
        self.ev = ()
        self.facts = {}    # poly -> bool
        self.gd = {}
        self.pc = ()

    def copy(self):
        s = State.__new__(State)
        s.regs = dict(self.regs)
        s.mem = {r: dict(c) for r, c in self.mem.items()}
        s.ev = self.ev
        s.facts = dict(self.facts)
        s.gd = dict(self.gd)
        s.pc = self.pc
        return s


class Conflict(Exception):
    pass


def sel(c, a, b):
    """value of c ? a : b"""
    if a is b or (type(a) is type(b) and a == b):
        return a
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, V) and isinstance(b, V) and a.w == b.w:
        return vg.ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
        return Ptr(a.r, vg.ite(c, a.off, b.off))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and (not a or a[0] != 'pb') and (not b or b[0] != 'pb'):
        return tuple(sel(c, x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3 and a[0] == b[0] == 'pb' and a[2] == b[2]:
        return ('pb', sel(c, a[1], b[1]), a[2])
    if isinstance(a, (Ptr, CondPtr, Fn)) and isinstance(b, (Ptr, CondPtr, Fn)):
        return CondPtr(c, a, b)
    raise Conflict()


class Evaluator:
    def __init__(self, mod, calls=None, max_steps=400000):
        self.mod = mod
        self.calls = calls or {}      # name -> handler(ev, st, inst, args) -> value or list of (state, value)
        self.globals = {}
        self.steps = 0
        self.max_steps = max_steps
        self.loop_hook = None         # hook(frame, header, st) -> None or outcomes
        self.decide = None            # decide(pred, a, b) -> True/False/None
        self.nsw_hook = None
        self.any_call = None
        self.frames = 0
        self.max_fork = 4096
        self.local_n = 0
        self.unroll = 4096
        self.merge = True
        self.ub = []                  # (rule, msg, loc) undefined operations met
        self.forksym = None

    # ---- pointers and memory
    def global_ptr(self, name):
        g = self.globals.get(name)
        if g is None:
            G = self.mod.globals.get(name)
            if G is None:
                raise Unsupported('unknown global ' + name)
            if G.const and not G.is_decl and G.init:
                g = Region('@' + name, 'const', G.size, llvm.global_bytes(G), obj=G)
            else:
                g = Region('@' + name, 'in', G.size, obj=G)
            self.globals[name] = g
        return Ptr(g)

    def key(self, off):
        c, t = off.lin
        if c >> 63:
            c -= 1 << 64
        return t, c

    def oob(self, st, p, n, what):
        r = p.r
        if r.kind == 'null':
            self.flag(st, 'memory', '%s through a null pointer' % what)
            raise Unsupported('null access')
        c = p.off.const()
        if c is not None and r.size is not None:
            if c >> 63:
                c -= 1 << 64
            if c < 0 or c + n > r.size:
                self.flag(st, 'memory', '%s of %d byte(s) at offset %d of %s (%d bytes)' % (what, n, c, r.name, r.size))
                raise Unsupported('access outside its object')

    def flag(self, st, rule, msg):
        i = getattr(self, 'cur', None)
        self.ub.append((rule, msg, i.loc() if i is not None else '?', st.facts))

    def on_access(self, st, p, n, write):
        pass

    def load_byte(self, st, p, i):
        t, c = self.key(p.off)
        c += i
        cells = st.mem.get(p.r)
        if cells:
            v = cells.get((t, c))
            if v is not None:
                return v
            if any(b != t for b, _ in cells):
                # a write at another symbolic place may have changed this byte
                for (b, cc) in cells:
                    if b != t and not self.disjoint(p.r, (t, c), (b, cc)):
                        raise Unsupported('load may alias a store at another symbolic offset of %s' % p.r.name)
        r = p.r
        if r.kind == 'const':
            if t:
                return None
            if not 0 <= c < len(r.data):
                raise Unsupported('constant table index')
            b = r.data[c]
            if b is None:
                return UNDEF
            return vg.const(8, b) if isinstance(b, int) else b
        if r.kind == 'in':
            f = getattr(r, 'init', None)
            off = V(64, None, (c & (1 << 64) - 1, t))
            if f:
                return f(off)
            return vg.mem_byte(r.name, off)
        return UNDEF

    def disjoint(self, r, a, b):
        return False

    def load(self, st, p, ty):
        n = ty.size
        if ty.kind in ('struct', 'array'):
            if ty.kind == 'struct':
                return tuple(self.load(st, Ptr(p.r, vg.add(p.off, vg.const(64, o))), e) for o, e in zip(ty.offsets, ty.elems))
            e = ty.elems[0]
            return tuple(self.load(st, Ptr(p.r, vg.add(p.off, vg.const(64, i * e.size))), e) for i in range(ty.count))
        if isinstance(p, CondPtr):
            a = self.load(st, p.a, ty)
            b = self.load(st, p.b, ty)
            return sel(p.c, a, b)
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        self.oob(st, p, n, 'read')
        self.on_access(st, p, n, False)
        if p.off.const() is None and (p.r.kind == 'const' or (p.r.kind == 'local' and st.mem.get(p.r) and all(not b for b, _ in st.mem[p.r]))):
            data = p.r.data if p.r.kind == 'const' else None
            if data is None:
                data = []
                for i in range(p.r.size):
                    x = st.mem[p.r].get(((), i))
                    if x is None or isinstance(x, Undef):
                        data.append(0)
                    elif isinstance(x, V) and x.const() is not None:
                        data.append(x.const())
                    else:
                        return self.load_any(st, p, ty)
            if ty.kind == 'int' and all(isinstance(x, int) for x in data):
                v = vg.table(bytes(data), n * 8, p.off)
                return vg.trunc(v, ty.width)
            return self.load_any(st, p, ty)
        bs = [self.load_byte(st, p, i) for i in range(n)]
        return self.assemble(bs, ty, st)

    def load_any(self, st, p, ty):
        """symbolic index into a small object: choose among its elements"""
        n = ty.size
        off = p.off
        free = [i for i, q in enumerate(off.bits) if q and q != vg.ONE]
        base = sum(1 << i for i, q in enumerate(off.bits) if q == vg.ONE)
        if not p.r.size or len(free) > 8:
            raise Unsupported('symbolic index into %s' % p.r.name)
        val = None
        for x in range(1 << len(free)):
            o = base + sum(1 << free[j] for j in range(len(free)) if x >> j & 1)
            if o + n > p.r.size:
                continue
            v = self.load(st, Ptr(p.r, vg.const(64, o)), ty)
            c = vg.ONE
            for j, f in enumerate(free):
                c = vg.p_and(c, off.bits[f] if x >> j & 1 else off.bits[f] ^ vg.ONE)
            val = v if val is None else sel(c, v, val)
        if val is None:
            raise Unsupported('symbolic index')
        return val

    def assemble(self, bs, ty, st):
        b0 = bs[0]
        if ty.kind == 'ptr':
            if isinstance(b0, tuple) and b0[0] == 'pb':
                if all(isinstance(b, tuple) and b[0] == 'pb' and b[2] == i and b[1] == b0[1] for i, b in enumerate(bs)):
                    return b0[1]
            if isinstance(b0, llvm.Val):
                return self.val(st, None, b0)
            if all(isinstance(b, V) and b.const() == 0 for b in bs):
                return NULL
            if all(isinstance(b, Undef) for b in bs):
                return UNDEF
            if all(isinstance(b, V) for b in bs):
                return self.unknown_ptr(st, vg.concat(bs))
            raise Unsupported('a pointer assembled from parts')
        if ty.kind in ('float', 'double'):
            if all(isinstance(b, V) for b in bs):
                return vg.concat(bs)
            if isinstance(b0, llvm.Val):
                return self.val(st, None, b0)
            return UNDEF
        if ty.kind != 'int':
            raise Unsupported('load of %s' % ty)
        if any(isinstance(b, Undef) for b in bs):
            if all(isinstance(b, Undef) for b in bs):
                return UNDEF
            bs = [vg.var(('undef', self.fresh()), 8) if isinstance(b, Undef) else b for b in bs]
        if isinstance(b0, tuple) and b0[0] == 'pb' and len(bs) == 8:
            return self.ptr_int(b0[1])
        if any(not isinstance(b, V) for b in bs):
            raise Unsupported('an integer assembled from a pointer')
        if len(bs) == 1 and b0.w == 8:
            v = b0
        else:
            v = vg.concat(bs)
            v = self.whole(bs, v)
        return vg.trunc(v, ty.width)

    def whole(self, bs, v):
        return v

    def fresh(self):
        self.local_n += 1
        return self.local_n

    def unknown_ptr(self, st, v):
        c = v.const()
        if c == 0:
            return NULL
        memo = self.__dict__.setdefault('_up', {})
        r = memo.get(v)
        if r is None:
            r = memo[v] = Region('p%d' % len(memo), 'in')
            r.addr = v
        return Ptr(r)

    def ptr_int(self, p):
        if isinstance(p, Ptr):
            if p.r.kind == 'null':
                return p.off
            a = getattr(p.r, 'addr', None)
            if a is None:
                a = p.r.addr = vg.var(('addr', p.r.name), 64)
            return vg.add(a, p.off)
        if isinstance(p, Fn):
            return vg.var(('addr', '@' + p.name), 64)
        raise Unsupported('ptrtoint of %r' % (p,))

    def int_ptr(self, st, v):
        if not isinstance(v, V):
            return v
        c, t = v.lin
        for r in self.addrs(st):
            a = getattr(r, 'addr', None)
            if a is None:
                continue
            (_, at) = a.lin
            if at and all(x in t for x in at):
                return Ptr(r, vg.sub(v, a))
        return self.unknown_ptr(st, v)

    def addrs(self, st):
        out = list(self.globals.values()) + list(st.mem)
        for v in list(st.regs.values()):
            if isinstance(v, Ptr):
                out.append(v.r)
        return out

    def store(self, st, p, v, ty):
        if ty.kind == 'struct':
            if isinstance(v, Undef):
                v = (UNDEF,) * len(ty.elems)
            for o, e, x in zip(ty.offsets, ty.elems, v):
                self.store(st, Ptr(p.r, vg.add(p.off, vg.const(64, o))), x, e)
            return
        if ty.kind == 'array':
            e = ty.elems[0]
            if isinstance(v, Undef):
                v = (UNDEF,) * ty.count
            for i, x in enumerate(v):
                self.store(st, Ptr(p.r, vg.add(p.off, vg.const(64, i * e.size))), x, e)
            return
        if isinstance(p, CondPtr):
            for c, q in ((p.c, p.a), (p.c ^ vg.ONE, p.b)):
                old = self.load(st, q, ty)
                self.store(st, q, sel(c, v, old), ty)
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        n = ty.size
        self.oob(st, p, n, 'write')
        if p.r.kind == 'const':
            self.flag(st, 'memory', 'write to constant data')
            raise Unsupported('write to a constant')
        self.on_access(st, p, n, True)
        self.put(st, p, self.split(v, n), n)

    def split(self, v, n):
        if isinstance(v, Undef):
            return [UNDEF] * n
        if isinstance(v, V):
            if v.w < n * 8:
                v = vg.zext(v, n * 8)
            return [vg.slice_(v, 8 * i, 8) for i in range(n)] if n > 1 else [v]
        return [('pb', v, i) for i in range(n)]

    def put(self, st, p, bs, n):
        cells = st.mem.setdefault(p.r, {})
        t, c = self.key(p.off)
        for k in list(cells):
            if k[0] != t and not all(self.disjoint(p.r, (t, c + i), k) for i in range(n)):
                # what was known at other symbolic offsets is gone
                cells[k] = ('lost',)
        for i, b in enumerate(bs):
            cells[(t, c + i)] = b

    # ---- values
    def val(self, st, fr, v):
        k = v.k
        if k in ('inst', 'arg'):
            r = st.regs.get((fr, v.id))
            if r is None:
                raise Unsupported('use of a value that is not available')
            return r
        if k == 'int':
            return vg.const(v.ty.width, v.n)
        if k == 'null':
            return NULL
        if k in ('undef', 'poison'):
            return UNDEF
        if k == 'global':
            return self.global_ptr(v.name)
        if k == 'func':
            return Fn(v.name)
        if k == 'zero':
            return self.zero(v.ty)
        if k == 'agg':
            return tuple(self.val(st, fr, o) for o in v.ops)
        if k == 'cexpr':
            if v.op == 'gep':
                return self.gep(st, self.val(st, fr, v.ops[0]), v.extra, [self.val(st, fr, o) for o in v.ops[1:]])
            if v.op in ('bitcast', 'addrspacecast'):
                return self.val(st, fr, v.ops[0])
            if v.op == 'ptrtoint':
                return vg.trunc(self.ptr_int(self.val(st, fr, v.ops[0])), v.ty.width)
            if v.op == 'inttoptr':
                return self.int_ptr(st, self.val(st, fr, v.ops[0]))
            raise Unsupported('constant expression ' + str(v.op))
        if k == 'fp':
            return vg.fn('fpconst:' + v.name, 64 if v.ty.kind == 'double' else 32)
        raise Unsupported('operand kind ' + k)

    def zero(self, ty):
        if ty.kind == 'int':
            return vg.const(ty.width, 0)
        if ty.kind == 'ptr':
            return NULL
        if ty.kind == 'struct':
            return tuple(self.zero(e) for e in ty.elems)
        if ty.kind in ('array', 'vec'):
            return tuple(self.zero(ty.elems[0]) for _ in range(ty.count))
        if ty.kind in ('float', 'double'):
            return vg.const(32 if ty.kind == 'float' else 64, 0)
        raise Unsupported('zero of %s' % ty)

    def gep(self, st, p, ty, idx):
        off = vg.const(64, 0)
        first = True
        for x in idx:
            if isinstance(x, Undef):
                raise Unsupported('undefined index')
            x64 = vg.sext(x, 64) if x.w < 64 else x
            if first:
                off = vg.add(off, vg.mul(x64, vg.const(64, ty.size)))
                first = False
            elif ty.kind == 'struct':
                c = x.const()
                off = vg.add(off, vg.const(64, ty.offsets[c]))
                ty = ty.elems[c]
            else:
                ty = ty.elems[0]
                off = vg.add(off, vg.mul(x64, vg.const(64, ty.size)))
        return self.shift(p, off)

    def shift(self, p, off):
        if isinstance(p, Ptr):
            if off.const() == 0:
                return p
            return Ptr(p.r, vg.add(p.off, off))
        if isinstance(p, CondPtr):
            return CondPtr(p.c, self.shift(p.a, off), self.shift(p.b, off))
        if isinstance(p, Undef) or isinstance(p, Fn):
            raise Unsupported('address of %r' % (p,))
        raise Unsupported('gep on %r' % (p,))

    # ---- conditions
    def truth(self, st, c):
        """True/False/None for a condition polynomial"""
        if c == vg.ONE:
            return True
        if not c:
            return False
        r = st.facts.get(c)
        if r is not None:
            return r
        r = st.facts.get(c ^ vg.ONE)
        if r is not None:
            return not r
        # a product is false when a factor is known to be false
        return None

    def assume(self, st, c, b):
        st.facts[c] = b
        if not b:
            c = c ^ vg.ONE
        st.pc = st.pc + (c,)
        # a true monomial makes each of its factors true
        if len(c) == 1:
            for a in next(iter(c)):
                st.facts[frozenset((frozenset((a,)),))] = True

    def cmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported('comparison of an undefined value')
        if isinstance(a, CondPtr):
            return self.pite(a.c, self.cmp(st, pred, a.a, b), self.cmp(st, pred, a.b, b))
        if isinstance(b, CondPtr):
            return self.pite(b.c, self.cmp(st, pred, a, b.a), self.cmp(st, pred, a, b.b))
        if isinstance(a, V) and isinstance(b, V):
            if self.decide:
                d = self.decide(st, pred, a, b)
                if d is not None:
                    return vg.ONE if d else vg.NIL
            return vg.icmp(pred, a, b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            if pred in ('eq', 'ne'):
                same = a == b
                return vg.ONE if same == (pred == 'eq') else vg.NIL
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r:
                if self.decide:
                    d = self.decide(st, pred, a.off, b.off)
                    if d is not None:
                        return vg.ONE if d else vg.NIL
                return vg.icmp(pred, a.off, b.off)
            if pred in ('eq', 'ne'):
                x = self.ptr_eq(st, a, b)
                return x if pred == 'eq' else x ^ vg.ONE
        raise Unsupported('comparison of %r and %r' % (a, b))

    def pite(self, c, p, q):
        return q ^ vg.p_and(c, p ^ q)

    def ptr_eq(self, st, a, b):
        if b.r.kind == 'null':
            a, b = b, a
        if a.r.kind == 'null':
            if getattr(b.r, 'nullable', False) or hasattr(b.r, 'addr') and b.r.kind == 'in' and b.r.name.startswith('p'):
                return vg.eq(self.ptr_int(b), self.ptr_int(a))
            return vg.NIL
        if getattr(a.r, 'maybe', False) or getattr(b.r, 'maybe', False):
            return vg.eq(self.ptr_int(a), self.ptr_int(b))
        return vg.NIL

    # ---- execution
    def run(self, fname, args, st=None):
        """outcomes of a call: list of (state, value)"""
        F = self.mod.funcs[fname]
        if F.is_decl:
            raise Unsupported('no body for ' + fname)
        st = st or State()
        self.frames += 1
        fr = self.frames
        for a, v in zip(F.args, args):
            st.regs[(fr, a.id)] = v
        outs = self.exec(F, fr, 0, None, st, frozenset())
        res = []
        for kind, s, x in outs:
            if kind == 'ret':
                for k in [k for k in s.regs if k[0] == fr]:
                    del s.regs[k]
                res.append((s, x))
            elif kind == 'stop':
                res.append((s, Stop))
        if len(res) > 1 and self.merge:
            res = self.merge_rets(res)
        return res

    def merge_rets(self, res):
        out = []
        for s, x in res:
            for j, (t, y) in enumerate(out):
                if x is Stop or y is Stop:
                    continue
                try:
                    m, c = self.join(t, s)
                    v = sel(c, y, x) if y is not None else None
                except Conflict:
                    continue
                out[j] = (m, v)
                break
            else:
                out.append((s, x))
        return out

    def join(self, a, b):
        """merge two states; returns (state, poly selecting a)"""
        if a.ev != b.ev or a.gd != b.gd:
            raise Conflict()
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]:
            n += 1
        # a's condition relative to the common prefix
        c = vg.ONE
        for p in a.pc[n:]:
            c = vg.p_and(c, p)
        d = vg.ONE
        for p in b.pc[n:]:
            d = vg.p_and(d, p)
        s = State()
        s.ev, s.gd = a.ev, dict(a.gd)
        s.regs = {}
        for k, v in a.regs.items():
            w = b.regs.get(k)
            if w is None:
                continue
            if v is w:
                s.regs[k] = v
            else:
                try:
                    s.regs[k] = sel(c, v, w)
                except Conflict:
                    raise
        for r in set(a.mem) | set(b.mem):
            x, y = a.mem.get(r, {}), b.mem.get(r, {})
            cells = {}
            for k in set(x) | set(y):
                v, w = x.get(k), y.get(k)
                if v is w:
                    cells[k] = v
                    continue
                if v is None:
                    v = self.initial(a, r, k)
                if w is None:
                    w = self.initial(b, r, k)
                cells[k] = sel(c, v, w)
            s.mem[r] = cells
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        both = c ^ d ^ vg.p_and(c, d)
        s.pc = a.pc[:n] + ((both,) if both != vg.ONE else ())
        return s, c

    def initial(self, st, r, k):
        if r.kind == 'local':
            return UNDEF
        x = st.mem.get(r)
        if x and any(b != k[0] for b, _ in x):
            raise Conflict()
        t = State()
        off = V(64, None, (k[1] & (1 << 64) - 1, k[0]))
        return self.load_byte(t, Ptr(r, off), 0)

    def phis(self, F, fr, b, pred, st):
        new = {}
        for i in F.blocks[b].insts:
            if i.op != 'phi':
                break
            for pb, v in i.incoming:
                if pb == pred:
                    new[(fr, i.id)] = self.val(st, fr, v)
                    break
        st.regs.update(new)

    def ipdom(self, F, b):
        d = getattr(F, '_ipdom', None) if hasattr(F, '__dict__') else None
        memo = self.__dict__.setdefault('_ipd', {})
        d = memo.get(F.name)
        if d is None:
            d = memo[F.name] = _postdom(F)
        return d.get(b)

    def exec(self, F, fr, b, pred, st, stops, entered=False):
        """run from block b; outcomes ('at', state, block) on reaching a stop block (its phis evaluated) or ('ret', state, value)"""
        while True:
            if pred is not None:
                self.phis(F, fr, b, pred, st)
                if b in stops and not entered:
                    return [('at', st, b)]
            entered = False
            if self.loop_hook and b in F.loops and pred is not None and pred not in F.loops[b]:
                r = self.loop_hook(self, F, fr, b, st, stops)
                if r is not None:
                    return r
            blk = F.blocks[b]
            sts = [st]
            for i in blk.insts[:-1]:
                if i.op == 'phi':
                    continue
                nxt = []
                for s in sts:
                    r = self.step(F, fr, i, s)
                    if r is None:
                        nxt.append(s)
                    else:
                        nxt.extend(r)
                sts = nxt
                if not sts:
                    return []
            outs = []
            cont = None
            for s in sts:
                r = self.term(F, fr, blk, s, stops)
                if isinstance(r, tuple) and len(sts) == 1:
                    cont = r
                elif isinstance(r, tuple):
                    outs += self.exec(F, fr, r[0], b, r[1], stops)
                else:
                    outs += r
            if cont is None:
                return outs
            pred, b, st = b, cont[0], cont[1]

    def term(self, F, fr, blk, st, stops):
        t = blk.insts[-1]
        self.cur = t
        self.tick()
        if t.op == 'ret':
            return [('ret', st, self.seen(self.val(st, fr, t.ops[0])) if t.ops else None)]
        if t.op == 'unreachable':
            return [('stop', st, None)]
        if t.op == 'br':
            if not t.ops:
                return (t.succ[0], st)
            c = self.val(st, fr, t.ops[0])
            if isinstance(c, Undef):
                self.flag(st, 'undefined', 'a branch depends on an undefined value')
                raise Unsupported('branch on an undefined value')
            p = c.bits[0]
            w = self.truth(st, p)
            if w is not None:
                return (t.succ[0] if w else t.succ[1], st)
            alts = [(p, True, t.succ[0]), (p, False, t.succ[1])]
            return self.fork(F, fr, blk.id, st, alts, stops)
        if t.op == 'switch':
            v = self.val(st, fr, t.ops[0])
            if isinstance(v, Undef):
                raise Unsupported('switch on an undefined value')
            c = v.const()
            if c is not None:
                for n, s in t.cases:
                    if n == c:
                        return (s, st)
                return (t.succ[0], st)
            # group the cases by target
            by = {}
            for n, s in t.cases:
                e = vg.eq(v, vg.const(v.w, n))
                by[s] = by.get(s, vg.NIL) ^ e
            rest = vg.ONE
            alts = []
            for s, e in by.items():
                w = self.truth(st, e)
                if w is False:
                    continue
                if w is True:
                    return (s, st)
                alts.append((e, True, s))
                rest = rest ^ e
            if vg.ONE and rest and F.blocks[t.succ[0]].insts[0].op != 'unreachable':
                alts.append((rest, True, t.succ[0]))
            return self.fork(F, fr, blk.id, st, alts, stops)
        raise Unsupported(t.op)

    def fork(self, F, fr, b, st, alts, stops):
        self.nfork = getattr(self, 'nfork', 0) + 1
        if self.nfork > self.max_fork:
            raise Unsupported('too many symbolic branches')
        j = self.ipdom(F, b)
        sub = stops | {j} if j is not None else stops
        outs, at = [], {}
        for k, (p, want, s) in enumerate(alts):
            x = st.copy()
            self.assume(x, p, want)
            if self.feasible is not None and not self.feasible(x):
                continue
            for o in self.exec(F, fr, s, b, x, sub):
                if o[0] == 'at' and o[2] == j and j not in stops:
                    at.setdefault(j, []).append(o[1])
                elif o[0] == 'at':
                    outs.append(o)
                else:
                    outs.append(o)
        # merge what arrives at the join
        for s in self.join_all(at.get(j, [])):
            outs += self.exec(F, fr, j, self.apred(F, j), s, stops, True) if True else []
        if self.merge:
            for blk in stops:
                xs = [o for o in outs if o[0] == 'at' and o[2] == blk]
                if len(xs) > 1:
                    outs = [o for o in outs if o not in xs] + [('at', s, blk) for s in self.join_all([o[1] for o in xs])]
        return outs

    feasible = None

    def apred(self, F, j):
        return None

    def join_all(self, sts):
        if not self.merge:
            return sts
        out = []
        for s in sts:
            for k, t in enumerate(out):
                try:
                    m, _ = self.join(t, s)
                except Conflict:
                    continue
                out[k] = m
                break
            else:
                out.append(s)
        return out

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('too many steps')

    def step(self, F, fr, i, st):
        self.cur = i
        self.tick()
        h = getattr(self, 'op_' + i.op, None)
        if h is None:
            raise Unsupported('instruction ' + i.op)
        try:
            r = h(st, fr, i)
        except Conflict:
            raise Unsupported('values that cannot be merged at %s' % i.loc())
        if isinstance(r, list):
            out = []
            for s, v in r:
                if v is Stop:
                    continue
                if v is not None:
                    s.regs[(fr, i.id)] = v
                out.append(s)
            return out
        if r is not None:
            st.regs[(fr, i.id)] = r
        return None

    def ops2(self, st, fr, i):
        a, b = self.val(st, fr, i.ops[0]), self.val(st, fr, i.ops[1])
        return a, b

    def arith(f):
        def g(self, st, fr, i):
            a, b = self.ops2(st, fr, i)
            if isinstance(a, Undef) or isinstance(b, Undef):
                return a if isinstance(a, BadShift) else b if isinstance(b, BadShift) else UNDEF
            if isinstance(a, tuple):
                raise Unsupported('vector arithmetic')
            if not isinstance(a, V) or not isinstance(b, V):
                raise Unsupported('arithmetic on %r %r' % (a, b))
            if self.nsw_hook and (i.nsw or i.nuw):
                self.nsw_hook(self, st, i, a, b)
            return f(self, st, i, a, b)
        return g

    op_add = arith(lambda s, st, i, a, b: vg.add(a, b))
    op_sub = arith(lambda s, st, i, a, b: vg.sub(a, b))
    op_mul = arith(lambda s, st, i, a, b: vg.mul(a, b))
    op_and = arith(lambda s, st, i, a, b: vg.and_(a, b))
    op_or = arith(lambda s, st, i, a, b: vg.or_(a, b))
    op_xor = arith(lambda s, st, i, a, b: vg.xor(a, b))
    op_udiv = arith(lambda s, st, i, a, b: s.div(st, 'udiv', a, b))
    op_urem = arith(lambda s, st, i, a, b: s.div(st, 'urem', a, b))
    op_sdiv = arith(lambda s, st, i, a, b: s.div(st, 'sdiv', a, b))
    op_srem = arith(lambda s, st, i, a, b: s.div(st, 'srem', a, b))
    op_shl = arith(lambda s, st, i, a, b: s.sh(st, 'shl', a, b))
    op_lshr = arith(lambda s, st, i, a, b: s.sh(st, 'lshr', a, b))
    op_ashr = arith(lambda s, st, i, a, b: s.sh(st, 'ashr', a, b))

    def div(self, st, op, a, b):
        if b.const() == 0:
            self.flag(st, 'division', 'division by zero')
            raise Unsupported('division by zero')
        return getattr(vg, op)(a, b)

    def sh(self, st, op, a, b):
        c = b.const()
        if c is not None and c >= a.w:
            i = getattr(self, 'cur', None)
            return BadShift(('shift', 'shift by %d of a %d-bit value' % (c, a.w), i.loc() if i is not None else '?', st.facts))
        return vg.shift(op, a, b)

    def op_fneg(self, st, fr, i):
        raise Unsupported('floating point')

    op_fadd = op_fsub = op_fmul = op_fdiv = op_fcmp = op_fneg

    def op_alloca(self, st, fr, i):
        n = self.val(st, fr, i.ops[0]).const() if i.ops else 1
        r = Region('%s.%d.%d' % (i.fn.name[:24], fr, i.id), 'local', i.aty.size * (n or 1))
        st.mem.pop(r, None)
        return Ptr(r)

    def op_load(self, st, fr, i):
        v = self.load(st, self.val(st, fr, i.ops[0]), i.ty)
        if isinstance(v, tuple) and v and v[0] == 'lost':
            raise Unsupported('load of an overwritten place')
        return v

    def seen(self, v):
        if isinstance(v, BadShift) and v.rec not in self.ub:
            self.ub.append(v.rec)
        return v

    def op_store(self, st, fr, i):
        self.store(st, self.seen(self.val(st, fr, i.ops[1])), self.seen(self.val(st, fr, i.ops[0])), i.ops[0].ty)

    def op_gep(self, st, fr, i):
        return self.gep(st, self.val(st, fr, i.ops[0]), i.gty, [self.seen(self.val(st, fr, o)) for o in i.ops[1:]])

    def cast(f):
        def g(self, st, fr, i):
            a = self.val(st, fr, i.ops[0])
            if isinstance(a, Undef):
                return a
            if not isinstance(a, V):
                raise Unsupported('cast of %r' % (a,))
            return f(self, a, i.ty)
        return g

    op_trunc = cast(lambda s, a, t: vg.trunc(a, t.width))
    op_zext = cast(lambda s, a, t: vg.zext(a, t.width))
    op_sext = cast(lambda s, a, t: vg.sext(a, t.width))
    op_sitofp = cast(lambda s, a, t: vg.fn('sitofp', 64 if t.kind == 'double' else 32, a))
    op_uitofp = cast(lambda s, a, t: vg.fn('uitofp', 64 if t.kind == 'double' else 32, a))

    def op_bitcast(self, st, fr, i):
        return self.val(st, fr, i.ops[0])

    def op_freeze(self, st, fr, i):
        return self.val(st, fr, i.ops[0])

    def op_ptrtoint(self, st, fr, i):
        a = self.val(st, fr, i.ops[0])
        if isinstance(a, CondPtr):
            return vg.trunc(sel(a.c, self.ptr_int(a.a), self.ptr_int(a.b)), i.ty.width)
        return vg.trunc(self.ptr_int(a), i.ty.width)

    def op_inttoptr(self, st, fr, i):
        return self.int_ptr(st, self.val(st, fr, i.ops[0]))

    def op_icmp(self, st, fr, i):
        a, b = [self.seen(x) for x in self.ops2(st, fr, i)]
        return vg.b1(self.cmp(st, i.pred, a, b))

    def op_select(self, st, fr, i):
        c, a, b = [self.val(st, fr, o) for o in i.ops]
        if isinstance(c, Undef):
            raise Unsupported('select on an undefined value')
        w = self.truth(st, c.bits[0])
        if w is not None:
            return a if w else b
        return sel(c.bits[0], self.seen(a), self.seen(b))

    def op_extractvalue(self, st, fr, i):
        v = self.val(st, fr, i.ops[0])
        for k in i.idx:
            v = v[k] if not isinstance(v, Undef) else v
        return v

    def op_insertvalue(self, st, fr, i):
        v, x = self.val(st, fr, i.ops[0]), self.val(st, fr, i.ops[1])

        def ins(v, ty, idx):
            if not idx:
                return x
            n = len(ty.elems) if ty.kind == 'struct' else ty.count
            v = list(v) if not isinstance(v, Undef) else [UNDEF] * n
            e = ty.elems[idx[0]] if ty.kind == 'struct' else ty.elems[0]
            v[idx[0]] = ins(v[idx[0]], e, idx[1:])
            return tuple(v)
        return ins(v, i.ty, list(i.idx))

    def op_call(self, st, fr, i):
        cal = self.val(st, fr, i.callee) if i.callee.k != 'asm' else None
        if isinstance(cal, Fn) and cal.name.startswith('llvm.'):
            return self.intrinsic(st, fr, i, cal.name)
        args = [self.seen(self.val(st, fr, o)) for o in i.ops]
        if isinstance(cal, Fn):
            h = self.calls.get(cal.name)
            if h is None:
                for k, f in self.calls.items():
                    if not isinstance(k, str) and k(cal.name):
                        h = f
                        break
            if h is not None:
                return h(self, st, i, args)
            F = self.mod.funcs.get(cal.name)
            if F is not None and not F.is_decl:
                return self.run(cal.name, args, st)
        if self.any_call:
            return self.any_call(self, st, i, cal, args)
        raise Unsupported('call of %s' % (cal,))

    def intrinsic(self, st, fr, i, name):
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing')):
            return None
        a = [self.val(st, fr, o) for o in i.ops]
        n = name.split('.')[1]
        if n in ('memcpy', 'memmove'):
            c = a[2].const()
            if c is None or c > 65536:
                raise Unsupported('copy of a symbolic length')
            if c == 0:
                return None
            self.oob(st, a[1], c, 'read')
            self.oob(st, a[0], c, 'write')
            bs = [self.load_byte(st, a[1], k) for k in range(c)]
            if any(b is None for b in bs):
                raise Unsupported('copy from a symbolic table')
            bs = self.fix_consts(st, bs)
            self.put(st, a[0], bs, c)
            return None
        if n == 'memset':
            c = a[2].const()
            if c is None or c > 1 << 20:
                raise Unsupported('fill of a symbolic length')
            if c:
                self.oob(st, a[0], c, 'write')
                self.put(st, a[0], [a[1]] * c, c)
            return None
        if any(isinstance(x, Undef) for x in a):
            return UNDEF
        if n in ('fshl', 'fshr'):
            w = a[0].w
            c = a[2].const()
            if c is None:
                if a[0] == a[1]:
                    return vg.fn('rotl' if n == 'fshl' else 'rotr', w, a[0], vg.urem(a[2], vg.const(w, w)))
                raise Unsupported('funnel shift')
            c %= w
            x = vg.concat([a[1], a[0]])
            return vg.slice_(x, w - c if n == 'fshl' else c, w) if c else (a[0] if n == 'fshl' else a[1])
        if n == 'bswap':
            return vg.concat([vg.slice_(a[0], k, 8) for k in range(a[0].w - 8, -1, -8)])
        if n in ('umin', 'umax', 'smin', 'smax'):
            c = vg.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[n], a[0], a[1])
            return vg.ite(c, a[0], a[1])
        if n == 'abs':
            return vg.ite(vg.icmp('slt', a[0], vg.const(a[0].w, 0)), vg.neg(a[0]), a[0])
        if n in ('ctlz', 'cttz', 'ctpop'):
            c = a[0].const()
            w = a[0].w
            if c is not None:
                return vg.const(w, w - c.bit_length() if n == 'ctlz' else bin(c).count('1') if n == 'ctpop' else
                                (c & -c).bit_length() - 1 if c else w)
            return vg.fn(n, w, a[0])
        if n in ('umul', 'uadd', 'usub') and 'with.overflow' in name:
            w = a[0].w
            f = {'umul': vg.mul, 'uadd': vg.add, 'usub': vg.sub}[n]
            x = f(vg.zext(a[0], 2 * w), vg.zext(a[1], 2 * w))
            return (vg.trunc(x, w), vg.b1(vg.eq(vg.slice_(x, w, w), vg.const(w, 0)) ^ vg.ONE))
        if n == 'trap':
            return [(st, Stop)]
        raise Unsupported('intrinsic ' + name)

    def fix_consts(self, st, bs):
        out = list(bs)
        k = 0
        while k < len(out):
            if isinstance(out[k], llvm.Val):
                v = self.val(st, None, out[k])
                for j in range(8):
                    out[k + j] = ('pb', v, j)
                k += 8
            else:
                k += 1
        return out


class Stop:
    """the path ends inside a call"""


def _postdom(F):
    """immediate post-dominators of the blocks (None: none but the exit)"""
    n = len(F.blocks)
    EXIT = n
    succ = {b.id: (list(b.succs) or [EXIT]) for b in F.blocks}
    full = set(range(n + 1))
    pd = {b: set(full) for b in range(n)}
    pd[EXIT] = {EXIT}
    ch = True
    order = sorted((b for b in F.order), key=lambda b: -F.order[b])
    while ch:
        ch = False
        for b in order:
            # a block that only ends in a dead end does not constrain the join
            ss = [s for s in succ[b] if not _dead(F, s)] or succ[b]
            x = set.intersection(*[pd[s] for s in ss]) | {b}
            if x != pd[b]:
                pd[b] = x
                ch = True
    out = {}
    for b in F.order:
        c = pd[b] - {b}
        best = None
        for x in c:
            if x != EXIT and all(x == y or y in pd[x] for y in c):
                best = x
        out[b] = best
    return out


def _dead(F, s):
    return s < len(F.blocks) and F.blocks[s].insts[-1].op == 'unreachable'


# ---- comparing two normal forms
def points(seed, n):
    """deterministic input points: corner values first, then pseudo-random ones"""
    import random
    ALL = (1 << 128) - 1
    corners = [0, ALL, 1, 2, ALL - 1, sum(0x80 << (8 * j) for j in range(16)), sum(1 << (32 * j + 31) for j in range(4)), 1 << 63, 1 << 29, (1 << 29) - 1,
               1 << 30, (1 << 30) - 1, ALL ^ (1 << 29), (1 << 31) - 1, 0x30, 0x39, 0x41, 0x2f2f2f2f, 0x61616161]
    for k in range(n):
        rnd = random.Random(seed * 1000003 + k)
        memo = {}

        def f(name, memo=memo, rnd=rnd, k=k):
            v = memo.get(name)
            if v is None:
                if k < 8:
                    v = corners[k]
                elif k % 2:
                    v = rnd.choice(corners)
                else:
                    v = rnd.getrandbits(128)
                memo[name] = v
            return v
        yield f
    # related values: few distinct ones, small ones, words of memory rather than bytes
    for k in range(n):
        rnd = random.Random(seed * 7000003 + k)
        memo = {}
        size = rnd.choice((1, 4, 8))
        base = rnd.getrandbits(rnd.choice((3, 8, 16, 20, 31, 63, 128)))
        pool = [base, base, base + 1, base - 1, -base, rnd.getrandbits(rnd.choice((4, 17, 30, 62)))]
        small = k % 3

        def g(name, memo=memo, rnd=rnd, size=size, pool=pool, small=small):
            key = name
            mem = isinstance(name, tuple) and name[0] == 'mem'
            if mem:
                key = name[:2] + (name[2] // size,)
            v = memo.get(key)
            if v is None:
                v = rnd.choice(pool) if small == 0 else rnd.randint(-3, 3) if small == 1 else rnd.randint(-1 << 20, 1 << 20)
                v = memo[key] = v & ALL
            return v >> 8 * (name[2] % size) if mem else v
        yield g


def inputs_of(vals, pc, limit=12):
    """the variable bits some forms depend on, or None when they are many or not only variables"""
    seen, todo, bits = set(), [], set()
    for v in vals:
        if v._bits is None:
            todo.append(v._lin)
        else:
            todo.extend(v._bits)
    todo.extend(pc)
    n = 0
    while todo:
        x = todo.pop()
        n += 1
        if n > 20000:
            return None
        if isinstance(x, frozenset):
            new = set().union(*x) - seen if x else set()
            seen |= new
            for a in new:
                d = vg.bit_atoms.defs[a]
                if d[0] == 'var':
                    bits.add(d[1:3])
                    if len(bits) > limit:
                        return None
                elif d[0] in ('mem', 'fn'):
                    return None
                else:
                    todo.extend(y for y in d[1:] if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                x = x[1]
            for y in x:
                if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) and isinstance(y[1], int):
                    for a in y[0]:
                        if isinstance(a, int) and ('v', a) not in seen:
                            seen.add(('v', a))
                            todo.extend(vg.vec_atoms.defs[a][0])
                elif isinstance(y, (frozenset, tuple)):
                    todo.append(y)
    return bits


def every(bits):
    bits = sorted(bits, key=repr)
    for k in range(1 << len(bits)):
        val = {}
        for j, (name, i) in enumerate(bits):
            val[name] = val.get(name, 0) | (k >> j & 1) << i
        yield lambda name, val=val: val.get(name, 0)


def differ(a, b, pc=(), n=160, pts=None):
    """a witness point where two values differ (None: none found)"""
    if pts is None:
        bits = inputs_of((a, b), pc)
        if bits is not None:
            bits = every(bits)
            pts = lambda: bits
    for f in (pts() if pts else points(7, n)):
        p = vg.Point(f)
        if all(p.poly(c) for c in pc) and p.value(a) != p.value(b):
            return p.value(a), p.value(b), p
    return None
