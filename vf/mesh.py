"""Shape analysis of a mesh of half edges over LLVM IR.

The mesh is an array of faces of four nodes (three half edges and the face info).  The analysis names faces and vertices by symbols,
materialises links lazily (a link is nil, leads to a face seen for the first time, or to a face already named) under the invariant that
holds between operations, follows every path, and compares the mesh before and after.  Integers are polynomials over the symbols with
exact integer meaning; conditions over coordinates are recorded as polynomial facts.  Loops are cut at their headers: what is not needed
is forgotten and states that are equal up to renaming of symbols are visited once."""
import time
from math import gcd
from . import llvm


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class Dead(Exception):
    pass


class Tab:
    """symbol table: kind and default range"""
    kind = []
    rng = []
    name = []


def sym(kind, lo, hi, name=''):
    Tab.kind.append(kind)
    Tab.rng.append((lo, hi))
    Tab.name.append(name or '%s%d' % (kind, len(Tab.kind) - 1))
    return len(Tab.kind) - 1


class P:
    __slots__ = ('t', 'k')

    def __init__(self, t):
        self.t = t
        self.k = None

    def key(self):
        if self.k is None:
            self.k = tuple(sorted(self.t.items()))
        return self.k

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def c0(self):
        return self.t.get((), 0)

    def syms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def one(self):
        """the symbol this is, if it is just one"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def __add__(self, o):
        if isinstance(o, int):
            o = C(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return P(t)

    def __sub__(self, o):
        return self + (-o if isinstance(o, int) else o.scale(-1))

    def scale(self, k):
        return P({m: c * k for m, c in self.t.items()} if k else {})

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                q = tuple(sorted(m + n))
                x = t.get(q, 0) + c * d
                if x:
                    t[q] = x
                else:
                    t.pop(q, None)
        return P(t)

    def __repr__(self):
        if not self.t:
            return '0'
        return '+'.join(('%d' % c if not m else (('%d*' % c if c != 1 else '') + '*'.join(Tab.name[s] for s in m))) for m, c in sorted(self.t.items(), reverse=True)).replace('+-', '-')


def C(n):
    return P({(): n} if n else {})


def S(s):
    return P({(s,): 1})


ZERO, ONE = C(0), C(1)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o == x.o and self.off == x.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return '&%s[%r]' % (self.o, self.off)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, x):
        return isinstance(x, Agg) and self.v == x.v

    def __hash__(self):
        return hash(self.v)


class Frame:
    __slots__ = ('F', 'b', 'i', 'prev', 'regs', 'ret')

    def copy(self):
        f = Frame()
        f.F, f.b, f.i, f.prev, f.ret = self.F, self.b, self.i, self.prev, self.ret
        f.regs = dict(self.regs)
        return f


class State:
    def __init__(self):
        self.fr = []
        self.loc = {}       # object -> {offset: (size, value)}
        self.osz = {}       # object -> size in bytes, or None
        self.arr = {}       # object -> frozenset of value shapes (summarised arrays)
        self.pre = {}       # (face, slot, field) -> value at the last sync point
        self.cur = {}       # the same, written since
        self.known = []     # faces that have been named
        self.adj = frozenset()
        self.rng = {}
        self.drv = {}       # bounds that follow from a fact about two symbols (dropped at loop headers)
        self.le = {}        # normal form of a polynomial -> upper bound
        self.ne = set()
        self.uf = {}
        self.size0 = None   # vertex count at the last sync point
        self.size = None
        self.force = {}
        self.gd = {}
        self.path = ()
        self.events = ()

    def copy(self):
        s = State.__new__(State)
        s.fr = [f.copy() for f in self.fr]
        s.loc = {k: dict(v) for k, v in self.loc.items()}
        s.osz = dict(self.osz)
        s.arr = dict(self.arr)
        s.pre, s.cur = dict(self.pre), dict(self.cur)
        s.known = list(self.known)
        s.adj = self.adj
        s.drv = dict(self.drv)
        s.rng, s.le, s.ne, s.uf = dict(self.rng), dict(self.le), set(self.ne), dict(self.uf)
        s.size0, s.size = self.size0, self.size
        s.force = dict(self.force)
        s.gd = dict(self.gd)
        s.path = self.path
        s.events = self.events
        return s

    # ---------------------------------------------------------- arithmetic facts
    def canon(self, p):
        if not self.uf:
            return p
        if not isinstance(p, P):
            if isinstance(p, Agg):
                return Agg([self.canon(x) for x in p.v])
            return p
        while True:
            hit = [s for s in p.syms() if s in self.uf]
            if not hit:
                return p
            t = ZERO
            for m, c in p.t.items():
                x = C(c)
                for s in m:
                    x = x * (self.uf[s] if s in self.uf else S(s))
                t = t + x
            p = t

    def base(self, s):
        return self.rng.get(s) or Tab.rng[s]

    def srange(self, s):
        r = self.rng.get(s) or Tab.rng[s]
        d = self.drv.get(s)
        return r if d is None else (max(r[0], d[0]), min(r[1], d[1]))

    def range(self, p):
        p = self.canon(p)
        lo = hi = 0
        for m, c in p.t.items():
            a, b = 1, 1
            i = 0
            while i < len(m):
                n = 1
                while i + n < len(m) and m[i + n] == m[i]:
                    n += 1
                l, h = self.srange(m[i])
                xs = [l ** n, h ** n]
                if n % 2 == 0 and l <= 0 <= h:
                    xs.append(0)
                l, h = min(xs), max(xs)
                q = (a * l, a * h, b * l, b * h)
                a, b = min(q), max(q)
                i += n
            if c < 0:
                a, b = b, a
            lo += c * a
            hi += c * b
        return lo, hi

    @staticmethod
    def normal(p):
        """p <= 0  as  N <= b"""
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, abs(c))
        if not g:
            return None, 0
        n = P({m: c // g for m, c in p.t.items() if m})
        return n, (-p.c0()) // g

    def is_le0(self, p):
        p = self.canon(p)
        lo, hi = self.range(p)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        n, b = self.normal(p)
        if n is None:
            return p.c0() <= 0
        u = self.le.get(n)
        if u is not None and u <= b:
            return True
        l = self.le.get(n.scale(-1))
        if l is not None and -l > b:
            return False
        return None

    def is_eq0(self, p):
        p = self.canon(p)
        if not p.t:
            return True
        a = self.is_le0(p)
        if a is False:
            return False
        b = self.is_le0(p.scale(-1))
        if b is False:
            return False
        if a and b:
            return True
        if p in self.ne or p.scale(-1) in self.ne:
            return False
        # divisibility
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, abs(c))
        if g > 1 and p.c0() % g:
            return False
        # residues of small symbols
        return None

    def add_le0(self, p):
        p = self.canon(p)
        r = self.is_le0(p)
        if r is True:
            return
        if r is False:
            raise Dead()
        n, b = self.normal(p)
        u = self.le.get(n)
        self.le[n] = b if u is None else min(u, b)
        if len(n.t) == 1:
            (m, c), = n.t.items()
            if len(m) == 1:
                lo, hi = self.base(m[0])
                if c > 0:
                    hi = min(hi, b // c)
                else:
                    lo = max(lo, -(b // -c))
                if lo > hi:
                    raise Dead()
                self.rng[m[0]] = (lo, hi)
        elif len(n.t) == 2 and all(len(m) == 1 for m in n.t):
            (x, c), (y, d) = [(m[0], c) for m, c in n.t.items()]
            for x, c, y, d in ((x, c, y, d), (y, d, x, c)):
                # c x <= b - d y
                lo, hi = self.srange(y)
                t = self.le[n] - (d * lo if d > 0 else d * hi)
                lo, hi = self.srange(x)
                nlo, nhi = (lo, min(hi, t // c)) if c > 0 else (max(lo, -(t // -c)), hi)
                if nlo > nhi:
                    raise Dead()
                if (nlo, nhi) != (lo, hi):
                    self.drv[x] = (nlo, nhi)
        # a bound that an inequality excludes
        q = n - C(self.le[n])
        if q in self.ne or q.scale(-1) in self.ne:
            self.le[n] -= 1

    def add_eq0(self, p):
        if self.is_eq0(p) is False:
            raise Dead()
        self.add_le0(p)
        self.add_le0(p.scale(-1))

    def add_ne0(self, p):
        p = self.canon(p)
        r = self.is_eq0(p)
        if r is True:
            raise Dead()
        if r is False:
            return
        n, b = self.normal(p)
        if self.is_eq0(n - C(b)) is None:
            self.ne.add(n - C(b))
        self.ne.add(p)
        lo, hi = self.range(p)
        if lo == 0:
            self.add_le0(C(1) - p)
        elif hi == 0:
            self.add_le0(p + 1)
        elif self.is_le0(p):
            self.add_le0(p + 1)
        elif self.is_le0(p.scale(-1)):
            self.add_le0(C(1) - p)

    def union(self, a, b):
        """the values are the same"""
        a, b = self.canon(a), self.canon(b)
        if a == b:
            return
        x, y = a.one(), b.one()
        if x is None:
            a, b, x, y = b, a, y, x
        if x is None:
            self.add_eq0(a - b)
            return
        lo, hi = self.srange(x)
        l2, h2 = self.range(b)
        if hi < l2 or h2 < lo:
            raise Dead()
        if y is not None:
            (lo, hi), (l2, h2) = self.base(x), self.base(y)
            self.rng[y] = (max(lo, l2), min(hi, h2))
        self.uf[x] = b
        if y is None and b.t:
            self.add_le0(b - hi)
            self.add_le0(C(lo) - b)
        # cells are looked up by canonical face keys: fold what was stored under the old name
        for d in (self.pre, self.cur):
            for k in [k for k in d if x in k[0].syms()]:
                v = d.pop(k)
                n = (self.canon(k[0]), k[1], k[2])
                if n in d:
                    self.union(d[n], v)
                else:
                    d[n] = v
        self.known = list(dict.fromkeys(self.canon(k) for k in self.known))
        le = {}
        for n, u in self.le.items():
            if x in n.syms():
                q = self.canon(n)
                r = self.is_le0(q - C(u))
                if r is False:
                    raise Dead()
                m, bb = self.normal(q - C(u))
                if m is not None:
                    le[m] = min(le.get(m, bb), bb)
            else:
                le[n] = min(le.get(n, u), u)
        self.le = le
        self.ne = {self.canon(q) for q in self.ne}
        if ZERO in self.ne:
            raise Dead()


FIELDS = {0: ('p', 'c'), 2: ('e',)}
CELLS = [(k, f) for k in range(3) for f in 'pce'] + [(3, 'fi')]


_live = {}


def _liveness(F):
    r = _live.get(id(F))
    if r is not None and r[0] is F:
        return r
    n = len(F.blocks)
    use, dfn, phi = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
    for B in F.blocks:
        for i in B.insts:
            if i.op == 'phi':
                dfn[B.id].add(i.id)
                for p, v in i.incoming:
                    if v.k in ('inst', 'arg'):
                        phi[p].add(v.id)
                continue
            for o in i.ops:
                if o.k in ('inst', 'arg') and o.id not in dfn[B.id]:
                    use[B.id].add(o.id)
            dfn[B.id].add(i.id)
    inn, out = [set() for _ in range(n)], [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set(phi[b])
            for s in F.blocks[b].succs:
                o |= inn[s]
            x = use[b] | (o - dfn[b])
            if o != out[b] or x != inn[b]:
                out[b], inn[b] = o, x
                ch = True
    _live[id(F)] = r = (F, inn, out)
    return r


def liveness(F):
    return _liveness(F)[1]


def liveness_out(F):
    return _liveness(F)[2]


_mlive = {}


def memlive(F):
    """bytes of the local variables that a block may still read: [{alloca id: set of offsets}], None for all of them"""
    r = _mlive.get(id(F))
    if r is not None and r[0] is F:
        return r[1]
    size, ptr, esc = {}, {}, set()
    for B in F.blocks:
        for i in B.insts:
            if i.op == 'alloca' and i.aty.size <= 256:
                size[i.id] = i.aty.size
                ptr[i.id] = (i.id, 0)
    ch = True
    while ch:       # addresses of parts of local variables: (alloca, offset or None)
        ch = False
        for B in F.blocks:
            for i in B.insts:
                if i.op == 'gep' and i.ops[0].k == 'inst' and i.ops[0].id in ptr and i.id not in ptr:
                    a, o = ptr[i.ops[0].id]
                    ty = i.gty
                    for n, x in enumerate(i.ops[1:]):
                        j = x.n if x.k == 'int' else None
                        if n == 0:
                            d = None if j is None else j * ty.size
                        elif ty.kind == 'struct':
                            d = ty.offsets[j]
                            ty = ty.elems[j]
                        else:
                            ty = ty.elems[0]
                            d = None if j is None else j * ty.size
                        o = None if o is None or d is None else o + d
                    ptr[i.id] = (a, o)
                    ch = True
    acts = []
    for B in F.blocks:
        x = []
        for i in B.insts:
            for n, o in enumerate(i.ops if i.op != 'phi' else [v for _, v in i.incoming]):
                if o.k != 'inst' or o.id not in ptr:
                    continue
                a, off = ptr[o.id]
                if i.op == 'load':
                    x.append((0, a, range(size[a]) if off is None else range(off, off + i.ty.size)))
                elif i.op == 'store' and n == 1:
                    if off is not None:
                        x.append((1, a, range(off, off + i.ops[0].ty.size)))
                elif i.op == 'gep' and n == 0:
                    pass
                elif i.op == 'call' and i.callee is not None and i.callee.k in ('func', 'global') and i.callee.name.startswith(('llvm.dbg', 'llvm.lifetime')):
                    pass
                elif i.op == 'call' and i.callee is not None and i.callee.k in ('func', 'global') and i.callee.name.startswith(('llvm.memcpy', 'llvm.memmove')) and n < 2:
                    c = i.ops[2].n if i.ops[2].k == 'int' else None
                    if n == 1:
                        x.append((0, a, range(size[a]) if off is None or c is None else range(off, off + c)))
                    elif off is not None and c is not None:
                        x.append((1, a, range(off, off + c)))
                elif i.op == 'call':
                    x.append((0, a, range(size[a])))
                else:
                    esc.add(a)
        acts.append(x)
    inn = [{a: set() for a in size} for _ in F.blocks]
    ch = True
    while ch:
        ch = False
        for B in reversed(F.blocks):
            cur = {a: set().union(*[inn[s][a] for s in B.succs]) if B.succs else set() for a in size}
            for kill, a, r in reversed(acts[B.id]):
                if kill:
                    cur[a] -= set(r)
                else:
                    cur[a] |= set(r)
            if cur != inn[B.id]:
                inn[B.id] = cur
                ch = True
    r = [{a: v[a] for a in size if a not in esc} for v in inn]
    _mlive[id(F)] = (F, r)
    return r


class Mesh:
    """the analyser; `spec` supplies the contracts of operations and hears of every sync point"""

    def __init__(self, mod, layout, budget=60000):
        self.m = mod
        self.Q, self.limit, self.total, self.o_size, self.o_es, self.s_edge, self.s_vert = layout[:7]
        self.contracts = []       # (predicate on the mangled name, handler(st, inst, args))
        self.obs = []             # (predicate, handler): observers
        self.obl = {}
        self.violations = {}
        self.incomplete = set()
        self.deadline = None
        self.wrapped = {}
        self.keep_cells = None    # cells that are kept at loop headers
        self.on_header = None     # may replace values by more general ones at loop headers
        self.overflow = False     # signed overflow is an obligation
        self.signed = {}          # symbol -> the signed number whose word it is
        self.wdef = {}            # symbol -> (polynomial, w) it equals modulo 2^w
        self.trust = False        # 64 bit comparisons of such symbols compare the polynomials
        self.weaken = None        # called at loop headers to give up facts
        self.steps = 0
        self.paths = 0
        self.budget = budget
        self.root = None
        self.on_sync = None
        self.on_write = None
        self.on_return = None
        self.cur_inst = None
        self.track_fill = None
        self.headers = set()

    # ---------------------------------------------------------- reporting
    def ob(self, st, ok, rule, msg='', inst=None, loc=None):
        inst = inst or self.cur_inst
        loc = loc or (inst.loc() if inst is not None else '?')
        k = (rule, loc, self.root)
        a, b = self.obl.get(k, (0, 0))
        self.obl[k] = (a + 1, b) if ok else (a, b + 1)
        if not ok:
            kk = (rule, msg, self.root)
            if kk not in self.violations:
                self.violations[kk] = dict(rule=rule, msg=msg, loc=loc, entry=self.root, path=list(dict.fromkeys(st.path))[-30:])
        return ok

    def fresh(self, ty, kind='o'):
        if ty.kind == 'int':
            w = ty.width
            if w == 1:
                return S(sym(kind, 0, 1))
            return S(sym(kind, -(1 << (w - 1)), (1 << (w - 1)) - 1))
        if ty.kind in ('struct', 'array'):
            return Agg([self.fresh(t) for t in ty.elems])
        return None

    # ---------------------------------------------------------- the mesh
    def real(self, st, key):
        """key names a face of the mesh"""
        key = st.canon(key)
        s = key.one()
        if s is not None and Tab.kind[s] == 'f':
            return True
        return st.is_le0(C(6) - key) is True and st.is_le0(key + 1 - st.size.scale(2)) is True

    def fits(self, st, key):
        if self.real(st, key) and st.is_le0(st.size - self.limit) is True:
            return True
        return st.is_le0(key.scale(-1)) is True and st.is_le0(key + 1 - C(2 * self.limit)) is True

    def reserved(self, st, key):
        c = st.canon(key).const()
        return c is not None and 0 <= c < 6

    def new_face(self, st):
        f = S(sym('f', 6, 2 * self.limit - 1))
        st.add_le0(f + 1 - st.size0.scale(2))
        return f

    def name_face(self, st, key):
        """make sure that a real face is told apart from the ones already named"""
        key = st.canon(key)
        if key in st.known:
            return key
        s = key.one()
        alts = []
        for k in st.known:
            if st.is_eq0(k - key) is None and (s is not None or k.one() is not None):
                alts.append(k)
        if alts and not st.gd.get(('distinct', key)):
            def same(k):
                def f(s2):
                    s2.union(key, k)
                return f

            def apart(s2):
                s2.gd[('distinct', key)] = True
                for k in alts:
                    s2.add_ne0(k - key)
                s2.known.append(key)
            raise Fork([same(k) for k in alts] + [apart])
        st.known.append(key)
        return key

    def fresh_cell(self, st, key, slot, f):
        if f == 'p':
            return S(sym('v', 0, self.limit - 1))
        if f == 'c':
            return S(sym('c', 0, 1))
        if f == 'fi':
            return S(sym('i', 0, 65535))
        if f == 'xy':
            return S(sym('x', -32768, 32767))
        raise Unsupported(f)

    def is_new(self, st, key):
        """a slot that held no face at the last sync point"""
        return st.is_le0(st.size0.scale(2) - st.canon(key)) is True

    def corner(self, st, key, k):
        return self.get_pre(st, key, k % 3, 'p')

    def get_pre(self, st, key, slot, f):
        key = st.canon(key)
        c = (key, slot, f)
        v = st.pre.get(c)
        if v is not None:
            return st.canon(v)
        if f == 'xy':
            # the coordinate word of a face is the x or y of the vertex that owns it
            v = st.pre[c] = self.fresh_cell(st, key, slot, f)
            return v
        if self.reserved(st, key):
            if key.const() == 0 and slot < 3:
                v = {'p': ZERO, 'e': ZERO}.get(f)
                if v is None:
                    v = S(sym('c', 1, 1))
                st.pre[c] = v
                return v
            v = st.pre[c] = self.fresh_cell(st, key, slot, f) if f != 'e' else S(sym('o', 0, 65535))
            return v
        if self.is_new(st, key):
            v = st.pre[c] = S(sym('u', *{'p': (0, 8191), 'c': (0, 7), 'e': (0, 65535), 'fi': (0, 65535), 'xy': (-32768, 32767)}[f]))
            return v
        key = self.name_face(st, key)
        c = (key, slot, f)
        if c in st.pre:
            return st.canon(st.pre[c])
        if f != 'e':
            if f == 'p':
                # corners of a face differ
                v = self.fresh_cell(st, key, slot, f)
                st.add_le0(v + 1 - st.size0) if st.size0.const() is None else None
                st.pre[c] = v
                for j in range(3):
                    o = st.pre.get((key, j, 'p'))
                    if j != slot and o is not None:
                        st.add_ne0(st.canon(o) - v)
                return v
            v = st.pre[c] = self.fresh_cell(st, key, slot, f)
            return v
        self.link(st, key, slot)

    def link(self, st, key, slot):
        """case split on what lies across a half edge"""
        cf = self.get_pre(st, key, slot, 'c')
        a = self.corner(st, key, slot + 1)
        b = self.corner(st, key, slot + 2)
        alts = []
        if st.range(cf)[1] >= 1:
            def nil(s):
                s.union(s.pre[(s.canon(key), slot, 'c')], ONE)
                s.pre[(s.canon(key), slot, 'e')] = ZERO
            alts.append(nil)

        def to(g, j, isnew):
            def f(s):
                k0 = s.canon(key)
                g0 = g
                if isnew:
                    g0 = self.new_face(s)
                    for k in s.known:
                        s.add_ne0(g0 - k)
                    s.known.append(g0)
                else:
                    g0 = s.canon(g)
                s.pre[(k0, slot, 'e')] = g0.scale(4) + j
                s.pre[(g0, j, 'e')] = k0.scale(4) + slot
                s.adj = s.adj | {frozenset((k0, g0))}
                c1 = s.pre[(k0, slot, 'c')]
                c2 = s.pre.get((g0, j, 'c'))
                if c2 is None:
                    s.pre[(g0, j, 'c')] = s.canon(c1)
                else:
                    s.union(c1, c2)
                for x, y in ((a, j + 2), (b, j + 1)):
                    y %= 3
                    o = s.pre.get((g0, y, 'p'))
                    if o is None:
                        s.pre[(g0, y, 'p')] = s.canon(x)
                    else:
                        s.union(x, o)
                for q in range(3):
                    ps = [s.pre.get((g0, z, 'p')) for z in range(3)]
                for x in range(3):
                    for y in range(x):
                        if ps[x] is not None and ps[y] is not None and s.is_eq0(s.canon(ps[x]) - s.canon(ps[y])) is True:
                            raise Dead()
            return f
        for j in range(3):
            alts.append(to(None, j, True))
        for g in st.known:
            if g == key or frozenset((key, g)) in st.adj or self.reserved(st, g) or self.is_new(st, g):
                continue
            for j in range(3):
                if (g, j, 'e') not in st.pre:
                    alts.append(to(g, j, False))
        raise Fork(alts)

    def get(self, st, key, slot, f):
        key = st.canon(key)
        v = st.cur.get((key, slot, f))
        if v is None and key not in st.known and not self.reserved(st, key) and f != 'xy' and not self.is_new(st, key):
            key = self.name_face(st, key)
            v = st.cur.get((key, slot, f))
        if v is not None:
            return st.canon(v)
        return self.get_pre(st, key, slot, f)

    def decode(self, st, off):
        off = st.canon(off)
        if off.const() == self.o_size:
            return 'size', 0, 0
        r = off - self.o_es
        if any(m and c % 16 for m, c in r.t.items()):
            return None
        key = P({m: c // 16 for m, c in r.t.items() if m}) + r.c0() // 16
        sub = r.c0() % 16
        return key, sub // 4, sub % 4

    def check_key(self, st, key, slot, half, write):
        key = st.canon(key)
        if slot == 3 and half == 2:
            ok = st.is_le0(key.scale(-1)) is True and st.is_le0(key + 1 - st.size0.scale(2) - (2 if write else 0)) is True
            if not ok and not write and st.is_le0(key + 1 - st.size.scale(2)) is True:
                ok = True
            ok = ok and self.fits(st, key)
            what = 'coordinates'
        else:
            ok = self.reserved(st, key) or (self.real(st, key) and self.fits(st, key)) or \
                (st.is_le0(st.size0.scale(2) - key) is True and st.is_le0(key - 1 - st.size0.scale(2)) is True and self.fits(st, key))
            what = 'face'
        if not ok and any(Tab.kind[s] == 'o' for s in key.syms()):
            raise Unsupported('a mesh access whose index is not followed (%r)' % key)
        self.ob(st, ok, 'bounds', '%s of a %s that may lie outside the mesh' % ('write' if write else 'read', what))
        if not ok:
            raise Dead()

    def mload(self, st, off, n):
        d = self.decode(st, off)
        if d is None:
            raise Unsupported('mesh access at an offset that is not followed: %r' % st.canon(off))
        key, slot, half = d
        if key == 'size':
            return st.size
        if half not in (0, 2) or n not in (2, 4, 8):
            raise Unsupported('mesh access of %d bytes at +%d' % (n, half))
        v = ZERO
        for i in range(n // 2):
            self.check_key(st, key, slot, half, False)
            if slot < 3:
                h = self.get(st, key, slot, 'p').scale(8) + self.get(st, key, slot, 'c') if half == 0 else self.get(st, key, slot, 'e')
            else:
                h = self.get(st, key, slot, 'fi' if half == 0 else 'xy')
            v = v + h.scale(1 << 16 * i)
            half += 2
            if half == 4:
                half, slot = 0, slot + 1
                if slot == 4:
                    slot, key = 0, key + 1
        return v

    def mstore(self, st, off, n, v):
        d = self.decode(st, off)
        if d is None:
            raise Unsupported('mesh store at an offset that is not followed')
        key, slot, half = d
        if key == 'size':
            st.size = v
            return
        if half not in (0, 2) or n % 2:
            raise Unsupported('mesh store of %d bytes' % n)
        todo = []
        for i in range(n // 2):
            self.check_key(st, key, slot, half, True)
            if i < n // 2 - 1:
                h, v = self.mod(st, v, 1 << 16), self.div(st, v, 1 << 16)
            else:
                h = v
            k = st.canon(key)
            if slot < 3 and half == 0:
                todo += [((k, slot, 'c'), self.mod(st, h, 8)), ((k, slot, 'p'), self.div(st, h, 8))]
            elif slot < 3:
                todo += [((k, slot, 'e'), h)]
            else:
                todo += [((k, slot, 'fi' if half == 0 else 'xy'), h)]
            half += 2
            if half == 4:
                half, slot = 0, slot + 1
                if slot == 4:
                    slot, key = 0, key + 1
        for c, h in todo:
            if h is None:
                raise Unsupported('a value stored in the mesh is not followed')
            self.get_pre(st, *c)      # may split
        out = []
        for c, h in todo:
            c = (st.canon(c[0]), c[1], c[2])
            if self.on_write:
                self.on_write(st, c, h)
            st.cur[c] = h

    # ---------------------------------------------------------- integers
    def modrest(self, st, p, n):
        p = st.canon(p)
        r = P({m: c for m, c in p.t.items() if m and c % n})
        k = p.c0() % n
        r = r + k
        lo, hi = st.range(r)
        if 0 <= lo and hi < n:
            return r
        # coefficients reduced modulo n
        r = P({m: c % n for m, c in p.t.items() if m and c % n}) + k
        lo, hi = st.range(r)
        if 0 <= lo and hi < n:
            return r
        return None

    def mod(self, st, p, n):
        return self.modrest(st, p, n)

    def div(self, st, p, n):
        """floor division"""
        r = self.modrest(st, p, n)
        if r is None:
            lo, hi = st.range(p)
            if lo // n == hi // n:
                return C(lo // n)
            return None
        q = st.canon(p) - r
        return P({m: c // n for m, c in q.t.items()})

    def wrap(self, st, p, w):
        """the value modulo 2^w, kept as is when it is known to fit"""
        lo, hi = st.range(p)
        if -(1 << (w - 1)) <= lo and hi < (1 << w):
            return p
        c = p.const()
        if c is not None:
            c &= (1 << w) - 1
            return C(c)
        r = self.modrest(st, p, 1 << w)
        return r

    def uns(self, st, p, w):
        """as an unsigned number"""
        lo, hi = st.range(p)
        if lo >= 0:
            return p
        c = p.const()
        if c is not None:
            return C(c & ((1 << w) - 1))
        if hi < 0:
            return p + (1 << w)
        if -(1 << w - 1) <= lo and hi < 1 << w - 1:
            # of unknown sign: a name for the word
            k = (p, w, 'uns')
            if k not in self.wrapped:
                s = sym('o', 0, (1 << w) - 1)
                self.wrapped[k] = S(s)
                self.signed[s] = (p, w)
            return self.wrapped[k]
        return None

    def sgn(self, st, p, w):
        lo, hi = st.range(p)
        if hi < (1 << (w - 1)):
            return p
        x = self.signed.get(p.one())
        if x and x[1] == w:
            return st.canon(x[0])
        if lo >= (1 << (w - 1)):
            return p - (1 << w)
        return None

    def val(self, st, fr, v):
        k = v.k
        if k in ('inst', 'arg'):
            r = fr.regs.get(v.id)
            return st.canon(r) if isinstance(r, P) else r
        if k == 'int':
            n = v.n
            w = v.ty.width
            if w > 1 and n >= 1 << (w - 1):
                n -= 1 << w
            return C(n)
        if k in ('undef', 'poison'):
            return None
        if k == 'zero':
            return ZERO if v.ty.kind == 'int' else Agg([])
        if k == 'null':
            return Ptr('null', ZERO)
        if k == 'global':
            return Ptr('@' + v.name, ZERO)
        if k == 'cexpr' and v.op == 'gep':
            b = self.val(st, fr, v.ops[0])
            return self.gep(st, fr, b, v.extra, v.ops[1:])
        if k == 'agg':
            return Agg([self.val(st, fr, x) for x in v.ops])
        raise Unsupported('operand %s' % k)

    def gep(self, st, fr, p, ty, idx):
        if not isinstance(p, Ptr):
            raise Unsupported('address that is not followed')
        off = p.off
        for n, x in enumerate(idx):
            i = self.val(st, fr, x)
            if n == 0:
                if i is None:
                    raise Unsupported('index not followed')
                off = off + i.scale(ty.size)
            elif ty.kind == 'struct':
                j = i.const()
                off = off + ty.offsets[j]
                ty = ty.elems[j]
            else:
                ty = ty.elems[0]
                if i is None:
                    raise Unsupported('index not followed')
                off = off + i.scale(ty.size)
        return Ptr(p.o, off)

    # ---------------------------------------------------------- local memory
    def shape_of(self, st, v):
        """how a value depends on a face"""
        v = st.canon(v)
        ss = v.syms()
        if len(ss) == 1 and len(v.t) <= 2:
            s = next(iter(ss))
            if Tab.kind[s] == 'f' and (s,) in v.t:
                return ('face', v.t[(s,)], v.c0())
        return ('other',)

    def lload(self, st, p, ty):
        n = ty.size
        if p.o in st.arr or (p.o.startswith('A') and st.gd.get(('array', p.o))):
            sz = st.osz[p.o]
            ok = st.is_le0(p.off.scale(-1)) is True and st.is_le0(p.off + n - sz) is True
            self.ob(st, ok, 'stack', 'read outside a work array of %d bytes' % sz)
            if not ok:
                raise Dead()
            shapes = st.arr.get(p.o, frozenset())
            if len(shapes) != 1 or next(iter(shapes))[0] != 'face':
                return self.fresh(ty)
            _, a, b = next(iter(shapes))
            k = ('ch', 'pop', len(st.fr), id(self.cur_inst))
            if k not in st.force:
                st.force[k] = self.new_face(st)
            f = st.canon(st.force[k])
            if self.track_fill:
                self.track_fill(st, 'pop', f, p.off)
            st.force.pop(k, None)
            return f.scale(a) + b
        off = st.canon(p.off).const()
        if off is None:
            raise Unsupported('local access at a variable offset')
        if st.osz.get(p.o) is not None and not 0 <= off <= st.osz[p.o] - n:
            self.ob(st, False, 'stack', 'read outside a local object')
            raise Dead()
        cells = st.loc.get(p.o, {})
        if ty.kind in ('struct', 'array'):
            if ty.kind == 'array':
                return Agg([self.lload(st, Ptr(p.o, C(off + i * ty.elems[0].size)), ty.elems[0]) for i in range(ty.count)])
            return Agg([self.lload(st, Ptr(p.o, C(off + o)), t) for o, t in zip(ty.offsets, ty.elems)])
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        if ty.kind == 'int':
            # assembled from smaller cells, or part of a larger one
            v, at = ZERO, 0
            while at < n:
                c = cells.get(off + at)
                if c is None or not isinstance(c[1], P) or at + c[0] > n:
                    v = None
                    break
                x = c[1]
                if at + c[0] < n:
                    x = self.uns(st, x, 8 * c[0])
                    if x is None:
                        v = None
                        break
                v = v + x.scale(1 << 8 * at)
                at += c[0]
            if v is not None:
                return v
            for o, (sz, x) in cells.items():
                if o <= off and off + n <= o + sz and isinstance(x, P):
                    q = self.div(st, x, 1 << 8 * (off - o)) if off > o else x
                    if q is not None and off + n < o + sz:
                        q = self.mod(st, q, 1 << 8 * n)
                    if q is not None:
                        return q
            # a signed pair packed in one word cannot be taken apart: remember what went in
            return self.fresh(ty)
        if ty.kind == 'ptr':
            raise Unsupported('pointer read from memory that is not followed')
        return None

    def lstore(self, st, p, v, ty):
        n = ty.size
        if st.gd.get(('array', p.o)):
            sz = st.osz[p.o]
            ok = st.is_le0(p.off.scale(-1)) is True and st.is_le0(p.off + n - sz) is True
            self.ob(st, ok, 'stack', 'write outside a work array of %d bytes' % sz)
            if not ok:
                raise Dead()
            sh = self.shape_of(st, v) if isinstance(v, P) else ('other',)
            st.arr[p.o] = st.arr.get(p.o, frozenset()) | {sh}
            if self.track_fill:
                self.track_fill(st, 'push', v, p.off)
            return
        off = st.canon(p.off).const()
        if off is None:
            raise Unsupported('local store at a variable offset')
        if isinstance(v, Agg) and ty.kind in ('struct', 'array'):
            for i, x in enumerate(v.v):
                t = ty.elems[i if ty.kind == 'struct' else 0]
                o = ty.offsets[i] if ty.kind == 'struct' else i * t.size
                self.lstore(st, Ptr(p.o, C(off + o)), x, t)
            return
        if st.osz.get(p.o) is not None and not 0 <= off <= st.osz[p.o] - n:
            self.ob(st, False, 'stack', 'write outside a local object')
            raise Dead()
        cells = st.loc.setdefault(p.o, {})
        for o in [o for o, (sz, _) in cells.items() if o < off + n and off < o + sz]:
            del cells[o]
        cells[off] = (n, v)

    def load(self, st, p, ty):
        if not isinstance(p, Ptr):
            raise Unsupported('load through a pointer that is not followed')
        if p.o == 'mesh':
            if ty.kind != 'int':
                raise Unsupported('mesh load of %r' % ty)
            return self.mload(st, p.off, ty.size)
        if p.o.startswith('@'):
            return self.gload(st, p, ty)
        return self.lload(st, p, ty)

    def gload(self, st, p, ty):
        G = self.m.globals.get(p.o[1:])
        off = st.canon(p.off).const()
        if G is None or not G.const or off is None or ty.kind != 'int':
            raise Unsupported('global %s' % p.o)
        b = llvm.global_bytes(G)[off:off + ty.size]
        if any(not isinstance(x, int) for x in b):
            return self.fresh(ty)
        return C(int.from_bytes(bytes(b), 'little'))

    def store(self, st, p, v, ty):
        if not isinstance(p, Ptr):
            raise Unsupported('store through a pointer that is not followed')
        if p.o == 'mesh':
            if ty.kind == 'int':
                if v is None:
                    raise Unsupported('undefined value stored in the mesh')
                self.mstore(st, p.off, ty.size, v)
                return
            if isinstance(v, Agg):
                raise Unsupported('aggregate store')
            raise Unsupported('mesh store of %r' % ty)
        if p.o.startswith('@'):
            raise Unsupported('store to a global')
        self.lstore(st, p, v, ty)

    def memcpy(self, st, d, s, n):
        if n % 2 == 0 and (d.o == 'mesh' or s.o == 'mesh'):
            w = next(t for t in (2,))

            class T:
                kind, width, size = 'int', 16, 2
            vals = [self.load(st, Ptr(s.o, s.off + i), T) for i in range(0, n, 2)]
            for i, v in zip(range(0, n, 2), vals):
                self.store(st, Ptr(d.o, d.off + i), v, T)
            return
        if s.o.startswith('@') or d.o.startswith('@') or st.gd.get(('array', d.o)) or st.gd.get(('array', s.o)):
            raise Unsupported('memcpy')
        so, do = st.canon(s.off).const(), st.canon(d.off).const()
        if so is None or do is None:
            raise Unsupported('memcpy at a variable offset')
        src = {o: c for o, c in st.loc.get(s.o, {}).items() if so <= o and o + c[0] <= so + n}
        dst = st.loc.setdefault(d.o, {})
        for o in [o for o, (sz, _) in dst.items() if o < do + n and do < o + sz]:
            del dst[o]
        for o, c in src.items():
            dst[o - so + do] = c

    # ---------------------------------------------------------- control
    def start(self, st, fname, args):
        F = self.m.funcs.get(fname)
        if F is None or F.is_decl:
            raise Unsupported('function %s not found' % fname)
        fr = Frame()
        fr.F, fr.b, fr.i, fr.prev, fr.ret = F, 0, 0, None, None
        fr.regs = {a.id: v for a, v in zip(F.args, args)}
        st.fr.append(fr)

    def run(self, root, states):
        """states: [(State, function, args)]"""
        self.root = root
        self.seen = {}
        self.widened = {}
        self.nret = 0
        work = []
        for st, fn, args in states:
            self.start(st, fn, args)
            work.append(st)
        n = 0
        while work:
            st = work.pop()
            try:
                while True:
                    n += 1
                    if n > self.budget * 40 or n % 256 == 0 and self.deadline and time.time() > self.deadline:
                        work.clear()
                        raise Unsupported('too many steps')
                    try:
                        if not self.step(st):
                            break
                    except Fork as f:
                        for alt in f.alts:
                            s = st.copy()
                            try:
                                alt(s)
                            except Dead:
                                continue
                            work.append(s)
                        raise Dead()
            except Dead:
                continue
            except Unsupported as e:
                at = self.cur_inst.loc() if self.cur_inst is not None else ''
                self.incomplete.add('%s: %s at %s' % (root, e, at))
        self.steps += n
        self.paths += self.nret
        return self.nret

    def step(self, st):
        fr = st.fr[-1]
        i = fr.F.blocks[fr.b].insts[fr.i]
        self.cur_inst = i
        op = i.op
        if op == 'br':
            if len(i.succ) == 1:
                self.goto(st, fr, i.succ[0])
            else:
                c = self.truth(st, self.val(st, fr, i.ops[0]), i)
                self.goto(st, fr, i.succ[0 if c else 1])
            return True
        if op == 'switch':
            v = self.val(st, fr, i.ops[0])
            k = v.const() if v is not None else None
            if k is None:
                if v is None:
                    raise Unsupported('switch on a value not followed')
                alts = []
                w = i.ops[0].ty.width
                f = st.force.pop((len(st.fr), i.id), None)
                if f is not None:
                    self.goto(st, fr, f)
                    return True

                def case(n, b):
                    def g(s):
                        s.add_eq0(v - n)
                        s.force[(len(s.fr), i.id)] = b
                    return g

                def rest(s):
                    for n, _ in i.cases:
                        s.add_ne0(v - n)
                    s.force[(len(s.fr), i.id)] = i.succ[0]
                raise Fork([case(n, b) for n, b in i.cases] + [rest])
            k &= (1 << i.ops[0].ty.width) - 1
            for n, b in i.cases:
                if n == k:
                    self.goto(st, fr, b)
                    return True
            self.goto(st, fr, i.succ[0])
            return True
        if op == 'ret':
            v = self.val(st, fr, i.ops[0]) if i.ops else None
            if len(st.fr) == 1:
                self.on_return(st, v)
                self.nret += 1
                return False
            st.fr.pop()
            up = st.fr[-1]
            up.regs[fr.ret] = v
            up.i += 1
            return True
        if op == 'unreachable':
            return False
        if op in ('call', 'invoke'):
            return self.call(st, fr, i)
        h = getattr(self, 'op_' + op, None)
        if h is None:
            raise Unsupported('instruction %s' % op)
        r = h(st, fr, i)
        fr = st.fr[-1]
        if op != 'store':
            fr.regs[i.id] = r
        fr.i += 1
        return True

    def truth(self, st, v, i):
        if v is None:
            raise Unsupported('branch on an undefined value')
        c = v.const()
        if c is not None:
            return c & 1 == 1
        r = st.is_eq0(v)
        if r is not None:
            return not r
        raise Fork([lambda s: s.add_eq0(v), lambda s: s.add_ne0(v)])

    def goto(self, st, fr, b):
        blk = fr.F.blocks[b]
        vals = []
        for i in blk.insts:
            if i.op != 'phi':
                break
            for p, v in i.incoming:
                if p == fr.b:
                    vals.append((i.id, self.val(st, fr, v)))
                    break
        ln = blk.insts[0].loc()
        if not st.path or st.path[-1] != ln:
            st.path = st.path[-60:] + (ln,)
        if b in fr.F.loops:
            self.header(st, fr, b, dict(vals))
        for k, v in vals:
            fr.regs[k] = v
        if b in fr.F.loops:
            for k, v in (st.gd.pop('wide', None) or {}).items():
                fr.regs[k] = v
        fr.prev, fr.b, fr.i = fr.b, b, 0
        if b in fr.F.loops:
            self.forget(st, fr, b)
        n = 0
        for i in blk.insts:
            if i.op != 'phi':
                break
            n += 1
        fr.i = n

    # loop headers
    def header(self, st, fr, b, phis):
        self.headers.add((fr.F.name, b))
        if st.cur or (st.size0 is not None and st.size != st.size0):
            self.sync(st, 'loop')
        wide = {}
        if self.on_header:
            wide.update(self.on_header(st, phis) or {})
        for k, v in phis.items():
            if not isinstance(v, P) or k in wide:
                continue
            c = v.const()
            key = (fr.F.name, b, k)
            w = self.widened.setdefault(key, dict(consts=set(), rng=None))
            if w['rng'] is not None:
                lo, hi = st.range(v)
                if w['rng'][0] <= lo and hi <= w['rng'][1]:
                    if c is not None or v.one() is None or st.srange(v.one()) != w['rng']:
                        s = S(sym('n', *w['rng']))
                        wide[k] = s
                        if self.track_fill:
                            self.track_fill(st, 'rename', v, s)
                    continue
            if c is None:
                if w['rng'] is None:
                    continue
            elif w['rng'] is None:
                w['consts'].add(c)
                if len(w['consts']) <= (4 if self.arrays(fr.F) else 2):
                    continue
            lo, hi = st.range(v)
            if w['rng'] is not None:
                lo, hi = min(lo, w['rng'][0]), max(hi, w['rng'][1])
            if w['consts']:
                lo, hi = min(lo, min(w['consts'])), max(hi, max(w['consts']))
            th = self.thresholds(fr.F)
            hi2 = next((t for t in th if t >= hi), None)
            if hi2 is None:
                hi2 = (1 << 31) - 1
            lo2 = max((t for t in th + [0, 1] if t <= lo), default=-(1 << 31))
            w['rng'] = (lo2, hi2)
            s = S(sym('n', lo2, hi2))
            wide[k] = s
            if self.track_fill:
                self.track_fill(st, 'rename', v, s)
        if wide:
            st.gd['wide'] = wide

    def arrays(self, F):
        return any(i.op == 'alloca' and i.aty.kind == 'array' for B in F.blocks for i in B.insts)

    def thresholds(self, F):
        t = set()
        for B in F.blocks:
            for i in B.insts:
                if i.op == 'icmp':
                    for o in i.ops:
                        if o.k == 'int' and 1 < o.n < 1 << 20:
                            t |= {o.n - 1, o.n, o.n + 1}
                if i.op == 'alloca' and i.aty.kind == 'array':
                    t |= {i.aty.count - 1, i.aty.count, i.aty.count + 1}
        return sorted(t)

    def forget(self, st, fr, b):
        """at a loop header: drop what the rest of the path does not name, stop if the rest is known"""
        for a, bytes_ in memlive(fr.F)[b].items():
            v = fr.regs.get(a)
            if isinstance(v, Ptr) and v.o in st.loc and v.o.startswith('A'):
                st.loc[v.o] = {o: x for o, x in st.loc[v.o].items() if any(k in bytes_ for k in range(o, o + x[0]))}
        live = liveness(fr.F)[b] | {i.id for i in fr.F.blocks[b].insts if i.op == 'phi'}
        for r in list(fr.regs):
            if r not in live:
                del fr.regs[r]
        self.prune(st, False)
        if self.weaken:
            self.weaken(st)
        order = []
        keep = set()

        def use(v):
            if isinstance(v, P):
                for m, _ in sorted(v.t.items()):
                    for s in m:
                        if s not in keep:
                            keep.add(s)
                            order.append(s)
            elif isinstance(v, Ptr):
                use(v.off)
            elif isinstance(v, Agg):
                for x in v.v:
                    use(x)
        vals = []
        for n, f in enumerate(st.fr):
            for r in sorted(f.regs, key=str):
                v = f.regs[r]
                if isinstance(v, P):
                    v = st.canon(v)
                    f.regs[r] = v
                vals.append((n, r, v))
                use(v)
        for o in sorted(st.loc):
            for off in sorted(st.loc[o]):
                sz, v = st.loc[o][off]
                v = st.canon(v)
                vals.append(('loc', o, off, sz, v))
                use(v)
        use(st.size)
        if st.size0 is not None:
            use(st.size0)
        for k in sorted(st.gd, key=str):
            if isinstance(st.gd[k], (P, Agg)):
                st.gd[k] = st.canon(st.gd[k])
                use(st.gd[k])
        # corners of the faces that are still named, where their coordinates are
        pre = {}
        st.pre = {(st.canon(k[0]), k[1], k[2]): st.canon(v) for k, v in st.pre.items()}
        if st.gd.get('keepall'):
            pre = st.pre
        else:
            xy = {}
            for (key, slot, f), v in st.pre.items():
                if f == 'xy' and st.canon(v).one() in keep:
                    for s in key.syms():
                        xy[s] = 1
                    pre[(key, slot, f)] = v
            named = [x[-1] for x in vals if isinstance(x[-1], P)] + [x for x in st.gd.values() if isinstance(x, P)]
            for (key, slot, f), v in st.pre.items():
                if f == 'p' and key.one() is None and not any((x - key).const() == 0 or (x - key.scale(4)).const() in (0, 1, 2, 3) for x in named):
                    continue    # an anonymous face (the last one, say) that nothing refers to any more
                if f == 'p' and key.syms() <= keep and st.canon(v).one() in xy:
                    pre[(key, slot, f)] = v
                    for s in st.canon(v).syms():
                        if s not in keep:
                            keep.add(s)
                            order.append(s)
            pre = {k: v for k, v in pre.items() if k[2] != 'xy' or k[0].syms() <= keep}
            if self.keep_cells:
                for k in self.keep_cells(st):
                    v = st.pre.get(k)
                    if v is not None:
                        pre[k] = v
                        for s in sorted(k[0].syms() | st.canon(v).syms()):
                            if s not in keep:
                                keep.add(s)
                                order.append(s)
        st.pre = pre
        st.cur = {}
        st.adj = frozenset()
        st.known = [k for k in st.known if k.syms() <= keep]
        st.gd = {k: v for k, v in st.gd.items() if not (isinstance(k, tuple) and k[0] == 'distinct' and not (k[1].syms() <= keep))}
        st.le = {n: u for n, u in st.le.items() if n.syms() <= keep}
        st.ne = {n for n in st.ne if n.syms() <= keep}
        st.rng = {s: r for s, r in st.rng.items() if s in keep}
        st.drv = {}
        st.uf = {}
        st.force = {}
        idx = {s: n for n, s in enumerate(order)}

        def cn(v):
            if isinstance(v, P):
                return tuple(sorted((tuple(sorted(idx[s] for s in m)), c) for m, c in v.t.items()))
            if isinstance(v, Ptr):
                return (v.o, cn(v.off))
            if isinstance(v, Agg):
                return tuple(cn(x) for x in v.v)
            return v
        stack = tuple((f.F.name, f.b if n < len(st.fr) - 1 else b, f.i if n < len(st.fr) - 1 else 0) for n, f in enumerate(st.fr))
        sig = (stack, tuple((x[:-1], cn(x[-1])) for x in vals), cn(st.size), frozenset((o, a) for o, a in st.arr.items()),
               frozenset((cn(k[0]), k[1], k[2], cn(v)) for k, v in pre.items()),
               frozenset((cn(n), u) for n, u in st.le.items()), frozenset(cn(n) for n in st.ne),
               tuple((Tab.kind[s], st.srange(s)) for s in order),
               frozenset((str(k), cn(v)) for k, v in st.gd.items() if not isinstance(k, tuple)))
        c = self.seen.setdefault((stack,), {})
        if sig in c:
            raise Dead()
        c[sig] = 1
        if len(c) > 3000:
            raise Unsupported('a loop does not settle')

    # ---------------------------------------------------------- calls
    def call(self, st, fr, i):
        name = i.callee.name if i.callee is not None and i.callee.k in ('func', 'global') else ''
        if name.startswith('llvm.'):
            if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental')):
                fr.i += 1
                return True
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                d, s, n = [self.val(st, fr, x) for x in i.ops[:3]]
                self.memcpy(st, d, s, n.const())
                fr.i += 1
                return True
            if name.startswith('llvm.memset'):
                d, v, n = [self.val(st, fr, x) for x in i.ops[:3]]
                if d.o == 'mesh' or v.const() != 0:
                    raise Unsupported('memset')

                class T:
                    kind, width, size = 'int', 8, 1
                for k in range(n.const()):
                    self.lstore(st, Ptr(d.o, d.off + k), ZERO, T)
                fr.i += 1
                return True
            raise Unsupported('call of ' + name)
        args = [self.val(st, fr, x) for x in i.ops]
        for pred, h in self.contracts:
            if pred(name):
                r = h(st, i, args)
                st.force = {k: v for k, v in st.force.items() if k[0] != 'ch'}
                fr = st.fr[-1]
                fr.regs[i.id] = r
                fr.i += 1
                return True
        F = self.m.funcs.get(name)
        if F is None or F.is_decl:
            raise Unsupported('call of an unknown function %s' % name)
        if len(st.fr) > 12:
            raise Unsupported('recursion through %s' % name)
        self.start(st, name, args)
        st.fr[-1].ret = i.id
        return True

    def sync(self, st, why):
        if self.on_sync:
            self.on_sync(st, why)
        st.size0 = st.size
        for c in list(st.cur):
            st.pre[c] = st.cur[c]
        st.cur = {}

    def havoc(self, st):
        """another operation may have changed every link and corner; coordinates and named faces stay"""
        st.pre = {c: v for c, v in st.pre.items() if c[2] == 'xy'}
        st.cur = {}
        st.adj = frozenset()
        st.size0 = st.size
        keep = self.prune(st, True)
        for v in st.gd.values():
            if isinstance(v, P):
                keep |= st.canon(v).syms()
        st.known = [k for k in st.known if k.syms() <= keep]
        st.gd = {k: v for k, v in st.gd.items() if not (isinstance(k, tuple) and k[0] == 'distinct')}

    def prune(self, st, top):
        """drop dead registers of the callers (and of the current function); the symbols of the others"""
        keep = set()
        for n, f in enumerate(st.fr):
            if n == len(st.fr) - 1 and not top:
                break
            blk = f.F.blocks[f.b]
            live = set(liveness_out(f.F)[f.b])
            for i in reversed(blk.insts[f.i + 1:]):
                live.discard(i.id)
                live |= {o.id for o in i.ops if o.k in ('inst', 'arg')}
            if n == len(st.fr) - 1:
                live |= {o.id for o in blk.insts[f.i].ops if o.k in ('inst', 'arg')}
            for r in list(f.regs):
                if r not in live:
                    del f.regs[r]
                elif isinstance(f.regs[r], P):
                    keep |= st.canon(f.regs[r]).syms()
                elif isinstance(f.regs[r], Agg):
                    keep |= {s for x in f.regs[r].v if isinstance(x, P) for s in st.canon(x).syms()}
                elif isinstance(f.regs[r], Ptr):
                    keep |= st.canon(f.regs[r].off).syms()
        return keep

    def used(self, i):
        """is the result of an instruction read?"""
        F = i.fn
        u = getattr(self, '_used', None)
        if u is None:
            u = self._used = {}
        if F.name not in u:
            u[F.name] = {o.id for B in F.blocks for x in B.insts for o in x.ops if o.k == 'inst'}
        return i.id in u[F.name]

    def choose(self, st, i, alts, tag=0):
        """case split inside a contract: alts are functions on the state; returns the index chosen"""
        k = ('ch', len(st.fr), i.id, tag)
        n = st.force.get(k)
        if n is not None:
            return n

        def alt(j, f):
            def g(s):
                if f:
                    f(s)
                s.force[k] = j
            return g
        raise Fork([alt(j, f) for j, f in enumerate(alts)])

    # ---------------------------------------------------------- instructions
    def op_alloca(self, st, fr, i):
        o = 'A%d.%s' % (len(st.fr), i.id)
        st.loc[o] = {}
        n = i.ops[0].n if i.ops and i.ops[0].k == 'int' else 1
        st.osz[o] = i.aty.size * n
        if i.aty.kind == 'array' and i.aty.count >= 16 and i.aty.elems[0].kind == 'int':
            st.gd[('array', o)] = True
        return Ptr(o, ZERO)

    def op_load(self, st, fr, i):
        return self.load(st, self.val(st, fr, i.ops[0]), i.ty)

    def op_store(self, st, fr, i):
        self.store(st, self.val(st, fr, i.ops[1]), self.val(st, fr, i.ops[0]), i.ops[0].ty)

    def op_gep(self, st, fr, i):
        return self.gep(st, fr, self.val(st, fr, i.ops[0]), i.gty, i.ops[1:])

    def fin(self, st, p, i):
        if p is None:
            return self.fresh(i.ty)
        r = self.wrap(st, p, i.ty.width)
        if self.overflow and i.nsw:
            lo, hi = st.range(p)
            w = i.ty.width
            self.ob(st, -(1 << w - 1) <= lo and hi < 1 << w - 1, 'overflow', 'signed arithmetic may overflow')
        if r is None:
            # some value, the same whenever it is computed
            k = (p, i.ty.width)
            if k not in self.wrapped:
                self.wrapped[k] = self.fresh(i.ty)
                self.wdef[self.wrapped[k].one()] = k
            r = self.wrapped[k]
        return st.canon(r)

    def two(self, st, fr, i):
        return self.val(st, fr, i.ops[0]), self.val(st, fr, i.ops[1])

    def op_add(self, st, fr, i):
        a, b = self.two(st, fr, i)
        return self.fin(st, None if a is None or b is None else a + b, i)

    def op_sub(self, st, fr, i):
        a, b = self.two(st, fr, i)
        return self.fin(st, None if a is None or b is None else a - b, i)

    def op_mul(self, st, fr, i):
        a, b = self.two(st, fr, i)
        if a is None or b is None or len(a.t) * len(b.t) > 400:
            return self.fresh(i.ty)
        return self.fin(st, a * b, i)

    def op_shl(self, st, fr, i):
        a, b = self.two(st, fr, i)
        n = b.const() if b is not None else None
        return self.fin(st, None if a is None or n is None else a.scale(1 << n), i)

    def op_lshr(self, st, fr, i):
        a, b = self.two(st, fr, i)
        n = b.const() if b is not None else None
        if a is None or n is None:
            return self.fresh(i.ty)
        a = self.uns(st, a, i.ty.width)
        return self.fin(st, None if a is None else self.div(st, a, 1 << n), i)

    def op_ashr(self, st, fr, i):
        a, b = self.two(st, fr, i)
        n = b.const() if b is not None else None
        if a is None or n is None:
            return self.fresh(i.ty)
        a = self.sgn(st, a, i.ty.width)
        if a is None:
            return self.fresh(i.ty)
        r = self.div(st, a, 1 << n)
        if r is None:
            lo, hi = st.range(a)
            s = a.one()
            if s is not None and Tab.kind[s] in 'xw':
                q = S(sym('w', lo >> n, hi >> n))
                st.union(a, q.scale(1 << n) + S(sym('w', 0, (1 << n) - 1)))
                return q
            return S(sym('o', lo >> n, hi >> n))
        return r

    def op_udiv(self, st, fr, i):
        a, b = self.two(st, fr, i)
        n = b.const() if b is not None else None
        if a is None or not n or n < 0:
            return self.fresh(i.ty)
        a = self.uns(st, a, i.ty.width)
        r = self.div(st, a, n) if a is not None else None
        if r is None and a is not None:
            lo, hi = st.range(a)
            return S(sym('o', lo // n, hi // n))
        return self.fin(st, r, i)

    def op_urem(self, st, fr, i):
        a, b = self.two(st, fr, i)
        n = b.const() if b is not None else None
        if a is None or not n or n < 0:
            return self.fresh(i.ty)
        a = self.uns(st, a, i.ty.width)
        r = self.mod(st, a, n) if a is not None else None
        if r is None:
            return S(sym('o', 0, n - 1))
        return r

    def op_sdiv(self, st, fr, i):
        a, b = self.two(st, fr, i)
        if a is not None and b is not None and b.const() and st.range(a)[0] >= 0 and b.const() > 0 and st.range(a)[1] < 1 << (i.ty.width - 1):
            return self.op_udiv(st, fr, i)
        return self.fresh(i.ty)

    def op_srem(self, st, fr, i):
        a, b = self.two(st, fr, i)
        if a is not None and b is not None and b.const() and st.range(a)[0] >= 0 and b.const() > 0 and st.range(a)[1] < 1 << (i.ty.width - 1):
            return self.op_urem(st, fr, i)
        return self.fresh(i.ty)

    def op_and(self, st, fr, i):
        a, b = self.two(st, fr, i)
        if a is None or b is None:
            return self.fresh(i.ty)
        if a.const() is not None and b.const() is None:
            a, b = b, a
        k = b.const()
        w = i.ty.width
        if k is None:
            if a == b:
                return a
            if w == 1:
                return a * b
            return self.fresh(i.ty)
        k &= (1 << w) - 1
        if a.const() is not None:
            return C(a.const() & k)
        if k == 0:
            return ZERO
        a2 = self.uns(st, a, w)
        if k & (k + 1) == 0:
            r = self.mod(st, a2 if a2 is not None else a, k + 1)
            return S(sym('o', 0, k)) if r is None else r
        inv = ~k & ((1 << w) - 1)
        if inv & (inv + 1) == 0:
            r = self.mod(st, a, inv + 1)
            if r is not None:
                return a - r
            lo, hi = st.range(a)
            s = a.one()
            if s is not None and Tab.kind[s] != 'f' and inv < 8:
                def part(j):
                    def f(s2):
                        s2.union(a, S(sym('q', lo // (inv + 1), hi // (inv + 1))).scale(inv + 1) + j)
                    return f
                raise Fork([part(j) for j in range(inv + 1)])
            return self.fresh(i.ty)
        lo, hi = st.range(a)
        if lo >= 0:
            return S(sym('o', 0, k))
        return self.fresh(i.ty)

    def op_or(self, st, fr, i):
        a, b = self.two(st, fr, i)
        if a is None or b is None:
            return self.fresh(i.ty)
        if a.const() is not None and b.const() is not None:
            return C(a.const() | b.const())
        for x, y in ((a, b), (b, a)):
            if y.const() is not None and y.const() >= 0:
                k = y.const()
                n = 1 << k.bit_length()
                r = self.mod(st, x, n)
                if r is not None:
                    if r.const() is not None:
                        return x - r + C(r.const() | k)
                    if k == n - 1:
                        return x - r + k
            lo, hi = st.range(y)
            if lo >= 0:
                n = 1 << hi.bit_length()
                r = self.mod(st, x, n)
                if r is not None and not r.t:
                    return self.fin(st, x + y, i)
        if i.ty.width == 1:
            return a + b - a * b
        return self.fresh(i.ty)

    def op_xor(self, st, fr, i):
        a, b = self.two(st, fr, i)
        if a is None or b is None:
            return self.fresh(i.ty)
        if a.const() is not None and b.const() is not None:
            return C(a.const() ^ b.const()) if i.ty.width > 1 else C((a.const() ^ b.const()) & 1)
        if i.ty.width == 1:
            for x, y in ((a, b), (b, a)):
                if y.const() is not None:
                    return ONE - x if y.const() & 1 else x
        return self.fresh(i.ty)

    def op_zext(self, st, fr, i):
        a = self.val(st, fr, i.ops[0])
        if a is None:
            return self.fresh(i.ty)
        w = i.ops[0].ty.width
        if w == 1 and a.const() is not None:
            return C(a.const() & 1)
        r = self.uns(st, a, w)
        if r is None:
            return S(sym('o', 0, (1 << w) - 1))
        return r

    def op_sext(self, st, fr, i):
        a = self.val(st, fr, i.ops[0])
        if a is None:
            return self.fresh(i.ty)
        w = i.ops[0].ty.width
        if w == 1:
            return C(-(a.const() & 1)) if a.const() is not None else a.scale(-1)
        r = self.sgn(st, a, w)
        if r is None:
            return S(sym('o', -(1 << (w - 1)), (1 << (w - 1)) - 1))
        return r

    def op_trunc(self, st, fr, i):
        a = self.val(st, fr, i.ops[0])
        if a is None:
            return self.fresh(i.ty)
        if i.ty.width == 1:
            lo, hi = st.range(a)
            if 0 <= lo and hi <= 1:
                return a
            r = self.mod(st, a, 2)
            return S(sym('o', 0, 1)) if r is None else r
        # high parts do not matter
        n = 1 << i.ty.width
        a = P({m: c for m, c in a.t.items() if c % n})
        x = self.signed.get(a.one())
        if x and x[1] == i.ty.width:
            return st.canon(x[0])
        return self.fin(st, a, i)

    def op_bitcast(self, st, fr, i):
        return self.val(st, fr, i.ops[0])

    op_freeze = op_bitcast

    def op_extractvalue(self, st, fr, i):
        v = self.val(st, fr, i.ops[0])
        for k in i.idx:
            v = v.v[k] if isinstance(v, Agg) else None
        return v

    def op_insertvalue(self, st, fr, i):
        def ins(v, ty, idx, x):
            n = len(ty.elems) if ty.kind == 'struct' else ty.count
            e = list(v.v) if isinstance(v, Agg) and len(v.v) == n else [None] * n
            if len(idx) == 1:
                e[idx[0]] = x
            else:
                e[idx[0]] = ins(e[idx[0]], ty.elems[idx[0] if ty.kind == 'struct' else 0], idx[1:], x)
            return Agg(e)
        return ins(self.val(st, fr, i.ops[0]), i.ty, i.idx, self.val(st, fr, i.ops[1]))

    def op_select(self, st, fr, i):
        c = self.truth(st, self.val(st, fr, i.ops[0]), i)
        return self.val(st, fr, i.ops[1 if c else 2])

    def expand(self, st, p):
        """what a 64 bit sum of wrapped terms is modulo 2^64"""
        for n in range(8):
            hit = [s for s in p.syms() if self.wdef.get(s, (0, 0))[1] == 64]
            if not hit:
                break
            t = ZERO
            for m, c in p.t.items():
                x = C(c)
                for s in m:
                    x = x * (self.wdef[s][0] if s in hit else S(s))
                t = t + x
            p = st.canon(t)
        return p

    def op_icmp(self, st, fr, i):
        a, b = self.two(st, fr, i)
        k = (len(st.fr), i.id)
        f = st.force.pop(k, None)
        if f is not None:
            return ONE if f else ZERO
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o != b.o:
                return ONE if i.pred == 'ne' else ZERO
            r = st.is_eq0(a.off - b.off)
            if i.pred not in ('eq', 'ne') or r is None:
                raise Unsupported('pointer comparison')
            return ONE if r == (i.pred == 'eq') else ZERO

        def decide(v):
            def g(s):
                s.force[k] = v
            return g
        if not isinstance(a, P) or not isinstance(b, P):
            raise Fork([decide(True), decide(False)])
        w = i.ops[0].ty.width
        pr = i.pred
        if pr in ('eq', 'ne'):
            A, B = a, b
            for f in (self.sgn, self.uns):
                x, y = f(st, a, w), f(st, b, w)
                if x is not None and y is not None:
                    A, B = x, y
                    break
            else:
                raise Fork([decide(True), decide(False)])
            r = st.is_eq0(A - B)
            if r is not None:
                return ONE if r == (pr == 'eq') else ZERO

            def yes(s):
                d = s.canon(A - B)
                for m, c in sorted(d.t.items(), key=lambda x: 'oxw'.find(Tab.kind[x[0][0]]) if x[0] else 9):
                    # a coordinate that is given by the others
                    if len(m) == 1 and c in (1, -1) and Tab.kind[m[0]] in 'oxw' and not any(m[0] in n for n in d.t if n != m):
                        s.union(S(m[0]), S(m[0]) - d.scale(c))
                        break
                else:
                    s.add_eq0(A - B)
                s.force[k] = pr == 'eq'

            def no(s):
                s.add_ne0(A - B)
                s.force[k] = pr == 'ne'
            raise Fork([yes, no])
        f = self.uns if pr[0] == 'u' else self.sgn
        A, B = f(st, a, w), f(st, b, w)
        if A is None or B is None:
            raise Fork([decide(True), decide(False)])
        if self.trust and w == 64 and pr[0] == 's':
            A, B = self.expand(st, A), self.expand(st, B)
        # as p <= 0
        d = {'lt': A - B + 1, 'le': A - B, 'gt': B - A + 1, 'ge': B - A}[pr[1:]]
        r = st.is_le0(d)
        if r is not None:
            return ONE if r else ZERO

        def yes(s):
            s.add_le0(d)
            s.force[k] = True

        def no(s):
            s.add_le0(ONE - d)
            s.force[k] = False
        raise Fork([yes, no])
