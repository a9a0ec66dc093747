"""Abstract interpreter over LLVM IR: trace-partitioned relational analysis.

Values are linear forms valid modulo 2^width, pointers are (region, byte
offset), memory is a finite set of cells per region segment (index expression
-> value) refined by alias case splits, plus ghost state for object life
cycles.  Loop-free code is kept fully disjunctive; at loop headers states are
grouped by their discrete part and joined in a template-polyhedra domain with
widening and narrowing."""
import heapq
import time
from math import gcd
from . import dom
from .dom import Lin, Cons, const, new, fresh, var, Infeasible, ZERO, SYMS
from .llvm import global_bytes


STRONG = False      # second attempt at a check that failed: strengthen loop invariants by inductive templates


class Unsupported(Exception):
    pass


class Split(Exception):
    def __init__(self, alts):
        self.alts = alts


# ------------------------------------------------------------------ values
class Int:
    __slots__ = ('w', 'e')

    def __init__(self, w, e):
        self.w = w
        self.e = e

    def __eq__(self, o):
        return isinstance(o, Int) and self.w == o.w and self.e == o.e

    def __hash__(self):
        return hash((self.w, self.e))

    def __repr__(self):
        return 'i%d(%r)' % (self.w, self.e)


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r
        self.o = o

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r is o.r and self.o == o.o

    def __hash__(self):
        return hash((id(self.r), self.o))

    def __repr__(self):
        return '&%s[%r]' % (self.r.name if self.r else 'null', self.o)


class Cond:
    """('c',bool) ('row',eq,Lin) ('cmp',pred,a,b) ('not',c) ('and',c,d) ('or',c,d)"""
    __slots__ = ('t',)

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Cond) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'cond%r' % (self.t,)


TRUE = Cond('c', True)
FALSE = Cond('c', False)


def cnot(c):
    if c.t[0] == 'c':
        return FALSE if c.t[1] else TRUE
    if c.t[0] == 'not':
        return c.t[1]
    return Cond('not', c)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


class Term:
    """uninterpreted value (floats, opaque results)"""
    __slots__ = ('k',)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Term) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'term%r' % (self.k,)


class FuncRef:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FuncRef) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


# ------------------------------------------------------------------ memory layout
class Seg:
    __slots__ = ('name', 'base', 'stride', 'count', 'fields', 'kind', 'leaf')

    def __init__(self, name, base, stride, count, fields, kind='data'):
        self.name = name
        self.base = base
        self.stride = stride
        self.count = count        # Lin or None
        self.fields = fields      # {off: (size, kind)}
        self.kind = kind          # 'data' | 'obj'

    def __repr__(self):
        return self.name


def leaves(ty, off, out, opaque):
    """flatten a type to scalar leaves {off:(size,kind)}"""
    if ty.kind == 'struct' and ty.name in opaque:
        out[off] = (ty.size, 'obj')
    elif ty.kind == 'struct':
        for o, e in zip(ty.offsets, ty.elems):
            leaves(e, off + o, out, opaque)
    elif ty.kind in ('array', 'vec'):
        e = ty.elems[0]
        for i in range(ty.count):
            leaves(e, off + i * e.size, out, opaque)
    elif ty.kind == 'int':
        out[off] = (ty.size, 'int')
    elif ty.kind == 'ptr':
        out[off] = (8, 'ptr')
    elif ty.kind in ('float', 'double'):
        out[off] = (ty.size, 'fp')
    return out


class Region:
    def __init__(self, name, ty=None, opaque=(), segs=None, count=None, init=None, const=False, kind='input', nullable=False):
        self.name = name
        self.init = init
        self.const = const
        self.kind = kind
        self.ty = ty
        self.glob = None
        self.base_sym = None
        if segs is not None:
            self.segs = segs
        elif count is not None:
            f = leaves(ty, 0, {}, opaque)
            k = 'obj' if ty.kind == 'struct' and ty.name in opaque else 'data'
            self.segs = [Seg('', 0, ty.size, count if isinstance(count, Lin) else const_(count), f, k)]
        else:
            self.segs = []
            self._layout(ty, 0, '', opaque)
        self.size = ty.size if ty is not None and count is None else None

    def _layout(self, ty, off, name, opaque):
        if ty.kind == 'struct' and ty.name not in opaque:
            for i, (o, e) in enumerate(zip(ty.offsets, ty.elems)):
                self._layout(e, off + o, '%s.%d' % (name, i), opaque)
            return
        if ty.kind in ('array', 'vec'):
            e, n = ty.elems[0], ty.count
            while e.kind == 'array':
                n *= e.count
                e = e.elems[0]
            f = leaves(e, 0, {}, opaque)
            k = 'obj' if e.kind == 'struct' and e.name in opaque else 'data'
            if n:
                self.segs.append(Seg(name, off, e.size, Lin(n), f, k))
            return
        if ty.size == 0:
            return
        f = leaves(ty, 0, {}, opaque)
        self.segs.append(Seg(name, off, ty.size, Lin(1), f, 'obj' if ty.kind == 'struct' else 'data'))

    def seg_at(self, off):
        for s in self.segs:
            if s.base == off:
                return s
        raise KeyError(off)

    def __repr__(self):
        return 'region ' + self.name


def const_(n):
    return Lin(n)


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('cons', 'regs', 'cells', 'dirty', 'gd', 'gn', 'path', 'divs', 'ret', 'extra')

    def __init__(self):
        self.cons = Cons()
        self.regs = {}
        self.cells = {}     # (region, segname, foff) -> tuple of (idx, value)
        self.dirty = frozenset()
        self.gd = {}        # discrete ghost state
        self.gn = {}        # numeric ghost state: key -> Lin
        self.path = None
        self.divs = {}
        self.ret = None

    def fork(self):
        s = State.__new__(State)
        s.cons = self.cons
        s.regs = dict(self.regs)
        s.cells = dict(self.cells)
        s.dirty = self.dirty
        s.gd = dict(self.gd)
        s.gn = dict(self.gn)
        s.path = self.path
        s.divs = dict(self.divs)
        s.ret = self.ret
        return s

    def row(self, eq, e):
        self.cons = self.cons.add(eq, e)

    def trace(self):
        out = []
        p = self.path
        while p:
            out.append(p[0])
            p = p[1]
        out.reverse()
        return out


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}


class Violation:
    def __init__(self, rule, msg, loc, fn, path):
        self.rule = rule
        self.msg = msg
        self.loc = loc
        self.fn = fn
        self.path = path

    def key(self):
        return (self.rule, self.msg, self.loc, self.fn)


class Interp:
    def __init__(self, module, opaque=(), handlers=None, max_states=4000, budget=200):
        self.m = module
        self.opaque = set(opaque)
        self.handlers = handlers or []     # list of (predicate(name), fn)
        self.violations = {}
        self.obl = {}                      # (rule, loc) -> [ok, bad]
        self.final = True
        self.objects = []
        self.entry = ''
        self.nsteps = 0
        self.max_states = max_states
        self.deadline = time.time() + budget
        self.globals = {}
        self.check_overflow = None         # predicate(inst) -> bool
        self.check_term = True
        self.hooks = {}
        self.apart = {}                    # header symbol -> differences tested for equality with zero
        self.loops_done = set()
        self.paths = 0
        self._hcache = {}
        self.cur = None
        self.raw_obj_hook = None
        self.partition_extra = None
        self.allocas = {}
        self.tables = {}
        self.max_unroll = 600
        self.merge_at = 5
        self._live = {}

    # ---- reporting
    def oblige(self, st, ok, rule, msg, inst=None, loc=None):
        """ok: bool already decided"""
        if not self.final:
            return
        inst = inst or self.cur
        loc = loc or (inst.loc() if inst is not None else '?')
        o = self.obl.setdefault((rule, loc, self.entry), [0, 0])
        o[0 if ok else 1] += 1
        if not ok:
            v = Violation(rule, msg, loc, self.entry, st.trace())
            self.violations.setdefault(v.key(), v)

    # ---- numeric helpers
    def norm(self, st, v, signed=False):
        """exact Lin for the unsigned (or signed) value of an Int"""
        e, w = v.e, v.w
        M = 1 << w
        base = -(M >> 1) if signed else 0
        if not e.t:
            return Lin((e.c - base) % M + base)
        lo, hi = st.cons.interval(e)
        if lo is not None and hi is not None and lo >= base and hi < base + M:
            return e
        k = (e, w, signed)
        r = st.divs.get(k)
        if r is not None:
            return r
        lo, hi = st.cons.bounds(e)
        if lo is None or hi is None:
            ql = qh = None
        else:
            ql, qh = (lo - base) // M, (hi - base) // M
            if ql == qh:
                r = e - ql * M
                st.divs[k] = r
                return r
            if qh - ql <= 3:
                alts = []
                for q in range(ql, qh + 1):
                    a = [('row', False, e - (q * M + base)), ('row', False, -e + (q * M + base + M - 1))]
                    alts.append(a)
                raise Split(alts)
        r = new('n', base, base + M - 1)
        q = new('q', ql, qh)
        st.row(True, e - q * M - r)
        st.divs[k] = r
        return r

    def udivc(self, st, x, d):
        """floor division of an exact Lin by a positive constant -> (q, r)"""
        if d == 1:
            return x, ZERO
        a = Lin(x.c // d, tuple((s, k // d) for s, k in x.t if k % d == 0))
        rest = Lin(x.c % d, tuple((s, k) for s, k in x.t if k % d))
        if not rest.t:
            return a, rest
        lo, hi = st.cons.interval(rest)
        if lo is None or hi is None or lo // d != hi // d:
            lo, hi = st.cons.bounds(rest)
        if lo is not None and hi is not None and lo // d == hi // d:
            q = lo // d
            return a + q, rest - q * d
        key = ('div', rest, d)
        q = st.divs.get(key)
        if q is None:
            q = new('d', None if lo is None else lo // d, None if hi is None else hi // d)
            st.divs[key] = q
            st.row(False, rest - q * d)
            st.row(False, -rest + q * d + (d - 1))
        return a + q, rest - q * d

    def muls(self, st, a, b):
        """product with interval and McCormick facts for new monomials"""
        p = dom.mul(a, b)
        for s in p.syms():
            if SYMS[s].mono and ('mc', s) not in st.divs:
                self.mono_facts(st, s)
        return p

    def mono_facts(self, st, s):
        m = SYMS[s].mono
        st.divs[('mc', s)] = ZERO
        if len(m) != 2:
            lo, hi = 1, 1
            for x in m:
                lo, hi = dom._imul((lo, hi), st.cons.bounds(var(x)))
            if lo is not None:
                st.row(False, var(s) - lo)
            if hi is not None:
                st.row(False, -var(s) + hi)
            return
        x, y = m
        X, Y = var(x), var(y)
        (xl, xh), (yl, yh) = st.cons.bounds(X), st.cons.bounds(Y)
        p = var(s)
        if xl is not None and yl is not None:
            st.row(False, p - X * yl - Y * xl + xl * yl)
        if xh is not None and yh is not None:
            st.row(False, p - X * yh - Y * xh + xh * yh)
        if xl is not None and yh is not None:
            st.row(False, -p + X * yh + Y * xl - xl * yh)
        if xh is not None and yl is not None:
            st.row(False, -p + X * yl + Y * xh - xh * yl)

    # ---- conditions
    def cond_rows(self, st, c, truth):
        """alternatives (list of list of rows) under which c has the truth value; may raise Split"""
        t = c.t
        k = t[0]
        if k == 'c':
            return [[]] if t[1] == truth else []
        if k == 'not':
            return self.cond_rows(st, t[1], not truth)
        if k == 'row':
            eq, e = t[1], t[2]
            if truth:
                return [[(eq, e)]]
            if eq:
                return [[(False, e - 1)], [(False, -e - 1)]]
            return [[(False, -e - 1)]]
        if k in ('and', 'or'):
            a, b = t[1], t[2]
            both = (k == 'and') == truth
            ra = self.cond_rows(st, a, truth)
            if both:
                rb = self.cond_rows(st, b, truth)
                return [x + y for x in ra for y in rb]
            na = self.cond_rows(st, a, not truth)
            rb = self.cond_rows(st, b, truth)
            return ra + [x + y for x in na for y in rb]
        if k == 'cmp':
            return self.cmp_rows(st, t[1], t[2], t[3], truth)
        raise Unsupported('cond ' + k)

    def cmp_rows(self, st, p, a, b, truth):
        if not truth:
            p = NEG[p]
        if isinstance(a, Term) or isinstance(b, Term):
            key = ('tc', a, b)
            e = st.divs.get(key)
            if e is None:
                e = new('tc', -1, 1)
                st.divs[key] = e
            d = e
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported('pointer compared with %r %r' % (a, b))
            if a.r is not b.r:
                if p == 'eq':
                    return []
                if p == 'ne':
                    return [[]]
                raise Unsupported('ordering of pointers to different objects %r %r' % (a, b))
            d = a.o - b.o
        else:
            if isinstance(a, Undef) or isinstance(b, Undef):
                return [[]]
            w = a.w
            d = a.e - b.e
            if p in ('eq', 'ne'):
                lo, hi = st.cons.interval(d)
                M = 1 << w
                if lo is None or hi is None or lo <= -M or hi >= M:
                    d = self.norm(st, a) - self.norm(st, b)
                elif not (lo > -M and hi < M):
                    d = self.norm(st, a) - self.norm(st, b)
            else:
                sg = p[0] == 's'
                d = self.norm(st, a, sg) - self.norm(st, b, sg)
        q = p[-2:]
        if p in ('eq', 'ne'):
            for q in d.syms():
                if SYMS[q].name.startswith('h_'):
                    l = self.apart.setdefault(q, [])
                    if len(l) < 4 and d not in l:
                        l.append(d)
        if p == 'eq':
            return [[(True, d)]]
        if p == 'ne':
            return [[(False, d - 1)], [(False, -d - 1)]]
        if q == 'lt':
            return [[(False, -d - 1)]]
        if q == 'le':
            return [[(False, -d)]]
        if q == 'gt':
            return [[(False, d - 1)]]
        return [[(False, d)]]

    def assume(self, st, c, truth):
        """list of refined states"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            try:
                alts = self.cond_rows(s, c, truth)
            except Split as sp:
                work.extend(self.split(s, sp.alts))
                continue
            for rows in alts:
                n = self.assume_rows(s, rows, len(alts) > 1)
                if n is not None:
                    out.append(n)
        return out

    def assume_rows(self, s, rows, forkit=True):
        n = s.fork()
        try:
            old = n.cons
            for eq, e in rows:
                n.cons = n.cons.add(eq, e)
            if n.cons is not old and rows and not n.cons.feasible([x for _, e in rows for x in e.syms()]):
                return None
        except Infeasible:
            return None
        return n

    def split(self, st, alts):
        out = []
        for a in alts:
            cur = [st.fork()]
            for item in a:
                nxt = []
                for s in cur:
                    if item[0] == 'row':
                        n = self.assume_rows(s, [(item[1], item[2])])
                        if n is not None:
                            nxt.append(n)
                    else:
                        nxt.extend(self.assume(s, item[1], item[2]))
                cur = nxt
            out.extend(cur)
        return out

    def decide(self, st, c):
        """True / False if the condition is decided in the state, else None (may raise Split)"""
        if c.t[0] == 'c':
            return c.t[1]
        t = any(st.cons.sat(r) for r in self.cond_rows(st, c, True))
        if not t:
            return False
        f = any(st.cons.sat(r) for r in self.cond_rows(st, c, False))
        return None if f else True

    def want(self, st, c):
        """decided truth of c, splitting the state when both are possible"""
        d = self.decide(st, c)
        if d is None:
            raise Split([[('cond', c, True)], [('cond', c, False)]])
        return d

    def eq_idx(self, st, a, b):
        """decide equality of two exact Lins, splitting when open"""
        d = a - b
        if not d.t:
            return d.c == 0
        lo, hi = st.cons.interval(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        lo, hi = st.cons.bounds(d)
        if lo == 0 and hi == 0:
            return True
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if not st.cons.sat([(True, d)]):
            return False
        alts = [[('row', True, d)], [('row', False, d - 1)], [('row', False, -d - 1)]]
        raise Split(alts)

    # ---- operands
    def val(self, st, v):
        k = v.k
        if k in ('inst', 'arg'):
            return st.regs[v.id]
        if k == 'int':
            w = v.ty.width
            if w == 1:
                return TRUE if v.n else FALSE
            n = v.n
            if n >> (w - 1) and (w >= 32) and n > (1 << w) - (1 << (w - 2)):
                n -= 1 << w
            return Int(w, Lin(n))
        if k == 'null':
            return Ptr(None, ZERO)
        if k in ('undef', 'poison'):
            if v.ty.kind == 'struct':
                return Agg([UNDEF] * len(v.ty.elems))
            return UNDEF
        if k == 'global':
            return Ptr(self.global_region(v.name), ZERO)
        if k == 'func':
            return FuncRef(v.name)
        if k == 'fp':
            return Term('fp', v.name)
        if k == 'zero':
            if v.ty.kind == 'struct':
                return Agg([self.zero_of(e) for e in v.ty.elems])
            return self.zero_of(v.ty)
        if k == 'agg':
            return Agg([self.val(st, x) for x in v.ops])
        if k == 'cexpr':
            return self.cexpr(st, v)
        raise Unsupported('operand ' + k)

    def zero_of(self, ty):
        if ty.kind == 'int':
            return FALSE if ty.width == 1 else Int(ty.width, ZERO)
        if ty.kind == 'ptr':
            return Ptr(None, ZERO)
        if ty.kind == 'struct':
            return Agg([self.zero_of(e) for e in ty.elems])
        return Term('zero')

    def cexpr(self, st, v):
        if v.op == 'gep':
            p = self.val(st, v.ops[0])
            return Ptr(p.r, p.o + self.gep_off(st, v.extra, [self.val(st, x) for x in v.ops[1:]]))
        if v.op in ('bitcast', 'addrspacecast'):
            return self.val(st, v.ops[0])
        if v.op in ('ptrtoint',):
            p = self.val(st, v.ops[0])
            return Term('ptrtoint', p)
        raise Unsupported('constant expression ' + str(v.op))

    def global_region(self, name):
        r = self.globals.get(name)
        if r is None:
            G = self.m.globals.get(name)
            if G is None:
                raise Unsupported('unknown global ' + name)
            r = Region('@' + name, G.ty, self.opaque, kind='global', const=G.const)
            r.glob = G
            self.globals[name] = r
        return r

    def gep_off(self, st, ty, idx):
        off = ZERO
        first = True
        for v in idx:
            if first:
                off = off + self.norm(st, v, True) * ty.size
                first = False
            elif ty.kind == 'struct':
                n = v.e.c
                off = off + ty.offsets[n]
                ty = ty.elems[n]
            else:
                ty = ty.elems[0]
                off = off + self.norm(st, v, True) * ty.size
        return off

    # ---- memory
    def locate(self, st, p, size, what, inst):
        """(segment, index Lin, field offset) of an access; reports out of bounds"""
        if not isinstance(p, Ptr):
            raise Unsupported('access through %r' % (p,))
        r = p.r
        if r is None:
            self.oblige(st, False, 'null', '%s through a null pointer' % what, inst)
            raise Infeasible()
        if getattr(r, 'wide', False):
            return r.segs[0], ZERO, 0
        off = p.o
        cands = []
        for s in r.segs:
            rows = [(False, off - s.base)]
            if s.count is not None:
                rows.append((False, s.count * s.stride - (off - s.base) - size))
            if all(st.cons.entails(*x) for x in rows):
                cands = [(s, rows)]
                break
            if st.cons.sat(rows):
                cands.append((s, rows))
        else:
            alts = [[('row',) + x for x in rows] for _, rows in cands]
            # is there any offset outside of every segment?
            out = self.outside(st, r, off, size)
            if out is not None:
                self.oblige(st, False, 'bounds', '%s of %d byte(s) outside %s (offset %r)' % (what, size, r.name or 'object', off), inst)
            if not alts:
                raise Infeasible()
            raise Split(alts)
        s = cands[0][0]
        self.oblige(st, True, 'bounds', '', inst)
        rel = off - s.base
        if s.count is not None and s.count == dom.ONE:
            if rel.t:
                lo, hi = st.cons.bounds(rel)
                if lo == hi:
                    rel = Lin(lo)
                else:
                    fs = [o for o in s.fields if st.cons.sat([(True, rel - o)])]
                    raise Split([[('row', True, rel - o)] for o in fs])
            return s, ZERO, rel.c
        q, f = self.udivc(st, rel, s.stride)
        if f.t:
            lo, hi = st.cons.bounds(f)
            if lo == hi:
                f = Lin(lo)
            else:
                fs = [o for o in s.fields if st.cons.sat([(True, f - o)])]
                bad = st.cons
                alts = [[('row', True, f - o)] for o in fs]
                if len(alts) > 1 or not alts:
                    raise Split(alts)
                st.row(True, f - fs[0])
                f = Lin(fs[0])
        return s, q, f.c

    def outside(self, st, r, off, size):
        """rows describing a possible offset outside every segment, or None"""
        work = [[]]
        for s in sorted(r.segs, key=lambda s: s.base):
            nw = []
            for rows in work:
                x = rows + [(False, -(off - s.base) - 1)]
                if st.cons.sat(x):
                    nw.append(x)
                if s.count is not None:
                    x = rows + [(False, (off - s.base) + size - s.count * s.stride - 1)]
                    if st.cons.sat(x):
                        nw.append(x)
            work = nw
        return work[0] if work else None

    def lookup(self, st, key, idx):
        """position of the cell for idx in st.cells[key] or None; splits on open aliases"""
        cs = st.cells.get(key, ())
        for n, (i, v) in enumerate(cs):
            if i == idx:
                return n
        for n, (i, v) in enumerate(cs):
            if self.eq_idx(st, i, idx):
                return n
        return None

    def init_value(self, st, r, seg, idx, foff, size, kind, ty):
        if r.glob is not None and r.glob.init is not None and r.const:
            v = self.const_read(st, r, seg, idx, foff, size, kind, ty)
            if v is not None:
                return v
        if r.init is not None and (r.name, seg.name) not in st.dirty:
            v = r.init(self, st, r, seg, idx, foff)
            if v is not None:
                return v
        if r.kind == 'alloca' and (r.name, seg.name) not in st.dirty:
            return UNDEF
        return self.unknown(kind, size, '%s%s.%d' % (r.name, seg.name, foff))

    def unknown(self, kind, size, name):
        if kind == 'int':
            return Int(size * 8, new(name, 0, (1 << (8 * size)) - 1))
        if kind == 'ptr':
            return Term('ptr', fresh(name))
        return Term('fp', fresh(name))

    def const_read(self, st, r, seg, idx, foff, size, kind, ty):
        b = global_bytes(r.glob)
        if idx.is_const():
            return self.const_at(b, seg.base + idx.c * seg.stride + foff, size, kind)
        lo, hi = st.cons.bounds(idx)
        if lo is None or hi is None:
            return None
        t = self.tables.get(r.name)
        if t:
            v = t(self, st, r, seg, idx, foff, size)
            if v is not None:
                return v
        if hi - lo < 24:
            alts = [[('row', True, idx - i)] for i in range(lo, hi + 1)]
            if len(alts) == 1:
                return self.const_at(b, seg.base + lo * seg.stride + foff, size, kind)
            raise Split(alts)
        if kind == 'int':
            vals = []
            for i in range(lo, hi + 1):
                v = self.const_at(b, seg.base + i * seg.stride + foff, size, kind)
                if not isinstance(v, Int):
                    return None
                vals.append(v.e.c)
            return Int(8 * size, new('tab', min(vals), max(vals)))
        return None

    def const_at(self, b, off, size, kind):
        if off < 0 or off + size > len(b):
            return None
        if kind == 'ptr':
            v = b[off]
            if v is None or v == 0:
                return Ptr(None, ZERO)
            return self.val(None, v)
        n = 0
        for j in range(size):
            if not isinstance(b[off + j], int):
                return None
            n |= b[off + j] << (8 * j)
        return Int(8 * size, Lin(n))

    def load(self, st, p, ty, inst):
        size = ty.size
        kind = {'int': 'int', 'ptr': 'ptr'}.get(ty.kind, 'fp')
        if ty.kind == 'struct':
            raise Unsupported('aggregate load')
        s, idx, f = self.locate(st, p, size, 'read', inst)
        h = self.hooks.get('load')
        if h:
            v = h(self, st, p.r, s, idx, f, ty, inst)
            if v is not None:
                return v
        v = self.read(st, p.r, s, idx, f, size, kind, ty)
        if ty.kind == 'int':
            if isinstance(v, Int):
                if ty.width == 1:
                    return Cond('cmp', 'ne', v, Int(v.w, ZERO))
                if v.w != ty.width:
                    return Int(ty.width, v.e)
            elif isinstance(v, Cond) and ty.width > 1:
                return Int(ty.width, Lin(1 if self.want(st, v) else 0))
        return v

    def read(self, st, r, s, idx, f, size, kind, ty=None):
        fld = s.fields.get(f)
        if fld is None or (fld[0] != size) or fld[1] == 'obj':
            v = self.odd_read(st, r, s, idx, f, size, kind)
            if v is not None:
                return v
            raise Unsupported('access of %d byte(s) at offset %d of %s%s (fields %s)' % (size, f, r.name, s.name, s.fields))
        key = (r, s.name, f)
        n = self.lookup(st, key, idx)
        if n is not None:
            return st.cells[key][n][1]
        v = self.init_value(st, r, s, idx, f, size, kind, ty)
        st.divs[('iv', key, idx)] = v
        st.cells[key] = st.cells.get(key, ()) + ((idx, v),)
        return v

    def odd_read(self, st, r, s, idx, f, size, kind):
        """access that spans several smaller integer cells (or is inside a bigger one)"""
        if kind == 'int' and s.stride > 1 and f in s.fields and s.fields[f][1] != 'obj' and s.fields[f][0] < size and f + size <= s.stride:
            tot = ZERO
            o = f
            sh = 0
            while sh < size * 8:
                fl = s.fields.get(o)
                if fl is None:
                    return None
                v = self.read(st, r, s, idx, o, fl[0], 'int')
                if not isinstance(v, Int):
                    return UNDEF if isinstance(v, Undef) else None
                tot = tot + self.norm(st, v) * (1 << sh)
                sh += 8 * fl[0]
                o += fl[0]
            return Int(size * 8, tot)
        if kind == 'int' and s.stride < size and size % s.stride == 0 and f == 0 and list(s.fields) == [0] and s.fields[0][1] == 'int':
            tot = ZERO
            for j in range(size // s.stride):
                v = self.read(st, r, s, idx + j, 0, s.stride, 'int')
                if not isinstance(v, Int):
                    return UNDEF if isinstance(v, Undef) else None
                tot = tot + self.norm(st, v) * (1 << (8 * s.stride * j))
            return Int(size * 8, tot)
        c = self.inside(s, f, size)
        if c is not None and kind == 'int':
            o, (z, k) = c
            if k != 'int':
                return Int(size * 8, new('part', 0, (1 << (8 * size)) - 1))
            v = self.read(st, r, s, idx, o, z, k)
            if isinstance(v, Int):
                x, _ = self.udivc(st, self.norm(st, v), 1 << (8 * (f - o)))
                _, x = self.udivc(st, x, 1 << (8 * size))
                return Int(size * 8, x)
            return UNDEF if isinstance(v, Undef) else Int(size * 8, new('part', 0, (1 << (8 * size)) - 1))
        return None

    def inside(self, s, f, size):
        """the cell that properly contains [f, f+size)"""
        for o, (z, k) in s.fields.items():
            if o <= f and f + size <= o + z and z > size and k != 'obj':
                return o, (z, k)
        return None

    def store(self, st, p, v, ty, inst):
        size = ty.size
        s, idx, f = self.locate(st, p, size, 'write', inst)
        if p.r.const:
            self.oblige(st, False, 'const-write', 'write to read-only %s' % p.r.name, inst)
        h = self.hooks.get('store')
        if h and h(self, st, p.r, s, idx, f, v, ty, inst):
            return
        if s.kind == 'obj' or s.fields.get(f, (0, ''))[1] == 'obj':
            if self.raw_obj_hook:
                self.raw_obj_hook(self, st, p.r, s, idx, inst)
                return
            raise Unsupported('raw store into an object slot')
        self.write(st, p.r, s, idx, f, size, v)

    def write(self, st, r, s, idx, f, size, v):
        fld = s.fields.get(f)
        if fld is None or fld[0] != size:
            if self.odd_write(st, r, s, idx, f, size, v):
                return
            raise Unsupported('write of %d byte(s) at offset %d of %s%s' % (size, f, r.name, s.name))
        if isinstance(v, Cond):
            v = Int(8, Lin(1 if self.want(st, v) else 0))
        elif isinstance(v, Int) and v.w < 8:
            v = Int(8, self.norm(st, v))
        key = (r, s.name, f)
        n = self.lookup(st, key, idx)
        cs = st.cells.get(key, ())
        if n is None:
            st.cells[key] = cs + ((idx, v),)
        else:
            st.cells[key] = cs[:n] + ((cs[n][0], v),) + cs[n + 1:]

    def odd_write(self, st, r, s, idx, f, size, v):
        if isinstance(v, Int) and f in s.fields and s.fields[f][0] < size and f + size <= s.stride:
            parts = []
            o = f
            sh = 0
            e = self.norm(st, v)
            while sh < size * 8:
                fl = s.fields.get(o)
                if fl is None:
                    return False
                _, rem = self.udivc(st, e, 1 << (8 * fl[0]))
                parts.append((o, fl[0], rem))
                e, _ = self.udivc(st, e, 1 << (8 * fl[0]))
                sh += 8 * fl[0]
                o += fl[0]
            for o, z, rem in parts:
                self.write(st, r, s, idx, o, z, Int(8 * z, rem))
            return True
        if isinstance(v, Int) and s.stride < size and size % s.stride == 0 and f == 0 and list(s.fields) == [0] and s.fields[0][1] == 'int':
            e = self.norm(st, v)
            for j in range(size // s.stride):
                e, rem = self.udivc(st, e, 1 << (8 * s.stride))
                self.write(st, r, s, idx + j, 0, s.stride, Int(8 * s.stride, rem))
            return True
        c = self.inside(s, f, size)
        if c is not None:
            o, (z, k) = c
            old = UNDEF
            key = (r, s.name, o)
            n = self.lookup(st, key, idx)
            if n is not None:
                old = st.cells[key][n][1]
            elif k == 'int':
                old = self.read(st, r, s, idx, o, z, k)
            if k == 'int' and isinstance(old, Int) and isinstance(v, Int):
                x = self.norm(st, old)
                hi, lo = self.udivc(st, x, 1 << (8 * (f - o)))
                hi, mid = self.udivc(st, hi, 1 << (8 * size))
                w = lo + self.norm(st, v) * (1 << (8 * (f - o))) + hi * (1 << (8 * (f - o + size)))
                self.write(st, r, s, idx, o, z, Int(8 * z, w))
            else:
                self.write(st, r, s, idx, o, z, self.unknown(k, z, '%s%s.%d' % (r.name, s.name, o)))
            return True
        return False

    def padding(self, p):
        """is this a padding byte of the object, outside every segment?"""
        r = p.r
        if r is None or r.size is None or p.o.t or not 0 <= p.o.c < r.size:
            return False
        for s in r.segs:
            if s.base <= p.o.c and (s.count is None or not s.count.is_const() or p.o.c < s.base + s.count.c * s.stride):
                return False
        return True

    def copy_bytes(self, st, dst, src, n, inst):
        """memcpy of a constant number of bytes between typed cells"""
        done = 0
        items = []
        while done < n:
            p = Ptr(src.r, src.o + done)
            if self.padding(p):
                done += 1
                continue
            s, idx, f = self.locate(st, p, 1, 'read', inst)
            fld = s.fields.get(f)
            if fld is None:
                done += 1   # padding
                continue
            z, k = fld
            if k == 'obj':
                raise Unsupported('memcpy of an opaque object')
            v = self.read(st, src.r, s, idx, f, z, k)
            items.append((done, z, v))
            done += z
        for o, z, v in items:
            p = Ptr(dst.r, dst.o + o)
            s, idx, f = self.locate(st, p, z, 'write', inst)
            if s.kind == 'obj':
                raise Unsupported('memcpy into an opaque object')
            if p.r.const:
                self.oblige(st, False, 'const-write', 'write to read-only %s' % p.r.name, inst)
            h = self.hooks.get('store')
            if h and h(self, st, p.r, s, idx, f, v, None, inst):
                continue
            self.write(st, dst.r, s, idx, f, z, v)

    # ---- instructions
    def exec_inst(self, st, i):
        """execute a non-terminator, non-phi instruction in place; may raise Split / Infeasible"""
        op = i.op
        f = getattr(self, 'op_' + op, None)
        if f is None:
            raise Unsupported('instruction %s at %s' % (op, i.loc()))
        v = f(st, i)
        if v is not None:
            st.regs[i.id] = v

    def binop(self, st, i):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        if isinstance(a, Undef):
            a = self.undef_int(i.ty)
        if isinstance(b, Undef):
            b = self.undef_int(i.ty)
        return a, b

    def undef_int(self, ty):
        if ty.width == 1:
            return Cond('cmp', 'ne', Int(8, new('undef', 0, 1)), Int(8, ZERO))
        return Int(ty.width, new('undef', 0, (1 << ty.width) - 1))

    def ovf(self, st, i, e, signed):
        if self.check_overflow and self.check_overflow(i):
            w = i.ty.width
            lo, hi = st.cons.bounds(e)
            a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            ok = lo is not None and hi is not None and lo >= a and hi <= b
            self.oblige(st, ok, 'overflow', 'signed %s may overflow %d bits' % (i.op, w), i)

    def arith(self, st, i, fn):
        a, b = self.binop(st, i)
        if isinstance(a, Term) or isinstance(b, Term):
            return Term(i.op, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond):
            raise Unsupported('i1 arithmetic')
        if i.nsw and self.check_overflow:
            x, y = self.norm(st, a, True), self.norm(st, b, True)
            e = fn(x, y)
            self.ovf(st, i, e, True)
            return Int(i.ty.width, e)
        return Int(i.ty.width, fn(a.e, b.e))

    def op_add(self, st, i):
        return self.arith(st, i, lambda x, y: x + y)

    def op_sub(self, st, i):
        a, b = self.binop(st, i)
        if isinstance(a, Term) and isinstance(b, Term) and a.k[0] == b.k[0] == 'ptrtoint':
            p, q = a.k[1], b.k[1]
            if p.r is q.r:
                return Int(i.ty.width, p.o - q.o)
        return self.arith(st, i, lambda x, y: x - y)

    def op_mul(self, st, i):
        return self.arith(st, i, lambda x, y: self.muls(st, x, y))

    def op_udiv(self, st, i):
        return self.divrem(st, i, False)[0]

    def op_urem(self, st, i):
        return self.divrem(st, i, False)[1]

    def op_sdiv(self, st, i):
        return self.divrem(st, i, True)[0]

    def op_srem(self, st, i):
        return self.divrem(st, i, True)[1]

    def divrem(self, st, i, signed):
        a, b = self.binop(st, i)
        w = i.ty.width
        x, y = self.norm(st, a, signed), self.norm(st, b, signed)
        if signed:
            if not y.is_const() or y.c == 0:
                raise Unsupported('signed division by a variable')
            if i.exact or x.div(abs(y.c)) is not None:
                q = x.div(abs(y.c))
                if q is not None:
                    return Int(w, q if y.c > 0 else -q), Int(w, ZERO)
            neg = self.want(st, Cond('row', False, -x - 1))
            q, r = self.udivc(st, -x if neg else x, abs(y.c))
            if neg:
                q, r = -q, -r
            if y.c < 0:
                q = -q
            return Int(w, q), Int(w, r)
        if y.is_const() and y.c > 0:
            q, r = self.udivc(st, x, y.c)
            return Int(w, q), Int(w, r)
        ok = st.cons.entails(False, y - 1)
        self.oblige(st, ok, 'div-zero', 'division by a possibly zero value', i)
        if not ok:
            st.row(False, y - 1)
        key = ('vdiv', x, y)
        t = st.divs.get(key)
        if t is None:
            lo, hi = st.cons.bounds(x)
            q = new('vq', 0, hi)
            r = new('vr', 0, None)
            st.row(False, r)
            st.row(False, y - r - 1)
            st.row(False, x - r)
            p = self.muls(st, q, y)
            st.row(True, x - p - r)
            t = (q, r)
            st.divs[key] = t
        return Int(w, t[0]), Int(w, t[1])

    def op_shl(self, st, i):
        a, b = self.binop(st, i)
        w = i.ty.width
        k = self.norm(st, b)
        if k.is_const():
            e = a.e * (1 << k.c)
            if i.nsw and self.check_overflow:
                e = self.norm(st, a, True) * (1 << k.c)
                self.ovf(st, i, e, True)
            return Int(w, e)
        if a.e.is_const():
            lo, hi = st.cons.bounds(k)
            if lo is not None and hi is not None and hi - lo < 70:
                if hi >= w:
                    self.oblige(st, False, 'shift', 'shift amount may reach the width', i)
                raise Split([[('row', True, k - j)] for j in range(max(lo, 0), min(hi, w - 1) + 1)])
        lo, hi = st.cons.bounds(k)
        if lo is not None and hi is not None and hi - lo <= 8:
            raise Split([[('row', True, k - j)] for j in range(max(lo, 0), min(hi, w - 1) + 1)])
        return Int(w, new('shl', 0, (1 << w) - 1))

    def shr(self, st, i, signed):
        a, b = self.binop(st, i)
        w = i.ty.width
        k = self.norm(st, b)
        x = self.norm(st, a, signed)
        if not k.is_const():
            lo, hi = st.cons.bounds(k)
            if lo is not None and hi is not None and hi - lo <= 8:
                raise Split([[('row', True, k - j)] for j in range(max(lo, 0), min(hi, w - 1) + 1)])
            r = new('shr', None if signed else 0, None)
            if not signed:
                st.row(False, x - r)
                st.row(False, r)
            else:
                r = new('shr', -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return Int(w, r)
        q, _ = self.udivc(st, x, 1 << k.c)
        return Int(w, q)

    def op_lshr(self, st, i):
        return self.shr(st, i, False)

    def op_ashr(self, st, i):
        return self.shr(st, i, True)

    def bits1(self, st, i):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        if isinstance(a, Undef):
            a = self.undef_int(i.ty)
        if isinstance(b, Undef):
            b = self.undef_int(i.ty)
        return a, b

    def op_and(self, st, i):
        a, b = self.bits1(st, i)
        if i.ty.width == 1:
            return self.cand(a, b)
        return Int(i.ty.width, self.bitand(st, a, b))

    def cand(self, a, b):
        if a == FALSE or b == FALSE:
            return FALSE
        if a == TRUE:
            return b
        if b == TRUE:
            return a
        return Cond('and', a, b)

    def cor(self, a, b):
        if a == TRUE or b == TRUE:
            return TRUE
        if a == FALSE:
            return b
        if b == FALSE:
            return a
        return Cond('or', a, b)

    def bitand(self, st, a, b):
        w = a.w
        if b.e.is_const():
            m = b.e.c % (1 << w)
        elif a.e.is_const():
            m = a.e.c % (1 << w)
            a = b
        else:
            x, y = self.norm(st, a), self.norm(st, b)
            if x == y:
                return x
            lo, hi = st.cons.bounds(y)
            if lo == hi and lo is not None:
                m = lo
            else:
                key = ('and', x, y) if hash(x) < hash(y) else ('and', y, x)
                r = st.divs.get(key)
                if r is None:
                    r = new('and', 0, (1 << w) - 1)
                    st.row(False, x - r)
                    st.row(False, y - r)
                    st.divs[key] = r
                return r
        if m == 0:
            return ZERO
        if m == (1 << w) - 1:
            return a.e
        # contiguous runs
        tot = ZERO
        # low mask works on any representative modulo 2^w
        if m & (m + 1) == 0 and a.e.t:
            k = m.bit_length()
            if all(c % (m + 1) == 0 for _, c in a.e.t):
                return Lin(a.e.c % (m + 1))
            return self.norm(st, Int(k, a.e)) if k < w else a.e
        x = self.norm(st, a)
        bit = 0
        while m >> bit:
            if not (m >> bit) & 1:
                bit += 1
                continue
            e = bit
            while (m >> e) & 1:
                e += 1
            q, _ = self.udivc(st, x, 1 << bit)
            lo, hi = st.cons.bounds(q)
            if hi is not None and hi < (1 << (e - bit)):
                r = q
            else:
                _, r = self.udivc(st, q, 1 << (e - bit))
            tot = tot + r * (1 << bit)
            bit = e
        return tot

    def tz(self, e):
        """largest k with 2^k dividing every coefficient"""
        g = e.c
        for _, k in e.t:
            g = gcd(g, k)
        if g == 0:
            return 999
        return (g & -g).bit_length() - 1

    def disjoint(self, st, a, b):
        x, y = self.norm(st, a), self.norm(st, b)
        for p, q in ((x, y), (y, x)):
            k = self.tz(p)
            if k:
                hi = st.cons.maxi(q)
                if hi is not None and hi < (1 << k):
                    return x + y
        return None

    def op_or(self, st, i):
        a, b = self.bits1(st, i)
        w = i.ty.width
        if w == 1:
            return self.cor(a, b)
        for x, y in ((a, b), (b, a)):
            if y.e.is_const():
                m = y.e.c % (1 << w)
                if m == (1 << w) - 1:
                    return Int(w, Lin(-1))
                return Int(w, x.e + m - self.bitand(st, x, y))
        e = self.disjoint(st, a, b)
        if e is not None:
            return Int(w, e)
        x, y = self.norm(st, a), self.norm(st, b)
        key = ('or', x, y) if hash(x) < hash(y) else ('or', y, x)
        r = st.divs.get(key)
        if r is None:
            hb = max((st.cons.maxi(x) or 0).bit_length(), (st.cons.maxi(y) or 0).bit_length())
            r = new('or', 0, (1 << min(w, hb)) - 1)
            st.row(False, r - x)
            st.row(False, r - y)
            st.row(False, x + y - r)
            st.divs[key] = r
        return Int(w, r)

    def op_xor(self, st, i):
        a, b = self.bits1(st, i)
        w = i.ty.width
        if w == 1:
            if b == TRUE:
                return cnot(a)
            if a == TRUE:
                return cnot(b)
            if b == FALSE:
                return a
            if a == FALSE:
                return b
            return Cond('or', Cond('and', a, cnot(b)), Cond('and', cnot(a), b))
        for x, y in ((a, b), (b, a)):
            if y.e.is_const():
                m = y.e.c % (1 << w)
                if m == (1 << w) - 1:
                    return Int(w, -x.e - 1)
                if m == 1 << (w - 1):
                    return Int(w, x.e + m)
                return Int(w, x.e + m - self.bitand(st, x, y) * 2)
        if a == b:
            return Int(w, ZERO)
        e = self.disjoint(st, a, b)
        if e is not None:
            return Int(w, e)
        x, y = self.norm(st, a), self.norm(st, b)
        key = ('xor', x, y) if hash(x) < hash(y) else ('xor', y, x)
        r = st.divs.get(key)
        if r is None:
            hb = max((st.cons.maxi(x) or 0).bit_length(), (st.cons.maxi(y) or 0).bit_length())
            r = new('xor', 0, (1 << min(w, hb)) - 1)
            st.row(False, x + y - r)
            st.row(False, r - x + y)
            st.row(False, r + x - y)
            st.divs[key] = r
        return Int(w, r)

    def op_trunc(self, st, i):
        a = self.val(st, i.ops[0])
        w = i.ty.width
        if isinstance(a, Undef):
            return UNDEF
        if isinstance(a, Term):
            return Term('trunc', w, a)
        if w == 1:
            e = a.e
            lo, hi = st.cons.interval(e)
            if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                return Cond('row', False, e - 1)
            return Cond('cmp', 'ne', Int(8, self.bitand(st, a, Int(a.w, dom.ONE))), Int(8, ZERO))
        return Int(w, a.e)

    def op_zext(self, st, i):
        a = self.val(st, i.ops[0])
        if isinstance(a, Undef):
            a = self.undef_int(i.ops[0].ty)
        if isinstance(a, Term):
            return Term('zext', i.ty.width, a)
        if isinstance(a, Cond):
            return Int(i.ty.width, Lin(1 if self.want(st, a) else 0))
        return Int(i.ty.width, self.norm(st, a))

    def op_sext(self, st, i):
        a = self.val(st, i.ops[0])
        if isinstance(a, Undef):
            a = self.undef_int(i.ops[0].ty)
        if isinstance(a, Cond):
            return Int(i.ty.width, Lin(-1 if self.want(st, a) else 0))
        return Int(i.ty.width, self.norm(st, a, True))

    def op_freeze(self, st, i):
        a = self.val(st, i.ops[0])
        return self.undef_int(i.ty) if isinstance(a, Undef) and i.ty.kind == 'int' else a

    def op_bitcast(self, st, i):
        a = self.val(st, i.ops[0])
        return Term('bitcast', i.ty.kind, a) if i.ty.kind != 'ptr' else a

    def op_ptrtoint(self, st, i):
        p = self.val(st, i.ops[0])
        if isinstance(p, Ptr) and p.r is None:
            return Int(i.ty.width, p.o)
        return Term('ptrtoint', p)

    def op_inttoptr(self, st, i):
        a = self.val(st, i.ops[0])
        if isinstance(a, Term) and a.k[0] == 'ptrtoint':
            return a.k[1]
        if isinstance(a, Int) and a.e.is_const():
            return Ptr(None, a.e)
        return Term('inttoptr', a)

    def fpop(self, st, i):
        return Term(i.op, i.ty.kind, *[self.val(st, o) for o in i.ops])

    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = op_fneg = op_fptrunc = op_fpext = op_uitofp = op_sitofp = fpop

    def op_fptosi(self, st, i):
        t = self.fpop(st, i)
        e = st.divs.get(t)
        if e is None:
            w = i.ty.width
            e = new('fp', -(1 << (w - 1)), (1 << (w - 1)) - 1)
            st.divs[t] = e
        return Int(i.ty.width, e)

    op_fptoui = op_fptosi

    def op_fcmp(self, st, i):
        t = Term('fcmp', i.pred, *[self.val(st, o) for o in i.ops])
        e = st.divs.get(t)
        if e is None:
            e = new('fcmp', 0, 1)
            st.divs[t] = e
        return Cond('row', False, e - 1)

    def op_icmp(self, st, i):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        p = i.pred
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, Undef) or isinstance(b, Undef):
                return self.undef_int(i.ty)
            x = Cond('or', Cond('and', a, cnot(b)), Cond('and', cnot(a), b))
            return x if p == 'ne' else cnot(x)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.undef_int(i.ty)
        if isinstance(a, Int) and a.e.is_const() and isinstance(b, Int) and b.e.is_const():
            w = a.w
            x, y = a.e.c % (1 << w), b.e.c % (1 << w)
            if p[0] == 's':
                x, y = (v - (1 << w) if v >> (w - 1) else v for v in (x, y))
            return TRUE if {'eq': x == y, 'ne': x != y}.get(p, {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}.get(p[1:])) else FALSE
        if isinstance(a, Term) and isinstance(b, Term) and p in ('eq', 'ne') and a == b:
            return TRUE if p == 'eq' else FALSE
        if isinstance(a, (Term, FuncRef)) or isinstance(b, (Term, FuncRef)):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                t = Term('peq', a, b)
            else:
                t = Term('icmp', a, b)
            e = st.divs.get(t)
            if e is None:
                e = new('teq', -1, 1)
                st.divs[t] = e
            return Cond('cmp', 's' + p[1:] if p not in ('eq', 'ne') else p, Int(8, e), Int(8, ZERO))
        return Cond('cmp', p, a, b)

    def op_select(self, st, i):
        c = self.val(st, i.ops[0])
        if isinstance(c, Undef):
            c = self.undef_int(i.ops[0].ty)
        if i.ty.kind == 'int' and i.ty.width == 1:
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if isinstance(a, Cond) and isinstance(b, Cond):
                return self.cor(self.cand(c, a), self.cand(cnot(c), b)) if a not in (TRUE, FALSE) and b not in (TRUE, FALSE) else \
                    (self.cand(c, a) if b == FALSE else self.cor(c, b) if a == TRUE else
                     self.cor(self.cand(c, a), self.cand(cnot(c), b)))
        return self.val(st, i.ops[1] if self.want(st, c) else i.ops[2])

    def op_gep(self, st, i):
        p = self.val(st, i.ops[0])
        if isinstance(p, Term):
            return Term('gep', p, self.gep_off(st, i.gty, [self.val(st, x) for x in i.ops[1:]]))
        off = self.gep_off(st, i.gty, [self.val(st, x) for x in i.ops[1:]])
        return Ptr(p.r, p.o + off)

    def op_alloca(self, st, i):
        k = (i.fn.name, i.id)
        r = self.allocas.get(k)
        if r is None:
            n = i.ops[0]
            r = Region('%%%d' % i.id, i.aty, self.opaque, kind='alloca')
            if n.k == 'int' and n.n != 1:
                r = Region('%%%d' % i.id, i.aty, self.opaque, kind='alloca', count=Lin(n.n))
            self.allocas[k] = r
        return Ptr(r, ZERO)

    def op_load(self, st, i):
        return self.load(st, self.val(st, i.ops[0]), i.ty, i)

    def op_store(self, st, i):
        v = self.val(st, i.ops[0])
        p = self.val(st, i.ops[1])
        ty = i.ops[0].ty
        if ty.kind == 'int' and ty.width == 1 and isinstance(v, Cond):
            v = Int(8, Lin(1 if self.want(st, v) else 0))
        self.store(st, p, v, ty, i)

    def op_extractvalue(self, st, i):
        v = self.val(st, i.ops[0])
        for k in i.idx:
            v = v.v[k]
        return v

    def op_insertvalue(self, st, i):
        a, v = self.val(st, i.ops[0]), self.val(st, i.ops[1])

        def ins(x, path):
            if not path:
                return v
            l = list(x.v)
            l[path[0]] = ins(l[path[0]], path[1:])
            return Agg(l)
        if isinstance(a, Undef):
            a = Agg([UNDEF] * len(i.ty.elems))
        return ins(a, i.idx)

    def op_fence(self, st, i):
        return None

    def op_call(self, st, i):
        c = i.callee
        name = c.name if c.k == 'func' else ''
        if name.startswith('llvm.dbg.') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or name.startswith('llvm.experimental.noalias') or name == 'llvm.donothing':
            return None
        h = self._hcache.get(name)
        if h is None:
            h = False
            for pred, fn in self.handlers:
                if pred(name):
                    h = fn
                    break
            self._hcache[name] = h
        args = [self.val(st, x) for x in i.ops]
        if h:
            return h(self, st, i, args)
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = self.norm(st, args[2])
            if n.is_const():
                self.copy_bytes(st, args[0], args[1], n.c, i)
                return None
        if name.startswith('llvm.memset'):
            n = self.norm(st, args[2])
            if n.is_const() and isinstance(args[1], Int) and args[1].e.is_const():
                self.set_bytes(st, args[0], args[1].e.c & 255, n.c, i)
                return None
        for pre, fn in (('llvm.umax', lambda a, b: ('ugt', a, b)), ('llvm.umin', lambda a, b: ('ult', a, b)),
                        ('llvm.smax', lambda a, b: ('sgt', a, b)), ('llvm.smin', lambda a, b: ('slt', a, b))):
            if name.startswith(pre):
                return args[0] if self.want(st, Cond('cmp', *fn(args[0], args[1]))) else args[1]
        if name.startswith('llvm.fshl') or name.startswith('llvm.fshr'):
            w = i.ty.width
            return Int(w, new('rot', 0, (1 << w) - 1))
        raise Unsupported('call of %s at %s' % (name or '?', i.loc()))

    def set_bytes(self, st, p, b, n, inst):
        done = 0
        while done < n:
            q = Ptr(p.r, p.o + done)
            if self.padding(q):
                done += 1
                continue
            s, idx, f = self.locate(st, q, 1, 'write', inst)
            fld = s.fields.get(f)
            if fld is None:
                done += 1
                continue
            z, k = fld
            if k == 'int':
                v = Int(8 * z, Lin(int.from_bytes(bytes([b] * z), 'little')))
            elif k == 'ptr' and b == 0:
                v = Ptr(None, ZERO)
            else:
                v = Term('set', b)
            if s.count is not None and s.count.is_const() and s.count.c > 64 and not idx.t and f == 0 and len(s.fields) == 1 and \
                    n - done >= s.count.c * s.stride and idx.c == 0:
                # whole large array: forget the cells, remember the fill value
                st.cells[(q.r, s.name, f)] = ()
                st.gd[('fill', q.r.name, s.name)] = v
                st.dirty = st.dirty | {(q.r.name, s.name)}
                done += s.count.c * s.stride
                continue
            self.write(st, q.r, s, idx, f, z, v)
            done += z

    # ---- driver
    def step(self, st, i):
        """all states after one instruction"""
        self.cur = i
        call = i.op == 'call'
        work = [st]
        out = []
        n = 0
        while work:
            s = work.pop()
            self.nsteps += 1
            n += 1
            if n > 3000:
                raise Unsupported('case split explosion at ' + i.loc())
            t = s.fork() if call else s
            try:
                self.exec_inst(t, i)
                out.append(t)
            except Split as sp:
                if call:            # keep definitions of auxiliary symbols, forget the effects
                    s.cons, s.divs = t.cons, t.divs
                work.extend(self.split(s, sp.alts))
            except Infeasible:
                pass
        return out

    def edge(self, st, frm, to, func):
        """phi assignments for the edge"""
        B = func.blocks[to]
        upd = {}
        for i in B.insts:
            if i.op != 'phi':
                break
            for p, v in i.incoming:
                if p == frm:
                    upd[i.id] = self.val(st, v)
                    break
        st.regs.update(upd)
        return st

    def run_block(self, st, b, func):
        """list of (succ or None, state)"""
        B = func.blocks[b]
        states = [st]
        for i in B.insts[:-1]:
            if i.op == 'phi':
                continue
            if len(states) == 1 and i.op != 'call':
                # fast path
                s = states[0]
                self.nsteps += 1
                self.cur = i
                try:
                    self.exec_inst(s, i)
                    continue
                except Infeasible:
                    return []
                except Split as sp:
                    states = self.split(s, sp.alts)
            nxt = []
            for s in states:
                nxt.extend(self.step(s, i))
            states = nxt
            if not states:
                return []
        t = B.insts[-1]
        self.cur = t
        out = []
        for s in states:
            out.extend(self.terminator(s, t, b, func))
        return out

    def terminator(self, s, t, b, func):
        out = []
        self.cur = t
        if t.op == 'ret':
            s.ret = self.val(s, t.ops[0]) if t.ops else None
            s.path = (t.loc(), s.path)
            return [(None, s)]
        if t.op == 'unreachable':
            h = self.hooks.get('unreachable')
            if h:
                h(self, s, t)
            return []
        if t.op == 'br':
            if not t.ops:
                return [(t.succ[0], self.edge(s, b, t.succ[0], func))]
            c = self.val(s, t.ops[0])
            if isinstance(c, Undef):
                c = self.undef_int(t.ops[0].ty)
            for truth, dst in ((True, t.succ[0]), (False, t.succ[1])):
                for n in self.assume(s, c, truth):
                    if c.t[0] != 'c':
                        n.path = ('%s:%s' % (t.loc(), 'T' if truth else 'F'), n.path)
                    out.append((dst, self.edge(n, b, dst, func)))
            return out
        if t.op == 'switch':
            v = self.val(s, t.ops[0])
            rest = [s]
            for n, dst in t.cases:
                nxt = []
                for r in rest:
                    if isinstance(v, Undef):
                        v = self.undef_int(t.ops[0].ty)
                    c = Cond('cmp', 'eq', v, Int(v.w, Lin(n if n < (1 << (v.w - 1)) else n - (1 << v.w))))
                    for x in self.assume(r, c, True):
                        x.path = ('%s:case %d' % (t.loc(), n), x.path)
                        out.append((dst, self.edge(x, b, dst, func)))
                    nxt.extend(self.assume(r, c, False))
                rest = nxt
            for r in rest:
                r.path = ('%s:default' % t.loc(), r.path)
                out.append((t.succ[0], self.edge(r, b, t.succ[0], func)))
            return out
        raise Unsupported('terminator ' + t.op)

    def run_graph(self, entries, func, body=None, header=None):
        """run (block, state) entries to the region's frontier.
        returns (back, exits, finals)"""
        heap = []
        n = 0
        for b, s in entries:
            heapq.heappush(heap, (func.order[b], n, b, s))
            n += 1
        back, exits, finals = [], [], []
        start = header is not None
        while heap:
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            if n > self.max_states * 20:
                raise Unsupported('too many states')
            _, _, b, s = heapq.heappop(heap)
            if b in func.loops and b != header:
                same = [x for x in heap if x[2] == b]
                if len(same) >= self.merge_at:
                    heap = [x for x in heap if x[2] != b]
                    heapq.heapify(heap)
                    group = self.merge(func, b, [s] + [x[3] for x in sorted(same, key=lambda x: x[1])])
                    s = group[0]
                    for x in group[1:]:
                        n += 1
                        heapq.heappush(heap, (func.order[b], n, b, x))
                    if len(group) > self.merge_at:
                        # not reducible: do not try again for these
                        succ = []
                        for x in group:
                            succ.extend(self.run_loop(func, b, x))
                        heap = [x for x in heap if x[2] != b]
                        heapq.heapify(heap)
                    else:
                        succ = self.run_loop(func, b, s)
                else:
                    succ = self.run_loop(func, b, s)
            else:
                succ = self.run_block(s, b, func)
            for d, x in succ:
                if d is None:
                    finals.append(x)
                elif d == header:
                    back.append(x)
                elif body is not None and d not in body:
                    exits.append((d, x))
                else:
                    n += 1
                    heapq.heappush(heap, (func.order[d], n, d, x))
        return back, exits, finals

    # ---- merging of states at a loop entry
    def live(self, func):
        r = self._live.get(func.name)
        if r is not None:
            return r
        use, dfn, phis = {}, {}, {}
        for b, B in enumerate(func.blocks):
            u, d = set(), set()
            for i in B.insts:
                if i.op == 'phi':
                    d.add(i.id)
                    for p, v in i.incoming:
                        if v.k in ('inst', 'arg'):
                            phis.setdefault(p, set()).add(v.id)
                    continue
                ops = list(i.ops)
                if i.callee is not None:
                    ops.append(i.callee)
                for v in ops:
                    if v.k in ('inst', 'arg') and v.id not in d:
                        u.add(v.id)
                d.add(i.id)
            use[b], dfn[b] = u, d
        r = {b: set(use[b]) for b in use}
        ch = True
        while ch:
            ch = False
            for b in reversed(range(len(func.blocks))):
                out = set(phis.get(b, ()))
                for s in func.blocks[b].insts[-1].succ or ():
                    out |= r[s]
                for _, s in func.blocks[b].insts[-1].cases or ():
                    out |= r[s]
                n = use[b] | (out - dfn[b])
                if n != r[b]:
                    r[b] = n
                    ch = True
        for b, B in enumerate(func.blocks):
            for i in B.insts:
                if i.op == 'phi':
                    r[b].add(i.id)      # assigned on the edge
        self._live[func.name] = r
        return r

    def merge(self, func, b, states):
        """weakly join states that agree on every live value"""
        live = self.live(func)[b]
        groups = {}
        order = []
        for s in states:
            def shape(v):
                return ('term',) + tuple(x for x in v.k if not isinstance(x, int)) if isinstance(v, Term) and v.k[0] in ('tok', 'loop') else v
            k = (tuple(sorted(((i, shape(v)) for i, v in s.regs.items() if i in live), key=lambda x: str(x[0]))),
                 tuple(sorted(((r.name, sg, f), cs) for (r, sg, f), cs in s.cells.items() if cs)) if False else
                 tuple(sorted((((r.name, sg, f), cs) for (r, sg, f), cs in s.cells.items() if cs), key=lambda x: x[0])),
                 s.dirty, tuple(sorted(s.gn.items(), key=repr)), tuple(sorted(s.gd.items(), key=repr)))
            try:
                g = groups.get(k)
            except TypeError:
                return states
            if g is None:
                groups[k] = [s]
                order.append(k)
            else:
                g.append(s)
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            out.append(self.join_states(g, live))
        return out

    def join_states(self, g, live):
        n = g[0].fork()
        c = g[0].cons
        for s in g[1:]:
            x = Cons()
            for eq, e in c.rows:
                if s.cons.entails(eq, e):
                    x = x.add(eq, e)
                elif eq:
                    for r in (e, -e):
                        if s.cons.entails(False, r):
                            x = x.add(False, r)
            for eq, e in s.cons.rows:
                if c.entails(eq, e):
                    x = x.add(eq, e)
                elif eq:
                    for r in (e, -e):
                        if c.entails(False, r):
                            x = x.add(False, r)
            for q in set(c.ranges) | set(s.cons.ranges):
                (a, b), (d, e) = c.bounds(var(q)), s.cons.bounds(var(q))
                if a is not None and d is not None:
                    x = x.add(False, var(q) - min(a, d))
                if b is not None and e is not None:
                    x = x.add(False, -var(q) + max(b, e))
            c = x
        n.cons = c
        n.divs = {k: v for k, v in n.divs.items() if all(s.divs.get(k) == v for s in g[1:])}
        for i, v in list(n.regs.items()):
            if any(s.regs.get(i) != v for s in g[1:]):
                if i in live and isinstance(v, Term):
                    n.regs[i] = Term('tok', 'o', fresh('o'))
                elif i not in live:
                    del n.regs[i]
        return n

    # ---- loops
    def unroll(self, func, header, e0):
        """run a loop whose iterations are all decided in the entry state; None when it is not one"""
        saved = (self.final, {k: list(v) for k, v in self.obl.items()}, dict(self.violations))
        body = func.loops[header]
        s = e0.fork()
        outs = []
        for n in range(self.max_unroll):
            try:
                succ = self.run_block(s, header, func)
                ent = []
                back, exits, finals = [], [], []
                for d, x in succ:
                    if d is None:
                        finals.append(x)
                    elif d == header:
                        back.append(x)
                    elif d not in body:
                        exits.append((d, x))
                    else:
                        ent.append((d, x))
                b, e, f = self.run_graph(ent, func, body, header)
            except Infeasible:
                b = e = f = []
            back, exits, finals = back + b, exits + e, finals + f
            if not back:
                return exits + [(None, x) for x in finals]
            if len(back) > 1 or exits or finals:
                break
            s = back[0]
        self.final, self.obl, self.violations = saved
        return None

    def run_loop(self, func, header, e0):
        out = self.unroll(func, header, e0)
        if out is not None:
            return out
        L = Loop(self, func, header, e0)
        for _ in range(12):
            try:
                return L.solve()
            except Restart:
                continue
            except EntrySplit as sp:
                out = []
                for e in self.split(L.e0, sp.alts):
                    out.extend(self.run_loop(func, header, e))
                return out
        raise Unsupported('loop at %s did not settle' % func.blocks[header].insts[0].loc())

    def run(self, fname, states):
        F = self.m.funcs.get(fname)
        if F is None or F.is_decl:
            raise Unsupported('entry point %s not found' % fname)
        self.entry = fname
        fin = []
        for s in states:
            _, _, f = self.run_graph([(0, s)], F)
            fin.extend(f)
        self.paths += len(fin)
        return fin


class Restart(Exception):
    pass


class EntrySplit(Exception):
    """the entry state of a loop must be split before the loop is analysed"""

    def __init__(self, alts):
        self.alts = alts


class Part:
    __slots__ = ('key', 'vals', 'rows', 'proto', 'joins', 'dirs', 'hs', 'shape')


class Loop:
    """fixpoint of one loop for one entry state"""

    def __init__(self, interp, func, header, e0):
        self.I = interp
        self.F = func
        self.h = header
        self.body = func.loops[header]
        self.e0 = e0
        self.phis = [i for i in func.blocks[header].insts if i.op == 'phi']
        self.modes = {}     # var -> 's' | 'u'
        self.strides = {}   # var -> (base, g)
        self.force = set()

    # header variables of a state: list of (name, kind, payload)
    def vars_of(self, s):
        out = []
        for i in self.phis:
            v = s.regs.get(i.id, UNDEF)
            out.append((('phi', i.id), v))
        for key in sorted(s.cells, key=lambda k: (k[0].name, k[1], k[2])):
            for n, (idx, v) in enumerate(s.cells[key]):
                out.append((('cell', key[0].name, key[1], key[2], idx), v))
        for k in sorted(s.gn, key=repr):
            out.append((('gn', k), s.gn[k]))
        return out

    def outer_ok(self, e):
        return all(self.isouter(q) for q in e.syms())

    def isouter(self, q):
        if q < self.level:
            return True
        m = SYMS[q].mono
        return bool(m) and all(x < self.level for x in m)

    def prepare(self, s, entry=False):
        """normalise a state arriving at the header; may raise Split/Restart"""
        I = self.I
        # drop array cells at non-outer indices
        if not entry:
            for key, cs in list(s.cells.items()):
                keep = []
                for idx, v in cs:
                    if self.outer_ok(idx):
                        keep.append((idx, v))
                        continue
                    # rewrite to an outer index if provably equal to one that exists at entry
                    if s.divs.get(('iv', key, idx)) != v:      # written since: the rest of the array is no longer initial
                        s.dirty = s.dirty | {(key[0].name, key[1])}
                e_cells = self.e0.cells.get(key, ())
                names = {i for i, _ in e_cells}
                nk = []
                for idx, v in keep:
                    if idx in names:
                        nk.append((idx, v))
                    else:
                        # cell first touched inside the loop at an outer index: materialise it at entry
                        seg = next(x for x in key[0].segs if x.name == key[1])
                        fld = seg.fields[key[2]]
                        work = self.e0
                        try:
                            if key[0].kind == 'alloca' and (key[0].name, key[1]) not in work.dirty:
                                work.cells[key] = work.cells.get(key, ()) + ((idx, UNDEF),)
                            else:
                                I.read(work, key[0], seg, idx, key[2], fld[0], fld[1])
                            raise Restart()
                        except Split as sp:
                            raise EntrySplit(sp.alts)
                        except Infeasible:
                            s.dirty = s.dirty | {(key[0].name, key[1])}
                if nk:
                    s.cells[key] = tuple(nk)
                else:
                    s.cells.pop(key, None)
        # canonical integers
        for name, v in self.vars_of(s):
            if isinstance(v, Int):
                mode = self.modes.get(name, 'u')
                if not v.e.is_const():
                    if mode == 'u':
                        lo, hi = s.cons.bounds(v.e)
                        if lo is not None and lo < 0 and hi is not None and hi < (1 << (v.w - 1)) and lo >= -(1 << (v.w - 1)):
                            self.modes[name] = 's'
                            raise Restart()
                elif mode == 'u' and v.e.c < 0:
                    self.modes[name] = 's'
                    raise Restart()
                e = I.norm(s, v, mode == 's')
                if e != v.e:
                    self.setvar(s, name, Int(v.w, e))
            elif isinstance(v, Cond) and v.t[0] != 'c':
                self.setvar(s, name, TRUE if I.want(s, v) else FALSE)
        h = I.hooks.get('prepare')
        if h:
            h(I, s, self)
        return s

    def setvar(self, s, name, v):
        if name[0] == 'phi':
            s.regs[name[1]] = v
        elif name[0] == 'gn':
            s.gn[name[1]] = v
        else:
            for key in s.cells:
                if key[0].name == name[1] and key[1] == name[2] and key[2] == name[3]:
                    s.cells[key] = tuple((i, v if i == name[4] else x) for i, x in s.cells[key])

    def prepare_all(self, s):
        out = []
        work = [s]
        n = 0
        while work:
            x = work.pop()
            n += 1
            if n > 500:
                raise Unsupported('case split explosion at a loop header')
            try:
                out.append(self.prepare(x))
            except Split as sp:
                work.extend(self.I.split(x, sp.alts))
            except Infeasible:
                pass
        return out

    def num(self, v):
        if isinstance(v, Int):
            return v.e
        if isinstance(v, Ptr):
            return v.o
        if isinstance(v, Lin):
            return v
        return None

    def key(self, s):
        k = []
        for name, v in self.vars_of(s):
            if isinstance(v, Int):
                k.append((name, 'i', v.w))
            elif isinstance(v, Ptr):
                k.append((name, 'p', v.r.name if v.r else None))
            elif isinstance(v, Lin):
                k.append((name, 'l'))
            elif isinstance(v, Term):
                # opaque values that depend on the iteration are merged
                k.append((name, 't', v if self.term_ok(v) else None))
            else:
                k.append((name, 'd', repr(v) if isinstance(v, Cond) else type(v).__name__))
        g = tuple(sorted(((repr(a), repr(b)) for a, b in s.gd.items())))
        x = self.I.partition_extra(s) if self.I.partition_extra else None
        return (tuple(k), s.dirty, g, x)

    def term_ok(self, v):
        def chk(x):
            if isinstance(x, Term):
                return all(chk(y) for y in x.k)
            if isinstance(x, Lin):
                return self.outer_ok(x)
            if isinstance(x, Int):
                return self.outer_ok(x.e)
            if isinstance(x, Ptr):
                return self.outer_ok(x.o)
            if isinstance(x, int) and not isinstance(x, bool):
                return x < self.level
            return True
        return chk(v)

    def solve(self):
        I = self.I
        self.level = len(SYMS)
        self.okmono = set()
        e0 = self.e0
        try:
            ents = []
            work = [e0]
            while work:
                x = work.pop()
                try:
                    ents.append(self.prepare(x, True))
                except Split as sp:
                    work.extend(I.split(x, sp.alts))
        except Infeasible:
            return []
        if STRONG and len(ents) == 1:
            ents = self.sides(ents[0])
        if len(ents) > 1:
            out = []
            for e in ents:
                out.extend(I.run_loop(self.F, self.h, e))
            return out
        self.e0 = e0 = ents[0]
        self.level = len(SYMS)
        self.parts = {}
        saved = I.final
        I.final = False
        try:
            self.join(e0, True)
            todo = list(self.parts)
            rounds = 0
            while todo:
                rounds += 1
                if rounds > 200:
                    raise Unsupported('loop fixpoint does not converge at ' + self.loc())
                k = todo.pop(0)
                back, _, _ = self.body_run(self.parts[k])
                for d in back:
                    for s in self.prepare_all(d):
                        ch = self.join(s, False)
                        if ch is not None and ch not in todo:
                            todo.append(ch)
            # narrowing
            for _ in range(2):
                self.narrow()
            if STRONG:
                self.houdini()
        finally:
            I.final = saved
        # final pass
        out = []
        trans = []
        reached = 0
        for k, p in list(self.parts.items()):
            back, exits, fins = self.body_run(p)
            if I.final and I.check_term and back:
                for d in back:
                    trans.append((p, d))
            out.extend(exits)
            out.extend((None, f) for f in fins)
        if I.final and I.check_term and trans:
            ok = self.terminates(trans)
            I.oblige(self.e0, ok, 'termination', 'no bounded decreasing measure found for this loop', loc=self.loc())
        if I.final:
            I.loops_done.add((self.F.name, self.h))
        return out

    def loc(self):
        for i in self.F.blocks[self.h].insts:
            if i.line:
                return i.loc()
        for b in sorted(self.body):
            for i in self.F.blocks[b].insts:
                if i.line:
                    return i.loc()
        return '?'

    def body_run(self, p):
        s = self.make_state(p)
        # run the header block itself first
        try:
            succ = self.I.run_block(s, self.h, self.F)
        except Infeasible:
            return [], [], []
        back, exits, finals = [], [], []
        ent = []
        for d, x in succ:
            if d is None:
                finals.append(x)
            elif d == self.h:
                back.append(x)
            elif d not in self.body:
                exits.append((d, x))
            else:
                ent.append((d, x))
        b, e, f = self.I.run_graph(ent, self.F, self.body, self.h)
        return back + b, exits + e, finals + f

    def make_state(self, p):
        s = p.proto.fork()
        c = self.e0.cons
        for eq, e in p.rows:
            c = c.add(eq, e)
        s.cons = c
        s.divs = {k: v for k, v in self.e0.divs.items()}
        for name, v in p.vals.items():
            self.setvar(s, name, v)
        return s

    # vals: name -> value with header symbols
    def mkpart(self, s, k):
        p = Part()
        p.key = k
        p.joins = 0
        p.dirs = set()
        p.rows = []
        p.hs = {}
        p.vals = {}
        p.proto = self.e0.fork()
        p.proto.dirty = s.dirty
        p.proto.gd = dict(s.gd)
        p.proto.gn = dict(s.gn)
        p.proto.cells = dict(s.cells)
        for i in self.phis:
            if i.id in s.regs:
                p.proto.regs[i.id] = s.regs[i.id]
        p.proto.path = s.path if s is self.e0 else ('loop@%s' % self.loc(), self.e0.path)
        return p

    def hsym(self, p, name, v):
        h = p.hs.get(name)
        if h is None:
            lo = hi = None
            if isinstance(v, Int):
                lo, hi = (0, (1 << v.w) - 1) if self.modes.get(name, 'u') == 'u' else (-(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)
            nm = {'phi': 'phi%s', 'cell': 'cell%s', 'gn': 'gn%s'}[name[0]] % (str(name[1]) if name[0] != 'cell' else name[2])
            h = fresh('h_' + nm, lo, hi)
            p.hs[name] = h
        return h

    def stride(self, name, diff):
        """update the (g) of a strided variable with a new difference from its base"""
        g = self.strides[name][1]
        n = diff.c
        for _, k in diff.t:
            n = gcd(n, k)
        g2 = gcd(g, n)
        if g2 != g:
            self.strides[name] = (self.strides[name][0], g2) if g2 > 1 else (ZERO, 1)
            return True
        return False

    def join(self, s, entry):
        """add a state to its partition; returns the key if the partition changed"""
        I = self.I
        k = self.key(s)
        p = self.parts.get(k)
        names = [(n, v) for n, v in self.vars_of(s)]
        if p is None:
            p = self.mkpart(s, k)
            self.parts[k] = p
            if entry:
                for n, v in names:
                    if self.num(v) is not None:
                        p.vals[n] = v
                return k
            defs = []
            for n, v in names:
                e = self.num(v)
                if e is None:
                    if isinstance(v, Term) and not self.term_ok(v):
                        p.vals[n] = Term('loop', fresh('t'))
                    continue
                if self.outer_ok(e):
                    p.vals[n] = v
                    continue
                p.vals[n] = self.abstract(p, n, v, s, defs)
            p.rows = self.proj(s, p, defs)
            p.rows += [r for r in self.template_rows(p, [(s, defs)], None) if r not in p.rows]
            self.reduce(p)
            return k
        # existing partition: unify shapes
        defsA, defsD = [], []
        newvals = {}
        changed_shape = False
        for n, v in names:
            e = self.num(v)
            if e is None:
                if isinstance(v, Term) and n not in p.vals and not self.term_ok(v):
                    p.vals[n] = Term('loop', fresh('t'))
                continue
            a = p.vals[n]
            ea = self.num(a)
            if ea == e and n not in p.hs:
                newvals[n] = a
                continue
            if n in p.hs:
                base, g = self.strides.get(n, (ZERO, 1))
                d = (e - base).div(g)
                if d is None:
                    self.stride(n, e - base)
                    raise Restart()
                defsA.append((n, p.hs[n], None))
                defsD.append((p.hs[n], d))
                newvals[n] = a
                continue
            changed_shape = True
            nv = self.abstract(p, n, v, s, defsD, ea)
            base, g = self.strides.get(n, (ZERO, 1))
            da = (ea - base).div(g)
            if da is None:
                self.stride(n, ea - base)
                raise Restart()
            defsA.append((n, p.hs[n], da))
            newvals[n] = nv
        if not changed_shape and self.included(p, s, defsD):
            return None
        p.joins += 1
        # ---- the two systems over outer symbols and primed header symbols
        ren = {}
        ca = self.e0.cons
        try:
            for eq, e in p.rows:
                ca = ca.add(eq, e)
        except Infeasible:
            ca = None
        prim = {}
        for n, h, da in defsA:
            y = SYMS[h]
            prim[h] = fresh(y.name + "'", y.lo, y.hi)
        A = (ca, [(prim[h], var(h) if da is None else da) for n, h, da in defsA])
        D = (s.cons, [(prim[h], d) for h, d in defsD])
        back = {prim[h]: var(h) for h in prim}
        dirs = set()
        if p.joins <= 3:
            fw = {h: var(prim[h]) for h in prim}
            if not changed_shape:
                for eq, e in p.rows:
                    self.add_dir(dirs, eq, e.subst(fw))
            else:
                for eq, e in self.project(A, prim):
                    self.add_dir(dirs, eq, e)
            for eq, e in self.project(D, prim):
                self.add_dir(dirs, eq, e)
            if p.joins <= 2:
                p.vals.update(newvals)
                for t in self.templates(p, {h: var(x) for h, x in prim.items()}):
                    dirs.add(t)
        else:
            fw = {h: var(prim[h]) for h in prim}
            for eq, e in p.rows:
                self.add_dir(dirs, eq, e.subst(fw))
            if p.joins <= 9:
                dirs |= {x.subst(fw) for x in p.dirs}
        must = I.hooks.get('must_dirs')
        if must:
            q = dict(p.vals)
            q.update(newvals)
            for e in must(self, q):
                self.add_dir(dirs, True, e.subst({h: var(prim[h]) for h in prim}))
        rows = []
        sysA, sysD = self.system(A), self.system(D)
        for t in dirs:
            mD = self.inf(sysD, t)
            mA = self.inf(sysA, t)
            if mA is None or mD is None:
                continue
            if p.joins > 4 and mD < mA:
                p.dirs.add(t.subst(back))
                if mD < -1:
                    continue       # widening
                mD = mA = min(mD, 1)
            m = min(mA, mD)
            rows.append((False, t - m))
            p.dirs.add(t.subst(back))
        p.rows = [(eq, e.subst(back)) for eq, e in rows]
        p.vals.update(newvals)
        self.reduce(p)
        return k

    def add_dir(self, dirs, eq, e):
        t = Lin(0, e.t)
        if t.t:
            dirs.add(t)
            if eq:
                dirs.add(-t)

    def system(self, S):
        c, defs = S
        if c is None:
            return None
        try:
            for h, e in defs:
                c = c.add(True, var(h) - e)
        except Infeasible:
            return None
        return c

    def inf(self, c, t):
        if c is None:
            return 1 << 300
        try:
            m = c.maxi(-t)
        except Infeasible:
            return 1 << 300
        return None if m is None else -m

    def project(self, S, prim):
        c = self.system(S)
        if c is None:
            return []
        keep = set(prim.values())
        # outer symbols connected to the primed ones
        rows, ss = c.comp(list(keep))
        keep |= {q for q in ss if self.isouter(q)}
        try:
            rows = c.project(keep)
        except Infeasible:
            return []
        return [r for r in rows]

    def proj(self, s, p, defs):
        """rows of a first state over outer and header symbols"""
        c = s.cons
        hs = set()
        for h, e in defs:
            c = c.add(True, var(h) - e)
            hs.add(h)
        out = []
        # everything that was learnt about the outer symbols or relates them to header symbols
        syms = {q for _, e in c.rows for q in e.syms()} | hs
        keep = {q for q in syms if self.isouter(q)} | hs
        done = set()
        for q in sorted(keep):
            if q in done:
                continue
            rows, ss = c.comp([q])
            done |= ss
            k = ss & keep
            for r in c.project(k):
                if r[1].t:
                    out.append(r)
        base = self.e0.cons
        out = [r for r in out if not (all(self.isouter(q) for q in r[1].syms()) and base.entails(*r))]
        # ranges learnt
        for q, (a, b) in c.ranges.items():
            if q in keep and q not in done:
                if a is not None:
                    out.append((False, var(q) - a))
                if b is not None:
                    out.append((False, -var(q) + b))
        return out

    def abstract(self, p, n, v, s, defs, ea=None):
        """introduce a header symbol for a variable; returns the value and appends (h, expr)"""
        e = self.num(v)
        if n not in self.strides:
            base, g = ZERO, 1
            e0v = dict(self.vars_of(self.e0)).get(n)
            b0 = self.num(e0v) if e0v is not None else None
            if isinstance(v, Ptr) or isinstance(v, Int):
                if b0 is not None and (not isinstance(v, Ptr) or e0v.r is v.r):
                    d = e - b0
                    g = abs(d.c)
                    for _, k in d.t:
                        g = gcd(g, k)
                    if g > 1:
                        base = b0
                    else:
                        g = 1
                elif isinstance(v, Ptr):
                    g = 0
                    for _, k in e.t:
                        g = gcd(g, k)
                    if g > 1:
                        base = Lin(e.c % g)
                    else:
                        g = 1
            self.strides[n] = (base, g)
        base, g = self.strides[n]
        d = (e - base).div(g)
        if d is None:
            self.stride(n, e - base)
            if self.strides[n][1] == 1:
                self.strides[n] = (ZERO, 1)
            raise Restart()
        h = self.hsym(p, n, v)
        if g > 1:
            SYMS[h].lo = SYMS[h].hi = None
        defs.append((h, d))
        ne = base + var(h) * g
        if isinstance(v, Int):
            return Int(v.w, ne)
        if isinstance(v, Ptr):
            return Ptr(v.r, ne)
        return ne

    def templates(self, p, ren=None):
        """difference / sum templates over header values and outer symbols"""
        def prim(e):
            g = 0
            for _, k in e.t:
                g = gcd(g, k)
            return Lin(0, tuple((s, k // g) for s, k in e.t))
        hv = []
        outer = {}
        for n, v in p.vals.items():
            e = self.num(v)
            if e is None:
                continue
            if n in p.hs:
                b, g = self.strides.get(n, (ZERO, 1))
                hv.append((prim(e), var(p.hs[n])))
            elif e.t:
                outer[prim(e)] = 1
        if not hv:
            return []
        ex = self.I.hooks.get('template_terms')
        if ex:
            for e in ex(self, p):
                outer[Lin(0, e.t)] = 1
        rel = set()
        for a, _ in hv:
            rel.update(q for q in a.syms() if q < self.level)
        for eq, e in p.rows:
            rel.update(q for q in e.syms() if q < self.level)
        for eq, e in self.e0.cons.rows:
            sy = e.syms()
            if len(sy) <= 3:
                rel.update(q for q in sy if q < self.level and len(rel) < 14 and SYMS[q].mono is None)
        for q in sorted(rel)[:14]:
            outer[var(q)] = 1
        out = set()
        hl = [a for a, _ in hv]
        for i, a in enumerate(hl):
            out.add(a)
            out.add(-a)
            others = list(outer) + hl[i + 1:]
            for b in others:
                for sg in (1, -1):
                    t = a + b * sg
                    t = Lin(0, t.t)
                    if t.t:
                        out.add(t)
                        out.add(-t)
        # exact combination a + b - c of header values with outer
        if len(hl) <= 4:
            for i, a in enumerate(hl):
                for b in hl[i + 1:]:
                    for o in list(outer)[:10]:
                        for t in (a + b - o, a - b - o, a - b + o, a + b + o):
                            t = Lin(0, t.t)
                            if len(t.t) >= 3:
                                out.add(t)
                                out.add(-t)
        if ren:
            out = {t.subst(ren) for t in out}
        return out

    def template_rows(self, p, systems, _):
        out = []
        for t in self.templates(p):
            m = None
            for s, defs in systems:
                c = self.system((s.cons, defs))
                x = self.inf(c, t)
                if x is None:
                    m = None
                    break
                m = x if m is None else min(m, x)
            if m is not None and m < (1 << 299):
                p.dirs.add(t)
                lo = self.e0.cons.interval(t)[0]
                if lo is None or m > lo:
                    out.append((False, t - m))
        return out

    def included(self, p, s, defsD):
        # rename: header symbols in s are old values, so use primed copies
        prim = {}
        cc = s.cons
        try:
            for h, d in defsD:
                y = SYMS[h]
                q = fresh(y.name + "'", y.lo, y.hi)
                prim[h] = var(q)
                cc = cc.add(True, var(q) - d)
            for eq, e in p.rows:
                if not cc.entails(eq, e.subst(prim)):
                    return False
        except Infeasible:
            return True
        return True

    def reduce(self, p):
        """drop rows implied by the others"""
        rows = list(dict.fromkeys(p.rows))
        # merge opposite inequalities into equalities
        st = {e for eq, e in rows if not eq}
        out = []
        done = set()
        for eq, e in rows:
            if not eq and (-e) in st:
                if e in done:
                    continue
                done.add(e)
                done.add(-e)
                out.append((True, e))
            else:
                out.append((eq, e))
        rows = sorted(out, key=lambda r: (not r[0], len(r[1].t), sum(abs(k) for _, k in r[1].t)))
        base = self.e0.cons
        keep = []
        c = base
        try:
            for eq, e in rows:
                if c.entails(eq, e):
                    continue
                c = c.add(eq, e)
                keep.append((eq, e))
            # second sweep, most complex first
            i = len(keep) - 1
            while i >= 0 and len(keep) > 1:
                eq, e = keep[i]
                if not eq:
                    c = base
                    for j, r in enumerate(keep):
                        if j != i:
                            c = c.add(*r)
                    if c.entails(eq, e):
                        del keep[i]
                i -= 1
        except Infeasible:
            pass
        p.rows = keep

    def narrow(self):
        contrib = {k: [] for k in self.parts}
        k0 = self.key(self.e0)
        contrib[k0].append(self.e0)
        todo, seen = [k0], {k0}
        while todo:
            back, _, _ = self.body_run(self.parts[todo.pop()])
            for d in back:
                for s in self.prepare_all(d):
                    kk = self.key(s)
                    if kk not in contrib:
                        raise Unsupported('narrowing reached a new partition')
                    contrib[kk].append(s)
                    if kk not in seen:
                        seen.add(kk)
                        todo.append(kk)
        for k in list(self.parts):
            if k not in seen:
                del self.parts[k]
        for k, p in self.parts.items():
            if not p.hs and p.rows == []:
                continue
            if not contrib[k]:
                continue
            prim = {h: fresh(SYMS[h].name + "'", SYMS[h].lo, SYMS[h].hi) for h in p.hs.values()}
            fw = {h: var(x) for h, x in prim.items()}
            back = {x: var(h) for h, x in prim.items()}
            systems = []
            for s in contrib[k]:
                defs = []
                vs = dict(self.vars_of(s))
                for n, h in p.hs.items():
                    base, g = self.strides.get(n, (ZERO, 1))
                    d = (self.num(vs[n]) - base).div(g)
                    if d is None:
                        raise Unsupported('stride changed while narrowing')
                    defs.append((prim[h], d))
                systems.append(self.system((s.cons, defs)))
            dirs = {t.subst(fw) for t in p.dirs}
            for t in self.templates(p, fw):
                dirs.add(t)
            cur = self.e0.cons
            try:
                for eq, e in p.rows:
                    cur = cur.add(eq, e)
            except Infeasible:
                continue
            add = []
            for t in dirs:
                m = None
                for c in systems:
                    x = self.inf(c, t)
                    if x is None:
                        m = None
                        break
                    m = x if m is None else min(m, x)
                if m is None or m >= (1 << 299):
                    continue
                r = (t - m).subst(back)
                if not cur.entails(False, r):
                    add.append((False, r))
            if add:
                p.rows = p.rows + add
                self.reduce(p)

    def sides(self, e):
        """split the entry by where the loop's counters start relative to the tracked slots"""
        pts = []
        for key, cs in e.cells.items():
            pts += [(key[0].name, key[1], idx) for idx, _ in cs]
        for o in self.I.objects:
            for (r, seg), l in o.tracked.items():
                pts += [(r, seg, idx) for name, idx in l if ('obj', r, seg, name) in e.gd]
        for i in self.phis:
            v = e.regs.get(i.id, UNDEF)
            for r, seg, idx in dict.fromkeys(pts):
                if isinstance(v, Int):
                    d = v.e - idx
                elif isinstance(v, Ptr) and v.r and v.r.name == r:
                    d = None
                    for s in v.r.segs:
                        if s.name == seg and s.stride:
                            try:
                                d = (v.o - s.base).div(s.stride)
                            except (AttributeError, TypeError):
                                d = None
                    if d is None:
                        continue
                    d = d - idx
                else:
                    continue
                if not d.t:
                    continue
                lo, hi = e.cons.bounds(d)
                if (lo is not None and lo > 0) or (hi is not None and hi < 0) or (lo == 0 and hi == 0):
                    continue
                return self.I.split(e, [[('row', False, d - 1)], [('row', True, d)], [('row', False, -d - 1)]])
        return [e]

    def houdini(self):
        """strengthen each partition by the template rows that hold when it is entered from elsewhere and that
        the body preserves when all of them are assumed (what widening lost and no exit test restores)"""
        k0 = self.key(self.e0)
        for k, p in list(self.parts.items()):
            if not p.hs:
                continue
            out = [self.e0] if k == k0 else []
            for k2, p2 in self.parts.items():
                if k2 != k:
                    out += [s for s in self.contributions(p2) if self.key(s) == k]
            if not out:
                continue
            prim = {h: fresh(SYMS[h].name + "'", SYMS[h].lo, SYMS[h].hi) for h in p.hs.values()}
            fw = {h: var(x) for h, x in prim.items()}
            back = {x: var(h) for h, x in prim.items()}
            base = p.rows
            cur = self.rows_on(base)
            if cur is None:
                continue
            dirs = {t.subst(fw) for t in p.dirs} | set(self.templates(p, fw))
            sysd = [self.header_system(p, prim, s) for s in out]
            cand = []
            for t in dirs:
                m = None
                for c in sysd:
                    x = self.inf(c, t)
                    if x is None or x >= (1 << 299):
                        m = None
                        break
                    m = x if m is None else min(m, x)
                if m is not None:
                    for x in {m, min(m, 1), min(m, 0), min(m, -1)}:
                        r = (t - x).subst(back)
                        if not cur.entails(False, r):
                            cand.append(r)
            # a loop that runs while two quantities differ keeps the side they start on
            own = set(p.hs.values())
            seen = {d for h in own for d in self.I.apart.get(h, ()) if all(q in own or q < self.level for q in d.syms())}
            for d in sorted(seen | {-d for d in seen}, key=repr):
                if cur.entails(False, d) or d in cand:
                    continue
                t = d.subst(fw)
                lo = [self.inf(c, t) for c in sysd]
                if all(x is not None and x >= 0 for x in lo):
                    cand.append(d)
            for _ in range(8):
                if not cand:
                    break
                p.rows = base + [(False, r) for r in cand]
                if self.rows_on(p.rows) is None:
                    cand = []
                    break
                own = [self.header_system(p, prim, s) for s in self.contributions(p) if self.key(s) == k]
                keep = []
                for r in cand:
                    t = r.subst(fw)
                    lo = [self.inf(c, t) for c in own]
                    if all(x is not None and x >= 0 for x in lo):
                        keep.append(r)
                if len(keep) == len(cand):
                    break
                cand = keep
            else:
                cand = []
            p.rows = base + [(False, r) for r in cand]
            if cand:
                self.reduce(p)

    def contributions(self, p):
        back, _, _ = self.body_run(p)
        return [s for d in back for s in self.prepare_all(d)]

    def rows_on(self, rows):
        c = self.e0.cons
        try:
            for eq, e in rows:
                c = c.add(eq, e)
        except Infeasible:
            return None
        return c

    def header_system(self, p, prim, s):
        vs = dict(self.vars_of(s))
        defs = []
        for n, h in p.hs.items():
            base, g = self.strides.get(n, (ZERO, 1))
            d = (self.num(vs[n]) - base).div(g)
            if d is None:
                raise Unsupported('stride changed while narrowing')
            defs.append((prim[h], d))
        return self.system((s.cons, defs))

    # ---- termination
    def terminates(self, trans):
        """lexicographic ranking: repeatedly find a linear measure that never increases, is bounded below
        and strictly decreases on some transitions; drop those; until none is left"""
        rest = list(trans)
        guard = 0
        while rest and guard < 6:
            guard += 1
            progress = False
            for f in self.measures(rest):
                dec = []
                ok = True
                for p, d in rest:
                    a = f(p, None)
                    b = f(p, d)
                    if a is None or b is None:
                        ok = False
                        break
                    if not d.cons.entails(False, a - b):
                        ok = False
                        break
                    if d.cons.entails(False, a - b - 1) and self.below(d, a):
                        dec.append((p, d))
                if ok and dec:
                    ids = {id(x[1]) for x in dec}
                    rest = [x for x in rest if id(x[1]) not in ids]
                    progress = True
                    break
            if not progress:
                # partitions that cannot be re-entered terminate as well
                r2 = self.acyclic(rest)
                if len(r2) < len(rest):
                    rest = r2
                    continue
                return False
        return not rest

    def acyclic(self, rest):
        """drop transitions between partitions that lie on no cycle"""
        def kk(d):
            for s in self.prepare_all(d.fork()):
                return self.key(s)
        edges = []
        for p, d in rest:
            try:
                edges.append((p.key, kk(d), (p, d)))
            except (Restart, Unsupported):
                return rest
        succ = {}
        for a, b, _ in edges:
            succ.setdefault(a, set()).add(b)

        def reach(a, b):
            seen, st = set(), [a]
            while st:
                x = st.pop()
                if x == b:
                    return True
                if x in seen:
                    continue
                seen.add(x)
                st.extend(succ.get(x, ()))
            return False
        return [t for a, b, t in edges if reach(b, a)]

    def below(self, d, a):
        lo = d.cons.bounds(a)[0]
        if lo is not None:
            return True
        return False

    def measures(self, trans):
        names = [n for n, _ in self.vars_of(self.e0) if n[0] == 'phi' or n[0] == 'cell' or n[0] == 'gn']
        num = []
        for n in names:
            if all(n in p.vals and self.num(p.vals[n]) is not None for p, _ in trans):
                num.append(n)

        def getter(n):
            def g(p, d):
                if d is None:
                    return self.num(p.vals[n])
                v = self.cur_val(d, n)
                return self.num(v) if v is not None else None
            return g

        gs = [getter(n) for n in num]

        def comb(g, sg, h=None, sh=0):
            def f(p, d):
                x = g(p, d)
                if x is None:
                    return None
                x = x * sg
                if h is not None:
                    y = h(p, d)
                    if y is None:
                        return None
                    x = x + y * sh
                return x
            return f
        for g in gs:
            yield comb(g, 1)
            yield comb(g, -1)
        # against outer bounds: x - o is the same measure; boundedness is checked through the constraints
        for i, g in enumerate(gs):
            for h in gs[i + 1:]:
                for a, b in ((1, -1), (-1, 1), (1, 1), (-1, -1)):
                    yield comb(g, a, h, b)
        ex = self.I.hooks.get('measures')
        if ex:
            for f in ex(self, trans):
                yield f

    def cur_val(self, d, n):
        if n[0] == 'phi':
            return d.regs.get(n[1])
        if n[0] == 'gn':
            return d.gn.get(n[1])
        for key, cs in d.cells.items():
            if key[0].name == n[1] and key[1] == n[2] and key[2] == n[3]:
                for i, v in cs:
                    if i == n[4]:
                        return v
        return None


class InitVal:
    pass
