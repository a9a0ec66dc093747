"""Decimal digits of an input as the basis of a value domain.

An integer input t is written t = sum of 10^j d_j (d_j its decimal digits); every value computed from it is an integer
V = sum of c_j d_j + k + delta with exact rational c_j, k and delta in a known interval, read modulo 2^w.  Divisions and
shifts resolve to exact digit groups when the fractional part is shown to stay inside [m, m+1) over all t of the path
(exact maximum over digit strings of the path's interval).  A path is an interval of t."""
from fractions import Fraction as Fr
from math import gcd
from . import llvm


class Unsupported(Exception):
    pass


class Bug(Exception):
    """undefined behaviour on the path: (rule, message, location)"""


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off=0):
        self.r, self.off = r, off            # off: int or Num (64 bit)

    def __repr__(self):
        return '%s+%s' % (self.r, self.off)


class Region:
    def __init__(self, name, kind, data=None, size=None):
        self.name, self.kind, self.data, self.size = name, kind, data, size

    def __repr__(self):
        return self.name


class Num:
    """integer sum c_j d_j + k + delta, modulo 2^w"""
    __slots__ = ('w', 'c', 'k', 'dl', 'dh')

    def __init__(self, w, c=None, k=0, dl=0, dh=0):
        self.w, self.c, self.k, self.dl, self.dh = w, {j: x for j, x in (c or {}).items() if x}, Fr(k), Fr(dl), Fr(dh)

    def const(self):
        if not self.c and self.dl == self.dh == 0:
            return int(self.k) & ((1 << self.w) - 1)
        return None

    @property
    def exact(self):
        return self.dl == 0 == self.dh

    def same(self, o):
        return self.c == o.c and self.k == o.k and self.exact and o.exact

    def __repr__(self):
        return 'i%d(%s + %s + [%s,%s])' % (self.w, ' '.join('%.6g*d%d' % (float(x), j) for j, x in sorted(self.c.items())), float(self.k), float(self.dl), float(self.dh))


class Ext:
    """an extension whose operand's range is not known yet"""
    __slots__ = ('v', 'w', 'signed')

    def __init__(self, v, w, signed):
        self.v, self.w, self.signed = v, w, signed


class Cells:
    """an integer made of bytes that are table entries"""

    def __init__(self, cells):
        self.cells = cells


class Set:
    """a condition: the t for which it is true, as disjoint ascending closed intervals"""

    def __init__(self, iv):
        self.iv = iv


FULL = 1 << 70


def s_not(s):
    out, at = [], 0
    for a, b in s.iv:
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= FULL:
        out.append((at, FULL))
    return Set(out)


def s_and(p, q):
    out = []
    for a, b in p.iv:
        for x, y in q.iv:
            l, h = max(a, x), min(b, y)
            if l <= h:
                out.append((l, h))
    return Set(sorted(out))


def s_or(p, q):
    return s_not(s_and(s_not(p), s_not(q)))


TRUE, FALSE = Set([(0, FULL)]), Set([])


def digits(t, n):
    return [t // 10 ** j % 10 for j in range(n)]


class State:
    __slots__ = ('regs', 'mem', 'lo', 'hi', 'blk', 'pred', 'writes')

    def copy(self):
        s = State()
        s.regs, s.mem = dict(self.regs), {r: dict(m) for r, m in self.mem.items()}
        s.lo, s.hi, s.blk, s.pred, s.writes = self.lo, self.hi, self.blk, self.pred, self.writes
        return s


class Run:
    def __init__(self, mod, nd=20, max_paths=400):
        self.mod, self.nd = mod, nd
        self.max_paths = max_paths
        self.opt = {}
        self.hint = set()         # inputs at which a bound is attained
        self.globals = {}
        self.paths = 0
        self.steps = 0

    # ---- ranges
    def extreme(self, c, lo, hi):
        """exact (min, argmin, max, argmax) of sum c_j d_j over lo <= t <= hi"""
        key = (tuple(sorted(c.items())), lo, hi)
        r = self.opt.get(key)
        if r is not None:
            return r
        n = self.nd
        L, H = digits(lo, n), digits(hi, n)
        den = 1
        for x in c.values():
            x = Fr(x)
            den = den * x.denominator // gcd(den, x.denominator)
        cc = [int(Fr(c.get(j, 0)) * den) for j in range(n)]
        best = {(True, True): ((0, 0), (0, 0))}          # tight flags -> ((max, t), (min, t))
        for j in range(n - 1, -1, -1):
            new = {}
            for (tl, th), (mx, mn) in best.items():
                a, b = (L[j] if tl else 0), (H[j] if th else 9)
                # only the ends of the digit range and the first/last inner digit can be extreme
                for d in {a, b, min(a + 1, b), max(b - 1, a)}:
                    k = (tl and d == a, th and d == b)
                    v1 = (mx[0] + cc[j] * d, mx[1] * 10 + d)
                    v2 = (mn[0] + cc[j] * d, mn[1] * 10 + d)
                    o = new.get(k)
                    new[k] = (v1, v2) if o is None else (max(o[0], v1, key=lambda x: x[0]), min(o[1], v2, key=lambda x: x[0]))
            best = new
        mx = max((b[0] for b in best.values()), key=lambda x: x[0])
        mn = min((b[1] for b in best.values()), key=lambda x: x[0])
        r = (Fr(mn[0], den), mn[1], Fr(mx[0], den), mx[1])
        self.opt[key] = r
        return r

    def range(self, st, v):
        """integer interval of an integer value"""
        l, a, h, b = self.extreme(v.c, st.lo, st.hi)
        lo, hi = l + v.k + v.dl, h + v.k + v.dh
        return -((-lo.numerator) // lo.denominator), hi.numerator // hi.denominator, a, b

    def floor(self, st, v, C):
        """floor(V / C) resolved to an exact value, or None"""
        n, f = {}, {}
        for j, x in v.c.items():
            y = Fr(x) / C
            r = round(y)
            if abs(y - r) > Fr(1, 50):
                r = y.numerator // y.denominator
            n[j] = r
            f[j] = y - r
        l, a, h, b = self.extreme({j: x for j, x in f.items() if x}, st.lo, st.hi)
        l += (v.k + v.dl) / C
        h += (v.k + v.dh) / C
        m = l.numerator // l.denominator
        if h < m + 1:
            return n, m
        self.hint.add(a)
        self.hint.add(b)
        return None

    def divide(self, st, v, C):
        """floor(V / C) for an integer value V (any sign)"""
        r = self.floor(st, v, C)
        if r:
            return Num(v.w, r[0], r[1])
        return Num(v.w, {j: Fr(x) / C for j, x in v.c.items()}, v.k / C, v.dl / C - Fr(C - 1, C), v.dh / C)

    def canon(self, st, v, signed=False):
        """the value with its exact unsigned (signed) reading, or None"""
        if isinstance(v, Ext):
            x = self.canon(st, v.v, v.signed)
            if x is None:
                return None
            return self.canon(st, Num(v.w, x.c, x.k, x.dl, x.dh), signed)
        if not isinstance(v, Num):
            raise Unsupported('arithmetic on %s' % type(v).__name__)
        M = 1 << v.w
        off = M >> 1 if signed else 0
        lo, hi, a, b = self.range(st, v)
        q = (lo + off) // M
        if (hi + off) // M == q:
            return v if not q else Num(v.w, v.c, v.k - q * M, v.dl, v.dh)
        self.hint.add(a)
        self.hint.add(b)
        r = self.floor(st, Num(v.w, v.c, v.k + off, v.dl, v.dh), M)
        if r is None:
            return None
        c = dict(v.c)
        for j, n in r[0].items():
            c[j] = c.get(j, 0) - n * M
        return Num(v.w, c, v.k - r[1] * M, v.dl, v.dh)

    def need(self, st, v, signed=False):
        r = self.canon(st, v, signed)
        if r is None:
            raise Unsupported('a value is reduced modulo 2^%d in a way that does not resolve to digits' % v.w)
        return r

    # ---- operands
    def val(self, st, v):
        k = v.k
        if k in ('inst', 'arg'):
            if v.id not in st.regs:
                raise Unsupported('use of a value that is not available')
            return st.regs[v.id]
        if k == 'int':
            if v.ty.width == 1:
                return TRUE if v.n & 1 else FALSE
            return Num(v.ty.width, {}, v.n & ((1 << v.ty.width) - 1))
        if k == 'global':
            return self.glob(v.name)
        if k in ('undef', 'poison'):
            return None
        if k == 'null':
            return Ptr(Region('null', 'null'))
        if k == 'cexpr':
            if v.op == 'gep':
                return self.gep(st, self.val(st, v.ops[0]), v.extra, [self.val(st, o) for o in v.ops[1:]])
            if v.op == 'bitcast':
                return self.val(st, v.ops[0])
        raise Unsupported('operand ' + k)

    def glob(self, name):
        r = self.globals.get(name)
        if r is None:
            G = self.mod.globals[name]
            if not (G.const and not G.is_decl):
                raise Unsupported('global ' + name)
            r = self.globals[name] = Region('@' + name, 'const', llvm.global_bytes(G), G.size)
        return Ptr(r)

    def gep(self, st, p, ty, idx):
        if not isinstance(p, Ptr):
            raise Unsupported('address')
        off = p.off
        first = True
        for x in idx:
            if isinstance(x, Ext) or x.const() is None:
                x = self.need(st, x, True)
                k = None
            else:
                k = x.const()
                if k >> (x.w - 1):
                    k -= 1 << x.w
            if not first and ty.kind == 'struct':
                off = self.plus(off, ty.offsets[k], None)
                ty = ty.elems[k]
                continue
            if not first:
                ty = ty.elems[0]
            first = False
            off = self.plus(off, k, x if k is None else None, ty.size)
        return Ptr(p.r, off)

    def plus(self, off, k, x, size=1):
        if x is None:
            if isinstance(off, int):
                return off + k * size
            return Num(64, off.c, off.k + k * size, off.dl, off.dh)
        o = off if isinstance(off, Num) else Num(64, {}, off)
        c = dict(o.c)
        for j, y in x.c.items():
            c[j] = c.get(j, 0) + y * size
        return Num(64, c, o.k + x.k * size, o.dl + x.dl * size, o.dh + x.dh * size)

    # ---- memory
    def where(self, st, p, n, loc, what):
        off = p.off
        if isinstance(off, Num):
            lo, hi, a, b = self.range(st, off)
            if lo == hi:
                off = lo
        else:
            lo = hi = off
        if p.r.kind == 'null':
            raise Bug('memory', '%s through a null pointer' % what, loc)
        if lo < 0 or p.r.size is not None and hi + n > p.r.size:
            if isinstance(off, int):
                raise Bug('memory', '%s outside %s' % (what, p.r), loc)
            self.hint.add(a)
            self.hint.add(b)
            raise Unsupported('an access that may be outside %s' % p.r)
        return off

    def load_cells(self, st, p, n, loc):
        off = self.where(st, p, n, loc, 'read')
        r = p.r
        if r.kind == 'const':
            out = []
            for i in range(n):
                if isinstance(off, int):
                    out.append(Num(8, {}, r.data[off + i]))
                else:
                    if not off.exact:
                        raise Unsupported('a table index that is not an exact digit group')
                    out.append(('tab', r.data, Num(64, off.c, off.k + i)))
            return out
        if not isinstance(off, int):
            raise Unsupported('a load at a variable place of %s' % r)
        m = st.mem.get(r, {})
        return [m.get(off + i) for i in range(n)]

    def store_cells(self, st, p, cells, loc):
        off = self.where(st, p, len(cells), loc, 'write')
        if p.r.kind == 'const':
            raise Bug('memory', 'write to constant data', loc)
        if not isinstance(off, int):
            raise Unsupported('a store at a variable place')
        m = st.mem.setdefault(p.r, {})
        for i, x in enumerate(cells):
            m[off + i] = x
        if p.r.kind == 'out':
            st.writes = st.writes | {(off + i, loc) for i in range(len(cells))}

    # ---- conditions
    def less(self, st, a, b):
        """set of t with a < b (exact integer readings)"""
        c = dict(a.c)
        for j, x in b.c.items():
            c[j] = c.get(j, 0) - x
        d = Num(64, c, a.k - b.k, a.dl - b.dh, a.dh - b.dl)
        lo, hi, x, y = self.range(st, d)
        if hi < 0:
            return TRUE
        if lo >= 0:
            return FALSE
        self.hint.add(x)
        self.hint.add(y)
        g = self.group(st, d)
        if g is None:
            raise Unsupported('a comparison that is not a comparison of leading digits')
        s, j, k = g               # s * E_j + k < 0
        if s > 0:
            m = (-k + s - 1) // s         # E_j < ceil(-k / s)
            return Set([(0, m * 10 ** j - 1)]) if m > 0 else FALSE
        # E_j > k / (-s)
        m = k // -s + 1
        return Set([(max(m, 0) * 10 ** j, FULL)])

    def group(self, st, d):
        """(s, j, k): d = s * floor(t / 10^j) + k"""
        if not d.exact or not d.c:
            return None
        js = sorted(d.c)
        j = js[0]
        s = d.c[j]
        top = len(str(st.hi))
        for i in range(j, max(top, js[-1] + 1)):
            if i >= top:
                continue
            if d.c.get(i, 0) != s * 10 ** (i - j):
                return None
        if s.denominator != 1 or d.k.denominator != 1:
            return None
        return int(s), j, int(d.k)

    def equal(self, st, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is b.r and isinstance(a.off, int) and isinstance(b.off, int):
                return TRUE if a.off == b.off else FALSE
            if 'null' in (a.r.kind, b.r.kind) and a.r is not b.r:
                return FALSE
            raise Unsupported('comparison of pointers')
        for x, y in ((a, b), (b, a)):
            # zext(trunc(V)) == V: V fits
            if isinstance(x, Ext) and self.canon(st, x) is None:
                v = self.canon(st, y)
                if v is not None and v.exact and isinstance(x.v, Num) and not x.signed and x.v.same(v):
                    lim = Num(64, {}, 1 << x.v.w)
                    return self.less(st, v, lim)
        a, b = self.need(st, a), self.need(st, b)
        l = self.less(st, a, b)
        g = self.less(st, b, a)
        return s_not(s_or(l, g))

    def icmp(self, st, pred, a, b):
        if isinstance(a, Set) or isinstance(b, Set):
            if pred in ('eq', 'ne') and isinstance(a, Set) and isinstance(b, Set):
                x = s_or(s_and(a, s_not(b)), s_and(b, s_not(a)))
                return x if pred == 'ne' else s_not(x)
            raise Unsupported('comparison of conditions')
        if isinstance(a, Cells) or isinstance(b, Cells):
            raise Unsupported('comparison of table entries')
        if pred in ('eq', 'ne'):
            r = self.equal(st, a, b)
            return r if pred == 'eq' else s_not(r)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is not b.r or not isinstance(a.off, int) or not isinstance(b.off, int):
                raise Unsupported('comparison of pointers')
            x, y = Num(64, {}, a.off), Num(64, {}, b.off)
        else:
            sg = pred[0] == 's'
            x, y = self.need(st, a, sg), self.need(st, b, sg)
        p = pred[1:]
        if p == 'lt':
            return self.less(st, x, y)
        if p == 'ge':
            return s_not(self.less(st, x, y))
        if p == 'gt':
            return self.less(st, y, x)
        return s_not(self.less(st, y, x))

    # ---- execution
    def run(self, F, args, lo, hi, mem=None):
        """all paths for lo <= t <= hi: list of (state, returned value)"""
        st = State()
        st.regs, st.mem, st.lo, st.hi, st.blk, st.pred, st.writes = {}, dict(mem or {}), lo, hi, 0, None, frozenset()
        for a, v in zip(F.args, args):
            st.regs[a.id] = v
        work = [st]
        out = []
        while work:
            st = work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
            r = self.path(F, st, work)
            if r is not None:
                out.append(r)
        return out

    def path(self, F, st, work):
        while True:
            blk = F.blocks[st.blk]
            if st.pred is not None:
                new = {}
                for i in blk.insts:
                    if i.op != 'phi':
                        break
                    for pb, v in i.incoming:
                        if pb == st.pred:
                            new[i.id] = self.val(st, v)
                            break
                st.regs.update(new)
            nxt = None
            for i in blk.insts:
                self.steps += 1
                if self.steps > 200000:
                    raise Unsupported('too many steps')
                if i.op == 'phi':
                    continue
                if i.op == 'ret':
                    return st, (self.val(st, i.ops[0]) if i.ops else None)
                if i.op == 'unreachable':
                    return None
                if i.op == 'br':
                    if not i.ops:
                        nxt = i.succ[0]
                    else:
                        nxt = self.branch(st, self.val(st, i.ops[0]), i.succ, work)
                    break
                if i.op == 'switch':
                    v = self.val(st, i.ops[0])
                    rest = Set([(st.lo, st.hi)])
                    alts = []
                    for n, s in i.cases:
                        x = s_and(rest, self.equal(st, v, Num(v.w, {}, n)))
                        alts.append((x, s))
                        rest = s_and(rest, s_not(x))
                    alts.append((rest, i.succ[0]))
                    nxt = self.go(st, alts, work)
                    break
                if i.op == 'select':
                    c = self.val(st, i.ops[0])
                    t, f = s_and(c, Set([(st.lo, st.hi)])), s_and(s_not(c), Set([(st.lo, st.hi)]))
                    if i.ty.kind == 'int' and i.ty.width == 1:
                        a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
                        if a is None or b is None:
                            raise Unsupported('undefined condition')
                        st.regs[i.id] = s_or(s_and(c, a), s_and(s_not(c), b))
                        continue
                    if not f.iv:
                        st.regs[i.id] = self.val(st, i.ops[1])
                        continue
                    if not t.iv:
                        st.regs[i.id] = self.val(st, i.ops[2])
                        continue
                    # one path per alternative, continued after this instruction
                    raise Unsupported('a select on the input')
                r = self.step(st, i)
                st.regs[i.id] = r
            if nxt is None:
                return None
            st.pred, st.blk = blk.id, nxt

    def branch(self, st, c, succ, work):
        if not isinstance(c, Set):
            raise Unsupported('branch on an undefined value')
        here = Set([(st.lo, st.hi)])
        return self.go(st, [(s_and(c, here), succ[0]), (s_and(s_not(c), here), succ[1])], work)

    def go(self, st, alts, work):
        ways = [(a, b, s) for x, s in alts for a, b in x.iv]
        ways = [(max(a, st.lo), min(b, st.hi), s) for a, b, s in ways]
        ways = [w for w in ways if w[0] <= w[1]]
        for a, b, s in ways[1:]:
            t = st.copy()
            t.lo, t.hi, t.pred, t.blk = a, b, st.blk, s
            work.append(t)
        if not ways:
            return None
        st.lo, st.hi = ways[0][:2]
        return ways[0][2]

    def lin(self, a, b, s, w):
        c = dict(a.c)
        for j, x in b.c.items():
            c[j] = c.get(j, 0) + s * x
        dl, dh = (b.dl, b.dh) if s > 0 else (-b.dh, -b.dl)
        return Num(w, c, a.k + s * b.k, a.dl + dl, a.dh + dh)

    def scale(self, a, n, w):
        x, y = a.dl * n, a.dh * n
        return Num(w, {j: v * n for j, v in a.c.items()}, a.k * n, min(x, y), max(x, y))

    def num(self, st, v):
        """any representative modulo 2^w"""
        if isinstance(v, Ext):
            return self.need(st, v)
        if isinstance(v, Num):
            return v
        if isinstance(v, Set):
            x = s_and(v, Set([(st.lo, st.hi)]))
            if not x.iv:
                return Num(1, {}, 0)
            if not s_and(s_not(v), Set([(st.lo, st.hi)])).iv:
                return Num(1, {}, 1)
            raise Unsupported('a condition as a number')
        raise Unsupported('arithmetic on %s' % type(v).__name__)

    def step(self, st, i):
        op = i.op
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if a is None or b is None:
                raise Unsupported('undefined operand')
            w = i.ty.width
            if w == 1:
                if op == 'and':
                    return s_and(a, b)
                if op == 'or':
                    return s_or(a, b)
                if op == 'xor':
                    return s_or(s_and(a, s_not(b)), s_and(b, s_not(a)))
                raise Unsupported(op + ' on conditions')
            if i.nsw and op in ('add', 'sub', 'mul'):
                self.overflow(st, i, a, b)
            if op in ('add', 'sub'):
                return self.lin(self.num(st, a), self.num(st, b), 1 if op == 'add' else -1, w)
            if op == 'shl':
                n = self.num(st, b).const()
                if n is None:
                    raise Unsupported('shift by a variable')
                return self.scale(self.num(st, a), 1 << n, w)
            if op == 'mul':
                a, b = self.num(st, a), self.num(st, b)
                if a.const() is not None:
                    a, b = b, a
                n = b.const()
                if n is None:
                    raise Unsupported('product of two variables')
                if n >> (w - 1):
                    n -= 1 << w
                return self.scale(a, n, w)
            if op in ('or', 'xor', 'and'):
                return self.bitop(st, op, a, b, w)
            n = self.num(st, b).const()
            if n is None:
                raise Unsupported(op + ' by a variable')
            sg = op in ('ashr', 'sdiv', 'srem')
            x = self.need(st, a, sg)
            if sg and n >> (w - 1):
                raise Unsupported('division by a negative constant')
            C = 1 << n if op in ('lshr', 'ashr') else n
            if C == 0:
                raise Bug('arithmetic', 'division by zero', i.loc())
            if op in ('sdiv', 'srem') and self.range(st, x)[0] < 0:
                if self.range(st, x)[1] > 0:
                    raise Unsupported('signed division with both signs')
                # -(|x| / C)
                m = self.scale(x, -1, w)
                q = self.divide(st, m, C)
                q = self.scale(q, -1, w)
            else:
                q = self.divide(st, x, C)
            if op in ('urem', 'srem'):
                return self.lin(x, self.scale(q, C, w), -1, w) if q.exact else self.unresolved('remainder')
            return Num(w, q.c, q.k, q.dl, q.dh)
        if op in ('trunc', 'zext', 'sext', 'bitcast', 'freeze'):
            v = self.val(st, i.ops[0])
            if op in ('bitcast', 'freeze') or v is None:
                return v
            w = i.ty.width
            if isinstance(v, Set):
                if op == 'trunc':
                    raise Unsupported('trunc of a condition')
                n = self.num(st, v)
                return Num(w, {}, n.k if op == 'zext' else -n.k)
            if isinstance(v, Cells):
                if op == 'trunc':
                    return Cells(v.cells[:w // 8]) if w % 8 == 0 else self.unresolved('part of a table entry')
                raise Unsupported('extension of a table entry')
            if op == 'trunc':
                if w == 1:
                    raise Unsupported('the lowest bit of a number')
                x = self.num(st, v)
                return Num(w, x.c, x.k, x.dl, x.dh)
            x = self.canon(st, v, op == 'sext')
            if x is None:
                return Ext(v, w, op == 'sext')
            return Num(w, x.c, x.k, x.dl, x.dh)
        if op == 'icmp':
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if a is None or b is None:
                raise Unsupported('comparison of an undefined value')
            return self.icmp(st, i.pred, a, b)
        if op == 'gep':
            return self.gep(st, self.val(st, i.ops[0]), i.gty, [self.val(st, o) for o in i.ops[1:]])
        if op == 'alloca':
            return Ptr(Region('local%d' % i.id, 'local', None, i.aty.size))
        if op == 'load':
            p = self.val(st, i.ops[0])
            if i.ty.kind != 'int':
                if i.ty.kind == 'ptr':
                    x = self.load_cells(st, p, 8, i.loc())
                    if isinstance(x[0], tuple) and x[0][0] == 'ptr':
                        return x[0][1]
                raise Unsupported('load')
            n = i.ty.width // 8
            cells = self.load_cells(st, p, n, i.loc())
            if n == 1:
                x = cells[0]
                if isinstance(x, Num):
                    return x
                if x is None:
                    return None
                return Cells(cells)
            if isinstance(cells[0], tuple) and cells[0][0] == 'num':
                return cells[0][1]
            if all(isinstance(x, Num) and x.const() is not None for x in cells):
                return Num(i.ty.width, {}, sum(x.const() << 8 * j for j, x in enumerate(cells)))
            return Cells(cells)
        if op == 'store':
            v, p = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            ty = i.ops[0].ty
            if isinstance(v, Ptr):
                self.store_cells(st, p, [('ptr', v)] * 8, i.loc())
            elif isinstance(v, Cells):
                self.store_cells(st, p, v.cells, i.loc())
            elif v is None:
                self.store_cells(st, p, [None] * ty.size, i.loc())
            else:
                x = self.num(st, v)
                n = ty.width // 8
                k = x.const()
                if n == 1:
                    self.store_cells(st, p, [x], i.loc())
                elif k is not None:
                    self.store_cells(st, p, [Num(8, {}, k >> 8 * j & 255) for j in range(n)], i.loc())
                else:
                    self.store_cells(st, p, [('num', x)] + [('part', x, j) for j in range(1, n)], i.loc())
            return None
        if op == 'call':
            name = i.callee.name if i.callee.k == 'func' else ''
            if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias')):
                return None
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                n = self.num(st, self.val(st, i.ops[2])).const()
                if n is None:
                    raise Unsupported('copy of a variable length')
                if n:
                    self.store_cells(st, self.val(st, i.ops[0]), self.load_cells(st, self.val(st, i.ops[1]), n, i.loc()), i.loc())
                return None
            raise Unsupported('call of ' + name)
        raise Unsupported('instruction ' + op)

    def unresolved(self, what):
        raise Unsupported('a %s that does not resolve to digits' % what)

    def bitop(self, st, op, a, b, w):
        x, y = self.num(st, a), self.num(st, b)
        if x.const() is not None:
            x, y = y, x
        n = y.const()
        if x.const() is not None and n is not None:
            p = x.const()
            return Num(w, {}, {'or': p | n, 'and': p & n, 'xor': p ^ n}[op])
        if op == 'and' and n is not None and n & (n + 1) == 0 and n:
            k = n.bit_length()
            if k >= w:
                return x
            r = self.canon(st, Num(k, x.c, x.k, x.dl, x.dh))
            if r is None:
                return self.unresolved('mask')
            return Num(w, r.c, r.k, r.dl, r.dh)
        if op == 'xor' and n == (1 << w) - 1:
            return self.lin(Num(w, {}, -1), x, -1, w)
        if op in ('or', 'xor') and n is not None:
            # disjoint bits: the value is below the lowest set bit of the constant, or a multiple above it
            r = self.need(st, x)
            lo, hi = self.range(st, r)[:2]
            if lo >= 0 and hi < (n & -n):
                return self.lin(r, y, 1, w)
            if lo == hi:
                return Num(w, {}, lo | n if op == 'or' else lo ^ n)
        raise Unsupported(op + ' on numbers')

    def overflow(self, st, i, a, b):
        w = i.ty.width
        x, y = self.canon(st, a, True), self.canon(st, b, True)
        if x is None or y is None:
            return
        if i.op == 'mul':
            if x.c and y.c:
                return
            if y.c:
                x, y = y, x
            r = self.scale(x, y.k, w)
        else:
            r = self.lin(x, y, 1 if i.op == 'add' else -1, w)
        lo, hi, p, q = self.range(st, r)
        top = 1 << (w - 1)
        if lo < -top or hi >= top:
            self.hint |= {p, q}
            if st.lo == st.hi:
                raise Bug('arithmetic', 'signed overflow', i.loc())
            raise Unsupported('a signed operation that may overflow')


# ---- the property
def spec(t, neg):
    return ('-' if neg else '') + str(t)


def concrete(mod, fname, t, neg, w):
    """fold the function at one input: (text or None, reason)"""
    r = Run(mod)
    F = mod.funcs[fname]
    text = Region('text', 'out')
    try:
        outs = r.run(F, [Ptr(text), Num(w, {}, -t if neg else t)], t, t)
    except Bug as b:
        return None, '%s at %s' % (b.args[1], b.args[2])
    if len(outs) != 1:
        return None, 'does not return'
    st, v = outs[0]
    return text_of(st, v, text)


def text_of(st, v, text):
    if not isinstance(v, Ptr) or v.r is not text or not isinstance(v.off, int):
        return None, 'another pointer is returned'
    m = st.mem.get(text, {})
    s = ''
    for i in range(v.off):
        x = m.get(i)
        if isinstance(x, tuple) and x[0] == 'tab':
            o = int(x[2].k)
            x = Num(8, {}, x[1][o])
        if not isinstance(x, Num) or x.const() is None:
            return None, 'character %d is not written' % i
        s += chr(x.const())
    w = [o for o, l in st.writes if not 0 <= o < v.off]
    if w:
        return s, 'character %d is written beyond the end' % w[0]
    return s, ''
