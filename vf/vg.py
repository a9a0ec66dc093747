"""Value graph with canonical normal forms (value numbering).

Bit-vector values are kept in two canonical forms: per-bit algebraic normal forms (XOR of AND-monomials over
atomic bits) and polynomials modulo 2^w over vector atoms.  Anything that neither form can express becomes an atom
keyed by its canonical operands.  Two values with the same form are equal for every input; `evaluate` folds a form
to a number at one input point (used only to tell a real difference from an unrecognised rewriting)."""

ONE = frozenset((frozenset(),))
NIL = frozenset()
LIMIT = 3000


class TooBig(Exception):
    pass


class _Intern:
    def __init__(self):
        self.ids = {}
        self.defs = []

    def __call__(self, key):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.defs)
            self.defs.append(key)
        return i


bit_atoms = _Intern()     # ('var',name,i) ('lb',linkey,w,i) ('ult',abits,bbits) ('eq',linkey,w) ('fn',name,i,argkeys...) ('and',p,q)
vec_atoms = _Intern()     # (bits, signed)


def atom_bit(key):
    return frozenset((frozenset((bit_atoms(key),)),))


EXCL = {}        # atom -> atom that cannot hold at the same time
INT = False      # comparisons of values with a known integer reading go through the sign of the exact difference
ONE_M = frozenset()   # the constant term of a polynomial
WIDEN = False    # extensions of sums that cannot wrap stay sums
SUMS = {}        # bits of a sum -> the sum, for values put together again from their bits
RANGES = {}      # integer reading -> (lo, hi) established by the operation that produced it


def p_and(p, q):
    if not p or not q:
        return NIL
    if p == ONE:
        return q
    if q == ONE or p == q:
        return p
    if len(p) * len(q) > LIMIT:
        sup = _support(p, 10)
        sup = sup and _support(q, 10, sup)
        if sup:
            return _tt_and(p, q, sorted(sup))
        a, b = sorted((p, q), key=poly_key)
        return atom_bit(('and', a, b))
    r = {}
    for m in p:
        for n in q:
            k = m | n
            r[k] = not r.get(k, False)
    if EXCL:
        return frozenset(k for k, v in r.items() if v and not any(EXCL.get(a) in k for a in k))
    return frozenset(k for k, v in r.items() if v)


def _support(p, n, s=()):
    s = set(s)
    for m in p:
        s |= m
        if len(s) > n:
            return None
    return s


_MASK = {}


def _moebius(x, n):
    """coefficients of the polynomial <-> truth table, packed in one integer (bit = set of variables)"""
    if n not in _MASK:
        ms = []
        for j in range(n):
            m = (1 << (1 << j)) - 1
            w = 2 << j
            while w < 1 << n:
                m |= m << w
                w *= 2
            ms.append(m)
        _MASK[n] = ms
    for j, m in enumerate(_MASK[n]):
        x ^= (x & m) << (1 << j)
    return x


def _pack(p, pos):
    x = 0
    for m in p:
        x |= 1 << sum(1 << pos[a] for a in m)
    return x


def _unpack(x, sup):
    r = []
    while x:
        b = x & -x
        k = b.bit_length() - 1
        x ^= b
        r.append(frozenset(a for j, a in enumerate(sup) if k >> j & 1))
    return frozenset(r)


def _tt_and(p, q, sup):
    pos = {a: j for j, a in enumerate(sup)}
    n = len(sup)
    r = _unpack(_moebius(_moebius(_pack(p, pos), n) & _moebius(_pack(q, pos), n), n), sup)
    if EXCL:
        r = frozenset(k for k in r if not any(EXCL.get(a) in k for a in k))
    return r


def poly_key(p):
    return sorted(tuple(sorted(m)) for m in p)


class V:
    __slots__ = ('w', '_bits', '_lin')

    def __init__(self, w, bits=None, lin=None):
        self.w = w
        self._bits = bits
        self._lin = lin

    @property
    def bits(self):
        if self._bits is None:
            self._bits = _lin_bits(self._lin, self.w)
            if len(self._lin[1]) > 1:
                SUMS.setdefault(self._bits, self._lin)
        return self._bits

    @property
    def lin(self):
        if self._lin is None:
            self._lin = _bits_lin(self._bits, self.w)
        return self._lin

    def const(self):
        """the constant value or None"""
        if self._lin is not None:
            c, t = self._lin
            return c if not t else None
        n = 0
        for i, p in enumerate(self._bits):
            if p == ONE:
                n |= 1 << i
            elif p:
                return None
        return n

    def __eq__(self, o):
        if not isinstance(o, V) or o.w != self.w:
            return False
        if self._lin is not None and o._lin is not None and self._lin == o._lin:
            return True
        return self.bits == o.bits

    def __hash__(self):
        return hash(self.bits)

    def __repr__(self):
        c = self.const()
        return 'i%d:%#x' % (self.w, c) if c is not None else 'i%d:?' % self.w


def const(w, n):
    n &= (1 << w) - 1
    return V(w, None, (n, ()))


def var(name, w):
    return V(w, tuple(atom_bit(('var', name, i)) for i in range(w)))


def vec(bits):
    bits = tuple(bits)
    return V(len(bits), bits, SUMS.get(bits))


# ---- conversions
def _bits_lin(bits, w):
    n = 0
    free = []
    for i, p in enumerate(bits):
        if p == ONE:
            n |= 1 << i
        elif p:
            free.append(i)
    if not free:
        return (n, ())
    sign = 1
    bits = [p if i in set(free) else NIL for i, p in enumerate(bits)]
    if all(frozenset() in bits[i] for i in free):
        # complemented everywhere: m - (x ^ m)
        for i in free:
            n += 1 << i
            bits[i] = bits[i] ^ ONE
        sign = -1
    lo = free[0]
    hi = free[-1]
    a = tuple(bits[lo:hi + 1])
    # replicated sign bits
    signed = False
    if hi == w - 1 and len(a) > 1 and a[-1] == a[-2]:
        k = len(a)
        while k > 1 and a[k - 1] == a[k - 2]:
            k -= 1
        a = a[:k]
        signed = True
    at = vec_atoms((a, signed))
    return _norm({(at,): sign << lo}, n, w)


def _norm(d, c, w):
    M = 1 << w
    for _ in range(70):
        out, c, again = _norm1(d, c, w, M)
        if not again:
            break
        d = out
    return (c % M, tuple(sorted((k, v) for k, v in out.items() if v)))


def _norm1(d, c, w, M):
    out = {}
    cut = []
    for k, v in d.items():
        v %= M
        if not v:
            continue
        if len(k) == 1:
            n = w - ((v & -v).bit_length() - 1)
            bits, signed = vec_atoms.defs[k[0]]
            if len(bits) > n or (signed and len(bits) == n):
                # only the low n bits of the atom matter
                b = bits[:n]
                cc, tt = _bits_lin(b, n)
                if tt != ((k, 1),) or cc:
                    c += cc * v
                    for k2, v2 in tt:
                        out[k2] = (out.get(k2, 0) + v2 * v) % M
                        cut.append(k2)
                    continue
            if len(bits) >= n:
                cut.append(k)
        out[k] = (out.get(k, 0) + v) % M
    if not cut or len(out) < 2:
        return out, c, False
    # an atom of which only the low bits matter may be replaced by any atom that continues those bits
    by = {}
    for k in out:
        if len(k) == 1 and out[k]:
            bits, signed = vec_atoms.defs[k[0]]
            if not signed and bits:
                by.setdefault(bits[0], []).append((len(bits), k, bits))
    again = False
    for k in cut:
        v = out.get(k)
        if not v:
            continue
        n = w - ((v & -v).bit_length() - 1)
        bits, signed = vec_atoms.defs[k[0]]
        if signed or len(bits) < n:
            continue
        best = None
        for l, k2, b2 in by.get(bits[0], ()):
            if k2 != k and l > len(bits) and b2[:len(bits)] == bits and out.get(k2) and (best is None or l > best[0]):
                best = (l, k2)
        if best:
            out[best[1]] = (out[best[1]] + v) % M
            del out[k]
            again = True
    return out, c, again


def _trunc_lin(lin, w):
    """lin modulo 2^w with the atoms truncated to what matters"""
    c, t = lin
    d = {}
    cc = c
    for mono, k in t:
        tz = (k & -k).bit_length() - 1
        if tz >= w:
            continue
        if len(mono) == 1:
            bits, signed = vec_atoms.defs[mono[0]]
            n = w - tz
            if len(bits) >= n or not signed:
                b = tuple(bits[:n]) + (NIL,) * (n - len(bits[:n]))
            else:
                b = bits + (bits[-1],) * (n - len(bits))
            c2, t2 = _bits_lin(b, n)
            cc += c2 * k
            for m2, k2 in t2:
                # a signed reading modulo 2^n
                if k2 >> (n - 1) and n > 1:
                    k2 -= 1 << n
                d[m2] = d.get(m2, 0) + k2 * k
        else:
            d[mono] = d.get(mono, 0) + k
    return _norm(d, cc, w)


def _disjoint(lin, w):
    """bits of a sum whose parts do not overlap: their union"""
    c, t = lin
    out = [ONE if c >> i & 1 else NIL for i in range(w)]
    for mono, k in t:
        tz = (k & -k).bit_length() - 1
        if len(mono) != 1 or k != 1 << tz:
            return None
        bits, signed = vec_atoms.defs[mono[0]]
        n = w - tz
        b = list(bits[:n]) + [bits[-1] if signed else NIL] * (n - len(bits))
        for i, p in enumerate(b):
            if p:
                if out[tz + i]:
                    return None
                out[tz + i] = p
    return out


def _lin_bits(lin, w):
    c, t = lin
    if not t:
        return tuple(ONE if c >> i & 1 else NIL for i in range(w))
    out = _disjoint(lin, w)
    if out:
        return tuple(out)
    if len(t) == 1 and len(t[0][0]) == 1 and t[0][1] == (1 << w) - (1 << ((t[0][1] & -t[0][1]).bit_length() - 1)):
        # c - 2^k * x with c covering x: complement
        tz = (t[0][1] & -t[0][1]).bit_length() - 1
        bits, signed = vec_atoms.defs[t[0][0][0]]
        if not signed and tz + len(bits) <= w and all(c >> (tz + i) & 1 for i, p in enumerate(bits) if p):
            out = [ONE if c >> i & 1 else NIL for i in range(w)]
            for i, p in enumerate(bits):
                if p:
                    out[tz + i] = out[tz + i] ^ p
            return tuple(out)
    out = []
    low = True
    for i in range(w):
        l = _trunc_lin(lin, i + 1)
        c1, t1 = l
        if not t1:
            out.append(ONE if c1 >> i & 1 else NIL)
            continue
        if low and i == 0 or not c1 % (1 << i) and all(not k % (1 << i) for _, k in t1):
            # only this bit position is involved: no carries come in
            p = ONE if c1 >> i & 1 else NIL
            for mono, k in t1:
                q = ONE
                if k >> i & 1:
                    for a in mono:
                        q = p_and(q, vec_atoms.defs[a][0][0])
                    p = p ^ q
            out.append(p)
            continue
        if len(t1) < len(t):
            # only some of the terms reach down to this bit
            d = _disjoint(l, i + 1)
            if d:
                out.append(d[i])
                continue
        # strip a common factor of two
        tz = min([(k & -k).bit_length() - 1 for _, k in t1] + ([(c1 & -c1).bit_length() - 1] if c1 else []))
        if tz:
            l = _norm({m: k >> tz for m, k in t1}, c1 >> tz, i + 1 - tz)
            l = _trunc_lin(l, i + 1 - tz)
        out.append(atom_bit(('lb', l, i + 1 - tz)))
    return tuple(out)


# ---- operations
def lin_of(v):
    return v.lin


def add(a, b, s=1):
    w = a.w
    (c1, t1), (c2, t2) = a.lin, b.lin
    d = dict(t1)
    for k, v in t2:
        d[k] = d.get(k, 0) + s * v
    return V(w, None, _norm(d, c1 + s * c2, w))


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return sub(const(a.w, 0), a)


def mul(a, b):
    w = a.w
    (c1, t1), (c2, t2) = a.lin, b.lin
    d = {}
    for k, v in t1:
        d[k] = d.get(k, 0) + v * c2
    for k, v in t2:
        d[k] = d.get(k, 0) + v * c1
    for k1, v1 in t1:
        for k2, v2 in t2:
            k = tuple(sorted(k1 + k2))
            d[k] = d.get(k, 0) + v1 * v2
    return V(w, None, _norm(d, c1 * c2, w))


def xor(a, b):
    return vec(p ^ q for p, q in zip(a.bits, b.bits))


def and_(a, b):
    return vec(p_and(p, q) for p, q in zip(a.bits, b.bits))


def or_(a, b):
    return vec(p ^ q ^ p_and(p, q) if p and q else p ^ q for p, q in zip(a.bits, b.bits))


def not_(a):
    return vec(p ^ ONE for p in a.bits)


def shl(a, n):
    if n >= a.w:
        return const(a.w, 0)
    if a._bits is None:
        return mul(a, const(a.w, 1 << n))
    return vec((NIL,) * n + a.bits[:a.w - n])


def lshr(a, n):
    if n >= a.w:
        return const(a.w, 0)
    return vec(a.bits[n:] + (NIL,) * n)


def ashr(a, n):
    n = min(n, a.w - 1)
    return vec(a.bits[n:] + (a.bits[-1],) * n)


def trunc(a, w):
    if w >= a.w:
        return a
    if a._bits is None:
        return V(w, None, _trunc_lin(a._lin, w))
    return vec(a.bits[:w])


def _widen(a, w, signed):
    """extension of a form whose exact integer reading is known to fit"""
    if a._bits is None or len(a.lin[1]) > 1:
        lo, hi, k = lin_range(a.lin, a.w)
        top = 1 << (a.w - 1)
        if (-top <= lo and hi < top) if signed else (0 <= lo and hi < 2 * top):
            M = 1 << w
            return V(w, None, (k[0] % M, tuple(sorted((m, n % M) for m, n in k[1]))))


def expand(v):
    """a value as constant + sum of coefficient * bit (bits as polynomials) modulo 2^w; higher products stay whole"""
    M = 1 << v.w
    c, t = v.lin
    out = {}
    for mono, k in t:
        if len(mono) == 1:
            bits, signed = vec_atoms.defs[mono[0]]
            for i, b in enumerate(bits):
                if not b:
                    continue
                n = k << i
                if signed and i == len(bits) - 1:
                    n = -n
                if b == ONE:
                    c += n
                elif ONE_M in b:
                    # 1 - complement
                    c += n
                    x = b ^ ONE
                    out[x] = (out.get(x, 0) - n) % M
                else:
                    out[b] = (out.get(b, 0) + n) % M
        else:
            out[mono] = (out.get(mono, 0) + k) % M
    return c % M, {b: n for b, n in out.items() if n}


def zext(a, w):
    if a.const() is not None:
        return const(w, a.const())
    if INT or WIDEN:
        r = _widen(a, w, False)
        if r is not None:
            return r
    return vec(a.bits + (NIL,) * (w - a.w))


def sext(a, w):
    if INT or WIDEN:
        r = _widen(a, w, True)
        if r is not None:
            return r
    return vec(a.bits + (a.bits[-1],) * (w - a.w))


def concat(parts):
    r = ()
    for p in parts:
        r += p.bits
    return vec(r)


def slice_(a, lo, n):
    if lo == 0:
        return trunc(a, n)
    return vec(a.bits[lo:lo + n])


def given(x, asg, memo=None):
    """a form under known atoms {atom: 0/1}; x: poly or value"""
    memo = {} if memo is None else memo

    def atom(a):
        """the poly an atom becomes"""
        if a in asg:
            return ONE if asg[a] else NIL
        if a not in memo:
            memo[a] = frozenset((frozenset((a,)),))
            d = bit_atoms.defs[a]
            if d[0] == 'lb':
                v = lin(d[1], d[2])
                if v.lin != d[1]:
                    memo[a] = v.bits[d[2] - 1]
        return memo[a]

    def poly(p):
        r = NIL
        for mono in p:
            k = ONE
            for a in mono:
                k = p_and(k, atom(a))
                if not k:
                    break
            r = r ^ k
        return r

    def lin(l, w):
        c, t = l
        r = const(w, c)
        for mono, k in t:
            m = const(w, k)
            for a in mono:
                if ('v', a) not in memo:
                    bits, signed = vec_atoms.defs[a]
                    memo['v', a] = vec(poly(p) for p in bits), signed
                v, signed = memo['v', a]
                m = mul(m, v if v.w == w else trunc(v, w) if v.w > w else sext(v, w) if signed else zext(v, w))
            r = add(r, m)
        return r
    if isinstance(x, frozenset):
        return poly(x)
    if x._lin is not None:
        return lin(x._lin, x.w)
    return vec(poly(p) for p in x.bits)


def atom_of(p):
    """the atom a poly consists of, and its polarity: p is atom ^ flip"""
    q = p ^ ONE if frozenset() in p else p
    if len(q) != 1 or len(next(iter(q))) != 1:
        return None
    return next(iter(next(iter(q)))), int(frozenset() in p)


def b1(p):
    return vec((p,))


def ite(c, a, b):
    """c: poly"""
    if c == ONE or a == b:
        return a
    if not c:
        return b
    return vec(q ^ p_and(c, p ^ q) if p != q else p for p, q in zip(a.bits, b.bits))


def lin_key(l):
    return l


def _reading(a):
    """an integer equal to the value: (constant, terms, which interpretations it is exact for)"""
    lo, hi, k = lin_range(a.lin, a.w)
    top = 1 << (a.w - 1)
    return lo, hi, k, -top <= lo and hi < top, 0 <= lo and hi < 2 * top


def p_or(p, q):
    return p ^ q ^ p_and(p, q)


def _diff(a, b, signed):
    """canonical sign test of the exact integer difference a - b: (ONE/NIL/None, flip, key) or None"""
    ra, rb = _reading(a), _reading(b)
    if signed is None:
        ok = ra[3] and rb[3] or ra[4] and rb[4]
    else:
        ok = ra[3] and rb[3] if signed else ra[4] and rb[4]
    if not ok:
        return None
    d = {}
    for m, k in ra[2][1]:
        d[m] = d.get(m, 0) + k
    for m, k in rb[2][1]:
        d[m] = d.get(m, 0) - k
    t = tuple(sorted((m, k) for m, k in d.items() if k))
    return ra[2][0] - rb[2][0], t


def _sign_of(c, t):
    """(poly of c + t < 0, poly of c + t == 0)"""
    from math import gcd
    if not t:
        return (ONE if c < 0 else NIL), (ONE if c == 0 else NIL)
    if not c:
        g = 0
        for m, k in t:
            g = gcd(g, abs(k))
        t = tuple((m, k // g) for m, k in t)
    lo, hi = poly_range(c, t)
    flip = t[0][1] < 0
    if flip:
        c, t = -c, tuple((m, -k) for m, k in t)
        lo, hi = -hi, -lo
    n = z = None
    if hi < 0:
        n, z = ONE, NIL
    elif lo > 0:
        n, z = NIL, NIL
    else:
        if lo >= 0:
            n = NIL
        if n is None:
            n = atom_bit(('neg', c, t))
        z = atom_bit(('zero', c, t))
        if n:
            a, = next(iter(n))
            b, = next(iter(z))
            EXCL[a], EXCL[b] = b, a
    if flip:
        n = ONE ^ n ^ z
    return n, z


def poly_range(c, t):
    M = 1 << 512
    lo, hi, _ = lin_range((c % M, tuple((m, k % M) for m, k in t)), 512)
    return lo, hi


def eq(a, b):
    """poly of a == b"""
    if INT and a != b:
        d = _diff(a, b, None)
        if d is not None:
            return _sign_of(*d)[1]
    d = sub(a, b)
    c = d.const()
    if c is not None:
        return ONE if c == 0 else NIL
    xs = [p ^ q for p, q in zip(a.bits, b.bits) if p != q]
    if any(x == ONE for x in xs):
        return NIL
    size = 1
    seen = set()
    r = ONE
    sup = set()
    for x in xs:
        sup = sup is not None and _support(x, 10, sup)
        if not sup:
            break
    if sup:
        for x in xs:
            r = p_and(r, x ^ ONE)
        return r
    for x in xs:
        if x in seen:
            continue
        seen.add(x)
        size *= len(x ^ ONE)
        if size > 4096:
            break
        r = p_and(r, x ^ ONE)
        if len(r) > 600:
            break
    else:
        return r
    l1 = d.lin
    l2 = neg(d).lin
    l = min(l1, l2)
    return atom_bit(('eq', l, a.w))


def atom_range(a):
    bits, signed = vec_atoms.defs[a]
    n = len(bits)
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)


def lin_range(lin, w):
    """interval of the integer reading (signed coefficients) of a form, and that reading"""
    c, t = lin
    M = 1 << w
    if c >> (w - 1):
        c -= M
    lo = hi = c
    key = []
    for mono, k in t:
        if k >> (w - 1):
            k -= M
        key.append((mono, k))
        l, h = 1, 1
        if len(mono) == 2 and mono[0] == mono[1]:
            a, b = atom_range(mono[0])
            h = max(a * a, b * b)
            l = 0 if a <= 0 <= b else min(a * a, b * b)
        else:
            for a in mono:
                x, y = atom_range(a)
                ps = (l * x, l * y, h * x, h * y)
                l, h = min(ps), max(ps)
        lo += min(k * l, k * h)
        hi += max(k * l, k * h)
    key = (c, tuple(key))
    if key in RANGES:
        l, h = RANGES[key]
        lo, hi = max(lo, l), min(hi, h)
    return lo, hi, key


def srange(v):
    """signed interval of a value"""
    w = v.w
    lo, hi, _ = lin_range(v.lin, w)
    if -(1 << (w - 1)) <= lo and hi < 1 << (w - 1):
        return lo, hi
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def urange(v):
    w = v.w
    lo, hi, _ = lin_range(v.lin, w)
    if 0 <= lo and hi < 1 << w:
        return lo, hi
    return 0, (1 << w) - 1


def _hard(v):
    """a form that is naturally a polynomial, not bits"""
    c, t = v.lin
    return any(len(m) > 1 for m, _ in t) or len(t) > 1 and v._bits is None


def less_hard(a, b, signed):
    """poly of a < b by the sign of the difference, or None"""
    w = a.w
    M = 1 << w
    la, ha, ka = lin_range(a.lin, w)
    lb, hb, kb = lin_range(b.lin, w)
    top = 1 << (w - 1)
    lim = (-top, top - 1) if signed else (0, M - 1)
    if la >= lim[0] and ha <= lim[1] and lb >= lim[0] and hb <= lim[1]:
        d = {}
        for m, k in ka[1]:
            d[m] = d.get(m, 0) + k
        for m, k in kb[1]:
            d[m] = d.get(m, 0) - k
        c = ka[0] - kb[0]
        t = tuple(sorted((m, k) for m, k in d.items() if k))
        lo = hi = c
        l, h, _ = lin_range((c % (M * M), tuple((m, k % (M * M)) for m, k in t)), 2 * w)
        if h < 0:
            return ONE
        if l >= 0:
            return NIL
        return atom_bit(('neg', c, t))
    if a.lin == b.lin:
        return NIL
    return atom_bit(('lt', signed, a.lin, b.lin, w))


def ult(a, b, hard=True):
    if INT and hard:
        d = _diff(a, b, False)
        if d is not None:
            return _sign_of(*d)[0]
    if hard and (_hard(a) or _hard(b)):
        return less_hard(a, b, False)
    x, y = [], []
    for p, q in zip(a.bits, b.bits):
        if p != q:
            x.append(p)
            y.append(q)
    if not x:
        return NIL
    while x:
        if x[-1] == ONE and not y[-1]:
            return NIL
        if not x[-1] and y[-1] == ONE:
            return ONE
        break
    # a position that repeats its neighbour above (a sign extension) decides nothing
    i = len(x) - 2
    while i >= 0:
        if (x[i], y[i]) == (x[i + 1], y[i + 1]) or (x[i] ^ ONE, y[i] ^ ONE) == (x[i + 1], y[i + 1]):
            del x[i], y[i]
        i -= 1
    if not any(y):
        return NIL
    # lexicographic, from the top
    r = NIL
    sup = set()
    for p in x + y:
        sup = _support(p, 10, sup)
        if sup is None:
            break
    if sup:
        for p, q in zip(x, y):
            r = p_and(p ^ ONE, q) ^ p_and(p ^ q ^ ONE, r)
        return r
    for p, q in zip(x, y):
        # r' = (!p & q) | (p == q) & r  (disjoint)
        e = p ^ q ^ ONE
        if len(e) * len(r) > 1500:
            break
        r = p_and(p ^ ONE, q) ^ p_and(e, r)
        if len(r) > 600:
            break
    else:
        return r
    return atom_bit(('ult', tuple(x), tuple(y)))


def ule(a, b):
    return ult(b, a) ^ ONE


def flip(a):
    return vec(a.bits[:-1] + (a.bits[-1] ^ ONE,))


def slt(a, b):
    if INT:
        d = _diff(a, b, True)
        if d is not None:
            return _sign_of(*d)[0]
    if _hard(a) or _hard(b):
        return less_hard(a, b, True)
    return ult(flip(a), flip(b), False)


def icmp(pred, a, b):
    return {'eq': lambda: eq(a, b), 'ne': lambda: eq(a, b) ^ ONE,
            'ult': lambda: ult(a, b), 'ule': lambda: ult(b, a) ^ ONE, 'ugt': lambda: ult(b, a), 'uge': lambda: ult(a, b) ^ ONE,
            'slt': lambda: slt(a, b), 'sle': lambda: slt(b, a) ^ ONE, 'sgt': lambda: slt(b, a), 'sge': lambda: slt(a, b) ^ ONE}[pred]()


def fn(name, w, *args):
    """an opaque total function of canonical arguments; evaluated through FNS[name]"""
    key = tuple(a.bits if isinstance(a, V) else a for a in args)
    cs = [a.const() if isinstance(a, V) else a for a in args]
    ws = tuple(a.w if isinstance(a, V) else None for a in args)
    nm = name[0] if isinstance(name, tuple) else name
    if nm in FNS and all(c is not None for c in cs):
        return const(w, FNS[nm](name, w, *cs))
    return vec(atom_bit(('fn', name, i, w, ws) + key) for i in range(w))


def mem_byte(region, off):
    """the initial content of one byte of an input region"""
    l = off.lin
    return vec(atom_bit(('mem', region, l, i)) for i in range(8))


def _sgn(n, w):
    return n - (1 << w) if n >> (w - 1) & 1 else n


def _sdiv(n, w, a, b):
    a, b = _sgn(a, w), _sgn(b, w)
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return (-q if (a < 0) != (b < 0) else q) & ((1 << w) - 1)


def _srem(n, w, a, b):
    a, b = _sgn(a, w), _sgn(b, w)
    if b == 0:
        return 0
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & ((1 << w) - 1)


FNS = {'udiv': lambda n, w, a, b: a // b if b else 0, 'urem': lambda n, w, a, b: a % b if b else 0,
       'sdiv': _sdiv, 'srem': _srem,
       'shl': lambda n, w, a, b: (a << b) & ((1 << w) - 1) if b < w else 0,
       'lshr': lambda n, w, a, b: a >> b if b < w else 0,
       'ashr': lambda n, w, a, b: (_sgn(a, w) >> min(b, w - 1)) & ((1 << w) - 1),
       'tbl': lambda n, w, i: (int.from_bytes(n[1][i:i + w // 8], 'little') if 0 <= i and i + w // 8 <= len(n[1]) else 0)}


def udiv(a, b):
    c = b.const()
    if c and c & (c - 1) == 0:
        return lshr(a, c.bit_length() - 1)
    if c:
        # divide by the smaller width when the dividend's top bits are known to be zero
        m = max_of(a)
        if m < c:
            return const(a.w, 0)
        d = _divide(a, c)
        if d:
            return d[0]
    return fn('udiv', a.w, a, b)


def urem(a, b):
    c = b.const()
    if c and c & (c - 1) == 0:
        return and_(a, const(a.w, c - 1))
    if c and max_of(a) < c:
        return a
    d = c and _divide(a, c)
    if d:
        return d[1]
    return fn('urem', a.w, a, b)


def _divide(a, c):
    """quotient and remainder when every term but the constant is a multiple of c and nothing wraps"""
    lo, hi, (k, t) = lin_range(a.lin, a.w)
    if lo < 0 or hi >= 1 << a.w or not t or any(n % c for _, n in t):
        return None
    q, r = divmod(k, c)
    M = 1 << a.w
    return V(a.w, None, _norm({m: n // c % M for m, n in t}, q % M, a.w)), const(a.w, r)


def sdiv(a, b):
    c = b.const()
    if c and not c >> (b.w - 1) and not a.bits[-1]:
        return udiv(a, b)
    return fn('sdiv', a.w, a, b)


def srem(a, b):
    c = b.const()
    if c and not c >> (b.w - 1) and not a.bits[-1]:
        return urem(a, b)
    return fn('srem', a.w, a, b)


def max_of(a):
    n = 0
    for i, p in enumerate(a.bits):
        if p:
            n |= 1 << i
    return n


def shift(op, a, b):
    c = b.const()
    if c is not None:
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, c)
    return fn(op, a.w, a, b)


def table(data, w, off):
    """w-bit little-endian word at a symbolic byte offset of constant data; the stride is read off the known zero bits"""
    c = off.const()
    nb = w // 8
    if c is not None:
        return const(w, int.from_bytes(data[c:c + nb], 'little'))
    free = [(i, p) for i, p in enumerate(off.bits) if p and p != ONE]
    base = sum(1 << i for i, p in enumerate(off.bits) if p == ONE)
    if len(free) <= 11:
        n = len(free)

        def at(x):
            o = base + sum(1 << free[j][0] for j in range(n) if x >> j & 1)
            return int.from_bytes(data[o:o + nb], 'little') if o + nb <= len(data) else None
        t0 = at(0)
        if t0 is not None:
            basis = [at(1 << j) for j in range(n)]
            if None not in basis:
                basis = [b ^ t0 for b in basis]
                ok = True
                cur = [t0]
                for b in basis:
                    cur += [x ^ b for x in cur]
                for x in range(1 << n):
                    v = at(x)
                    if v is not None and v != cur[x]:
                        ok = False
                        break
                if ok:
                    out = []
                    for i in range(w):
                        p = ONE if t0 >> i & 1 else NIL
                        for j in range(n):
                            if basis[j] >> i & 1:
                                p = p ^ free[j][1]
                        out.append(p)
                    return vec(out)
        if n <= 9 and all(len(p) == 1 and len(next(iter(p))) == 1 for _, p in free):
            vals = [at(x) for x in range(1 << n)]
            if None not in vals:
                sup = [next(iter(next(iter(p)))) for _, p in free]
                if len(set(sup)) == n:
                    return vec(_unpack(_moebius(sum((v >> i & 1) << x for x, v in enumerate(vals)), n), sup) for i in range(w))
    return fn(('tbl', bytes(data)), w, off)


# ---- folding a form to a number at one point
class Point:
    """an input point: value of a variable bit (name -> int), memory bytes through name tuples"""

    def __init__(self, f):
        self.f = f           # name -> int
        self.memo = {}
        self.vm = {}

    def bit(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        d = bit_atoms.defs[a]
        k = d[0]
        if k == 'var':
            r = self.var(d[1]) >> d[2] & 1
        elif k == 'lb':
            r = self.lin(d[1], d[2]) >> (d[2] - 1) & 1
        elif k == 'eq':
            r = int(self.lin(d[1], d[2]) == 0)
        elif k == 'ult':
            r = int(self.num(d[1]) < self.num(d[2]))
        elif k == 'and':
            r = self.poly(d[1]) & self.poly(d[2])
        elif k == 'neg':
            r = int(self.ilin(d[1], d[2]) < 0)
        elif k == 'zero':
            r = int(self.ilin(d[1], d[2]) == 0)
        elif k == 'lt':
            x, y, w = self.lin(d[2], d[4]), self.lin(d[3], d[4]), d[4]
            if d[1]:
                x, y = _sgn(x, w), _sgn(y, w)
            r = int(x < y)
        elif k == 'mem':
            r = self.var(('mem', d[1], self.lin(d[2], 64))) >> d[3] & 1
        elif k == 'fn':
            name, i, w, ws = d[1:5]
            key = (name, w) + d[5:]
            v = self.vm.get(key)
            if v is None:
                args = [self.num(x) if ww is not None else x for ww, x in zip(ws, d[5:])]
                nm = name[0] if isinstance(name, tuple) else name
                if nm in FNS:
                    v = FNS[nm](name, w, *args)
                else:
                    v = self.var(('fn', nm) + tuple(args)) & ((1 << w) - 1)
                self.vm[key] = v
            r = v >> i & 1
        self.memo[a] = r
        return r

    def var(self, name):
        return self.f(name)

    def poly(self, p):
        r = 0
        for m in p:
            t = 1
            for a in m:
                if not self.bit(a):
                    t = 0
                    break
            r ^= t
        return r

    def num(self, bits):
        return sum(self.poly(p) << i for i, p in enumerate(bits))

    def ilin(self, c, t):
        for mono, k in t:
            x = k
            for a in mono:
                bits, signed = vec_atoms.defs[a]
                n = self.num(bits)
                if signed and n >> (len(bits) - 1) & 1:
                    n -= 1 << len(bits)
                x *= n
            c += x
        return c

    def lin(self, l, w):
        c, t = l
        for mono, k in t:
            x = k
            for a in mono:
                bits, signed = vec_atoms.defs[a]
                n = self.num(bits)
                if signed and n >> (len(bits) - 1) & 1:
                    n -= 1 << len(bits)
                x *= n
            c += x
        return c % (1 << w)

    def value(self, v):
        if v._bits is None:
            return self.lin(v._lin, v.w)
        return self.num(v._bits)


def reset():
    global INT, WIDEN
    SUMS.clear()
    INT = WIDEN = False
    EXCL.clear()
    RANGES.clear()
    bit_atoms.__init__()
    vec_atoms.__init__()
