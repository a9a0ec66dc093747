"""Numeric abstract domain: linear forms over symbols, conjunctions of linear
constraints (entailment / bounds / projection by isl), refined lazily."""
from math import gcd
from . import isl

INF = None


class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'mono')


SYMS = []
_mono = {}


def fresh(name, lo=None, hi=None):
    s = Sym()
    s.id = len(SYMS)
    s.name = name
    s.lo = lo
    s.hi = hi
    s.mono = None
    SYMS.append(s)
    return s.id


def reset_syms():
    del SYMS[:]
    _mono.clear()


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t:
            return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t:
            return Lin(self.c + o.c, o.t) if self.c else o
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                del d[s]
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((s, a * k) for s, a in self.t))

    __rmul__ = __mul__

    def is_const(self):
        return not self.t

    def div(self, g):
        """exact division by g or None"""
        if self.c % g or any(k % g for _, k in self.t):
            return None
        return Lin(self.c // g, tuple((s, k // g) for s, k in self.t))

    def subst(self, m):
        r = Lin(self.c)
        t = []
        for s, k in self.t:
            v = m.get(s)
            if v is None:
                t.append((s, k))
            else:
                r = r + v * k
        if len(t) == len(self.t):
            return self
        return r + Lin(0, tuple(t))

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        out = []
        for s, k in self.t:
            n = SYMS[s].name + '#%d' % s
            out.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else '%d*' % abs(k)) + n)
        if self.c or not out:
            out.append('%+d' % self.c)
        r = ''.join(out)
        return r[1:] if r.startswith('+') else r


ZERO = Lin(0)
ONE = Lin(1)


def const(n):
    return Lin(n)


def var(s):
    return Lin(0, ((s, 1),))


def new(name, lo=None, hi=None):
    return var(fresh(name, lo, hi))


def mono_key(s):
    m = SYMS[s].mono
    return m if m else (s,)


def mul(a, b):
    """product as a polynomial: non-linear monomials become memoised symbols"""
    if a.is_const():
        return b * a.c
    if b.is_const():
        return a * b.c
    r = a * b.c + (b * a.c) - a.c * b.c
    for s, k in a.t:
        for q, j in b.t:
            key = tuple(sorted(mono_key(s) + mono_key(q)))
            m = _mono.get(key)
            if m is None:
                m = fresh('*'.join(SYMS[x].name + '#%d' % x for x in key))
                SYMS[m].mono = key
                lo, hi = 1, 1
                for x in key:
                    lo, hi = _imul((lo, hi), (SYMS[x].lo, SYMS[x].hi))
                if len(key) == 2 and key[0] == key[1] and (lo is None or lo < 0):
                    lo = 0
                SYMS[m].lo, SYMS[m].hi = lo, hi
                _mono[key] = m
            r = r + Lin(0, ((m, k * j),))
    return r


def _imul(a, b):
    if None in a or None in b:
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    p = [x * y for x in a for y in b]
    return (min(p), max(p))


class Infeasible(Exception):
    pass


class Cons:
    """immutable conjunction of rows; rows are (eq, Lin) meaning Lin ==/>= 0"""
    __slots__ = ('rows', 'rset', 'ranges', '_adj', '_bs', '_bc', '_sat')

    def __init__(self, rows=(), rset=frozenset(), ranges=None):
        self.rows = rows
        self.rset = rset
        self.ranges = ranges or {}
        self._adj = None
        self._bs = {}
        self._bc = {}
        self._sat = {}

    def rng(self, s):
        r = self.ranges.get(s)
        if r is None:
            y = SYMS[s]
            return (y.lo, y.hi)
        return r

    def interval(self, e):
        lo = hi = e.c
        for s, k in e.t:
            a, b = self.rng(s)
            if k < 0:
                a, b = b, a
            if lo is not None:
                lo = None if a is None else lo + a * k
            if hi is not None:
                hi = None if b is None else hi + b * k
            if lo is None and hi is None:
                break
        return lo, hi

    def add(self, eq, e):
        """new Cons with the row (tightened); raises Infeasible on interval contradiction"""
        if not e.t:
            if (e.c != 0) if eq else (e.c < 0):
                raise Infeasible()
            return self
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if g > 1:
            if eq:
                if e.c % g:
                    raise Infeasible()
                e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
            else:
                e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        lo, hi = self.interval(e)
        if eq:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                raise Infeasible()
            if lo == 0 and hi == 0:
                return self
            if e.t[0][1] < 0:
                e = -e
        else:
            if hi is not None and hi < 0:
                raise Infeasible()
            if lo is not None and lo >= 0:
                return self
        if (eq, e) in self.rset or (True, e) in self.rset or (True, -e) in self.rset:
            return self
        ranges = self.ranges
        # propagate to the ranges of the row's symbols
        ch = {}
        for s, k in e.t:
            a, b = self.rng(s)
            na, nb = a, b
            rh = self._rest(e, s, True)
            rl = self._rest(e, s, False) if eq else None
            if rh is not None:
                # k*s >= -rh
                if k > 0:
                    v = -(rh // k)
                    if na is None or v > na:
                        na = v
                else:
                    v = rh // (-k)
                    if nb is None or v < nb:
                        nb = v
            if eq and rl is not None:
                # k*s <= -rl
                if k > 0:
                    v = (-rl) // k
                    if nb is None or v < nb:
                        nb = v
                else:
                    v = -((-rl) // (-k))
                    if na is None or v > na:
                        na = v
            if na != a or nb != b:
                if na is not None and nb is not None and na > nb:
                    raise Infeasible()
                ch[s] = (na, nb)
        if ch:
            ranges = dict(ranges)
            ranges.update(ch)
        if len(e.t) == 1 and not eq:
            return Cons(self.rows, self.rset, ranges)
        return Cons(self.rows + ((eq, e),), self.rset | {(eq, e)}, ranges)

    def _rest(self, e, s, up):
        v = e.c
        for q, k in e.t:
            if q == s:
                continue
            a, b = self.rng(q)
            x = (b if k > 0 else a) if up else (a if k > 0 else b)
            if x is None:
                return None
            v += x * k
        return v

    # ---- component selection ----
    def comp(self, syms):
        if self._adj is None:
            adj = {}
            for i, (_, e) in enumerate(self.rows):
                for s, _k in e.t:
                    adj.setdefault(s, []).append(i)
            self._adj = adj
        adj = self._adj
        seen = set(syms)
        st = list(syms)
        rows = set()
        while st:
            s = st.pop()
            for i in adj.get(s, ()):
                if i not in rows:
                    rows.add(i)
                    for q, _ in self.rows[i][1].t:
                        if q not in seen:
                            seen.add(q)
                            st.append(q)
        return frozenset(rows), seen

    def _rows_for(self, rows, syms):
        out = []
        for i in rows:
            eq, e = self.rows[i]
            out.append((eq, e.c, e.t))
        for s in syms:
            a, b = self.rng(s)
            if a is not None and a == b:
                out.append((True, -a, ((s, 1),)))
                continue
            if a is not None:
                out.append((False, -a, ((s, 1),)))
            if b is not None:
                out.append((False, b, ((s, -1),)))
        return out

    def bset(self, syms):
        rows, ss = self.comp(syms)
        key = (rows, frozenset(ss))
        b = self._bs.get(key)
        if b is None:
            b = isl.BSet(self._rows_for(rows, ss), sorted(ss))
            self._bs[key] = b
        return b

    def maxi(self, e):
        """max of a Lin (int or None); raises Infeasible"""
        if not e.t:
            return e.c
        hi = self.interval(e)[1]
        if len(e.t) == 1 and not any(True for _ in self._adjrows(e.t[0][0])):
            return hi
        k = e.t
        m = self._bc.get(k, 0)
        if m == 0 and k not in self._bc:
            m = self.bset([s for s, _ in k]).max(k)
            if m == 'empty':
                raise Infeasible()
            self._bc[k] = m
        if m is None:
            return hi
        m = m + e.c
        return m if hi is None or m < hi else hi

    def _adjrows(self, s):
        if self._adj is None:
            self.comp([])
        return self._adj.get(s, ())

    def bounds(self, e):
        h = self.maxi(e)
        l = self.maxi(-e)
        return (None if l is None else -l, h)

    def sat(self, rows):
        """integer satisfiability of self and the extra rows [(eq, Lin)]"""
        try:
            c = self
            for eq, e in rows:
                c = c.add(eq, e)
        except Infeasible:
            return False
        if c is self:
            return True
        return c.feasible([s for _, e in rows for s, _ in e.t])

    def feasible(self, syms=None):
        if syms is None:
            syms = {s for _, e in self.rows for s, _ in e.t}
            # all components at once
            done = set()
            for s in sorted(syms):
                if s in done:
                    continue
                rows, ss = self.comp([s])
                done |= ss
                if not self.feasible([s]):
                    return False
            return True
        rows, ss = self.comp(syms)
        if not rows:
            return True
        key = rows
        r = self._sat.get(key)
        if r is None:
            r = not self.bset(syms).empty()
            self._sat[key] = r
        return r

    def entails(self, eq, e):
        if not e.t:
            return e.c == 0 if eq else e.c >= 0
        lo, hi = self.interval(e)
        if eq:
            if lo == 0 and hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            return self.entails(False, e) and self.entails(False, -e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if (False, e) in self.rset or (True, e) in self.rset or (True, -e) in self.rset:
            return True
        try:
            m = self.maxi(-e)
        except Infeasible:
            return True
        if m is not None and m <= 0:
            return True
        if len(e.t) == 1 and not self._adjrows(e.t[0][0]):
            return False
        return not self.sat([(False, -e - 1)])

    def project(self, keep, extra=()):
        """rows over `keep` symbols implied by self (component of keep only) and extra rows"""
        c = self
        for eq, e in extra:
            c = c.add(eq, e)
        rows, ss = c.comp(list(keep))
        ss = set(ss) | set(keep)
        b = isl.BSet(c._rows_for(rows, ss), sorted(ss))
        return [(eq, Lin(k, t)) for eq, k, t in b.project(set(keep))]
