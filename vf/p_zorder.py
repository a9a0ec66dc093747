"""C19 z-order queries stay inside their memory: the work stack by a bit domain, data and results by a relational one.

The work stack.  Box corners are vectors of 64 symbolic bits (0, 1, an atom, its negation, unknown).  A box whose corners
first differ at bit t (bits below 16 are below the query's resolution) is represented by one canonical pair of vectors:
common atoms above t, 0 and 1 at t, separate atoms below.  The flattened query is interpreted from every canonical box
with the position of the stack pointer kept exactly; at loop headers a pair of corners is replaced by the canonical
pairs it may be an instance of.  What a slot of the stack holds is summarised by the largest t ever stored there."""
from functools import lru_cache
from . import llvm, mesh
from .unit import *
from .ai import Seg, Undef
from .core import check

LOW = 16            # bits below are not looked at by a split
X5 = 0x5555555555555555


class Stop(Exception):
    pass


class Uns(Exception):
    pass


# ------------------------------------------------------------------ bits
def cbits(n, w):
    return tuple((n >> i) & 1 for i in range(w))


def top(w):
    return (None,) * w


def num(v):
    r = 0
    for i, b in enumerate(v):
        if b not in (0, 1) or b is None:
            return None
        r |= b << i
    return r


# a bit: None (unknown) or an exclusive or of atoms (bits 1.. of the number) and a constant (bit 0)
def nb(a):
    return None if a is None else a ^ 1


def andb(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a is None or b is None:
        return None
    return a if a == b else 0 if a == b ^ 1 else None


def xorb(a, b):
    return None if a is None or b is None else a ^ b


def orb(a, b):
    return nb(andb(nb(a), nb(b)))


def span(v):
    lo = hi = 0
    for i, b in enumerate(v):
        if b == 1:
            lo |= 1 << i
        if b != 0:
            hi |= 1 << i
    return lo, hi


@lru_cache(None)
def bop(op, a, b):
    w = len(a)
    if op == 'and':
        return tuple(map(andb, a, b))
    if op == 'or':
        return tuple(map(orb, a, b))
    if op == 'xor':
        return tuple(map(xorb, a, b))
    n = num(b)
    if op in ('shl', 'lshr', 'ashr'):
        if n is None or n >= w:
            return top(w)
        if op == 'shl':
            return (0,) * n + a[:w - n]
        return a[n:] + ((0 if op == 'lshr' else a[-1]),) * n
    m = num(a)
    if op == 'sub' and all(y == 0 or x == y and x is not None for x, y in zip(a, b)):
        return tuple(x if y == 0 else 0 for x, y in zip(a, b))
    if op == 'sub' and None not in a and None not in b:
        # bits that are the same cancel
        d = 0
        for i, (x, y) in enumerate(zip(a, b)):
            if x == y:
                continue
            if x in (0, 1) and y in (0, 1):
                d += (x - y) << i
            else:
                break
        else:
            return cbits(d & ((1 << w) - 1), w)
    if op in ('add', 'sub'):
        if op == 'sub':
            b = tuple(map(nb, b))
        c = 1 if op == 'sub' else 0
        r = []
        for x, y in zip(a, b):
            r.append(xorb(xorb(x, y), c))
            if 0 in (x, y, c) and sum(1 for z in (x, y, c) if z == 0) >= 2:
                c = 0
            elif sum(1 for z in (x, y, c) if z == 1) >= 2:
                c = 1
            elif x == y:
                c = x
            elif c == x and c is not None:
                c = x
            elif c == y and c is not None:
                c = y
            else:
                c = None
        return tuple(r)
    if m is not None and n is not None:
        M = (1 << w) - 1
        if op == 'mul':
            return cbits(m * n & M, w)
        if op == 'udiv' and n:
            return cbits(m // n, w)
        if op == 'urem' and n:
            return cbits(m % n, w)
        if op == 'sdiv' and n and m >> (w - 1) == n >> (w - 1) == 0:
            return cbits(m // n, w)
    return top(w)


@lru_cache(None)
def cmpb(p, a, b):
    """0, 1 or None"""
    if p[0] == 's' and p not in ('eq', 'ne'):
        a, b = a[:-1] + (nb(a[-1]),), b[:-1] + (nb(b[-1]),)
    if p in ('eq', 'ne'):
        if a == b and None not in a:
            return int(p == 'eq')
        if any(x is not None and y is not None and x == nb(y) for x, y in zip(a, b)):
            return int(p == 'ne')
        return None
    q = p[1:]
    if q in ('gt', 'ge'):
        a, b, q = b, a, {'gt': 'lt', 'ge': 'le'}[q]
    for x, y in zip(reversed(a), reversed(b)):
        if x == y and x is not None:
            continue
        if x in (0, 1) and y in (0, 1):
            return int(x < y)
        break
    else:
        return int(q == 'le')
    (l1, h1), (l2, h2) = span(a), span(b)
    if h1 < l2 or (q == 'le' and h1 == l2):
        return 1
    if l1 > h2 or (q == 'lt' and l1 == h2):
        return 0
    return None


# ------------------------------------------------------------------ boxes
def SA(i):
    return 2 << 3 * i


def LA(i):
    return 4 << 3 * i


def HA(i):
    return 8 << 3 * i


@lru_cache(None)
def box(t):
    """corners that agree above t and are in order at t; t < LOW: they agree above the resolution"""
    s, a, b = SA, LA, HA
    if t < LOW:
        return tuple(s(i) if i >= LOW else a(i) for i in range(64)), tuple(s(i) if i >= LOW else b(i) for i in range(64))
    return (tuple(s(i) if i > t else 0 if i == t else a(i) for i in range(64)),
            tuple(s(i) if i > t else 1 if i == t else b(i) for i in range(64)))


@lru_cache(None)
def ordered(lo, hi):
    """in both coordinates lo <= hi at the resolution, given that this holds for every canonical box"""
    for par in (0, 1):
        for i in range(62 + par, LOW - 1, -2):
            x, y = lo[i], hi[i]
            if x is None or y is None:
                return False
            if x == y:
                continue
            if x == 0 and y == 1:
                break
            if x == 0 or y == 1:
                continue
            if x == LA(i) and y == HA(i) and all((lo[j], hi[j]) == (LA(j), HA(j)) for j in range(i, LOW - 1, -2)):
                break
            return False
    return True


def disordered(a, b):
    """neither way round is this a box"""
    def worse(lo, hi):
        for par in (0, 1):
            for i in range(62 + par, LOW - 1, -2):
                if lo[i] != hi[i]:
                    if (lo[i], hi[i]) == (1, 0):
                        return True
                    break
        return False
    return worse(a, b) and worse(b, a)


@lru_cache(None)
def bound(lo, hi):
    """where the corners may first differ: (largest t, is it certain)"""
    for i in range(63, LOW - 1, -1):
        if lo[i] != hi[i]:
            return i, (lo[i], hi[i]) == (0, 1)
    return LOW - 1, True


def atoms(v):
    """a corner: no unknown bits, not a number"""
    return isinstance(v, tuple) and None not in v and any(b not in (0, 1) for b in v)


class SP:
    """address in a local variable"""
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __eq__(self, x):
        return isinstance(x, SP) and (x.o, x.off) == (self.o, self.off)

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return '&%s[%d]' % (self.o, self.off)


OUT = 'address elsewhere'


class S:
    __slots__ = ('b', 'regs', 'loc', 'slot', 'got', 'depth', 'path', 'prev')


class Stack:
    def __init__(self, c, m, fn):
        self.c, self.m = c, m
        self.F = m.funcs[fn]
        self.heads = self.headers()
        self.size = {}
        for B in self.F.blocks:
            for i in B.insts:
                if i.op == 'alloca':
                    self.size[i.id] = i.aty.size
        self.arrays = {}        # local variable -> [(offset, bytes)] of its arrays of words
        for B in self.F.blocks:
            for i in B.insts:
                if i.op == 'alloca':
                    a = []
                    self.leaf(i.aty, 0, a)
                    self.arrays[i.id] = a
        big = sorted((o, x) for o in self.arrays for x in self.arrays[o])
        # boxes are kept as consecutive words of one array, or as corresponding words of two
        self.two = [(o, x[0]) for o, x in big] if len(big) == 2 and big[0][1][1] == big[1][1][1] else None
        self.big = {o for o, _ in big}
        self.index = self.indices()
        self.unsure = None
        self.flip = {}
        self.never = {}
        self.ptrs = any(i.op == 'phi' and i.id in self.bases for B in self.F.blocks for i in B.insts)
        self.slotmax = {}       # (variable, slot) -> largest t stored there
        self.obl = {}
        self.bad = {}
        self.nstates = 0
        self.changed = True

    def leaf(self, ty, off, out):
        if ty.kind == 'struct':
            for o, e in zip(ty.offsets, ty.elems):
                self.leaf(e, off + o, out)
        elif ty.kind == 'array' and ty.size > 64:
            out.append((off, ty.size))

    def cell(self, o, off):
        """(group, entry, which corner, array bounds) of an address in a work array; None: a scalar"""
        for a, n in self.arrays[o]:
            if a <= off < a + n:
                if self.two is not None:
                    return 'two', (off - a) // 8, self.two.index((o, a))
                return (o, a), (off - a) // 16, (off - a) // 8 % 2
        return None

    def indices(self):
        """integers that an index into a local variable is computed from"""
        d, base = {}, set(self.size)
        ch = True
        while ch:
            ch = False
            for B in self.F.blocks:
                for i in B.insts:
                    ops = [v for _, v in i.incoming] if i.op == 'phi' else i.ops
                    d[i.id] = (i, [o.id for o in ops if o.k == 'inst'])
                    if i.id not in base and i.op in ('gep', 'phi', 'select') and any(o.k == 'inst' and o.id in base for o in ops) and i.ty.kind == 'ptr':
                        base.add(i.id)
                        ch = True
        self.bases = base
        work = [o for i, ops in d.values() if i.op == 'gep' and i.id in base for o in ops[0:]]
        out = set()
        while work:
            x = work.pop()
            if x not in out and x in d and d[x][0].op != 'load':
                out.add(x)
                work += d[x][1]
        return out

    def headers(self):
        F = self.F
        out, on, done = set(), set(), set()
        st = [(0, iter(F.blocks[0].succs))]
        on.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s in on:
                    out.add(s)
                elif s not in done:
                    on.add(s)
                    st.append((s, iter(F.blocks[s].succs)))
                    break
            else:
                st.pop()
                on.discard(b)
                done.add(b)
        return out

    def ob(self, ok, msg, i, s):
        k = (i.loc(), msg)
        self.obl[k] = self.obl.get(k, True) and ok
        if not ok and k not in self.bad:
            p, out = s.path, []
            while p:
                out.append(p[0])
                p = p[1]
            self.bad[k] = list(reversed(out))
        return ok

    # -------------------------------------------------------- running
    def go(self):
        while self.changed:
            self.changed = False
            self.seen = set()
            self.nstates = 0
            work = []
            F = self.F
            for t in range(LOW - 1, 64):
                s = S()
                s.b, s.loc, s.slot, s.got, s.depth, s.path, s.prev = 0, {}, {}, {}, 0, None, None
                lo, hi = box(t)
                ints = iter((lo, hi))
                s.regs = {a.id: OUT if a.ty.kind == 'ptr' else next(ints, top(a.ty.width)) for a in F.args}
                work.append(s)
            while work:
                s = work.pop()
                work += self.block(s)
                self.nstates += 1
                if self.nstates > 400000:
                    raise Uns('too many states')
                if self.bad:
                    return
        for k, (i, s) in self.never.items():
            if k not in self.slotmax:
                self.ob(False, 'an entry of the work stack is read that is never pushed', i, s)

    def val(self, s, v, w=None):
        k = v.k
        if k in ('inst', 'arg'):
            return s.regs.get(v.id, None) if v.id in s.regs else self.unknown(v)
        if k == 'int':
            w = v.ty.width
            return cbits(v.n & ((1 << w) - 1), w)
        if k in ('undef', 'poison'):
            return top(v.ty.width) if v.ty.kind == 'int' else OUT
        return OUT if getattr(v, 'ty', None) is None or v.ty.kind == 'ptr' else top(v.ty.width)

    def unknown(self, v):
        return top(v.ty.width) if v.ty.kind == 'int' else OUT

    def enter(self, s, b):
        """states at the start of block b"""
        F = self.F
        B = F.blocks[b]
        new = {}
        for i in B.insts:
            if i.op != 'phi':
                break
            for p, v in i.incoming:
                if p == s.b:
                    new[i.id] = self.val(s, v)
        n = S()
        n.regs = dict(s.regs)
        n.regs.update(new)
        n.b, n.loc, n.slot, n.got, n.depth, n.path, n.prev = b, dict(s.loc), dict(s.slot), dict(s.got), s.depth, s.path, s.b
        if b not in self.heads:
            return [n]
        live = mesh.liveness(F)[b] | set(new)
        n.regs = {r: v for r, v in n.regs.items() if r in live or (isinstance(v, SP) and v.off == 0)}
        for r, v in n.regs.items():
            if isinstance(v, tuple) and r not in self.index and not atoms(v):
                n.regs[r] = top(len(v))
        # what was pushed
        for (o, k), pair in n.slot.items():
            t = 64
            if set(pair) == {0, 1}:
                lo, hi = pair[0], pair[1]
                if not (isinstance(lo, tuple) and isinstance(hi, tuple)) or None in lo[LOW:] or None in hi[LOW:]:
                    self.unsure = 'a corner that is pushed is not known'
                else:
                    flip = ordered(hi, lo) and not ordered(lo, hi)
                    if flip:
                        lo, hi = hi, lo
                    if self.flip.setdefault(o, flip) != flip:
                        self.unsure = 'corners are pushed in different orders'
                    elif ordered(lo, hi):
                        t = bound(lo, hi)[0]
                    elif not disordered(lo, hi):
                        self.unsure = 'the order of the corners that are pushed is not decided'
            else:
                self.unsure = 'a box is not pushed at one place'
            if self.slotmax.get((o, k), -1) < t:
                self.slotmax[(o, k)] = t
                self.changed = True
        n.slot, n.got = {}, {}
        d = []
        for r, v in n.regs.items():
            if isinstance(v, SP) and r not in self.size and self.arrays[v.o]:
                for a, z in self.arrays[v.o]:
                    if a <= v.off <= a + z:
                        d.append((v.off - a) // (8 if self.two else 16))
                        break
        # the position as a pointer tells what was pushed; as an index it is not told apart from other numbers
        n.depth = max(d) if d and self.ptrs else None
        # boxes
        vs = sorted((r for r, v in n.regs.items() if atoms(v)), key=str)
        out = [n]
        names = {n.regs[r] for r in vs}
        if len(names) == 2:
            x, y = names
            pr = (x, y) if ordered(x, y) else (y, x) if ordered(y, x) else None
            if pr is None:
                if not disordered(x, y):
                    self.unsure = 'two corners are not compared'
                for r in vs:
                    n.regs[r] = top(64)
            else:
                t, sure = bound(*pr)
                out = []
                for u in ([t] if sure else range(LOW - 1, t + 1)):
                    q = self.fork(n)
                    bx = box(u)
                    for r in vs:
                        q.regs[r] = bx[0] if n.regs[r] == pr[0] else bx[1]
                    out.append(q)
        elif len(names) == 1:
            for r in vs:
                n.regs[r] = top(len(n.regs[r]))
        elif len(names) > 2:
            for r in vs:
                v = n.regs[r]
                n.regs[r] = v[:LOW] if False else tuple(None if i < LOW else x for i, x in enumerate(v))
        res = []
        for q in out:
            k = (b, frozenset((r, v) for r, v in q.regs.items()), frozenset(q.loc.items()), q.depth)
            if k not in self.seen:
                self.seen.add(k)
                res.append(q)
        return res

    def fork(self, s):
        n = S()
        n.b, n.regs, n.loc, n.slot, n.got, n.depth, n.path, n.prev = s.b, dict(s.regs), dict(s.loc), dict(s.slot), dict(s.got), s.depth, s.path, s.prev
        n.slot = {k: dict(v) for k, v in s.slot.items()}
        return n

    def block(self, s):
        B = self.F.blocks[s.b]
        cur = [(s, 0)]
        out = []
        while cur:
            s, k = cur.pop()
            while True:
                i = B.insts[k]
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    out += self.leave(s, i)
                    break
                if i.op != 'phi':
                    r = self.inst(s, i)
                    if isinstance(r, list):         # (state, value) alternatives
                        for q, v in r:
                            q.regs[i.id] = v
                            cur.append((q, k + 1))
                        break
                    if r is None:
                        break
                    if r is not True:
                        s.regs[i.id] = r
                k += 1
        return out

    def leave(self, s, i):
        if i.op in ('ret', 'unreachable'):
            return []
        if i.op == 'br' and not i.ops:
            return self.enter(s, i.succ[0])
        if i.op == 'switch':
            v = self.val(s, i.ops[0])
            n = num(v) if isinstance(v, tuple) else None
            dst = {d for x, d in i.cases} | {i.succ[0]}
            if n is not None:
                dst = {dict((x & ((1 << len(v)) - 1), d) for x, d in i.cases).get(n, i.succ[0])}
            return [q for d in sorted(dst) for q in self.enter(s, d)]
        c = self.val(s, i.ops[0])
        c = c[0] if isinstance(c, tuple) else None
        out = []
        for truth, d in ((1, i.succ[0]), (0, i.succ[1])):
            if c in (0, 1) and c is not None and c != truth:
                continue
            q = s if c in (0, 1) and c is not None else self.fork(s)
            q.path = (i.loc(), s.path)
            out += self.enter(q, d)
        return out

    def inst(self, s, i):
        op = i.op
        v = lambda n: self.val(s, i.ops[n])
        w = i.ty.width if i.ty is not None and i.ty.kind == 'int' else None
        if op == 'alloca':
            return SP(i.id, 0)
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = v(0), v(1)
            if isinstance(a, SP) or isinstance(b, SP):
                if op == 'sub' and isinstance(a, SP) and isinstance(b, SP) and a.o == b.o:
                    return cbits((a.off - b.off) & ((1 << w) - 1), w)
                return top(w)
            if a is OUT or b is OUT:
                return top(w)
            return bop(op, a, b)
        if op == 'icmp':
            a, b = v(0), v(1)
            if isinstance(a, SP) and isinstance(b, SP) and a.o == b.o:
                a, b = cbits(a.off + (1 << 40), 64), cbits(b.off + (1 << 40), 64)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return (cmpb(i.pred, a, b),)
            return top(1)
        if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = v(0)
            if not isinstance(a, tuple):
                return a
            if op == 'zext':
                return a + (0,) * (w - len(a))
            if op == 'sext':
                return a + (a[-1],) * (w - len(a))
            if op == 'trunc':
                return a[:w]
            return a
        if op == 'select':
            c, a, b = v(0), v(1), v(2)
            c = c[0] if isinstance(c, tuple) else None
            if c in (0, 1) and c is not None:
                return a if c else b
            if a == b:
                return a
            p, q = self.fork(s), self.fork(s)
            return [(p, a), (q, b)]
        if op == 'gep':
            p = v(0)
            if not isinstance(p, SP):
                return OUT
            off, ty = p.off, i.gty
            for n, x in enumerate(i.ops[1:]):
                j = num(self.val(s, x))
                if j is None:
                    raise Uns('index into a local variable is not followed at ' + i.loc())
                if j >> (x.ty.width - 1):
                    j -= 1 << x.ty.width
                if n == 0:
                    off += j * ty.size
                elif ty.kind == 'struct':
                    off += ty.offsets[j]
                    ty = ty.elems[j]
                else:
                    ty = ty.elems[0]
                    off += j * ty.size
            return SP(p.o, off)
        if op == 'load':
            p = v(0)
            if not isinstance(p, SP):
                return top(w) if w else OUT
            return self.load(s, p, i)
        if op == 'store':
            p, x = v(1), v(0)
            if isinstance(p, SP):
                sz = i.ops[0].ty.size
                if not self.ob(0 <= p.off and p.off + sz <= self.size[p.o], 'the work stack of %d bytes is written outside its bounds' % self.size[p.o], i, s):
                    return None
                cl = self.cell(p.o, p.off)
                if cl:
                    if sz != 8 or p.off % 8:
                        raise Uns('access of %d bytes in a work array' % sz)
                    g, k, j = cl
                    s.slot[(g, k)] = dict(s.slot.get((g, k), {}))
                    s.slot[(g, k)][j] = x
                else:
                    s.loc[(p.o, p.off, sz)] = x
            return True
        if op == 'call':
            name = i.callee.name if i.callee.k in ('func', 'global') else ''
            if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental')):
                return True
            if name.startswith('llvm.ctlz') and isinstance(v(0), tuple):
                n = 0
                for b in reversed(v(0)):
                    if b == 1:
                        return cbits(n, w)
                    if b != 0:
                        break
                    n += 1
                return top(w)
            if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                a, b = v(0), v(1)
                r = cmpb({'u': 'ult', 's': 'slt'}[name[5]], a, b)
                if r is None:
                    return [(self.fork(s), a), (self.fork(s), b)]
                return (a if r else b) if name[6:9] == 'min' else (b if r else a)
            if any(isinstance(self.val(s, o), SP) for o in i.ops):
                raise Uns('local variable passed to %s' % name)
            return top(w) if w else OUT if i.ty.kind == 'ptr' else True
        raise Uns('instruction %s at %s' % (op, i.loc()))

    def load(self, s, p, i):
        sz = i.ty.size
        if not self.ob(0 <= p.off and p.off + sz <= self.size[p.o], 'the work stack is read outside its bounds', i, s):
            return None
        cl = self.cell(p.o, p.off)
        if not cl:
            x = s.loc.get((p.o, p.off, sz))
            return x if x is not None else self.unknown(i)
        if sz != 8 or p.off % 8:
            raise Uns('access of %d bytes in a work array' % sz)
        g, k, j = cl
        x = s.slot.get((g, k), {}).get(j)
        if x is not None:
            return x
        if (g, k) in s.got:
            return s.got[(g, k)][j]
        if s.depth is not None and not self.ob(k < s.depth, 'an entry of the work stack is read that was not pushed', i, s):
            return None
        t = self.slotmax.get((g, k))
        if t is None:
            self.never[(g, k)] = (i, s)
            return []
        out = []
        if t >= 64:
            q = self.fork(s)
            q.got[(g, k)] = (top(64), top(64))
            return [(q, top(64))]
        for u in range(LOW - 1, t + 1):
            q = self.fork(s)
            q.got[(g, k)] = box(u)[::-1] if self.flip.get(g) else box(u)
            out.append((q, q.got[(g, k)][j]))
        return out


# ------------------------------------------------------------------ data and results
def origin(F, v, data):
    """'data': the value was loaded from the data; 'other': it cannot be such a copy; None: not known"""
    seen, work = set(), [v]
    rs = set()
    defs = {i.id: i for B in F.blocks for i in B.insts}
    while work:
        x = work.pop()
        if x.k != 'inst':
            rs.add('other' if x.k in ('int', 'arg') else None)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        i = defs[x.id]
        if i.op == 'phi':
            work += [o for _, o in i.incoming]
        elif i.op == 'select':
            work += i.ops[1:]
        elif i.op in ('freeze', 'bitcast'):
            work.append(i.ops[0])
        elif i.op == 'load':
            rs.add(based(defs, i.ops[0], data))
        elif i.op in ('add', 'sub', 'or', 'xor', 'and', 'mul', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc'):
            rs.add('other')
        else:
            rs.add(None)
    return rs


def based(defs, p, data):
    seen, work, rs = set(), [p], set()
    while work:
        x = work.pop()
        if x.k == 'arg':
            rs.add('data' if x.id == data else 'other')
        elif x.k == 'inst':
            if x.id in seen:
                continue
            seen.add(x.id)
            x = defs[x.id]
            if x.op == 'phi':
                work += [o for _, o in x.incoming]
            elif x.op == 'select':
                work += x.ops[1:]
            elif x.op in ('gep', 'freeze', 'bitcast'):
                work.append(x.ops[0])
            else:
                rs.add(None)
        elif x.k not in ('undef', 'poison', 'null'):
            rs.add(None)
    return rs.pop() if len(rs) == 1 else None


class Query(Unit):
    """data: n readable words; out: n writable words, written one after the other"""

    def __init__(self, ctx):
        super().__init__('zorder.cpp', ['-DCE_USER_ERROR_LEVEL=0'], (), ctx)
        I = self.I
        self.n = new('n', 0, 1 << 56)
        w = self.gty('vf_u64')
        self.D = Region('data', w, (), count=self.n, const=True)
        self.O = Region('out', w, (), count=self.n)
        for F in self.m.funcs.values():
            if F.is_decl:
                continue
            for B in F.blocks:
                for i in B.insts:
                    if i.op == 'alloca' and i.aty.size > 64:
                        # its bounds are decided by Stack
                        r = Region('%%%d' % i.id, i.aty, (), kind='alloca', segs=[Seg('[]', -(1 << 50), 8, Lin(1 << 48), {0: (8, 'int')}, 'data')])
                        r.wide = True
                        I.allocas[(F.name, i.id)] = r
        I.hooks['load'], I.hooks['store'] = self.load, self.store
        self.exec0 = I.exec_inst
        I.exec_inst = self.exec
        self.stores = []

    def load(self, I, st, r, s, idx, f, ty, inst):
        if r is self.D or getattr(r, 'wide', False):
            return UNDEF

    def store(self, I, st, r, s, idx, f, v, ty, inst):
        if getattr(r, 'wide', False):
            return True
        if r is self.O:
            w = st.gn['W']
            I.oblige(st, st.cons.entails(True, idx - w), 'count', 'a result is not written right after the one before it', inst)
            st.gn['W'] = idx + 1
            if inst.op == 'store' and inst not in self.stores:
                self.stores.append(inst)
            return True

    OPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc', 'udiv', 'urem'}

    def exec(self, st, i):
        if i.op in self.OPS or i.op == 'call' and i.callee.k == 'func' and i.callee.name.startswith(('llvm.ct', 'llvm.umin', 'llvm.umax', 'llvm.bit', 'llvm.fsh')):
            if any(o.k in ('inst', 'arg') and self.I.val(st, o) is UNDEF for o in i.ops):
                st.regs[i.id] = UNDEF
                return
        self.exec0(st, i)

    def go(self):
        st = State()
        st.gn['W'] = ZERO
        st.regs.update(a0=Ptr(self.O, ZERO), a1=UNDEF, a2=UNDEF, a3=Int(64, self.n), a4=Ptr(self.D, ZERO))
        for f in self.run('x_query', [st]):
            self.expect(f, self.eq(f, f.ret, f.gn['W']), 'count', 'the number of results returned is not the number written')
        self.done()
        for i in self.stores:
            rs = origin(i.fn, i.ops[0], 'a4')
            if None in rs and 'other' not in rs:
                self.ctx.incomplete.append('origin of the result at %s is not followed' % i.loc())
            self.ctx.ob('other' not in rs, 'copied', 'a result is not a copy of an element of the data', i.loc(), i.fn.name)


def query(c):
    u = Query(c)
    c.watched.remove(u.I)
    u.go()
    if not Stack(None, u.m, 'x_query').ptrs and u.I.violations:
        # the position in the stack is a number: its relation to the other counters is not tracked exactly
        c.incomplete.append('the stack position is an index; not decided: ' + '; '.join('%s %s' % (v.loc, v.msg) for v in u.I.violations.values() if v.rule != 'termination')[:300])
        if all(v.rule == 'termination' for v in u.I.violations.values()):
            c.incomplete.pop()
        else:
            return
    c.absorb(u.I, skip=('termination',))


def stack(c):
    m = llvm.build(os.path.join(H, 'zorder.cpp'), ['-DCE_USER_ERROR_LEVEL=0'])
    k = Stack(c, m, 'x_query')
    c.units.append('zorder.cpp x_query (flattened)')
    c.functions.add('x_query')
    try:
        k.go()
    except Uns as e:
        c.incomplete.append('work stack: %s' % e)
        return
    for (loc, msg), ok in k.obl.items():
        if not ok and k.unsure:
            c.incomplete.append('work stack: %s (%s at %s)' % (k.unsure, msg, loc))
            continue
        c.ob(ok, 'stack', msg, loc, 'x_query', k.bad.get((loc, msg), ()))
    c.info['stack_states'] = k.nstates
    c.info['deepest_entry'] = max([s for _, s in k.slotmax], default=-1) + 1


@check('C19', 'abstract interpretation of LLVM IR: relational domain for data and results, symbolic-bit domain of canonical boxes for the work stack')
def c19(c):
    c.par([(query,), (stack,)])
