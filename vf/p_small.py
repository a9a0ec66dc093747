"""C35 span, C28 bitset, C21 clock, C09 binary searches."""
from .unit import *
from .obj import Objects, RAW, LIVE
from .core import check

TECH = 'abstract interpretation of LLVM IR (relational integer domain, alias case splits); '


# ---------------------------------------------------------------- C35
@check('C35', TECH + 'exact result obligations', note='One 12-byte element type; spans of any size below 2^56 elements; make_span is covered for bulk by the accessor rules of C01 and repeated here.')
def c35(c):
    u = Unit('span.cpp', [], [], c)
    _, so, do, esz = u.layout()
    for fn in ('h_skip', 'h_trim'):
        n, size, base = new('n', 0, U64), new('size', 0, 1 << 56), new('base', 0, 1 << 60)
        D = Region('data', u.gty('vf_e'), (), count=fresh('count', 0, 1 << 58) and new('count', 0, 1 << 58))
        S = Region('span', u.gty('vf_s'), const=True)
        O = Region('out', u.gty('vf_s'))
        st = State()
        Arr(u, S, so).put(st, 0, size)
        st.cells[(S, S.seg_at(do).name, 0)] = ((ZERO, Ptr(D, base)),)
        st.regs.update(a0=Ptr(S, ZERO), a1=Ptr(O, ZERO), a2=Int(64, n))
        for f in u.run(fn, [st]):
            osz, = [v for _, v in Arr(u, O, so).get(f, 0)]
            odt, = [v for _, v in Arr(u, O, do).get(f, 0)]
            for tag, y in u.cases(f, [('part', [lt(n, size)]), ('empty', [le(size, n)])]):
                if tag == 'part':
                    u.expect(y, u.eq(y, osz, size - n), 'result', '%s returns a wrong size' % fn[2:])
                    u.expect(y, u.ptr_is(y, odt, D, base + (n * esz if fn == 'h_skip' else 0)), 'result', '%s returns a wrong start' % fn[2:])
                else:
                    u.expect(y, u.eq(y, osz, ZERO), 'result', '%s of everything must be empty' % fn[2:])
                    ok = isinstance(odt, Ptr) and odt.r is D and y.cons.entails(False, odt.o - base) and y.cons.entails(False, base + size * esz - odt.o)
                    u.expect(y, ok, 'result', '%s of everything must stay inside the span' % fn[2:])
    for fn in ('h_begin', 'h_end', 'h_cbegin', 'h_cend', 'h_ccbegin', 'h_ccend'):
        size, base = new('size', 0, 1 << 56), new('base', 0, 1 << 60)
        D = Region('data', u.gty('vf_e'), (), count=new('count', 0, 1 << 58))
        S = Region('span', u.gty('vf_s'), const=True)
        st = State()
        Arr(u, S, so).put(st, 0, size)
        st.cells[(S, S.seg_at(do).name, 0)] = ((ZERO, Ptr(D, base)),)
        st.regs['a0'] = Ptr(S, ZERO)
        for f in u.run(fn, [st]):
            u.expect(f, u.ptr_is(f, f.ret, D, base + (size * esz if fn.endswith('end') else 0)), 'result', '%s() of a span is wrong' % fn[2:])
    u.done()
    c.absorb(u.I)
    from .p_bulk import Bulk
    b = Bulk(c, 7, 0)
    b.accessors()
    c.absorb(b.I)


# ---------------------------------------------------------------- C28
class Bits(Unit):
    def __init__(self, ctx, N):
        super().__init__('bitset.cpp', ['-DVF_N=%d' % N], [], ctx)
        self.N = N
        if self.layout()[1] != N:
            raise AnalysisError('bitset size')

    def log(self, I, st, i, a):
        """an assertion: allowed exactly for an index out of range; the path ends"""
        idx = getattr(self, 'idx', None)
        ok = idx is not None and st.cons.entails(False, idx - self.N)
        I.oblige(st, ok, 'assert', 'an assertion fails for an index below N', i)
        if ok:
            self.fired += 1
            raise Infeasible()

    def start(self):
        self.R = Region('bitset', self.gty('vf_b'))
        st = State()
        st.regs['a0'] = Ptr(self.R, ZERO)
        self.a = Arr(self, self.R, 0)
        return st

    def byte(self):
        e = ZERO
        for k in range(8):
            e = e + new('bit%d' % k, 0, 1) * (1 << k)
        return e

    def bit(self, st, v, k):
        return self.I.bitand(st, Int(8, v), Int(8, Lin(1 << k)))

    def all(self):
        N = self.N
        nb = (N + 7) // 8
        for fn in ('h_get', 'h_set', 'h_reset', 'h_put1', 'h_put0'):
            for r in range(8):
                if r >= N:
                    continue
                st = self.start()
                q = new('byte', 0, (N - 1 - r) // 8)
                self.idx = q * 8 + r
                j = new('j', 0, nb - 1)
                b0 = self.byte()
                self.a.put(st, q, b0)
                st.regs['a1'] = Int(64, self.idx)
                for rel in ([eqr(j, q)], [lt(j, q)], [lt(q, j)]):
                    s = self.I.assume_rows(st, rel)
                    if s is None:
                        continue
                    bj = b0
                    if rel[0][0] is False:
                        bj = self.byte()
                        self.a.put(s, j, bj)
                    for f in self.run(fn, [s]):
                        if fn == 'h_get':
                            self.expect(f, all(self.eq(y, y.ret, Lin(t)) for t in (0, 1) for y in self.isbit(f, b0, r, t)), 'result',
                                        'operator[] does not return the bit')
                        if rel[0][0] is False:
                            self.expect(f, self.a.is_(f, j, bj), 'frame', '%s changes another byte' % fn[2:])
                        for f2, v in self.a.get(f, q):
                            v = self.I.norm(f2, v)
                            for k in range(8):
                                want = {'h_set': 1, 'h_put1': 1, 'h_reset': 0, 'h_put0': 0}.get(fn) if k == r else None
                                e = self.bit(f2, v, k)
                                w = self.bit(f2, b0, k) if want is None else Lin(want << k)
                                self.expect(f2, f2.cons.entails(True, e - w), 'bits', '%s: bit %d of the byte of bit %d is wrong' % (fn[2:], k, r))
            # out of range
            for r in range(8):
                st = self.start()
                q = new('index', (N - r + 7) // 8, U64 // 8)
                self.idx = q * 8 + r
                self.fired = 0
                st.regs['a1'] = Int(64, self.idx)
                fin = self.I.run(fn, [st])
                self.expect(st, not fin and self.fired, 'assert', '%s accepts an index out of range' % fn[2:])
        for fn, val in (('h_set_all', 255), ('h_reset_all', 0)):
            st = self.start()
            for b in range(nb):
                self.a.put(st, b, self.byte())
            for f in self.run(fn, [st]):
                for b in range(nb):
                    for k in range(8):
                        if b * 8 + k >= N:
                            continue
                        ok = all(f2.cons.entails(True, self.bit(f2, self.I.norm(f2, v), k) - (val & (1 << k))) for f2, v in self.a.get(f, b))
                        self.expect(f, ok, 'bits', '%s() does not change bit %d' % (fn[2:].replace('_all', ''), b * 8 + k))
        st = self.start()
        for f in self.run('h_size', [st]):
            self.expect(f, self.eq(f, f.ret, Lin(N)), 'result', 'get_size() is wrong')
        self.done()

    def isbit(self, f, b0, r, t):
        n = self.I.assume_rows(f, [(True, self.bit(f, b0, r) - (t << r))])
        return [n] if n is not None else []


@check('C28', TECH + 'exact bit arithmetic for every bit position', note='Bit counts 1, 3, 5, 8, 9, 13, 16, 64, 100 and 300 (more with the thorough command).')
def c28(c):
    for N in ([1, 3, 5, 8, 9, 13, 16, 64, 100, 300] if not c.thorough else [1, 2, 7, 8, 9, 13, 16, 64, 65, 256, 1000]):
        b = Bits(c, N)
        b.all()
        c.absorb(b.I)


# ---------------------------------------------------------------- C21
class Clock(Unit):
    def __init__(self, ctx, fn, fd):
        super().__init__('clock.cpp', ['-DVF_FN=%dull' % fn, '-DVF_FD=%dull' % fd], [], ctx)
        L = self.layout()
        self.off, self.Fn, self.Fd = L[:4], fn, fd
        self.I.handlers += [(lambda f: f == '_ZN2ce2os19monotonic_timestampEv', self.stamp),
                            (lambda f: f == '_ZN2ce2os19monotonic_frequencyEv', self.freq)]

    def stamp(self, I, st, i, a):
        n = st.gd.get('stamps', 0)
        st.gd['stamps'] = n + 1
        I.oblige(st, n == 0, 'events', 'the timestamp is read more than once', i)
        return Int(64, self.now)

    def freq(self, I, st, i, a):
        st.gd['freqs'] = st.gd.get('freqs', 0) + 1
        return Int(64, self.F)

    def start(self):
        self.R = Region('clock', self.gty('vf_c'))
        st = State()
        st.regs['a0'] = Ptr(self.R, ZERO)
        # the scaled remainder and the result fit: Fn <= frequency*Fd and (Fn+1)*frequency*Fd < 2^64
        lo = max(1, -(-self.Fn // self.Fd))
        self.F = new('frequency', lo, ((1 << 64) - 1) // ((self.Fn + 1) * self.Fd))
        self.now, self.ts, self.tick = new('now', 0, U64), new('timestamp', 0, U64), new('tick', 0, U64)
        self.res = new('residual', 0, None)
        st.row(*le(ZERO, self.res))
        st.row(*lt(self.res, self.F * self.Fd))
        self.fa = [Arr(self, self.R, o) for o in self.off]
        return st

    def all(self):
        fd = None
        for fn in ('h_elapsed', 'h_current'):
            st = self.start()
            fd = self.F * self.Fd
            for a, v in zip(self.fa, (self.F, self.ts, self.res, self.tick)):
                a.put(st, 0, v)
            for tag, s in self.cases(st, [('', [le(self.ts, self.now)]), ('wrapped', [lt(self.now, self.ts)])]):
                E = self.now - self.ts + (1 << 64 if tag else 0)
                for f in self.run(fn, [s]):
                    self.expect(f, f.gd.get('stamps') == 1, 'events', '%s must read the timestamp once' % fn[2:])
                    self.expect(f, self.fa[0].is_(f, 0, self.F), 'frame', '%s changes the frequency' % fn[2:])
                    self.expect(f, self.fa[1].is_(f, 0, self.now), 'reference', '%s must remember the timestamp it read' % fn[2:])
                    r1 = self.val(f, 2)
                    t1 = self.fa[3].get(f, 0)[0][1]
                    # the change of the tick counter, modulo 2^64
                    dt = f.ret.e if fn == 'h_elapsed' else None
                    if dt is None:
                        self.expect(f, self.same_mod(f, f.ret, t1), 'ticks', 'current() must return the tick counter')
                        dts = self.quot(f, t1)
                    else:
                        self.expect(f, self.same_mod(f, t1, Int(64, self.tick + dt)), 'ticks', 'the tick counter must grow by the returned ticks')
                        dts = [dt + k * (1 << 64) for k in (0, 1, -1)]
                    self.expect(f, f.cons.entails(False, r1) and f.cons.entails(False, fd - r1 - 1), 'residual', 'the residual leaves [0, frequency*Fd)')
                    ok = any(self.identity(f, d, fd, r1, E) for d in dts)
                    self.expect(f, ok, 'drift', 'ticks*frequency*Fd + residual is not elapsed*Fn + old residual')
        st = self.start()
        for a in self.fa:
            a.put(st, 0, a.sym('uninitialised'))
        for f in self.run('h_reset', [st]):
            for a, v in zip(self.fa, (self.F, self.now, ZERO, ZERO)):
                self.expect(f, a.is_(f, 0, v), 'reset', 'reset leaves a wrong field')
        self.done()

    def val(self, f, n):
        return self.I.norm(f, self.fa[n].get(f, 0)[0][1])

    def same_mod(self, f, a, b):
        d = Lin.__sub__(a.e, b.e)
        if not d.t:
            return d.c % (1 << 64) == 0
        return any(f.cons.entails(True, d + k * (1 << 64)) for k in (0, 1, -1))

    def quot(self, f, t1):
        d = t1.e - self.tick
        return [d, d + (1 << 64), d - (1 << 64)]

    def identity(self, f, dt, fd, r1, E):
        f = f.fork()
        p = self.I.muls(f, dt, fd)
        return f.cons.entails(True, p + r1 - E * self.Fn - self.res)


@check('C21', TECH + 'exact polynomial identity of the drift invariant with division remainders',
       note='Tick rates 60/1, 1000/1 and 30000/1001; assumes Fn <= frequency*Fd and (Fn+1)*frequency*Fd < 2^64 (no overflow of the scaled remainder).')
def c21(c):
    for fn, fd in ([(60, 1), (1000, 1), (30000, 1001)] if not c.thorough else [(60, 1), (1000, 1), (30000, 1001), (1, 1), (1, 60), (1000000000, 1), (60000, 1001)]):
        u = Clock(c, fn, fd)
        u.all()
        c.absorb(u.I)


# ---------------------------------------------------------------- C09
class Search(Unit):
    def __init__(self, ctx):
        super().__init__('search.cpp', [], ['struct.E'], ctx)
        self.O = Objects(self.I, 'E')
        self.I.raw_obj_hook = self.O.raw
        self.I.handlers.append((lambda f: f == '_ZNK1EltERKS_', self.less))

    def less(self, I, st, i, a):
        """a[i] < k holds below the partition point (lower), k < a[i] from it on (upper)"""
        for p in a:
            self.O.use(st, p, i, 'compares')
        x, y = a
        if x.r is self.A and y.r is not self.A:
            idx = self.I.udivc(st, x.o, self.esz)[0]
            if self.kind == 'lower':
                return Cond('row', False, self.pp - idx - 1)
            raise Unsupported('upper_bound compares an element with the key')
        if y.r is self.A and x.r is not self.A:
            idx = self.I.udivc(st, y.o, self.esz)[0]
            if self.kind == 'upper':
                return Cond('row', False, idx - self.pp)
            raise Unsupported('lower_bound compares the key with an element')
        raise Unsupported('comparison of two elements')

    def init(self, I, st, r, seg, idx, f):
        k = ('elem', idx)
        v = st.divs.get(k)
        K = self.key
        if v is None:
            size = seg.fields[0][0]
            v = st.divs[k] = new('a[i]', 0, (1 << (8 * size)) - 1) if not self.signed else new('a[i]', -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
            below = [('row',) + lt(v, K)] if self.kind == 'lower' else [('row',) + le(v, K)]
            above = [('row',) + le(K, v)] if self.kind == 'lower' else [('row',) + lt(K, v)]
            raise Split([[('row',) + lt(idx, self.pp)] + below, [('row',) + le(self.pp, idx)] + above])
        return Int(8 * seg.fields[0][0], v)

    def all(self):
        for fn in ('h_lower_u', 'h_upper_u', 'h_lower_i', 'h_upper_i', 'h_lower_e', 'h_upper_e', 'h_lower_z'):
            self.kind = 'upper' if 'upper' in fn else 'lower'
            t = fn[-1]
            self.signed = t == 'i'
            w = {'i': 4, 'e': 12}.get(t, 8)
            self.esz = w
            n = new('n', 0, 1 << 58)
            self.pp = new('m', 0, 1 << 58)
            st = State()
            st.row(*le(self.pp, n))
            ty = self.gty('vf_e') if t == 'e' else self.m_int(w)
            A = self.A = Region('array', ty, self.I.opaque, count=n, const=True)
            st.regs.update(a0=Ptr(A, ZERO), a1=Ptr(A, n * w))
            if t == 'e':
                K = Region('key', ty, self.I.opaque, const=True)
                self.O.tracked.clear()
                self.O.track(st, K, K.segs[0], 'k', ZERO, LIVE, 'K')
                st.regs['a2'] = Ptr(K, ZERO)
            else:
                A.init = self.init
                lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if self.signed else (0, (1 << (8 * w)) - 1)
                self.key = new('k', lo, hi)
                st.regs['a2'] = Int(8 * w, self.key)
            for f in self.run(fn, [st]):
                self.expect(f, self.ptr_is(f, f.ret, A, self.pp * w), 'result', '%s_bound does not return the partition point' % self.kind)
                self.O.locals_dead(f)
        self.done()

    def m_int(self, w):
        for t in self.m._tys.values():
            if t.kind == 'int' and t.size == w:
                return t
        raise AnalysisError('integer type of %d bytes' % w)


@check('C09', TECH + 'relational loop invariant (range contains the partition point) and ranking',
       note='Element types: opaque class with operator<, 64-bit unsigned, 32-bit signed; ranges of any length below 2^58.')
def c09(c):
    u = Search(c)
    u.all()
    c.absorb(u.I)
