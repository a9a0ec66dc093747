"""Loop folds: decide that a function computes  out(g_n)  with  g_0 = init, g_{k+1} = step(g_k, k)  for every n.

The loop that depends on the input length is found from the source; its header values are classified as inductions
(init + k*stride) or the folded state, and one iteration is compared with the specification in normal form."""
from . import vg, ve
from .vg import V


class Found(Exception):
    def __init__(self, fr, F, h):
        self.F, self.h = F, h


def nat(name, w=44):
    return vg.zext(vg.var(name, w), 64)


def sign(v):
    """'0', '+', '-', '+0', '-0' or None for a 64-bit linear form over non-negative atoms that cannot wrap"""
    c, t = v.lin
    M = 1 << v.w
    if c >> (v.w - 1):
        c -= M
    lo = hi = 0
    pos = neg = False
    for mono, k in t:
        if k >> (v.w - 1):
            k -= M
        m = 1
        for a in mono:
            bits, signed = vg.vec_atoms.defs[a]
            if signed:
                return None
            m *= (1 << len(bits)) - 1
        if k > 0:
            pos = True
            hi += k * m
        else:
            neg = True
            lo += k * m
    if hi + c >= M // 2 or lo + c < -(M // 2):
        return None
    if not t:
        return '0' if c == 0 else '+' if c > 0 else '-'
    if not neg and c >= 0:
        return '+' if c > 0 else '+0'
    if not pos and c <= 0:
        return '-' if c < 0 else '-0'
    return None


def decide(st, pred, a, b):
    """order of two 64-bit quantities that are known not to wrap"""
    if a.w != 64:
        # compare narrower counters only when they are plain truncations of small quantities: left to the normal form
        return None
    d = vg.sub(a, b)
    s = sign(d)
    if s is None:
        return None
    if pred in ('eq', 'ne'):
        r = True if s == '0' else False if s in '+-' else None
        return r if r is None or pred == 'eq' else not r
    if pred[0] == 'u':
        # both sides must be non-negative as integers
        if sign(a) not in ('0', '+', '+0') or sign(b) not in ('0', '+', '+0'):
            return None
    else:
        if sign(a) is None or sign(b) is None:
            return None
    p = pred[1:]
    if p == 'lt':
        return True if s == '-' else False if s in ('0', '+', '+0') else None
    if p == 'ge':
        return False if s == '-' else True if s in ('0', '+', '+0') else None
    if p == 'gt':
        return True if s == '+' else False if s in ('0', '-', '-0') else None
    if p == 'le':
        return False if s == '+' else True if s in ('0', '-', '-0') else None


def feasible(st):
    """the newest condition against the earlier ones about the same bits"""
    if len(st.pc) < 2:
        return True
    r = st.pc[-1]
    sup = vg._support(r, 10)
    if not sup:
        return True
    for p in st.pc[:-1]:
        s = vg._support(p, 10)
        if s and s & sup and len(s | sup) <= 10:
            r = vg.p_and(r, p)
            if not r:
                return False
    return True


class Fold:
    """spec: args(n, size)->argument values, init()->V, step(g,k)->V, out(g,n)->value, elem: bytes per element,
    until(k)->poly or None (a loop that ends at the first k with until(k)), observe(st)->extra results"""

    def __init__(self, c, mod, fname, args, init, step, out, until=None, what='', data=None, elem=1, calls=None, multi=0, cases=None):
        self.c, self.mod, self.fname = c, mod, fname
        self.args, self.init, self.step, self.out = args, init, step, out
        self.until, self.what, self.data, self.elem = until, what or fname, data, elem
        self.calls = calls or {}
        self.multi = multi
        self.cases = cases
        self.stopbyte = 0
        self.F = mod.funcs[fname]
        self.loc = next((i.loc() for b in self.F.blocks for i in b.insts if i.line), fname)
        for b in self.F.blocks:
            for i in b.insts:
                if i.op in ('mul', 'xor', 'load', 'phi') and i.line and 'harness' not in i.file:
                    self.loc = i.loc()
                    break

    def ev(self):
        e = ve.Evaluator(self.mod, self.calls)
        return e

    def find(self):
        """the loop whose trip count is not a constant"""
        e = self.ev()
        n = nat('n')
        orig = e.fork

        def fork(F, fr, b, st, alts, stops):
            for h, body in sorted(F.loops.items(), key=lambda x: -len(x[1])):
                if b in body and (self.until or any(s not in body for _, _, s in alts)):
                    raise Found(fr, F, h)
            return orig(F, fr, b, st, alts, stops)
        e.fork = fork
        try:
            e.run(self.fname, self.args(n))
        except Found as f:
            return f.F, f.h
        return None

    def one(self, F, h, n, k, g, shape):
        """run to the loop, replace the header values by the invariant at k, run one iteration; outcomes"""
        e = self.ev()
        e.decide = decide
        acc = []

        def access(st, p, sz, write):
            if p.r is self.data:
                acc.append((p.off, sz, write))
        e.on_access = access
        res = {}

        def hook(e, FF, fr, b, st, stops):
            if FF is not F or b != h or res.get('in'):
                return None
            res['in'] = True
            phis = [i for i in F.blocks[h].insts if i.op == 'phi']
            vals = {}
            for i in phis:
                v0 = st.regs[(fr, i.id)]
                vals[i.id] = shape(i, v0)
            for i in phis:
                st.regs[(fr, i.id)] = vals[i.id]
            del acc[:]
            outs = e.exec(F, fr, h, -1, st, stops | {h}, True)
            res['fr'] = fr
            r = []
            for o in outs:
                if o[0] == 'at' and o[2] == h and h not in stops:
                    r.append(('back', o[1], {i.id: o[1].regs[(fr, i.id)] for i in phis}))
                else:
                    r.append(o)
            res['back'] = [x for x in r if x[0] == 'back']
            return [x for x in r if x[0] != 'back']
        e.loop_hook = hook
        st0 = ve.State()
        rets = e.run(self.fname, self.args(n), st0)
        return e, res.get('back', []), rets, acc, res.get('in')

    def prove(self):
        """True if the fold was established, else a reason"""
        f = self.find()
        if f is None:
            return 'no loop over the input was found'
        F, h = f
        phis = [i for i in F.blocks[h].insts if i.op == 'phi']
        # classify the header values
        kinds = {}
        init = {}
        fresh = {}

        def probe(i, v0):
            init[i.id] = v0
            if isinstance(v0, ve.Ptr):
                fresh[i.id] = vg.var('probe%d' % i.id, 64)
                return ve.Ptr(v0.r, fresh[i.id])
            if isinstance(v0, V):
                fresh[i.id] = vg.var('probe%d' % i.id, v0.w)
                return fresh[i.id]
            raise ve.Unsupported('loop value')
        k = nat('k')
        m = nat('m')
        self.ready = False
        try:
            e, back, rets, acc, seen = self.one(F, h, vg.add(vg.add(k, m), vg.const(64, 3)), k, None, probe)
        except ve.Unsupported as x:
            return 'unsupported: %s' % x
        if not back:
            return 'the loop never repeats'
        states = []
        for i in phis:
            strides = set()
            for _, st, vals in back:
                v = vals[i.id]
                if isinstance(v, ve.Ptr):
                    d = vg.sub(v.off, fresh[i.id]) if v.r is init[i.id].r else None
                elif isinstance(v, V):
                    d = vg.sub(v, fresh[i.id])
                else:
                    d = None
                strides.add(d.const() if d is not None else None)
            if len(strides) == 1 and None not in strides:
                kinds[i.id] = strides.pop()
            else:
                kinds[i.id] = 'state'
                states.append(i)
        if self.multi:
            return self.prove_multi(F, h, phis, kinds, init, states, k, m)
        if len(states) > 1:
            return 'more than one folded value'
        g0 = self.init()
        mask = None
        if states:
            i0 = init[states[0].id]
            if not isinstance(i0, V):
                return 'the folded value is a pointer'
            if i0.w != g0.w:
                if i0.w > g0.w:
                    return 'the folded value has another width'
                return 'the folded value has another width'
            mask = vg.xor(i0, g0)
            if mask.const() is None:
                return 'the first value is not the specified one'
        g = vg.var('g', g0.w)
        self.ready = (F, h, kinds, g, mask)

        def shape(i, v0):
            s = kinds[i.id]
            if s == 'state':
                return vg.xor(g, mask)
            if isinstance(v0, ve.Ptr):
                return ve.Ptr(v0.r, vg.add(v0.off, vg.mul(k, vg.const(64, s))))
            kk = vg.trunc(k, v0.w) if v0.w < 64 else k
            return vg.add(v0, vg.mul(kk, vg.const(v0.w, s)))
        M = 1 << 64

        def check_back(back, kk=k):
            for _, st, vals in back:
                for i in states:
                    if vals[i.id] != vg.xor(self.step(g, kk), mask):
                        return 'one iteration does not match the specified step'
                for i in phis:
                    if i in states:
                        continue
                    if kinds[i.id] == 'state':
                        continue
            return True

        def ret_ok(rets, want):
            for st, v in rets:
                if v is ve.Stop:
                    return 'the function may stop'
                if v != want:
                    return 'the result is not the specified one'
            return True

        def bounds(acc, n):
            for off, sz, write in acc:
                if write:
                    return 'the input is written'
                if self.until:
                    s = sign(vg.sub(vg.add(off, vg.const(64, sz)), vg.add(vg.mul(k, vg.const(64, self.elem)), vg.const(64, self.elem))))
                else:
                    s = sign(vg.sub(vg.add(off, vg.const(64, sz)), vg.mul(n, vg.const(64, self.elem))))
                if s not in ('0', '-', '-0') or sign(off) not in ('0', '+', '+0'):
                    return 'an access may be outside the input'
            return True
        one = vg.const(64, 1)
        try:
            if self.until:
                e, back, rets, acc, seen = self.one(F, h, k, k, g, shape)
                b = bounds(acc, None)
                if b is not True:
                    return b
                stop = self.until(k)
                ex = vg.NIL
                for st, v in rets:
                    if v is ve.Stop:
                        return 'the function may stop'
                    ex = ex ^ prod(st.pc)
                if ex != stop:
                    return 'the loop does not end exactly at the first stop'
                b = check_back(back)
                if b is not True:
                    return b
                want = self.out(g, k)
                for st, v in rets:
                    if v != want:
                        return 'the result is not the specified one'
                return True
            # top-tested?
            n = vg.add(vg.add(k, m), one)
            e, back, rets, acc, seen = self.one(F, h, n, k, g, shape)
            if back and not rets:
                b = check_back(back)
                if b is True:
                    b = bounds(acc, n)
                if b is not True:
                    return b
                k1 = vg.add(k, one)

                def shape1(i, v0):
                    s = kinds[i.id]
                    if s == 'state':
                        return vg.xor(g, mask)
                    if isinstance(v0, ve.Ptr):
                        return ve.Ptr(v0.r, vg.add(v0.off, vg.mul(k1, vg.const(64, s))))
                    kk = vg.trunc(k1, v0.w) if v0.w < 64 else k1
                    return vg.add(v0, vg.mul(kk, vg.const(v0.w, s)))
                e, back, rets, acc, seen = self.one(F, h, k1, k1, g, shape1)
                if back:
                    return 'the loop may run past the end'
                b = bounds(acc, k1)
                if b is True:
                    b = ret_ok(rets, self.out(g, k1))
                if b is not True:
                    return b
            else:
                n = vg.add(vg.add(k, m), vg.const(64, 2))
                e, back, rets, acc, seen = self.one(F, h, n, k, g, shape)
                if rets or not back:
                    return 'the loop condition could not be decided'
                b = check_back(back)
                if b is True:
                    b = bounds(acc, n)
                if b is not True:
                    return b
                n = vg.add(k, one)
                e, back, rets, acc, seen = self.one(F, h, n, k, g, shape)
                if back:
                    return 'the loop may run past the end'
                b = bounds(acc, n)
                if b is True:
                    b = ret_ok(rets, self.out(self.step(g, k), n))
                if b is not True:
                    return b
        except ve.Unsupported as x:
            return 'unsupported: %s' % x
        return True

    def prove_multi(self, F, h, phis, kinds, init, states, k, m):
        """the folded state has several components; init(n) and step(g, k) work on tuples of them.  Top-tested or rotated
        loops over elements 0..n-1 that start from init(n) and return out(g, n)"""
        one = vg.const(64, 1)
        if len(states) != self.multi:
            return 'the loop carries %d values, the definition %d' % (len(states), self.multi)
        n = vg.add(vg.add(k, m), vg.const(64, 3))
        g0 = self.init(n)
        slot = {}
        for i in states:
            js = [j for j, v in enumerate(g0) if j not in slot.values() and isinstance(init[i.id], V) and init[i.id] == v]
            if not js:
                return 'a carried value does not start as specified'
            slot[i.id] = js[0]
        g = tuple(vg.var('g%d' % j, v.w) for j, v in enumerate(g0))

        def shape(i, v0):
            if i.id in slot:
                return g[slot[i.id]]
            s = kinds[i.id]
            if isinstance(v0, ve.Ptr):
                return ve.Ptr(v0.r, vg.add(v0.off, vg.mul(k, vg.const(64, s))))
            return vg.add(v0, vg.mul(vg.trunc(k, v0.w) if v0.w < 64 else k, vg.const(v0.w, s)))
        want = self.step(g, k)
        cases = [{}]
        if self.cases:
            cases = []
            for ps in self.cases(g, k):
                d = {}
                for p, v in ps:
                    a = vg.atom_of(p)
                    if a is None:
                        return 'a condition of the definition is not an atom'
                    d[a[0]] = int(v) ^ a[1]
                cases.append(d)

        def good(back, rets, acc, n, last):
            for off, sz, write in acc:
                if write:
                    return 'the input is written'
                if sign(vg.sub(vg.add(off, vg.const(64, sz)), vg.mul(n, vg.const(64, self.elem)))) not in ('0', '-', '-0') or sign(off) not in ('0', '+', '+0'):
                    return 'an access may be outside the input'
            for case in cases:
                for _, st, vals in back:
                    if not vg.given(prod(st.pc), case):
                        continue
                    for i in states:
                        j = slot[i.id]
                        if vals[i.id] != want[j] and vg.given(vals[i.id], case) != vg.given(want[j], case):
                            return 'one iteration does not match the specified step'
            for st, v in rets:
                if v is ve.Stop:
                    return 'the result is not the specified one'
                w = self.out(last, n)
                if v == w:
                    continue
                for case in cases:
                    if vg.given(prod(st.pc), case) and vg.given(v, case) != vg.given(w, case):
                        return 'the result is not the specified one'
            return True
        try:
            n = vg.add(vg.add(k, m), vg.const(64, 2))
            e, back, rets, acc, seen = self.one(F, h, n, k, g, shape)
            if rets or not back:
                return 'the loop condition could not be decided'
            r = good(back, rets, acc, n, None)
            if r is not True:
                return r
            n = vg.add(k, one)
            e, back, rets, acc, seen = self.one(F, h, n, k, g, shape)
            if rets and not back:
                return good(back, rets, acc, n, want)
            if rets:
                return 'the loop condition could not be decided'
            r = good(back, rets, acc, n, None)
            if r is not True:
                return r
            k1 = vg.add(k, one)

            def shape1(i, v0):
                if i.id in slot:
                    return g[slot[i.id]]
                s = kinds[i.id]
                if isinstance(v0, ve.Ptr):
                    return ve.Ptr(v0.r, vg.add(v0.off, vg.mul(k1, vg.const(64, s))))
                return vg.add(v0, vg.mul(vg.trunc(k1, v0.w) if v0.w < 64 else k1, vg.const(v0.w, s)))
            e, back, rets, acc, seen = self.one(F, h, k1, k1, g, shape1)
            if back or not rets:
                return 'the loop may run past the end'
            return good(back, rets, [], k1, g)
        except ve.Unsupported as x:
            return 'unsupported: %s' % x

    JUMPS = (31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1)

    def jump(self):
        """iteration K for large K: every header value is its start plus K strides (established by the probe), so an
        iteration that ends early, runs on or folds something else is reached, or the loop went wrong before it"""
        if not getattr(self, 'ready', False):
            return None
        F, h, kinds, g, mask = self.ready
        states = [i for i, s in kinds.items() if s == 'state']
        for K in (2, 5) + self.JUMPS:
            kk = vg.const(64, K)

            def shape(i, v0):
                s = kinds[i.id]
                if s == 'state':
                    return vg.xor(g, mask)
                if isinstance(v0, ve.Ptr):
                    return ve.Ptr(v0.r, vg.add(v0.off, vg.const(64, K * s)))
                return vg.add(v0, vg.const(v0.w, K * s))
            try:
                e, back, rets, acc, seen = self.one(F, h, vg.const(64, K + 1), kk, g, shape)
                if not seen:
                    return None
                if K in (2, 5):
                    # one element per iteration, or the header index says nothing about the element
                    if not acc or any(o.const() is None or not K * self.elem <= o.const() <= o.const() + z <= K * self.elem + self.elem for o, z, w in acc):
                        return None
                if self.until:
                    stop = self.until(kk)
                    ex = vg.NIL
                    for st, v in rets:
                        ex = ex ^ prod(st.pc)
                    w = ex != stop and ve.differ(vg.b1(ex), vg.b1(stop))
                    if w:
                        return 'at element %d the loop %s' % (K, 'ends before the stop' if w[0] else 'runs past the stop')
                    continue
                else:
                    for st, vals in [(x[1], x[2]) for x in back]:
                        for i in states:
                            want = vg.xor(self.step(g, kk), mask)
                            w = vals[i] != want and ve.differ(vals[i], want, st.pc)
                            if w:
                                return 'element %d is folded differently (e.g. %#x instead of %#x)' % (K, w[0], w[1])
                    if rets and not back:
                        # a bottom-tested loop folds the last element before it ends
                        want = self.out(self.step(g, kk), vg.const(64, K + 1))
                        for st, v in rets:
                            w = v is not ve.Stop and v != want and ve.differ(v, want, st.pc)
                            if w:
                                return 'for length %d the loop ends early or folds the last element differently' % (K + 1)
                        continue
                e, back, rets, acc, seen = self.one(F, h, kk, kk, g, shape)
                if seen and back and not rets and self.top(F, h):
                    return 'for length %d the loop runs past the end' % K
            except ve.Unsupported:
                return None
        return None

    def top(self, F, h):
        """the loop is left from its header"""
        return any(s not in F.loops[h] for s in F.blocks[h].insts[-1].succ)

    def small(self, n):
        """n elements, unrolled: (ok, message) by comparing normal forms, a difference only with a witness"""
        e = self.ev()
        size = self.data.size
        st = ve.State()
        self.data.size = n * self.elem
        if self.until:
            self.data.size += self.elem

            def first(off):
                if off.const() is not None and off.const() >= n * self.elem:
                    return vg.const(8, self.stopbyte)
                return vg.mem_byte(self.data.name, off)
            self.data.init = first
            for k in range(n):
                st.facts[self.until(vg.const(64, k))] = False
                st.pc = st.pc + (self.until(vg.const(64, k)) ^ vg.ONE,)
            e.feasible = feasible
            e.merge = False
        try:
            rets = e.run(self.fname, self.args(vg.const(64, n)), st)
        except ve.Unsupported as x:
            if e.ub:
                return False, '%s (length %d)' % (e.ub[0][1], n), e.ub[0][2]
            return None, str(x), ''
        finally:
            self.data.size = size
            self.data.init = None
        g = self.init(vg.const(64, n)) if self.multi else self.init()
        for k in range(n):
            g = self.step(g, vg.const(64, k))
        want = self.out(g, vg.const(64, n))
        for s, v in rets:
            if v is ve.Stop:
                continue
            if v != want:
                w = ve.differ(v, want, s.pc)
                if w:
                    return False, 'for length %d the result differs from the specified one (e.g. %#x instead of %#x)' % (n, w[0], w[1]), self.loc
                return None, 'length %d: forms differ without a witness' % n, ''
        return True, '', ''

    def check(self, ns=(0, 1, 2, 3), more=(4, 5, 6, 7, 8, 9, 12, 16, 17)):
        c = self.c
        c.functions.add(self.what)
        r = self.prove()
        bad = False
        for n in ns + (more if r is not True else ()):
            ok, msg, loc = self.small(n)
            if ok is False:
                c.ob(False, 'fold', '%s: %s' % (self.what, msg), loc, self.what)
                bad = True
                break
            if ok:
                c.ob(True, 'fold-small', '', self.loc, self.what)
            elif r is not True and not self.multi:
                break
        if bad:
            return False
        if r is not True:
            j = self.jump()
            if j:
                c.ob(False, 'fold', '%s: %s' % (self.what, j), self.loc, self.what)
                return False
        if r is True:
            for rule in ('fold-start', 'fold-step', 'fold-end', 'fold-bounds'):
                c.ob(True, rule, '', self.loc, self.what)
        else:
            c.incomplete.append('%s: %s' % (self.what, r))
        return r is True


def prod(ps):
    r = vg.ONE
    for p in ps:
        r = vg.p_and(r, p)
    return r
