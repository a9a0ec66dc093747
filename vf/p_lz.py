"""C17: lziii size and decode, decided one token at a time from the general state between two tokens.

The state between two tokens is found from the loop: the values that hold the positions are made arbitrary after every
token, the rest (the pending control bits) is followed through the eight tokens of one control byte and has to come back
to its first value.  Every token is compared with the stream format on every path."""
import itertools
import os
from . import vg, ve, llvm, fold
from .vg import V
from .unit import H
from .p_hash import equal
from .core import check
from .p_trace import ve_loc


class Lz(ve.Evaluator):
    def __init__(self, m):
        super().__init__(m)
        self.merge = False
        self.decide = fold.decide
        self.feasible = fold.feasible
        self.seq = 0

    def load(self, st, p, ty):
        if isinstance(p, ve.Ptr) and p.r.name == 'dst':
            if ty.size != 1:
                raise ve.Unsupported('a wide read of the decoded bytes')
            self.seq += 1
            v = vg.var(('dst', self.seq), 8)
            st.ev = st.ev + (('ld', p.off, v),)
            return v
        if isinstance(p, ve.Ptr) and p.r.name == 'src':
            for k in range(ty.size):
                st.ev = st.ev + (('rd', vg.add(p.off, vg.const(64, k))),)
            if ty.size != 1:
                raise ve.Unsupported('a wide read of the stream')
            if self.nibble and p.off == self.nibble[0]:
                b = vg.mem_byte('src', p.off)
                return vg.concat([vg.vec(b.bits[:4]), vg.const(4, self.nibble[1])])
        return super().load(st, p, ty)

    nibble = None
    limit = None

    def store(self, st, p, v, ty):
        if isinstance(p, ve.Ptr) and p.r.name == 'dst':
            if ty.size != 1:
                raise ve.Unsupported('a wide write of the decoded bytes')
            st.ev = st.ev + (('st', p.off, v),)
            if self.limit is not None and sum(1 for x in st.ev if x[0] == 'st') > self.limit:
                raise TooMany(st)
            return
        if isinstance(p, ve.Ptr) and p.r.name == 'src':
            st.ev = st.ev + (('bad', p.off),)
            return
        super().store(st, p, v, ty)

    def op_select(self, st, fr, i):
        c = self.val(st, fr, i.ops[0])
        if isinstance(c, V) and self.truth(st, c.bits[0]) is None:
            out = []
            for b in (True, False):
                x = st.copy()
                self.assume(x, c.bits[0], b)
                if self.feasible(x):
                    out.append((x, self.val(x, fr, i.ops[1 if b else 2])))
            return out
        return super().op_select(st, fr, i)


class Stop(Exception):
    pass


class Enough(Exception):
    pass


class TooMany(Exception):
    def __init__(self, st):
        self.st = st


def witness(st, n=300):
    """an input that takes this path"""
    for f in ve.points(8, n):
        p = vg.Point(f)
        if all(p.poly(q) for q in st.pc):
            return p
    return None


class Walk:
    """one function, one choice of the position variables"""

    def __init__(self, c, m, fn, decode):
        self.c, self.m, self.fn, self.decode = c, m, fn, decode
        self.F = m.funcs[fn]
        self.loc = ve_loc(m, fn)
        self.bad = []
        self.unknown = []
        self.obs = 0

    def prepare(self):
        """run to the token loop; its frame, header and first state"""
        e = Lz(self.m)
        self.n = fold.nat('n')
        src = ve.Region('src', 'in')
        dst = ve.Region('dst', 'in')
        self.src, self.dst = src, dst
        args = [self.n, ve.Ptr(dst), ve.Ptr(src)] if self.decode else [self.n, ve.Ptr(src)]
        found = []

        def hook(e, F, fr, b, st, stops):
            found.append((F, fr, b, st))
            raise Stop()
        e.loop_hook = hook
        try:
            e.run(self.fn, args)
        except Stop:
            pass
        e.loop_hook = None
        if not found:
            return None
        self.e = e
        F, fr, h, st = found[0]
        if st.ev or st.pc:
            raise ve.Unsupported('the stream is used before the first token')
        self.TF, self.fr, self.h, self.st0 = F, fr, h, st
        self.phis = [i for i in F.blocks[h].insts if i.op == 'phi']
        pos, out = [], []
        for i in self.phis:
            v = st.regs[(fr, i.id)]
            if isinstance(v, V) and v.w == 64 and v.const() == 0:
                pos.append(i.id)
                out.append(i.id)
            if isinstance(v, ve.Ptr) and v.r is src and v.off.const() == 0:
                pos.append(i.id)
            if isinstance(v, ve.Ptr) and v.r is dst and v.off.const() == 0:
                out.append(i.id)
        return [(a, b) for a in pos for b in out if a != b]

    def get(self, st, k):
        v = st.regs[(self.fr, k)]
        return v.off if isinstance(v, ve.Ptr) else v

    def put(self, st, k, x):
        v = st.regs[(self.fr, k)]
        st.regs[(self.fr, k)] = ve.Ptr(v.r, x) if isinstance(v, ve.Ptr) else x

    def ok(self, good, rule, msg, st=None):
        self.obs += 1
        if not good:
            if st is None or witness(st):
                self.bad.append((rule, msg))
            else:
                self.unknown.append(msg)

    def same(self, st, a, b, rule, msg):
        self.obs += 1
        if isinstance(a, V) and isinstance(b, V) and a.w == b.w and (a == b or vg.expand(a) == vg.expand(b)):
            return True
        if not isinstance(a, V) or a.w != b.w:
            self.unknown.append(msg)
            return False
        for f in ve.points(5, 300):
            p = vg.Point(f)
            if all(p.poly(q) for q in st.pc) and p.value(a) != p.value(b):
                self.bad.append((rule, msg))
                return False
        self.unknown.append(msg)
        return False

    def holds(self, st, q, rule, msg):
        """is the condition q (a polynomial) known on this path?"""
        self.obs += 1
        if self.e.truth(st, q):
            return True
        for f in ve.points(6, 300):
            p = vg.Point(f)
            if all(p.poly(x) for x in st.pc) and not p.poly(q):
                self.bad.append((rule, msg))
                return False
        self.unknown.append(msg)
        return False

    def run(self, pos, out):
        self.pos, self.out = pos, out
        st = self.st0.copy()
        others = [i.id for i in self.phis if i.id not in (pos, out)]
        self.ctl = None
        first = [st.regs[(self.fr, k)] for k in others]
        for t in range(8):
            nxt = self.token(st, t, others)
            if nxt is None:
                return
            st = nxt
        last = [st.regs[(self.fr, k)] for k in others]
        for a, b in zip(first, last):
            if a != b:
                if isinstance(a, V) and isinstance(b, V) and a.w == b.w:
                    self.same(st, b, a, 'control', 'after eight tokens the pending control state is not the first one again: no new control byte is fetched in time')
                else:
                    self.unknown.append('control state')

    def token(self, st, t, others):
        one = vg.const(64, 1)
        S, I = fold.nat('S%d' % t), fold.nat('I%d' % t)
        s1 = vg.add(S, one) if t == 0 else S           # the first byte of the token
        s2 = vg.add(s1, one)
        if t == 0:
            self.ctl = vg.mem_byte('src', S)
        bit = self.ctl.bits[t]
        name = 'token %d' % t
        nexts = []
        # any position: the end of the stream, literals; size: spans too
        a = st.copy()
        self.put(a, self.pos, S)
        self.put(a, self.out, I)
        if self.decode:
            self.e.assume(a, bit, True)
            self.e.limit = 1
        go = vg.ult(I, self.n) if self.decode else vg.ult(S, self.n)
        ends = 0
        for o in self.step(a, name):
            x = o[1]
            if o[0] != 'at':
                ends += 1
                self.holds(x, go ^ vg.ONE, 'end', '%s: the stream may end while %s' % (name, 'bytes are missing' if self.decode else 'there is data'))
                self.ok(not x.ev, 'read', '%s: the stream is used after its end' % name, x)
                if not self.decode and o[0] == 'ret':
                    self.same(x, o[2], I, 'size', 'the size returned is not the number of bytes counted')
                continue
            self.holds(x, go, 'end', '%s: a token is taken after the end' % name)
            lit = self.e.truth(x, bit)
            if lit is None:
                self.unknown.append('%s: not decided whether it is a literal' % name)
                continue
            if lit:
                self.literal(x, t, S, I, s1, name)
                nexts.append(x)
            elif not self.decode:
                self.span_size(x, t, S, I, s1, s2, name)
                nexts.append(x)
        self.ok(ends > 0, 'end', '%s: the stream cannot end here' % name)
        if self.decode:
            lo = vg.mem_byte('src', s2)
            p = vg.mem_byte('src', s1)
            d = vg.sub(vg.const(64, 4096), vg.add(vg.mul(vg.zext(vg.vec(lo.bits[:4]), 64), vg.const(64, 256)), vg.zext(p, 64)))
            J = fold.nat('J%d' % t)
            I = vg.add(J, d)
            for hi in range(16):
                a = st.copy()
                self.put(a, self.pos, S)
                self.put(a, self.out, I)
                self.e.assume(a, bit, False)
                self.e.nibble = (s2, hi)
                self.e.limit = hi + 3
                for o in self.step(a, name):
                    x = o[1]
                    if o[0] != 'at' or self.e.truth(x, bit) is not False:
                        continue
                    self.span(x, t, S, I, J, s1, s2, hi, name)
                    nexts.append(x)
            self.e.nibble = None
        if not nexts:
            self.bad.append(('token', '%s cannot be taken' % name))
            return None
        x = nexts[0]
        for y in nexts[1:]:
            for k in others:
                if x.regs[(self.fr, k)] != y.regs[(self.fr, k)]:
                    v, w = x.regs[(self.fr, k)], y.regs[(self.fr, k)]
                    if isinstance(v, V) and isinstance(w, V) and v.w == w.w:
                        self.same(y, w, v, 'control', '%s: the pending control state depends on the kind of token' % name)
                    else:
                        self.unknown.append('%s: control state' % name)
        z = st.copy()
        for k in others:
            z.regs[(self.fr, k)] = x.regs[(self.fr, k)]
        return z

    def step(self, st, name):
        if len(self.bad) + len(self.unknown) > 20:
            raise Enough()
        st.ev = ()
        try:
            return self.e.exec(self.TF, self.fr, self.h, -1, st, frozenset((self.h,)), True)
        except TooMany as x:
            self.ok(False, 'span', '%s writes more than %d bytes' % (name, self.e.limit), x.st)
            return []

    def reads(self, x, t, S, s1, k, name):
        """only the bytes of this token are read"""
        mine = [S] + ([s1] if t == 0 else []) + [vg.add(s1, vg.const(64, j)) for j in range(1, k)]
        for ev in x.ev:
            if ev[0] == 'rd':
                self.ok(ev[1] in mine, 'read', '%s reads a byte that is not its own' % name, x)
            if ev[0] == 'bad':
                self.ok(False, 'write', '%s writes the stream' % name, x)

    def literal(self, x, t, S, I, s1, name):
        name += ' (literal)'
        one = vg.const(64, 1)
        self.reads(x, t, S, s1, 1, name)
        self.same(x, self.get(x, self.pos), vg.add(s1, one), 'consumed', '%s does not consume exactly its byte' % name)
        self.same(x, self.get(x, self.out), vg.add(I, one), 'produced', '%s does not count as one byte' % name)
        if self.decode:
            st = [ev for ev in x.ev if ev[0] == 'st']
            self.ok(len(st) == 1, 'literal', '%s writes %d bytes' % (name, len(st)), x)
            for ev in st[:1]:
                self.same(x, ev[1], I, 'literal', '%s is not written at the end of the decoded bytes' % name)
                self.same(x, ev[2], vg.mem_byte('src', s1), 'literal', '%s writes another byte' % name)

    def span_size(self, x, t, S, I, s1, s2, name):
        name += ' (span)'
        one = vg.const(64, 1)
        self.reads(x, t, S, s1, 2, name)
        self.same(x, self.get(x, self.pos), vg.add(s2, one), 'consumed', '%s does not consume exactly its two bytes' % name)
        b = vg.mem_byte('src', s2)
        ln = vg.add(vg.zext(vg.vec(b.bits[4:]), 64), vg.const(64, 3))
        self.same(x, self.get(x, self.out), vg.add(I, ln), 'produced', '%s does not count its length (high nibble + 3)' % name)

    def span(self, x, t, S, I, J, s1, s2, hi, name):
        name += ' (span of %d)' % (hi + 3)
        one = vg.const(64, 1)
        self.reads(x, t, S, s1, 2, name)
        self.same(x, self.get(x, self.pos), vg.add(s2, one), 'consumed', '%s does not consume exactly its two bytes' % name)
        self.same(x, self.get(x, self.out), vg.add(I, vg.const(64, hi + 3)), 'produced', '%s does not produce its length' % name)
        evs = [ev for ev in x.ev if ev[0] in ('ld', 'st')]
        st = [ev for ev in evs if ev[0] == 'st']
        self.ok(len(st) == hi + 3, 'span', '%s writes %d bytes' % (name, len(st)), x)
        if len(st) != hi + 3:
            return
        vals = {}
        k = 0
        for ev in evs:
            if ev[0] == 'ld':
                vals[ev[2]] = (ev[1], k)
                continue
            self.same(x, ev[1], vg.add(I, vg.const(64, k)), 'span', '%s: byte %d is not written at its place' % (name, k))
            off, after = vals.get(ev[2], (None, None))
            if off is None:
                self.unknown.append('%s: byte %d is not a copy' % (name, k))
            else:
                self.same(x, off, vg.add(J, vg.const(64, k)), 'span', '%s: byte %d is not copied from byte %d of its source' % (name, k, k))
                self.ok(after == k, 'overlap', '%s: byte %d is read before the bytes in front of it are written, so an overlapping span does not repeat' % (name, k), x)
            k += 1


def one(c, m, fn, decode):
    vg.reset()
    vg.WIDEN = True
    w = Walk(c, m, fn, decode)
    c.functions.add(fn[2:])
    try:
        ch = w.prepare()
    except ve.Unsupported as x:
        c.incomplete.append('%s: %s' % (fn[2:], x))
        return
    if not ch:
        c.incomplete.append('%s: no loop over the tokens was recognised' % fn[2:])
        return
    res = []
    for a, b in ch:
        vg.reset()
        vg.WIDEN = True
        w = Walk(c, m, fn, decode)
        w.prepare()
        try:
            w.run(a, b)
        except Enough:
            pass
        except (ve.Unsupported, RecursionError) as x:
            w.unknown.append('%s: %s' % (type(x).__name__, x))
        for u in w.e.ub:
            w.bad.append((u[0], u[1]))
        res.append(w)
        if not w.bad and not w.unknown:
            break
    w = max(res, key=lambda w: w.obs - len(w.bad) - len(w.unknown))
    for i in range(w.obs - len(w.bad)):
        c.ob(True, 'token', '', w.loc, fn[2:])
    for rule, msg in w.bad:
        c.ob(False, rule, '%s: %s' % (fn[2:], msg), w.loc, fn[2:])
    for u in w.unknown:
        c.incomplete.append('%s: %s' % (fn[2:], u))


@check('C17', 'per-token transfer functions of size and decode from the general inter-token state (value graph over all positions, lengths and offsets), control state followed through a whole period',
       level='proof', note='Streams are well formed: they have the bytes their tokens need and spans refer to bytes already decoded.')
def c17(c):
    m = llvm.build(os.path.join(H, 'lziii.cpp'))
    c.units.append('lziii.cpp')
    one(c, m, 'h_size', False)
    one(c, m, 'h_decode', True)
    prefixes(c, m)


def streams():
    """token sequences with their bytes: (bytes, decoded), bytes are constants for control and span bytes, None for literals"""
    import random
    for k in range(28):
        rnd = random.Random(k)
        n = (1, 2, 3, 7, 8, 9, 16, 17)[k % 8] if k < 16 else rnd.randint(1, 20)
        out, src, ctl = [], [], None
        for t in range(n):
            if t % 8 == 0:
                ctl = len(src)
                src.append((0xff << min(8, n - t)) & 0xff if k % 3 == 0 else 0)
            lit = not out or (k % 4 == 0) or rnd.random() < 0.5
            if lit:
                src[ctl] |= 1 << t % 8
                out.append(len(src))
                src.append(None)
            else:
                back = rnd.choice((1, 1, 2, len(out), rnd.randint(1, len(out))))
                back = min(back, len(out))
                length = rnd.choice((3, 4, 18, rnd.randint(3, 18)))
                v = 4096 - back
                src += [v & 255, (v >> 8) | (length - 3) << 4]
                for _ in range(length):
                    out.append(out[-back])
        yield src, out


def prefixes(c, m):
    """whole short streams with symbolic literals: the decoded size and every decoded byte"""
    for src, out in streams():
        vg.reset()
        S = ve.Region('src', 'in', len(src))
        S.init = lambda off, src=src: vg.const(8, src[off.const()]) if off.const() is not None and off.const() < len(src) and src[off.const()] is not None else vg.mem_byte('src', off)
        D = ve.Region('dst', 'in', len(out))
        for fn in ('h_size', 'h_decode'):
            e = ve.Evaluator(m)
            st = ve.State()
            F = m.funcs[fn]
            loc = next((i.loc() for b in F.blocks for i in b.insts if i.line and 'harness' not in i.file), fn)
            try:
                rets = e.run(fn, [vg.const(64, len(src)), ve.Ptr(S)] if fn == 'h_size' else [vg.const(64, len(out)), ve.Ptr(D), ve.Ptr(S)], st)
            except ve.Unsupported as x:
                for u in e.ub:
                    c.ob(False, u[0], '%s of a stream of %d bytes: %s' % (fn[2:], len(src), u[1]), u[2], fn[2:])
                c.incomplete.append('%s of a stream of %d bytes: %s' % (fn[2:], len(src), x))
                continue
            what = '%s of a stream of %d bytes that decodes to %d' % (fn[2:], len(src), len(out))
            if fn == 'h_size':
                equal(c, 'stream', what, rets, vg.const(64, len(out)), loc)
                continue
            for i, k in enumerate(out):
                vals = [(s, e.load_byte(s, ve.Ptr(D), i)) for s, v in rets if v is not ve.Stop]
                equal(c, 'stream', '%s: byte %d' % (what, i), vals, vg.mem_byte('src', vg.const(64, k)), loc)
