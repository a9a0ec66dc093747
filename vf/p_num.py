"""C16 base64 and character classes, C18 z-order encoding, C20 geometric predicates: normal forms and intervals."""
import os
from . import vg, ve, llvm
from .fold import Fold, nat, sign, decide, prod
from .p_hash import equal, where, byte
from .unit import H
from .core import check


def load(c):
    vg.reset()
    m = llvm.build(os.path.join(H, 'num.cpp'))
    if 'num.cpp' not in c.units:
        c.units.append('num.cpp')
    return m


def call(c, m, f, args, hook=None, st=None):
    e = ve.Evaluator(m)
    e.nsw_hook = hook
    try:
        rets = e.run(f, args, st)
    except ve.Unsupported as x:
        for u in e.ub:
            c.ob(False, u[0], '%s: %s' % (f[3:], u[1]), u[2], f)
        c.incomplete.append('%s: %s' % (f[3:], x))
        return e, []
    c.functions.add(f[3:])
    return e, rets


# ---- C18
def bits_of(name, w):
    return vg.var(name, w).bits


def spread(bits, at):
    out = [vg.NIL] * 64
    for i, p in enumerate(bits):
        out[2 * i + at] = p
    return out


@check('C18', 'value-graph normal forms (bit by bit) against the interleaving and the per-coordinate box test', level='proof')
def c18(c):
    m = load(c)
    n = vg.var('n', 32)
    _, r = call(c, m, 'vf_z_expand', [n])
    equal(c, 'expand', 'z_expand', r, vg.vec(spread(n.bits, 0)), where(m, 'vf_z_expand'))
    x, y = vg.var('x', 32), vg.var('y', 32)
    ux = vg.xor(x, vg.const(32, 1 << 31))
    uy = vg.xor(y, vg.const(32, 1 << 31))
    _, r = call(c, m, 'vf_z_encode', [x, y])
    want = vg.vec(a ^ b for a, b in zip(spread(ux.bits, 0), spread(uy.bits, 1)))
    equal(c, 'encode', 'z_encode', r, want, where(m, 'vf_z_encode'))
    lo, hi, z = vg.var('lo', 64), vg.var('hi', 64), vg.var('z', 64)
    _, r = call(c, m, 'vf_z_inside', [lo, hi, z])

    def co(v, k):
        return vg.vec(v.bits[k::2])
    p = vg.ONE
    for k in (0, 1):
        p = vg.p_and(p, vg.p_and(vg.ule(co(lo, k), co(z, k)), vg.ule(co(z, k), co(hi, k))))
    equal(c, 'inside', 'z_inside', r, vg.b1(p), where(m, 'vf_z_inside'))
    split(c, m)


def split(c, m):
    """the cut of a box: at the highest bit in which its corners differ, one case per bit"""
    loc = where(m, 'vf_z_split')
    for k in [None] + list(range(64)):
        a, b = vg.var('lo', 64).bits, vg.var('hi', 64).bits
        same = [k is None or i > k for i in range(64)]
        lo = [vg.NIL if i == k else a[i] for i in range(64)]
        hi = [a[i] if same[i] else vg.ONE if i == k else b[i] for i in range(64)]
        # below the cut: the dimension cut is all ones on the low side and all zeros on the high side
        jo = [vg.NIL if i < 16 else vg.NIL if i == k else vg.ONE if k is not None and i < k and (k - i) % 2 == 0 else hi[i] for i in range(64)]
        ji = [vg.NIL if i < 16 else vg.ONE if i == k else vg.NIL if k is not None and i < k and (k - i) % 2 == 0 else lo[i] for i in range(64)]
        jo, ji = vg.vec(jo), vg.vec(ji)
        R = ve.Region('R', 'in', 16)
        ev, r = call(c, m, 'vf_z_split', [ve.Ptr(R), vg.vec(lo), vg.vec(hi)])
        what = 'z_split of equal corners' if k is None else 'z_split at bit %d' % k
        for j, (n, w) in enumerate((('jump out', jo), ('jump in', ji))):
            vals = [(st, vg.concat([ev.load_byte(st, ve.Ptr(R, vg.const(64, 8 * j)), q) for q in range(8)])) for st, v in r if v is not ve.Stop]
            equal(c, 'split', '%s: %s' % (what, n), vals, w, loc)
        equal(c, 'split', what + ': gap', r, vg.b1(vg.ult(vg.const(64, 0x10000), vg.sub(ji, jo))), loc)


# ---- C20
B = 30          # coordinates in [-2^29, 2^29)


def co(name, w=32, b=B):
    return vg.sext(vg.var(name, b), w)


def X(v, w=160):
    return vg.sext(v, w)


def samples(n):
    """input points for geometry: corners of the range, and small coordinates (scaled) where the ties are"""
    import random
    top = 1 << (B - 1)
    for k in range(n):
        rnd = random.Random(k)
        memo = {}
        mode = k % 4
        sc = 1 << rnd.choice((0, 0, 0, 3, 27))

        def f(name, memo=memo, rnd=rnd, mode=mode, sc=sc):
            v = memo.get(name)
            if v is None:
                if name == 'rr':
                    v = rnd.choice((0, 1, 2, 3, 4, 5, 8, 9, 25, 1 << 58, (1 << 61) - 1, rnd.getrandbits(61), sc * sc, 2 * sc * sc, 4 * sc * sc + 1))
                elif mode == 0:
                    v = rnd.choice((-top, top - 1, 0, -1, 1, top >> 1))
                elif mode == 3:
                    v = rnd.randrange(-top, top)
                else:
                    v = rnd.randint(-3, 3) * sc
                v = memo[name] = v & ((1 << 128) - 1)
            return v
        yield f


class Overflow:
    """every signed operation of a predicate keeps its exact value"""

    def __init__(self, c, f, report=True):
        self.c, self.f, self.report = c, f, report

    def __call__(self, e, st, i, a, b):
        if not i.nsw or i.op not in ('add', 'sub', 'mul'):
            return
        w = a.w
        (al, ah), (bl, bh) = vg.srange(a), vg.srange(b)
        if i.op == 'add':
            lo, hi = al + bl, ah + bh
        elif i.op == 'sub':
            lo, hi = al - bh, ah - bl
        else:
            ps = (al * bl, al * bh, ah * bl, ah * bh)
            lo, hi = min(ps), max(ps)
            if a == b:
                lo = max(lo, 0)
        top = 1 << (w - 1)
        op = {'add': vg.add, 'sub': vg.sub, 'mul': vg.mul}[i.op]
        r = op(vg.sext(a, 2 * w), vg.sext(b, 2 * w))
        l2, h2, key = vg.lin_range(r.lin, 2 * w)
        lo, hi = max(lo, l2), min(hi, h2)
        if -top <= lo and hi < top:
            self.c.ob(True, 'width', '', i.loc(), self.f)
            if vg.lin_range(op(a, b).lin, w)[2] == key:
                vg.RANGES[key] = (lo, hi)
            return
        if not self.report:
            return
        for fp in samples(400):
            p = vg.Point(fp)
            if not all(p.poly(k) for k in st.pc):
                continue
            n = vg._sgn(p.value(r), 2 * w)
            if not -top <= n < top:
                self.c.ob(False, 'width', '%s: a %d-bit %s overflows (exact value %d)' % (self.f, w, i.op, n), i.loc(), self.f)
                return
        self.c.incomplete.append('%s: the range of the %s at %s is not known' % (self.f, i.op, i.loc()))


@check('C20', 'value-graph normal forms with integer intervals: exact polynomials, sign of the exact difference, no narrowing before multiplication', level='proof',
       note='coordinates in [-2^29, 2^29), squared radii in [0, 2^61); antisymmetry and totality of inside() follow from its decided form')
def c20(c):
    m = load(c)
    vg.INT = True
    ax, ay, az, bx, by, bz, px, py, dx, dy = [co(n) for n in ('ax', 'ay', 'az', 'bx', 'by', 'bz', 'px', 'py', 'dx', 'dy')]
    rr = vg.zext(vg.var('rr', 61), 64)
    mul, add, sub = vg.mul, vg.add, vg.sub

    def chk(f, args, want, rule):
        _, r = call(c, m, 'vf_' + f, args, Overflow(c, f))
        equal(c, rule, f, r, want, where(m, 'vf_' + f), points=lambda: samples(3000))

    def exact(v, w=64):
        return vg.trunc(v, w)
    A = {n: X(v) for n, v in dict(ax=ax, ay=ay, az=az, bx=bx, by=by, bz=bz, px=px, py=py, dx=dx, dy=dy).items()}
    e = lambda **k: None
    chk('sqrx1', [ax], exact(mul(A['ax'], A['ax'])), 'product')
    chk('dotx1', [ax, bx], exact(mul(A['ax'], A['bx'])), 'product')
    la, lb = co('ax', 64), co('bx', 64)
    chk('sqrx1l', [la], exact(mul(A['ax'], A['ax'])), 'product')
    chk('dotx1l', [la, lb], exact(mul(A['ax'], A['bx'])), 'product')
    chk('sqrx2', [ax, ay], exact(add(mul(A['ax'], A['ax']), mul(A['ay'], A['ay']))), 'product')

    def dot(p, q):
        r = mul(p[0], q[0])
        for x, y in zip(p[1:], q[1:]):
            r = add(r, mul(x, y))
        return r

    def cross(p, q):
        return sub(mul(p[0], q[1]), mul(p[1], q[0]))
    a2, b2 = (A['ax'], A['ay']), (A['bx'], A['by'])
    a3, b3 = a2 + (A['az'],), b2 + (A['bz'],)
    chk('dotx2', [ax, ay, bx, by], exact(dot(a2, b2)), 'product')
    chk('crossx2', [ax, ay, bx, by], exact(cross(a2, b2)), 'product')
    # three dimensions: coordinates one bit smaller, three products have to fit
    s3 = [co(n, 32, 30) for n in ('ax', 'ay', 'az', 'bx', 'by', 'bz')]
    chk('dotx3', s3, exact(dot(a3, b3)), 'product')
    R = ve.Region('R', 'in', 24)
    ev, r = call(c, m, 'vf_crossx3', [ve.Ptr(R)] + s3, Overflow(c, 'crossx3'))
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        want = exact(sub(mul(a3[i], b3[j]), mul(a3[j], b3[i])))
        vals = [(st, vg.concat([ev.load_byte(st, ve.Ptr(R, vg.const(64, 8 * k)), q) for q in range(8)])) for st, v in r]
        equal(c, 'product', 'crossx3.%s' % 'xyz'[k], vals, want, where(m, 'vf_crossx3'))

    def neg(v):
        return vg.slt(v, vg.const(v.w, 0))

    def P_or(p, q):
        return p ^ q ^ vg.p_and(p, q)

    def ite(p, q, r):
        return r ^ vg.p_and(p, q ^ r)

    def inside(a, b):
        cr = cross(a, b)
        zero = vg.eq(cr, vg.const(cr.w, 0))
        tie = ite(vg.eq(a[1], b[1]), neg(sub(a[0], b[0])), neg(sub(b[1], a[1])))
        return ite(zero, tie, neg(cr))
    chk('inside', [ax, ay, bx, by], vg.b1(inside(a2, b2)), 'inside')
    chk('insidel', [co(n, 64) for n in ('ax', 'ay', 'bx', 'by')], vg.b1(inside(a2, b2)), 'inside')
    q = [vg.var(n, 64) for n in 'abcd']
    Q = [X(v, 160) for v in q]
    chk('less', q, vg.b1(neg(sub(mul(Q[0], Q[1]), mul(Q[2], Q[3])))), 'less')
    p, d = (A['px'], A['py']), (A['dx'], A['dy'])
    RR = vg.zext(vg.var('rr', 61), 160)

    def near(v):
        return neg(sub(dot(v, v), RR))

    def line(p, d):
        """the point is nearer to the line than the radius: |p|^2 |d|^2 - rr |d|^2 < (p.d)^2"""
        dp = dot(p, d)
        return neg(sub(mul(dot(d, d), sub(dot(p, p), RR)), mul(dp, dp)))

    def diff(a, b):
        return tuple(sub(x, y) for x, y in zip(a, b))

    def fline(p, d):
        return P_or(near(p), line(p, d))

    def fedge(p, d):
        dp, dd = dot(p, d), dot(d, d)
        return vg.p_and(neg(dp) ^ vg.ONE, P_or(near(p), vg.p_and(neg(sub(dd, dp)) ^ vg.ONE, line(p, d))))

    def fray(p, d):
        return P_or(near(p), vg.p_and(neg(dot(p, d)) ^ vg.ONE, line(p, d)))

    def fseg(p, d):
        dp, dd = dot(p, d), dot(d, d)
        inner = P_or(near(diff(p, d)), vg.p_and(neg(sub(dd, dp)) ^ vg.ONE, line(p, d)))
        return P_or(near(p), vg.p_and(neg(dp) ^ vg.ONE, inner))
    chk('rr', [px, py, rr], vg.b1(near(p)), 'range')
    for f, s in (('line', fline), ('edge', fedge), ('ray', fray), ('segment', fseg)):
        chk(f, [px, py, rr, dx, dy], vg.b1(s(p, d)), 'range')
    a = (A['ax'], A['ay'])
    b = (A['bx'], A['by'])
    chk('ball_edge', [px, py, rr, ax, ay, bx, by], vg.b1(fedge(diff(p, a), diff(b, a))), 'range')
    chk('ball_ray', [px, py, rr, ax, ay, bx, by], vg.b1(fray(diff(p, a), diff(b, a))), 'range')


# ---- C39
def c39_vec(c, m, n, d, w):
    xs = [vg.var(s, w) for s in ('ax', 'ay', 'az')[:d]]
    ys = [vg.var(s, w) for s in ('bx', 'by', 'bz')[:d]]
    k = vg.var('k', w)
    ks = [k] * d
    signed = {'add': vg.add, 'sub': vg.sub, 'mul': vg.mul, 'div': vg.sdiv}

    def comps(f, args, op, us, vs):
        R = ve.Region('R', 'in', d * w // 8)
        ev, r = call(c, m, f, [ve.Ptr(R)] + args)
        for j in range(d):
            vals = [(st, vg.concat([ev.load_byte(st, ve.Ptr(R, vg.const(64, j * w // 8)), q) for q in range(w // 8)])) for st, v in r if v is not ve.Stop]
            equal(c, 'component', '%s.%s' % (f[3:], 'xyz'[j]), vals, op(us[j], vs[j]), where(m, f))
        if f.endswith('a'):
            equal(c, 'reference', f[3:] + ' returns its left operand', r, vg.b1(vg.ONE), where(m, f))
    for o in ('add', 'sub'):
        comps('vf_%s_%s' % (n, o), xs + ys, signed[o], xs, ys)
        comps('vf_%s_%sa' % (n, o), xs + ys, signed[o], xs, ys)
    for o in ('mul', 'div'):
        comps('vf_%s_%s' % (n, o), xs + [k], signed[o], xs, ks)
        comps('vf_%s_%sa' % (n, o), xs + [k], signed[o], xs, ks)
    # the right operand may be a component of the left one, or the left one itself
    for o in ('mul', 'div'):
        op = signed[o]
        comps('vf_%s_%sxa' % (n, o), xs, lambda a, b: vg.const(w, 1) if op is vg.sdiv and a is b else op(a, b), xs, [xs[0]] * d)
    for o in ('add', 'sub'):
        comps('vf_%s_%sva' % (n, o), xs, signed[o], xs, xs)
    for f, args, vs in (('', xs + ys, ys), ('s', xs + [k], ks)):
        p = vg.ONE
        for a, b in zip(xs, vs):
            p = vg.p_and(p, vg.eq(a, b))
        for o, q in (('eq', p), ('ne', p ^ vg.ONE)):
            g = 'vf_%s_%s%s' % (n, o, f)
            _, r = call(c, m, g, args)
            equal(c, 'compare', g[3:], r, vg.b1(q), where(m, g))


def parallel(c, m):
    """lines through two points each meet unless the cross product of their directions is zero; the result is then the first point"""
    vg.INT = vg.WIDEN = True
    vs = [co(n) for n in ('ax', 'ay', 'bx', 'by', 'cx', 'cy', 'dx', 'dy')]
    R = ve.Region('R', 'in', 8)
    ev, r = call(c, m, 'vf_parallel', [ve.Ptr(R)] + vs, Overflow(c, 'intersect', False))
    E = [X(v) for v in vs]
    p = (vg.sub(E[2], E[0]), vg.sub(E[3], E[1]))
    q = (vg.sub(E[6], E[4]), vg.sub(E[7], E[5]))
    d = vg.sub(vg.mul(p[0], q[1]), vg.mul(p[1], q[0]))
    meet = vg.eq(d, vg.const(d.w, 0)) ^ vg.ONE
    equal(c, 'parallel', 'intersect', r, vg.b1(meet), where(m, 'vf_parallel'), points=lambda: samples(2000))
    for j in (0, 1):
        vals = [(st, vg.concat([ev.load_byte(st, ve.Ptr(R, vg.const(64, 4 * j)), k) for k in range(4)])) for st, v in r if v is not ve.Stop]
        equal(c, 'parallel', 'intersect result.%s' % 'xy'[j], vals, vg.ite(meet, vg.const(32, 0), vs[j]), where(m, 'vf_parallel'), points=lambda: samples(2000))
    vg.INT = vg.WIDEN = False


def winding(c, m, f, ew):
    """w counts +1 / -1 per edge that changes sides of the horizontal through the point, to its right"""
    D = ve.Region('ps', 'in')
    if ew == 32:
        x, y = vg.var('x', 32), vg.var('y', 32)
    else:
        x, y = vg.var('x', 64), vg.var('y', 64)
    X64, Y64 = (vg.sext(x, 64), vg.sext(y, 64))
    es = ew // 8

    def word(k, j):
        o = vg.add(vg.mul(k, vg.const(64, 2 * es)), vg.const(64, j * es))
        return vg.sext(vg.concat([vg.mem_byte(D.name, vg.add(o, vg.const(64, q))) for q in range(es)]), 64)

    def rel(k):
        return vg.sub(X64, word(k, 0)), vg.sub(Y64, word(k, 1))

    def init(n):
        if n.const() == 0:
            return (vg.const(64, 0),) * 3
        return rel(vg.sub(n, vg.const(64, 1))) + (vg.const(64, 0),)

    def step(g, k):
        a, b = g[:2], rel(k)
        ab = vg.sub(vg.mul(a[0], b[1]), vg.mul(a[1], b[0]))
        sa, sb, s = a[1].bits[63], b[1].bits[63], ab.bits[63]
        cross = vg.p_and(sa ^ sb, sb ^ s)
        up = vg.p_and(cross, vg.slt(vg.const(64, 0), ab))
        down = vg.p_and(cross, s)
        return b + (vg.add(g[2], vg.sub(vg.zext(vg.b1(up), 64), vg.zext(vg.b1(down), 64))),)

    def cases(g, k):
        a, b = g[:2], rel(k)
        ab = vg.sub(vg.mul(a[0], b[1]), vg.mul(a[1], b[0]))
        zero = vg.const(64, 0)
        for sa in (0, 1):
            for sb in (0, 1):
                for sg in (-1, 0, 1):
                    yield [(a[1].bits[63], sa), (b[1].bits[63], sb), (ab.bits[63], sg < 0), (vg.slt(zero, ab), sg > 0), (vg.slt(ab, zero), sg < 0), (vg.eq(ab, zero), sg == 0)]
    Fold(c, m, f, lambda n: [x, y, n, ve.Ptr(D)], init, step, lambda g, n: g[2], what=f[3:], data=D, elem=2 * es, multi=3, cases=cases).check(ns=(0, 1, 2), more=(3,))


@check('C39', 'value-graph normal forms per component; loop induction over a generic polygon edge for the winding number', level='proof',
       note='32- and 64-bit components; the 64-bit (approximating) muldiv and intersect are not covered')
def c39(c):
    m = load(c)
    for n, d, w in (('v2i', 2, 32), ('v2l', 2, 64), ('v3i', 3, 32), ('v3l', 3, 64)):
        c39_vec(c, m, n, d, w)
    a, b, n, d = [vg.var(s, 32) for s in 'abnd']
    R = ve.Region('R', 'in', 8)
    ev, r = call(c, m, 'vf_muldiv', [ve.Ptr(R), a, b, n, d])
    for j, v in enumerate((a, b)):
        want = vg.trunc(vg.sdiv(vg.mul(vg.sext(v, 64), vg.sext(n, 64)), vg.sext(d, 64)), 32)
        vals = [(st, vg.concat([ev.load_byte(st, ve.Ptr(R, vg.const(64, 4 * j)), q) for q in range(4)])) for st, q in r if q is not ve.Stop]
        equal(c, 'muldiv', 'muldiv.%s' % 'xy'[j], vals, want, where(m, 'vf_muldiv'))
    D = ve.Region('colour', 'in', 16)
    R = ve.Region('R', 'in', 32)
    ev, r = call(c, m, 'vf_rgba', [ve.Ptr(R), ve.Ptr(D)])
    four = [vg.concat([vg.mem_byte('colour', vg.const(64, 4 * j + q)) for q in range(4)]) for j in range(4)]
    for j in range(8):
        vals = [(st, vg.concat([ev.load_byte(st, ve.Ptr(R, vg.const(64, 4 * j)), q) for q in range(4)])) for st, q in r if q is not ve.Stop]
        equal(c, 'colour', 'rgba as an array, element %d' % (j % 4), vals, four[j % 4], where(m, 'vf_rgba'))
    vs = [vg.var(s, 32) for s in ('red', 'green', 'blue', 'alpha')]
    ev, r = call(c, m, 'vf_rgba_set', [ve.Ptr(R)] + vs)
    equal(c, 'colour', 'rgba members', r, vg.b1(vg.ONE), where(m, 'vf_rgba_set'))
    for j in range(4):
        vals = [(st, vg.concat([ev.load_byte(st, ve.Ptr(R, vg.const(64, 4 * j)), q) for q in range(4)])) for st, q in r if q is not ve.Stop]
        equal(c, 'colour', 'rgba%s' % '.r .g .b .a'.split()[j], vals, vs[j], where(m, 'vf_rgba_set'))
    parallel(c, m)
    for f, ew in (('vf_polygon', 32), ('vf_polygonl', 64), ('vf_polygon_xy', 32)):
        winding(c, m, f, ew)


# ---- C16
ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
SETS = {'is_base10': '0123456789', 'is_base16': '0123456789abcdefABCDEF', 'is_base64': ALPHA, 'is_upper': ALPHA[:26], 'is_lower': ALPHA[26:52],
        'is_alpha': ALPHA[:52]}


def member(v, s):
    p = vg.NIL
    for ch in s:
        p = p ^ vg.eq(v, vg.const(8, ord(ch)))
    return p


def six(v):
    """six-bit value of an alphabet character"""
    t = bytearray(256)
    for i, ch in enumerate(ALPHA):
        t[ord(ch)] = i
    return vg.table(bytes(t), 8, vg.zext(v, 64))


@check('C16', 'value-graph normal forms: character sets as bit polynomials, loop induction for the text size, per-byte assembly for decode', level='proof',
       note='decode is decided for every byte position of outputs up to 24 bytes, and for longer outputs by the residue classes of the loop counter')
def c16(c):
    m = load(c)
    for f, s in SETS.items():
        a = vg.var('a', 8)
        _, r = call(c, m, 'vf_' + f, [a])
        equal(c, 'class', f, r, vg.b1(member(a, s)), where(m, 'vf_' + f))
    # floor(3n/4) for n = 4q + r, without overflow
    for r0 in range(4):
        q = vg.var('q', 62)
        n = vg.concat([vg.const(2, r0), q])
        _, r = call(c, m, 'vf_b64_size', [n])
        want = vg.add(vg.mul(vg.zext(q, 64), vg.const(64, 3)), vg.const(64, 3 * r0 // 4))
        equal(c, 'size', 'base64::size(4q+%d)' % r0, r, want, where(m, 'vf_b64_size'))
    # the text size: the loop ends at the first character outside the alphabet
    D = ve.Region('D', 'in')

    f = Fold(c, m, 'vf_b64_count', lambda n: [ve.Ptr(D)], lambda: vg.const(64, 0), lambda g, k: vg.add(g, vg.const(64, 1)), lambda g, k: size_of(k),
             until=lambda k: member(byte(D, k), ALPHA) ^ vg.ONE, what='base64::size(text)', data=D, elem=1)
    f.check()
    decode(c, m)


def size_of(k):
    """floor(3k/4)"""
    q, t = vg.lshr(k, 2), vg.and_(k, vg.const(64, 3))
    return vg.add(vg.mul(q, vg.const(64, 3)), vg.lshr(vg.mul(t, vg.const(64, 3)), 2))


def decode(c, m):
    loc = where(m, 'vf_b64_decode')
    for n in (0, 1, 2, 3, 4, 5, 6, 12, 24):
        S = ve.Region('S', 'in')
        O = ve.Region('O', 'in', n)
        st = ve.State()
        e = ve.Evaluator(m)
        top = [-1]

        def access(s, p, sz, write, top=top, S=S):
            if p.r is S:
                k = p.off.const()
                top[0] = max(top[0], (k if k is not None else 1 << 40) + sz - 1)
        e.on_access = access
        try:
            rets = e.run('vf_b64_decode', [vg.const(64, n), ve.Ptr(O), ve.Ptr(S)], st)
        except ve.Unsupported as x:
            for u in e.ub:
                c.ob(False, u[0], 'decode of %d bytes: %s' % (n, u[1]), u[2], 'decode')
            c.incomplete.append('decode: %s' % x)
            continue
        need = (n * 8 + 5) // 6
        c.ob(top[0] + 1 <= need, 'reads', 'decode of %d bytes reads character %d but needs only %d' % (n, top[0], need), loc, 'decode')
        for i in range(n):
            vals = [(s, e.load_byte(s, ve.Ptr(O), i)) for s, v in rets]
            equal(c, 'decode', 'byte %d of %d' % (i, n), vals, byte_of(S, vg.const(64, i // 3 * 4), i % 3), loc)
    r = decode_step(c, m)
    if r is True:
        c.ob(True, 'decode-step', '', loc, 'decode')
    else:
        c.incomplete.append('decode: %s' % r)


def byte_of(S, base, r):
    """output byte r of a group whose four characters start at base: bits 8r..8r+7 of the stream of six-bit values"""
    j = r * 8 // 6
    q = [six(byte(S, vg.add(base, vg.const(64, j + k)))) for k in (0, 1)]
    hi, lo = vg.vec(q[0].bits[:6]), vg.vec(q[1].bits[:6])
    return vg.slice_(vg.concat([lo, hi]), 12 - (8 * r - 6 * j) - 8, 8)


def decode_step(c, m):
    """induction over the output index i = 3q + r: iteration i writes byte i and nothing else, reads what it needs"""
    f = Fold(c, m, 'vf_b64_decode', lambda n: [n, ve.Ptr(ve.Region('O', 'in')), ve.Ptr(ve.Region('S', 'in'))], None, None, None)
    found = f.find()
    if not found:
        return 'no loop over the output was found'
    F, h = found
    one = vg.const(64, 1)

    def iteration(i, n, base, r, more):
        O, S = ve.Region('O', 'in'), ve.Region('S', 'in')
        acc = []
        e = ve.Evaluator(m)
        e.decide = decide
        e.on_access = lambda st, p, sz, write: acc.append((p, sz, write))
        res = {}

        def hook(e, FF, fr, b, st, stops):
            if FF is not F or b != h or res.get('in'):
                return None
            res['in'] = True
            phis = [x for x in F.blocks[h].insts if x.op == 'phi']
            if len(phis) != 1 or not isinstance(st.regs[(fr, phis[0].id)], vg.V) or st.regs[(fr, phis[0].id)].const() != 0:
                raise ve.Unsupported('the loop has other state than the output index')
            res['w'] = st.regs[(fr, phis[0].id)].w
            st.regs[(fr, phis[0].id)] = vg.trunc(i, res['w'])
            del acc[:]
            outs = e.exec(F, fr, h, -1, st, stops | {h}, True)
            res['back'] = [(o[1], o[1].regs[(fr, phis[0].id)]) for o in outs if o[0] == 'at' and o[2] == h]
            return [o for o in outs if not (o[0] == 'at' and o[2] == h)]
        e.loop_hook = hook
        rets = e.run('vf_b64_decode', [n, ve.Ptr(O), ve.Ptr(S)])
        back = res.get('back', [])
        if not more:
            if back or len(rets) != 1 or any(p.r in (O, S) for p, _, _ in acc):
                return 'the loop goes on after the last byte'
            return True
        if rets or not back:
            return 'the loop ends before the last byte'
        for st, v in back:
            if v != vg.trunc(vg.add(i, one), res['w']):
                raise ve.Unsupported('the index does not advance by one')
            v, want = e.load_byte(st, ve.Ptr(O, i), 0), byte_of(S, base, r)
            if v != want:
                w = ve.differ(v, want, st.pc) if isinstance(v, vg.V) else None
                if not w:
                    raise ve.Unsupported('byte 3q+%d: forms differ without a witness' % r)
                return 'the byte differs (e.g. %#x instead of %#x)' % w[:2]
        for p, sz, write in acc:
            if p.r is O and (not write or sz != 1 or p.off != i):
                return 'another byte of the output is accessed'
            if p.r is S:
                d = vg.sub(p.off, base).const()
                if d is None:
                    raise ve.Unsupported('an access at an unknown character')
                if write or d + sz > r * 8 // 6 + 2 or d >> 63:
                    return 'a character that is not needed is accessed'
        return True
    msg = True
    try:
        q = nat('q')
        for r in range(3):
            i = vg.add(vg.mul(q, vg.const(64, 3)), vg.const(64, r))
            for more, n in ((False, i), (True, vg.add(vg.add(i, nat('m')), one))):
                x = iteration(i, n, vg.mul(q, vg.const(64, 4)), r, more)
                if x is not True:
                    msg = 'byte 3q+%d: %s' % (r, x)
        if msg is True:
            return True
    except ve.Unsupported as x:
        msg = str(x)
    # far iterations: the index starts at 0 and advances by one
    try:
        for K in Fold.JUMPS + ((1 << 30) - 1, 1 << 30, (1 << 30) + 1):
            i = vg.const(64, K)
            for more, n in ((True, vg.const(64, K + 1)), (False, i)):
                x = iteration(i, n, vg.const(64, K // 3 * 4), K % 3, more)
                if x is not True:
                    c.ob(False, 'decode', 'decode, output byte %d: %s' % (K, x), where(m, 'vf_b64_decode'), 'decode')
                    return msg
    except ve.Unsupported as x:
        pass
    return msg
