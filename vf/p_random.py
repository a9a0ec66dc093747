"""C14 generators, C15 ranged numbers: normal forms of state and output against the published recurrences."""
import os
from . import vg, ve, llvm
from .fold import prod
from .p_hash import equal, where
from .unit import H
from .core import check

CFG = [(), ('-U__clang__',)]      # both compiler branches of the portability macros


def rotl(v, k):
    k %= v.w
    if not k:
        return v
    return vg.vec(v.bits[v.w - k:] + v.bits[:v.w - k])


def build(flags):
    return llvm.build(os.path.join(H, 'random.cpp'), list(flags), keep=lambda n: n.startswith(('_ZN2ce4hash5fnv1a', '_ZN2ce5crc32')))


class Gen:
    """evaluate one harness function on a symbolic state"""

    def __init__(self, c, m):
        self.c, self.m = c, m

    def run(self, f, size, state, args=(), calls=None, cfg=''):
        """state: {offset: V}; returns outcomes with the region"""
        e = ve.Evaluator(self.m, calls or {})
        R = ve.Region('S', 'in', size)
        st = ve.State()
        for o, v in state.items():
            e.put(st, ve.Ptr(R, vg.const(64, o)), e.split(v, v.w // 8), v.w // 8)
        try:
            rets = e.run(f, [ve.Ptr(R)] + list(args), st)
        except ve.Unsupported as x:
            rets = None
            self.c.incomplete.append('%s: %s' % (f, x))
        for u in e.ub:
            # an undefined operation on a feasible path
            pc = [k if v else k ^ vg.ONE for k, v in u[3].items()]
            for fpt in ve.points(3, 64):
                p = vg.Point(fpt)
                if all(p.poly(x) for x in pc):
                    self.c.ob(False, u[0], '%s%s: %s' % (f[3:], cfg, u[1]), u[2], f)
                    rets = None
                    break
        return e, R, rets

    def cell(self, e, R, st, off, w):
        return vg.concat([e.load_byte(st, ve.Ptr(R, vg.const(64, off)), i) for i in range(w // 8)])

    def expect(self, f, size, state, args, ret, after, rule, calls=None, cfg=''):
        e, R, rets = self.run(f, size, state, args, calls, cfg)
        if rets is None:
            return
        loc = where(self.m, f)
        what = f[3:] + cfg
        if not rets:
            self.c.incomplete.append('%s: no path returns' % what)
        if ret is not None:
            equal(self.c, rule + '-output', what, rets, ret, loc, 'the output is not the specified function of the state')
        for off, want in after.items():
            vals = []
            try:
                vals = [(st, self.cell(e, R, st, off, want.w)) for st, v in rets]
            except Exception:
                self.c.incomplete.append('%s: state at %d' % (what, off))
            equal(self.c, rule + '-state', what, vals, want, loc, 'the state at offset %d is not the specified next state' % off)


def ss(a, b):
    x = vg.xor(b, a)
    na = vg.xor(vg.xor(rotl(a, 26), x), vg.shl(x, 9))
    nb = rotl(x, 13)
    r = vg.mul(rotl(vg.mul(a, vg.const(32, 0x9E3779BB)), 5), vg.const(32, 5))
    return r, na, nb


def pp(a, b):
    r = vg.add(rotl(vg.add(a, b), 17), a)
    x = vg.xor(a, b)
    return r, vg.xor(vg.xor(rotl(a, 49), x), vg.shl(x, 21)), rotl(x, 28)


def step(q):
    return vg.add(vg.mul(q, vg.const(64, 0x5851f42d4c957f2d)), vg.const(64, 0xda3e39cb94b95bdb))


def read(q):
    """output permutation for a state whose top five bits are constants"""
    rot = vg.lshr(q, 59).const()
    x = vg.trunc(vg.lshr(vg.xor(vg.lshr(q, 18), q), 27), 32)
    return rotl(x, 32 - rot)


@check('C14', 'value-graph normal forms of next state and output (case split over the rotation count) against the published recurrences', level='proof',
       note='fnv1a and crc32 themselves are C12/C13; both the clang and the generic compiler branch of the portability macros are analysed')
def c14(c):
    def run(c, flags):
        vg.reset()
        m = build(flags)
        cfg = ' (generic compiler)' if flags else ''
        c.units.append('random.cpp ' + ' '.join(flags))
        g = Gen(c, m)
        for t, w, f in (('ss', 32, ss), ('pp', 64, pp)):
            o = w // 8
            a, b = vg.var('a', w), vg.var('b', w)
            r, na, nb = f(a, b)
            st = {0: a, o: b}
            g.expect('vf_%s_next' % t, 2 * o, st, [], r, {0: na, o: nb}, 'recurrence', cfg=cfg)
            g.expect('vf_%s_next32' % t, 2 * o, st, [], vg.trunc(r, 32), {0: na, o: nb}, 'recurrence', cfg=cfg)
            if t == 'ss':
                r2, na2, nb2 = f(na, nb)
                g.expect('vf_ss_next64', 2 * o, st, [], vg.or_(vg.shl(vg.zext(r, 64), 32), vg.zext(r2, 64)), {0: na2, o: nb2}, 'recurrence', cfg=cfg)
            else:
                g.expect('vf_pp_next64', 2 * o, st, [], r, {0: na, o: nb}, 'recurrence', cfg=cfg)
        # seeding
        n = vg.zext(vg.var('n', 44), 64)
        D = ve.Region('D', 'in')
        calls = {}

        def fnv(e, st, i, args):
            sz, d, basis = args[0], args[1], args[2] if len(args) > 2 else None
            if not isinstance(d, ve.Ptr) or d.r is not D:
                raise ve.Unsupported('hash of something else')
            w = i.ty.width
            if basis is None:
                basis = vg.const(w, {32: 0x811c9dc5, 64: 0xcbf29ce484222325}[w])
            return vg.fn('fnv', w, sz, d.off, basis)

        def crc(e, st, i, args):
            cc, sz, d = args
            if not isinstance(d, ve.Ptr) or d.r is not D:
                raise ve.Unsupported('checksum of something else')
            return vg.fn('crc', 32, cc, sz, d.off)
        for name in m.funcs:
            if name.startswith('_ZN2ce4hash5fnv1aI') and name.endswith(('S2_', 'h')) or name.startswith('_ZN2ce4hash7fnv1a') or name.startswith('_ZN2ce4hash5fnv1a'):
                calls[name] = fnv
            elif name.startswith('_ZN2ce5crc32') and 'PKh' in name:
                calls[name] = crc
        z = vg.const(64, 0)
        half = vg.lshr(n, 1)
        a = vg.fn('crc', 32, vg.const(32, 0), half, z)
        b = vg.fn('crc', 32, a, vg.sub(n, half), half)
        g.expect('vf_ss_seed', 8, {}, [n, ve.Ptr(D)], None, {0: a, 4: b}, 'seed', calls, cfg)
        h1 = vg.fn('fnv', 64, n, z, vg.const(64, 0xcbf29ce484222325))
        h2 = vg.fn('fnv', 64, n, z, h1)
        g.expect('vf_pp_seed', 16, {}, [n, ve.Ptr(D)], None, {0: h1, 8: h2}, 'seed', calls, cfg)
        s = vg.var('s', 64)
        want = step(vg.add(step(vg.const(64, 0)), s))
        g.expect('vf_pcg_seedn', 8, {}, [s], None, {0: want}, 'seed', cfg=cfg)
        g.expect('vf_pcg_seed', 8, {}, [n, ve.Ptr(D)], None, {0: step(vg.add(step(vg.const(64, 0)), h1))}, 'seed', calls, cfg)
        # pcg
        q = vg.var('q', 64)
        e = ve.Evaluator(m)
        try:
            equal(c, 'recurrence-state', 'pcg_step' + cfg, e.run('vf_pcg_step', [q]), step(q), where(m, 'vf_pcg_step'))
        except ve.Unsupported as x:
            c.incomplete.append('pcg_step: %s' % x)
        for rot in range(32):
            q = vg.concat([vg.var('q', 59), vg.const(5, rot)])
            e = ve.Evaluator(m)
            try:
                rets = e.run('vf_pcg_read', [q])
                if e.ub:
                    c.ob(False, e.ub[0][0], 'pcg_read%s: %s when the rotation is %d' % (cfg, e.ub[0][1], rot), e.ub[0][2], 'vf_pcg_read')
                else:
                    equal(c, 'recurrence-output', 'pcg_read%s, rotation %d' % (cfg, rot), rets, read(q), where(m, 'vf_pcg_read'))
            except ve.Unsupported as x:
                c.incomplete.append('pcg_read: %s' % x)
            g.expect('vf_pcg_next', 8, {0: q}, [], read(q), {0: step(q)}, 'recurrence', cfg='%s, rotation %d' % (cfg, rot))
    c.par([(run, f) for f in CFG])


def opaque():
    return {'vf_read': lambda e, st, i, a: (st.gd.__setitem__('reads', st.gd.get('reads', 0) + 1), vg.fn('read', 32, a[0]))[1],
            'vf_step': lambda e, st, i, a: vg.fn('step', 64, a[0])}


def rd(s):
    return vg.fn('read', 32, s)


def stp(s):
    return vg.fn('step', 64, s)


def prod64(n, s):
    return vg.mul(vg.zext(n, 64), vg.zext(rd(s), 64))


@check('C15', 'value-graph normal forms; the rejection loop is shown to restart itself on the next generator state', level='proof',
       note='the generator is opaque: any type with read() and step(); multiply-high of an output below 2^32 is below n by arithmetic')
def c15(c):
    vg.reset()
    m = build(())
    c.units.append('random.cpp')
    g = Gen(c, m)
    n, s = vg.var('n', 32), vg.var('s', 64)
    g.expect('vf_gen_next', 8, {0: s}, [], rd(s), {0: stp(s)}, 'advance', opaque())
    g.expect('vf_gen_ranged', 8, {0: s}, [n], vg.slice_(prod64(n, s), 32, 32), {0: stp(s)}, 'ranged', opaque())
    unbiased(c, m, g, n, s)


def low(n, s):
    return vg.trunc(prod64(n, s), 32)


def thr(n):
    return vg.urem(vg.neg(n), n)


def unbiased(c, m, g, n, s):
    f = 'vf_gen_unbiased'
    loc = where(m, f)
    F = m.funcs[f]
    # draws in a bounded unrolling: every outcome at points of its path must be the specified one
    bad = None
    und = None
    try:
        draws = []
        e = ve.Evaluator(m, opaque())
        e.merge = False
        R = ve.Region('S', 'in', 8)
        st = ve.State()
        e.put(st, ve.Ptr(R), e.split(s, 8), 8)
        e.feasible = lambda st: len(st.pc) < 8
        outs = e.run(f, [ve.Ptr(R), n], st)
        for o, v in outs:
            if v is ve.Stop:
                continue
            ns = g.cell(e, R, o, 0, 64)
            hits = 0
            for fp in list(ve.points(11, 300)) + corner_points():
                p = vg.Point(fp)
                if p.value(n) == 0 or not all(p.poly(x) for x in o.pc):
                    continue
                hits += 1
                nn = p.value(n)
                cur, r = s, None
                for k in range(12):
                    lo = p.value(low(n, cur))
                    if lo >= (1 << 32) % nn:
                        break
                    cur = stp(cur)
                want, nst = p.value(vg.slice_(prod64(n, cur), 32, 32)), p.value(stp(cur))
                if p.value(v) != want or p.value(ns) != nst:
                    bad = 'for n = %#x and first output %#x it returns %#x after the wrong draws or value (specified: %#x)' % (
                        nn, p.value(rd(s)), p.value(v), want)
                    break
            if bad:
                break
    except ve.Unsupported as x:
        und = str(x)
        if e.ub:
            bad = e.ub[0][1]
    if bad:
        c.ob(False, 'unbiased', bad, loc, f)
        return
    # the loop restarts itself on the next state
    try:
        hdr = [h for h in F.loops]
        if len(hdr) != 1:
            raise ve.Unsupported('%d loops' % len(hdr))
        h = hdr[0]
        phis = [i for i in F.blocks[h].insts if i.op == 'phi']

        def entry(s0):
            """header values when the function starts on s0 (one path reaches the loop), and the early returns"""
            e = ve.Evaluator(m, opaque())
            e.merge = False
            got = []

            def hook(e, FF, fr, b, st, stops):
                if b != h:
                    return None
                got.append(({i.id: st.regs[(fr, i.id)] for i in phis}, st.copy(), fr))
                return []
            e.loop_hook = hook
            R = ve.Region('S', 'in', 8)
            st = ve.State()
            e.put(st, ve.Ptr(R), e.split(s0, 8), 8)
            rets = e.run(f, [ve.Ptr(R), n], st)
            return e, R, got, rets
        sj = vg.var('sj', 64)
        e, R, got, rets = entry(sj)
        if len(got) != 1:
            raise ve.Unsupported('the loop is reached on %d paths' % len(got))
        vals, st, fr = got[0]

        def accepted(o, s0):
            return o.facts.get(vg.ult(low(n, s0), thr(n))) is False or o.facts.get(vg.ult(low(n, s0), n)) is False

        def exits(e, R, outs, s0, rule):
            for o, v in outs:
                if v is ve.Stop:
                    continue
                ok = accepted(o, s0) and v == vg.slice_(prod64(n, s0), 32, 32) and g.cell(e, R, o, 0, 64) == stp(s0)
                if not ok:
                    raise ve.Unsupported('an exit that does not have the specified form')
                c.ob(True, rule, '', loc, f)
        exits(e, R, rets, sj, 'unbiased-direct')
        _, _, got2, _ = entry(stp(sj))
        vals2 = got2[0][0]
        e.loop_hook = None
        outs = e.exec(F, fr, h, -1, st, frozenset({h}), True)
        back = [o for o in outs if o[0] == 'at']
        exits(e, R, [(o[1], o[2]) for o in outs if o[0] == 'ret'], sj, 'unbiased-accept')
        if not back:
            raise ve.Unsupported('the loop never repeats')
        for _, o, _ in back:
            if o.facts.get(vg.ult(low(n, sj), thr(n))) is not True:
                raise ve.Unsupported('a redraw without the specified rejection')
            for i in phis:
                if o.regs[(fr, i.id)] != vals2[i.id]:
                    raise ve.Unsupported('a redraw does not continue like a fresh start on the next state')
            c.ob(True, 'unbiased-reject', '', loc, f)
    except ve.Unsupported as x:
        c.incomplete.append('next_unbiased: %s' % x)


def corner_points():
    """points that make rejections likely: n just above a power of two"""
    import random
    out = []
    for k in range(200):
        rnd = random.Random(k)
        memo = {}

        def f(name, memo=memo, rnd=rnd):
            v = memo.get(name)
            if v is None:
                if name == 'n':
                    v = rnd.choice([0x80000001, 0xc0000000, 0xaaaaaaab, 0x90000001, 3, 5, 0xffffffff, 0x40000001])
                elif isinstance(name, tuple) and name[:2] == ('fn', 'read'):
                    v = rnd.choice([0, 1, 2, 3, rnd.getrandbits(32), rnd.getrandbits(32)])
                else:
                    v = rnd.getrandbits(128)
                memo[name] = v
            return v
        out.append(f)
    return out
