"""C12 CRC-32, C13 FNV-1a: loop folds in normal form against the published recurrences."""
from . import vg, ve, llvm
from .fold import Fold
from .unit import H
from .core import check
import os


def byte(r, off):
    return vg.mem_byte(r.name, off)


def crc_bit(v, P):
    lo = v.bits[0]
    return vg.xor(vg.lshr(v, 1), vg.vec(lo if P >> i & 1 else vg.NIL for i in range(32)))


def crc_byte(v, b, P):
    v = vg.xor(v, vg.zext(b, 32))
    for _ in range(8):
        v = crc_bit(v, P)
    return v


def crc(c, m, fname, es, P, what):
    D = ve.Region('D', 'in')

    def step(g, k):
        for j in range(es):
            g = crc_byte(g, byte(D, vg.add(vg.mul(k, vg.const(64, es)), vg.const(64, j))), P)
        return g
    Fold(c, m, fname, lambda n: [vg.var('c', 32), n, ve.Ptr(D)], lambda: vg.not_(vg.var('c', 32)), step,
         lambda g, n: vg.not_(g), what=what, data=D, elem=es).check()


def equal(c, rule, what, rets, want, loc, msg='', points=None):
    """every outcome equals the specification (a value or a function of the state)"""
    ok = True
    for st, v in rets:
        if v is ve.Stop:
            continue
        w = want(st) if callable(want) else want
        if v == w:
            c.ob(True, rule, '', loc, what)
            continue
        ok = False
        if not isinstance(v, vg.V) or not isinstance(w, vg.V):
            c.incomplete.append('%s: result %r' % (what, v))
            continue
        d = ve.differ(v, w, st.pc, pts=points)
        if d:
            c.ob(False, rule, '%s: %s (e.g. %#x instead of %#x)' % (what, msg or 'the result differs from the specified one', d[0], d[1]), loc, what)
        else:
            c.incomplete.append('%s: forms differ without a witness' % what)
    return ok


def where(m, fname):
    """a source location of the library code behind a harness function"""
    F = m.funcs[fname]
    for b in F.blocks:
        for i in b.insts:
            if i.line and '/lib/' in i.file:
                return i.loc()
    return fname


@check('C12', 'value-graph normal forms: loop induction and table linearity against the bit-serial CRC', level='proof',
       note='lengths below 2^44 elements; little-endian target; the tables are the constants the compiler emits for the template instances')
def c12(c):
    def run(c, names, P, kind):
        m = llvm.build(os.path.join(H, 'hash.cpp'))
        c.units.append('hash.cpp')
        for n, es in names:
            crc(c, m, n, es, P, '%s over %d-byte items' % (kind, es))

    def lits(c):
        m = llvm.build(os.path.join(H, 'hash.cpp'))
        for N in (1, 2, 3, 6, 17):
            D = ve.Region('D', 'in', N)
            e = ve.Evaluator(m)
            f = 'vf_lit%d' % N
            try:
                rets = e.run(f, [ve.Ptr(D)])
            except ve.Unsupported as x:
                for u in e.ub:
                    c.ob(False, 'memory', 'crc32c of a literal: ' + u[1], u[2], f)
                c.incomplete.append('%s: %s' % (f, x))
                continue
            v = vg.const(32, 0xffffffff)
            for j in range(N - 1):
                v = crc_byte(v, byte(D, vg.const(64, j)), 0x82f63b78)
            equal(c, 'literal', 'crc32c of a %d-character literal' % (N - 1), rets, vg.not_(v), where(m, f))
        for f, n in (('vf_crc_initial', 0), ('vf_crc_poly', 0x82f63b78)):
            e = ve.Evaluator(m)
            equal(c, 'constant', f[3:], e.run(f, []), vg.const(32, n), f)
    jobs = []
    for n, es in (('vf_crc8', 1), ('vf_crc32', 4), ('vf_crc64', 8)):
        jobs.append((run, [(n, es)], 0x82f63b78, 'crc32 (CRC-32C)'))
        jobs.append((run, [(n.replace('crc', 'ocrc'), es)], 0xedb88320, 'crc32 (another polynomial)'))
    c.par(jobs + [(lits,)])


FNV = {32: (0x01000193, 0x811c9dc5), 64: (0x100000001b3, 0xcbf29ce484222325)}


def fnv_step(w, es, D):
    P = vg.const(w, FNV[w][0])

    def step(g, k):
        for j in range(es):
            g = vg.mul(vg.xor(g, vg.zext(byte(D, vg.add(vg.mul(k, vg.const(64, es)), vg.const(64, j))), w)), P)
        return g
    return step


@check('C13', 'value-graph normal forms: loop induction against the FNV-1a recurrence', level='proof',
       note='lengths below 2^44 elements; little-endian target')
def c13(c):
    def run(c, w, t):
        m = llvm.build(os.path.join(H, 'hash.cpp'))
        es = int(t[1])
        for dflt in (0, 1):
            D = ve.Region('D', 'in')
            f = 'vf_fnv%d%s_%s' % (w, 'd' if dflt else '', t)
            b = vg.const(w, FNV[w][1]) if dflt else vg.var('b', w)
            Fold(c, m, f, (lambda n: [n, ve.Ptr(D)]) if dflt else (lambda n: [n, ve.Ptr(D), vg.var('b', w)]), lambda: b, fnv_step(w, es, D),
                 lambda g, n: g, what='fnv1a%d over %s%d items%s' % (w, {'u': 'uint', 'i': 'int', 'c': 'char'}[t[0]], es * 8, ', default basis' if dflt else ''),
                 data=D, elem=es).check((0, 1, 2))

    def text(c):
        m = llvm.build(os.path.join(H, 'hash.cpp'))
        D = ve.Region('D', 'in')
        f = Fold(c, m, 'vf_fnv_text', lambda n: [ve.Ptr(D)], lambda: vg.const(32, FNV[32][1]), fnv_step(32, 1, D), lambda g, n: g,
                 until=lambda k: vg.eq(byte(D, k), vg.const(8, 0)), what='fnv1a of a string', data=D, elem=1)
        f.check()
    c.par([(run, w, t) for w in (32, 64) for t in ('u1', 'i1', 'c1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8')] + [(text,)])
