"""C10 integer to text, C11 as_string."""
import os
from itertools import product
from . import llvm, dec
from .core import check, REPO

INTS = {'unsigned char': ('h', 8, False), 'unsigned short': ('t', 16, False), 'unsigned int': ('j', 32, False), 'unsigned long': ('m', 64, False),
        'unsigned long long': ('y', 64, False), 'signed char': ('a', 8, True), 'short': ('s', 16, True), 'int': ('i', 32, True), 'long': ('l', 64, True),
        'long long': ('x', 64, True)}


def load(c):
    m = llvm.build(os.path.join(REPO, 'lib', 'to_text.cpp'))
    c.units.append('to_text.cpp')
    return m


def loc_of(m, f):
    for b in m.funcs[f].blocks:
        for i in b.insts:
            if i.line:
                return i.loc()
    return f


def runs(w, signed):
    if not signed:
        return [(0, (1 << w) - 1, False)]
    return [(0, (1 << (w - 1)) - 1, False), (1, 1 << (w - 1), True)]


def points(lo, hi, hints):
    p = {lo, hi, (lo + hi) // 2} | set(hints)
    for k in range(20):
        for d in (-1, 0, 1, 5):
            for m in (1, 2, 5, 9, 99, 4294967296 // 10 ** 9):
                p.add(10 ** k * m + d)
    for k in range(65):
        for d in (-2, -1, 0, 1):
            p.add((1 << k) + d)
    import random
    r = random.Random(1)
    for k in range(1, 21):
        for _ in range(12):
            p.add(r.randrange(10 ** (k - 1), 10 ** k))
            x = r.randrange(10 ** (k - 1), 10 ** k)
            p.add(x - x % 10 ** (k // 2))
            p.add(x - x % 10 ** (k // 2) - 1)
    for h in list(hints):
        p |= {h - 1, h + 1}
    return sorted(x for x in p if lo <= x <= hi)


def witness(c, m, f, what, w, neg, pts, loc):
    """an input whose folded output is not its decimal: reported"""
    for t in pts:
        try:
            s, why = dec.concrete(m, f, t, neg, w)
        except dec.Unsupported:
            continue
        if s != dec.spec(t, neg) or why:
            c.ob(False, 'decimal', 'to_text(%s) of %s%d: %s' % (what, '-' if neg else '', t, why or 'writes %r' % s), loc, what)
            return True
    return False


def cell_ok(r, st, x, j, neg):
    """the byte is '0' + d_j for every t of the path: True/False/None"""
    if isinstance(x, dec.Num):
        y = r.canon(st, x)
        if y is None:
            return None
        d = dec.Num(64, dict(y.c), y.k - 48, y.dl, y.dh)
        d.c[j] = d.c.get(j, 0) - 1
        d = dec.Num(64, d.c, d.k, d.dl, d.dh)
        lo, hi, a, b = r.range(st, d)
        if lo == hi == 0:
            return True
        r.hint |= {a, b}
        return None
    if isinstance(x, tuple) and x[0] == 'tab':
        off = x[2]
        js, rng, base = [], [], off.k
        for k in sorted(set(off.c) | {j}):
            lo, hi, _, _ = r.range(st, dec.Num(64, {k: 1}))
            if lo == hi and k != j:
                base += off.c[k] * lo
                continue
            js.append(k)
            rng.append(range(lo, hi + 1))
        if len(js) > 4:
            return None
        off = dec.Num(64, off.c, base)
        for ds in product(*rng):
            o = off.k + sum(off.c.get(k, 0) * d for k, d in zip(js, ds))
            if o.denominator != 1 or not 0 <= o < len(x[1]) or x[1][int(o)] != 48 + ds[js.index(j)]:
                base = st.lo
                for k, d in zip(js, ds):
                    base += (d - base // 10 ** k % 10) * 10 ** k
                r.hint.add(base)
                base = st.hi
                for k, d in zip(js, ds):
                    base += (d - base // 10 ** k % 10) * 10 ** k
                r.hint.add(base)
                return None
        return True
    return None


def one(c, m, f, what, w, lo, hi, neg):
    loc = loc_of(m, f)
    r = dec.Run(m)
    text = dec.Region('text', 'out')
    arg = dec.Num(w, {j: (-1 if neg else 1) * 10 ** j for j in range(20)})
    why = None
    try:
        outs = r.run(m.funcs[f], [dec.Ptr(text), arg], lo, hi)
        seen = 0
        for st, v in outs:
            seen += st.hi - st.lo + 1
            n0 = 1 if neg else 0
            where = '%s, %d..%d' % (what, st.lo, st.hi)
            if not isinstance(v, dec.Ptr) or v.r is not text or not isinstance(v.off, int):
                why = '%s: the returned pointer is not known' % where
                r.hint |= {st.lo, st.hi}
                continue
            n = v.off - n0
            a, b = len(str(st.lo)), len(str(st.hi))
            if a != b or n != a:
                why = '%s: %d characters' % (where, n)
                r.hint |= {st.lo, st.hi}
                continue
            c.ob(True, 'length', '', loc, what)
            bad = [o for o, l in st.writes if not 0 <= o < v.off]
            if bad:
                why = '%s: writes character %d' % (where, bad[0])
                r.hint |= {st.lo, st.hi}
                continue
            c.ob(True, 'within', '', loc, what)
            cells = st.mem.get(text, {})
            if neg:
                x = cells.get(0)
                if not isinstance(x, dec.Num) or x.const() != 45:
                    why = '%s: no sign' % where
                    r.hint |= {st.lo, st.hi}
                    continue
                c.ob(True, 'sign', '', loc, what)
            for i in range(n):
                ok = cell_ok(r, st, cells.get(n0 + i), n - 1 - i, neg)
                if ok:
                    c.ob(True, 'digit', '', loc, what)
                else:
                    why = '%s: character %d is not shown to be digit %d' % (where, i, n - 1 - i)
                    r.hint |= {st.lo, st.hi}
        if not why and seen != hi - lo + 1:
            why = '%s: not every value returns' % what
    except dec.Unsupported as x:
        why = '%s: %s' % (what, x)
    except dec.Bug as x:
        why = '%s: %s at %s' % (what, x.args[1], x.args[2])
    c.functions.add('to_text(%s)' % what)
    if why:
        if not witness(c, m, f, what, w, neg, points(lo, hi, r.hint), loc):
            c.incomplete.append('to_text(%s): %s' % (what, why))


@check('C10', 'value analysis in the basis of decimal digits: exact rational coefficients and error intervals over every path', level='proof')
def c10(c):
    m = load(c)
    for what, (code, w, signed) in INTS.items():
        f = '_ZN2ce7to_textEPc' + code
        if f not in m.funcs or m.funcs[f].is_decl:
            c.incomplete.append('to_text(%s) has no definition' % what)
            continue
        for lo, hi, neg in runs(w, signed):
            one(c, m, f, what, w, lo, hi, neg)
