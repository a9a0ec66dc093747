"""C27: nameof and as_enum decided on every path: which enumeration values, and which texts, reach each answer."""
import os
from . import vg, ve, llvm, fold
from .vg import V
from .unit import H
from .core import check
from .p_trace import Trace, ve_loc

ENUMS = {
    'byte': (8, {0: 'none', 1: 'a', 2: 'ab', 63: 'abc', 64: 'abd', 65: 'b', 127: 'edge', 128: 'half', 191: 'x_y2', 192: 'x_y', 193: 'over', 255: 'top'}),
    'wide': (64, {0: 'zero', 1: 'one', 2: 'two', 12: 'twelve', 255: 'last'}),
    'sign': (32, {0: 'nul', 1: 'plus'}),
    'kind': (16, {0: 'k0', 129: 'k1', 255: 'k255'}),
    'scoped': (32, {7: 'alpha', 70: 'beta', 71: 'alphabet'}),
    'plain': (32, {0: 'red', 1: 'green', 2: 'blue', 17: 'an_enumerator_with_a_rather_long_name', 40: 'an_enumerator_with_a_rather_long_name_and_then_some_more_of_it_to_go'}),
    'flag': (1, {0: 'no', 1: 'yes'}),
    'long': (64, {0: 'zero', 1: 'one'}),
}
# declared, but outside [0, 256)
OUTSIDE = {'wide': {256: 'past', 0x100000001: 'big', (1 << 64) - 1: 'huge'}, 'sign': {-1: 'minus', 300: 'far', -255: 'low'},
           'kind': {-2: 'neg', 511: 'k255x'}, 'long': {-1: 'neg', -0xffffffff: 'wrapped'}}


ALL = (1 << 256) - 1
_CHARS = {}
_COLS = None


def chars(p):
    """(offset, set of characters as a 256-bit mask) of a condition on one character of the text, else None"""
    global _COLS
    if p in _CHARS:
        return _CHARS[p]
    if _COLS is None:
        _COLS = [sum(1 << x for x in range(256) if x >> i & 1) for i in range(8)]
    r = None
    off, cols = None, {}
    for a in (vg._support(p, 8) or ()):
        d = vg.bit_atoms.defs[a]
        if d[0] != 'mem' or d[1] != 'text' or d[2] != (off or d[2]):
            break
        off = d[2]
        cols[a] = _COLS[d[3]]
    else:
        if off is not None:
            r = 0
            for m in p:
                t = ALL
                for a in m:
                    t &= cols[a]
                r ^= t
            r = (off, r)
    _CHARS[p] = r
    return r


class Names(Trace):
    """conditions on single characters of the text are kept as sets of characters"""

    def __init__(self, m):
        super().__init__(m)
        self.feasible = self.possible
        self.max_fork = 100000
        self.max_steps = 4000000
        _CHARS.clear()

    def fits(self, st, p):
        """the characters left when p is assumed too; None: not a condition on one character"""
        c = chars(p)
        if c is None:
            return None
        return st.gd.get(('chars', c[0]), ALL) & c[1]

    def assume(self, st, c, b):
        super().assume(st, c, b)
        p = c if b else c ^ vg.ONE
        k = chars(p)
        if k is not None:
            st.gd['chars', k[0]] = self.fits(st, p)

    def truth(self, st, c):
        r = super().truth(st, c)
        if r is None and chars(c) is not None:
            if not self.fits(st, c):
                return False
            if not self.fits(st, c ^ vg.ONE):
                return True
        return r

    def possible(self, st):
        k = chars(st.pc[-1]) if st.pc else None
        if k is not None:
            return st.gd['chars', k[0]] != 0
        return fold.feasible(st)

    def val(self, st, fr, o):
        if o.k == 'undef' and o.ty.kind == 'int':
            return vg.var(('undef', self.fresh()), o.ty.width)
        return super().val(st, fr, o)

    def op_select(self, st, fr, i):
        c = self.val(st, fr, i.ops[0])
        if isinstance(c, V) and self.truth(st, c.bits[0]) is None:
            out = []
            for b in (True, False):
                x = st.copy()
                self.assume(x, c.bits[0], b)
                if self.possible(x):
                    out.append((x, self.val(x, fr, i.ops[1 if b else 2])))
            return out
        return super().op_select(st, fr, i)

    def on_access(self, st, p, n, write):
        if p.r.name == 'text':
            o = p.off.const()
            if write or o is None:
                self.flag(st, 'text', 'the text is written or read at an unknown place')
                raise ve.Unsupported('text access')
            for j in range(o):
                if self.char(st, j) & 1:
                    self.flag(st, 'text', 'character %d of a text is read although the text may end at %d' % (o, j))
                    raise ve.Unsupported('text access')

    def char(self, st, j):
        return st.gd.get(('chars', vg.const(64, j).lin), ALL)

    def takes(self, st, t):
        """the text t takes this path"""
        f = text_point(t)
        return all(self.char(st, j) >> (ord(t[j]) if j < len(t) else 0) & 1 for j in range(len(t) + 1)) \
            and all(f.poly(p) for p in st.pc)


def point(values):
    def f(name):
        return values(name)
    return vg.Point(f)


def names_of(c, m, n, w, known):
    vg.reset()
    f = 'vf_name_' + n
    loc = lib(m, 'nameof')
    e = Names(m)
    F = m.funcs[f]
    aw = F.args[0].ty.width
    v = vg.var('n', w)
    arg = vg.zext(v, aw) if aw > w else v
    try:
        rets = e.run(f, [arg])
    except ve.Unsupported as x:
        c.incomplete.append('nameof(%s): %s' % (n, x))
        return
    c.functions.add('nameof(%s)' % n)
    seen = 0
    for st, r in rets:
        try:
            got = ''.join(map(str, e.cstr(st, r)))
        except ve.Unsupported as x:
            c.incomplete.append('nameof(%s): %s' % (n, x))
            continue
        # which values reach this answer
        hits = [k for k in known if all(point(lambda a, k=k: k).poly(p) for p in st.pc)]
        for k in hits:
            seen += 1
            c.ob(got == known[k], 'name', 'nameof(%s value %d) is "%s" instead of "%s"' % (n, k, got, known[k]), loc, n)
        if got == '???':
            c.ob(True, 'unknown', '', loc, n)
            continue
        if got not in known.values():
            # the answer must be unreachable: any value on this path is wrong
            bad = candidates(st, w, None)
            if bad is not None:
                if bad not in known:
                    c.ob(False, 'unknown', 'nameof(%s value %#x) is "%s" instead of "???"' % (n, bad, got), loc, n)
            else:
                c.incomplete.append('nameof(%s): a path to "%s" that no tried value takes' % (n, got))
            continue
        k = next(k for k in known if known[k] == got)
        full = {vg.eq(v, vg.const(w, k))}
        for x in (32, 64):
            if x > w:
                full |= {vg.eq(vg.zext(v, x), vg.const(x, k)), vg.eq(vg.sext(v, x), vg.const(x, k))}
        if any(p in full for p in st.pc) or fixed(st, v) == k:
            c.ob(True, 'only', '', loc, n)
            continue
        bad = candidates(st, w, k)
        if bad is not None:
            c.ob(False, 'only', 'nameof(%s value %#x) is "%s", the name of %d' % (n, bad, got, k), loc, n)
        else:
            c.incomplete.append('nameof(%s): values reaching "%s" not bounded' % (n, got))
    if rets:
        c.ob(seen == len(known), 'all', 'nameof(%s): %d of %d named values reach an answer' % (n, seen, len(known)), loc, n)


def fixed(st, v):
    """the value when the path fixes every bit of it"""
    out = 0
    one = set()
    for p in st.pc:
        _units(p, one)
    for i, b in enumerate(v.bits):
        if b in one:
            out |= 1 << i
        elif b ^ vg.ONE not in one:
            return None
    return out


def _units(p, out):
    """single-bit facts implied by a true condition that is a product of literals"""
    sup = vg._support(p, 70)
    if sup is None:
        return
    if len(p) == 1:
        for a in next(iter(p)):
            out.add(frozenset((frozenset((a,)),)))
        return
    # product of literals: the lowest monomial holds the positive ones
    low = min(p, key=len)
    alla = frozenset().union(*p)
    neg = alla - low
    if len(p) == 1 << len(neg) and len(neg) <= 16:
        for a in low:
            out.add(frozenset((frozenset((a,)),)))
        for a in neg:
            out.add(frozenset((frozenset((a,)),)) ^ vg.ONE)


def candidates(st, w, k):
    """a value other than k that takes the path"""
    base = list(range(0, 520)) + [-1, -2, -255, -256, -128, -127]
    tries = [x + y for x in (base if k is None else [k]) for y in [0] + [1 << j for j in range(8, w)] + [-(1 << j) for j in range(8, w)]] + base
    for x in tries:
        x &= (1 << w) - 1
        if x != k and all(point(lambda a, x=x: x).poly(p) for p in st.pc):
            return x
    return None


def text_point(s):
    def f(name):
        if name[0] == 'mem':
            o = name[2]
            return ord(s[o]) if o < len(s) else 0
        return 0x77
    return vg.Point(f)


def enum_of(c, m, f, n, w, known, dflt):
    vg.reset()
    loc = lib(m, 'as_enum')
    e = Names(m)
    T = ve.Region('text', 'in')
    F = m.funcs[f]
    d = vg.var('default', w)
    args = [ve.Ptr(T)]
    if dflt:
        aw = F.args[1].ty.width
        args.append(vg.zext(d, aw) if aw > w else d)
    try:
        rets = e.run(f, args)
    except ve.Unsupported as x:
        for u in e.ub:
            c.ob(False, u[0], 'as_enum(%s): %s' % (n, u[1]), u[2], n)
        if not e.ub:
            c.incomplete.append('as_enum(%s): %s' % (n, x))
        return
    c.functions.add('as_enum(%s)' % n)
    for u in e.ub:
        c.ob(False, u[0], 'as_enum(%s): %s' % (n, u[1]), u[2], n)
    other = d if dflt else vg.const(w, 0)
    found = set()
    for st, r in rets:
        v = vg.trunc(r, w) if r.w > w else r
        mine = [k for k, t in known.items() if e.takes(st, t)]
        k = v.const()
        if v == other and not (k is not None and mine == [k]):
            for x in mine:
                c.ob(False, 'finds', 'as_enum<%s>("%s") is the default' % (n, known[x]), loc, n)
            c.ob(True, 'default', '', loc, n)
            continue
        if k is None:
            c.incomplete.append('as_enum(%s): an answer that is neither a value nor the default' % n)
            continue
        t = known.get(k)
        if t is None:
            for x in (1 << w, 0):
                t = OUTSIDE.get(n, {}).get(k - x if k >= 1 << (w - 1) else k) or t
        if t is None:
            s = example(e, st, known)
            c.ob(False, 'value', 'as_enum<%s>(%s) is %d, which is not an enumerator' % (n, s, k), loc, n)
            continue
        bad = None
        for i, ch in enumerate(t + '\0'):
            if e.char(st, i) != 1 << ord(ch):
                bad = i
                break
        if bad is None:
            found.add(k)
            c.ob(True, 'exact', '', loc, n)
        else:
            c.ob(False, 'exact', 'as_enum<%s> answers %s for a text that is only known to agree with it in %d of %d characters%s' % (
                n, t, bad, len(t), ' and need not end there' if bad == len(t) else ''), loc, n)
    if rets:
        c.ob(found >= set(known), 'all', 'as_enum<%s> never answers %s' % (n, sorted(set(known) - found)), loc, n)


def example(e, st, known):
    for t in list(known.values()) + [t + 'x' for t in known.values()] + [t[:-1] for t in known.values()] + ['', 'x', '?', '???', '(']:
        if e.takes(st, t):
            return '"%s"' % t
    return 'some text'


def lib(m, what):
    for n, F in m.funcs.items():
        if what in n and '_ZN2ce' in n and not F.is_decl:
            return ve_loc(m, n)
    return 'lib/h/ce/nameof.h (%s)' % what


@check('C27', 'path-set analysis of nameof (value sets reaching each answer) and as_enum (text prefixes reaching each answer), for every shape of enumeration', level='proof')
def c27(c):
    m = llvm.build(os.path.join(H, 'nameof.cpp'), ['-Wno-enum-constexpr-conversion'])
    c.units.append('nameof.cpp')
    for n, (w, known) in ENUMS.items():
        names_of(c, m, n, w, known)
        enum_of(c, m, 'vf_enum_' + n, n, w, known, True)
    enum_of(c, m, 'vf_dflt_plain', 'plain', 32, ENUMS['plain'][1], False)
    for f, want in (('widget', 'widget'), ('byte', 'byte_e'), ('int', 'int')):
        vg.reset()
        e = Names(m)
        for st, r in e.run('vf_type_' + f, []):
            got = ''.join(map(str, e.cstr(st, r)))
            c.ob(got == want, 'type', 'nameof<%s>() is "%s"' % (want, got), lib(m, 'nameof'), want)
