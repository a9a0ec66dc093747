"""C47: the text of values that are not numbers, as the sequence of characters and numbers written on every path.

The conversions of the ten integer types are C10's; here each is one abstract character that stands for its text, and
everything around it is compared, path by path, with the characters the documented forms prescribe."""
import os
from . import vg, ve, llvm
from .unit import H
from .core import check
from .p_trace import Trace, token, same_char


def cell(r, off, n):
    return vg.concat([vg.mem_byte(r, vg.const(64, off + b)) for b in range(n)])


def num(kind, r, size, at):
    return [token(cell(r, at, size), kind)]


def lst(items):
    out = ['[']
    for k, x in enumerate(items):
        out += (list(', ') if k else []) + x
    return out + [']']


def flag(b):
    return list('#<') + [vg.ite(b, vg.const(8, ord('T')), vg.const(8, ord('F')))] + ['>']


class S:
    """one evaluated path, to ask what it knows"""

    def __init__(self, e, st):
        self.e, self.st = e, st

    def upto(self, vs):
        """the characters before the first terminator"""
        out = []
        for v in vs:
            if v.const() is not None:
                z = v.const() == 0
            else:
                z = self.e.truth(self.st, vg.eq(v, vg.const(8, 0)))
            if z is None:
                return None
            if z:
                break
            out.append(v)
        return out


def enum(kind):
    return lambda s, v: list('#<enum ') + [token(v, kind)] + ['>']


def ptr(s, v):
    return list('#<ptr ') + [token(s.e.ptr_int(v), 'u')] + ['>']


def ref(s, v):
    return list('#<ref ') + [token(s.e.ptr_int(v), 'u')] + ['>']


NIL = lambda *_: list('#<nil>')


def arr(kind, size, n):
    return lambda s, v: lst([num(kind, 'in0', size, size * k) for k in range(n)])


def bools(n):
    return lambda s, v: lst([flag(cell('in0', k, 1).bits[0]) for k in range(n)])


# name: (arguments: widths, 'p' pointer, 'n' null), expected characters
CASES = [
    ('char', [8], lambda s, v: [v]), ('bool', [1], lambda s, v: flag(v.bits[0])),
    ('e8', [8], enum('u')), ('es', [16], enum('s')), ('e64', [64], enum('s')), ('plain', [32], enum('u')),
    ('ptr', ['p'], ptr), ('cptr', ['p'], ptr), ('vptr', ['p'], ptr), ('pptr', ['p'], ptr),
    ('ptr', ['n'], NIL), ('cptr', ['n'], NIL), ('vptr', ['n'], NIL), ('pptr', ['n'], NIL),
    ('thing', ['p'], ref), ('nil', [], NIL), ('nstr', [], NIL), ('lit', [], lambda s: list('lit')), ('none', [], lambda s: []),
    ('a1', ['p'], arr('s', 4, 1)), ('a3', ['p'], arr('s', 4, 3)), ('a4', ['p'], arr('u', 8, 4)), ('ac', ['p'], arr('s', 1, 2)), ('ab', ['p'], bools(2)),
    ('v1', ['p'], arr('s', 2, 1)), ('v2', ['p'], arr('s', 4, 2)), ('v3', ['p'], arr('s', 8, 3)), ('v4', ['p'], arr('u', 1, 4)),
    ('str', [8, 8, 8], lambda s, *v: s.upto(v)), ('mstr', [8, 8, 8], lambda s, *v: s.upto(v)), ('arr', [8, 8, 8], lambda s, *v: s.upto(v)),
    ('astr', [8, 8], lambda s, a, b: None if s.upto([a]) is None or s.upto([b]) is None else lst([s.upto([a]), s.upto([b])])),
    ('a5', ['p'], arr('u', 2, 5)), ('v4f', ['p'], bools(4)),
    ('ae', ['p'], lambda s, v: lst([enum('s')(s, cell('in0', 2 * k, 2)) for k in range(3)])),
    ('v3e', ['p'], lambda s, v: lst([enum('u')(s, cell('in0', 4 * k, 4)) for k in range(3)])),
    ('acc', ['p'], lambda s, v: s.upto([cell('in0', k, 1) for k in range(4)])),
    ('str6', [8] * 6, lambda s, *v: s.upto(v)), ('arr6', [8] * 6, lambda s, *v: s.upto(v)),
    ('strs', [8, 8, 32, 'p'], lambda s, a, b, n, p: None if s.upto([a, b]) is None else s.upto([a, b]) + [token(n, 's')] + ptr(s, p) + s.upto([a, b])),
    ('strs', [8, 8, 32, 'n'], lambda s, a, b, n, p: None if s.upto([a, b]) is None else s.upto([a, b]) + [token(n, 's')] + NIL() + s.upto([a, b])),
    ('many', [32, 8, 1, 8, 64], lambda s, a, b, c, d, e: [token(a, 's'), b] + flag(c.bits[0]) + ['-'] + enum('u')(s, d) + NIL() + [token(e, 'u')]),
    ('two', [64, 'p'], lambda s, a, v: [token(a, 's')] + lst([num('s', 'in1', 4, 4 * k) for k in range(2)])),
]


def show(t):
    return '"%s"' % ''.join(chr(x.const()) if x.const() is not None else '%' for x in t)


@check('C47', 'path-by-path comparison of the characters written by to_text for every kind of value with the prescribed form; numbers are abstract characters (C10)',
       level='proof')
def c47(c):
    src = os.path.join(H, 'compound.cpp')
    m = llvm.build(src)
    c.units.append('compound.cpp')
    for name, kinds, want in CASES:
        f = 't_' + name
        label = 'to_text(%s%s)' % (name, ' null' if 'n' in kinds else '')
        vg.reset()
        e = Trace(m)
        out = ve.Region('out', 'local', 4096)
        args = []
        for k, w in enumerate(kinds):
            if w == 'n':
                args.append(ve.NULL)
            elif w == 'p':
                args.append(ve.Ptr(ve.Region('in%d' % k, 'in')))
            else:
                args.append(vg.var(('a', k), w))
        loc = 'harness/compound.cpp'
        try:
            rets = e.run(f, [ve.Ptr(out)] + args)
        except ve.Unsupported as x:
            for u in e.ub:
                c.ob(False, u[0], '%s: %s' % (label, u[1]), u[2], f)
            if not e.ub:
                c.incomplete.append('%s: %s' % (label, x))
            continue
        for u in e.ub:
            c.ob(False, u[0], '%s: %s' % (label, u[1]), u[2], f)
        c.functions.add(label)
        if not rets:
            c.incomplete.append('%s: no path returns' % label)
        for st, v in rets:
            t = want(S(e, st), *args)
            if t is None:
                c.ob(False, 'text', '%s: the text does not depend on whether a character is the terminator' % label, loc, f)
                continue
            t = [vg.const(8, ord(x)) if isinstance(x, str) else x for x in t]
            n = v.off.const() if isinstance(v, ve.Ptr) and v.r is out else None
            if n is None:
                c.incomplete.append('%s: the end returned is not a position in the text' % label)
                continue
            got = [e.load_byte(st, ve.Ptr(out), k) for k in range(n)]
            if not all(isinstance(x, vg.V) for x in got):
                c.ob(False, 'text', '%s: %d characters are counted but not all are written' % (label, n), loc, f)
                continue
            same = len(got) == len(t) and all(same_char(e, st, x, y) for x, y in zip(got, t))
            if len(got) == len(t) and not same and not any(ve.differ(x, y, st.pc) for x, y in zip(got, t) if x != y):
                c.incomplete.append('%s: the text is not recognised' % label)
                continue
            c.ob(same, 'text', '%s: writes %s (%d characters) where %s (%d) is prescribed' % (label, show(got), len(got), show(t), len(t)), loc, f)
            extra = [k for k in st.mem.get(out, {}) if k[0] or not 0 <= k[1] < max(n, 1)]
            c.ob(not extra, 'extent', '%s: writes outside the text it returns' % label, loc, f)
