"""C26: the events of a walk over a reflected object, on every path, for every container size."""
import os
from . import vg, ve, llvm
from .vg import V
from .unit import H
from .core import check
from .p_trace import Hook, Trace, fresh, ve_loc


class I64:
    kind, width, size = 'int', 64, 8


class Walk(Hook):
    def __init__(self, m):
        super().__init__(m)
        for n, h in (('vf_enter', Walk.h_enter), ('vf_leave', Walk.h_leave), ('vf_atom', Walk.h_atom)):
            self.calls[n] = h
        self.calls['vf_open'] = lambda e, st, i, a: e.ev(st, ('open',))
        self.calls['vf_close'] = lambda e, st, i, a: e.ev(st, ('close',))
        self.calls['vf_name'] = Walk.h_name
        self.K = vg.zext(vg.var('k', 20), 64)

    def on_access(self, st, p, n, write):
        if p.r.name == 'object' and write:
            self.flag(st, 'writes', 'the walk itself writes into the object')

    def flagbit(self, v):
        return bool(v.const())

    def h_enter(self, st, i, a):
        n = self.load(st, a[0], I64)
        d = a[1].const()
        self.ev(st, ('enter', n, d))
        if d:
            # the hook may set the size
            self.put(st, a[0], self.split(SIZE(), 8), 8)

    def h_name(self, st, i, a):
        if not isinstance(a[0], ve.Ptr):
            self.flag(st, 'names', 'a member is named by a text outside the list of names')
            raise ve.Unsupported('a name that is not defined')
        self.ev(st, ('name', ''.join(map(str, self.cstr(st, a[0])))))

    def h_leave(self, st, i, a):
        self.ev(st, ('leave', self.load(st, a[0], I64), a[1].const()))

    def h_atom(self, st, i, a):
        p = a[0]
        if not isinstance(p, ve.Ptr):
            raise ve.Unsupported('atom at %r' % (p,))
        self.ev(st, ('atom', p.r.name, p.off, a[1].const()))


def SIZE():
    return vg.zext(vg.var('size', 20), 64)


def off(n):
    return n if isinstance(n, V) else vg.const(64, n)


def plus(a, n):
    return vg.add(off(a), off(n))


def atom(size):
    return lambda b: [('atom', 'object', off(b), size)]


def array(n, stride, item):
    def f(b):
        out = [('enter', vg.const(64, n), 0)]
        for k in range(n):
            out += item(plus(b, k * stride))
        return out + [('leave', vg.const(64, n), 0)]
    return f


def klass(*members):
    def f(b):
        out = [('open',)]
        for name, o, item in members:
            out += [('name', name)] + item(plus(b, o))
        return out + [('close',)]
    return f


def many(size_off, data, stride, item, count=None):
    """a container: the size the hook sets, and exactly its items"""
    def f(b):
        return [('list', plus(b, size_off), data if isinstance(data, str) else plus(b, data), stride, item)]
    return f


def names(m):
    b = bytes(llvm.global_bytes(m.globals['layout']))
    L = [int.from_bytes(b[8 * i:8 * i + 8], 'little') for i in range(len(b) // 8)]
    leaf = klass(('a', L[0], atom(2)), ('p', L[1], klass(('x', 0, atom(4)), ('y', 4, atom(4)))), ('arr', L[2], array(3, 4, atom(4))))
    twice = klass(('first', L[5], atom(1)), ('second', L[4], atom(8)))
    tree = klass(('c', L[7], atom(1)), ('in', L[8], leaf), ('grid', L[9], array(2, 12, array(3, 4, atom(4)))), ('v', L[10], array(3, 4, atom(4))),
                 ('w', L[11], array(4, 2, atom(2))), ('t', L[12], array(2, L[6], twice)), ('last', L[13], atom(1)))
    bag = klass(('before', L[14], atom(4)), ('many', 0, many(L[17], L[18], L[3], leaf)), ('after', L[16], atom(4)))
    SZ = dict(i8=1, u8=1, i16=2, i32=4, i64=8, f32=4, f64=8, ptr=8, bool=1, c3=3, c12=12, c40=40)
    gen = {}
    for n in m.funcs:
        q = n.split('_')
        if n.startswith('vf_io_arr_') or n.startswith('vf_io_vec_'):
            gen[n[6:]] = array(int(q[4]), SZ[q[3]], atom(SZ[q[3]]))
        elif n.startswith('vf_io_lst_'):
            gen[n[6:]] = many(0, 8, SZ[q[3]], atom(SZ[q[3]]))
    return {
        **gen,
        'int': atom(4), 'one': klass(('only', 0, atom(4))), 'leaf': leaf, 'twice': twice, 'tree': tree, 'bag': bag,
        'eight': klass(*[(n, 4 * k, atom(4)) for k, n in enumerate(('a', 'b', 'c', 'd', 'e', 'f', 'g', 'hh'))]),
        'wide': klass(*[(n, 2 * k, atom(2)) for k, n in enumerate(['a', 'bb', 'ccc_3', '_d', 'a_rather_long_member_name_that_goes_on', 'F', 'g7', 'h_', 'iiii', 'j', 'k', 'lllllllllllllllll', 'm', 'n0', 'o', 'p', 'q', 'rst', 'u', 'last_of_them'])]),
        'pt': array(2, 4, atom(4)), 'points': array(2, 16, klass(('x', 0, atom(8)), ('y', 8, atom(8)))),
        'ints': many(0, L[18] - L[17], 4, atom(4)), 'raw': many(0, 'items', 4, atom(4)),
    }


def tell(x):
    if x is None:
        return 'the end'
    return {'enter': 'entering an array', 'leave': 'leaving an array', 'open': 'entering a class', 'close': 'leaving a class', 'name': 'a name',
            'atom': 'a value', 'list': 'a container', 'rep': 'more items'}[x[0]]


def same(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def match(c, e, st, got, want, what, loc):
    """consume got along want; returns the number consumed or None"""
    i = 0

    def bad(msg):
        c.ob(False, 'events', '%s: %s' % (what, msg), loc, what)
        return None
    for w in want:
        g = got[i] if i < len(got) else None
        if w[0] == 'list':
            _, so, data, stride, item = w
            if g is None or g[0] != 'enter' or g[2] != 1:
                return bad('%s where entering a container is prescribed' % tell(g))
            i += 1
            reg = 'object'
            if isinstance(data, str):
                data, reg = vg.const(64, 0), None
            n = SIZE()
            zero = e.truth(st, vg.eq(n, vg.const(64, 0)))
            some = any(p in pos(n) for p in st.pc)
            none = any((p ^ vg.ONE) in pos(n) for p in st.pc) or zero
            if not some and not none:
                return bad('the items are walked without looking at the size')
            if some:
                k = match(c, e, st, rebase(got[i:], reg), item(data), what, loc)
                if k is None:
                    return None
                i += k
                g = got[i] if i < len(got) else None
                if g is None or g[0] != 'rep':
                    return bad('%s after the first item of a container' % tell(g))
                i += 1
                k = vg.add(e.K, vg.const(64, 1))
                body = rebase(list(g[2]), reg)
                j = match(c, e, st, body, item(plus(data, vg.mul(k, vg.const(64, stride)))), what, loc)
                if j is None:
                    return None
                if j != len(body):
                    return bad('%s after an item' % tell(body[j]))
                good = {vg.slt(k, n), vg.ult(k, n), vg.eq(k, n) ^ vg.ONE}
                s = vg.const(64, stride)
                good.add(vg.eq(vg.mul(k, s), vg.mul(n, s)) ^ vg.ONE)
                if not (len(g[1]) == 1 and g[1][0] in good):
                    for p in map(vg.Point, ve.points(7, 400)):
                        x, y = p.value(k), p.value(n)
                        if x <= y and all(p.poly(q) for q in g[1]) != (x < y):
                            return bad('a container of %d items %s item %d' % (y, 'walks' if x >= y else 'does not walk', x))
                    c.incomplete.append('%s: the condition for the next item is not recognised' % what)
            g = got[i] if i < len(got) else None
            if g is None or g[0] != 'leave' or g[2] != 1:
                return bad('%s where leaving a container is prescribed' % tell(g))
            if g[1] != n:
                return bad('a container is left with another size than it was entered with')
            i += 1
            continue
        if g is None or g[0] != w[0]:
            return bad('%s where %s is prescribed' % (tell(g), tell(w)))
        if not same(g, w):
            if w[0] == 'name':
                return bad('member "%s" is named "%s"' % (w[1], g[1]))
            if w[0] == 'atom':
                return bad('the value visited is not the prescribed one (%s+%s instead of +%s)' % (g[1], g[2].const(), w[2].const()))
            return bad('%s with size %s instead of %s, resizable %s' % (tell(w), g[1].const(), w[1].const(), g[2]))
        i += 1
    return i


def rebase(got, reg):
    return [('atom', 'object', x[2], x[3]) if reg is None and x[0] == 'atom' and x[1] != 'object' else x for x in got]


def pos(n):
    z = vg.const(64, 0)
    return {vg.ult(z, n), vg.eq(n, z) ^ vg.ONE, vg.slt(z, n)}


@check('C26', 'effect-sequence analysis of walks over every kind of reflected object: all events with object offsets; containers by induction over the item number', level='proof')
def c26(c):
    for flags, tag in (((), ''),):
        m = llvm.build(os.path.join(H, 'io.cpp'), list(flags))
        c.units.append('io.cpp')
        fresh()
        table = names(m)
        for n in sorted(table):
            fresh()
            want = table[n]
            f = 'vf_io_' + n
            e = Walk(m)
            obj = ve.Region('object', 'in')
            io = ve.Region('io', 'in')
            loc = next((ve_loc(m, x) for x in m.funcs if 'io_self' in x and not m.funcs[x].is_decl), '?')
            try:
                rets = e.run(f, [ve.Ptr(io), ve.Ptr(obj)])
            except ve.Unsupported as x:
                rets = []
                if not e.ub:
                    c.incomplete.append('%s: %s' % (n, x))
            for u in e.ub:
                c.ob(False, u[0], '%s: %s' % (n, u[1]), u[2], n)
            c.functions.add('item(%s)' % n)
            for st, _ in rets:
                got = list(st.ev)
                k = match(c, e, st, got, want(0), n, loc)
                for w in want(0):
                    if w[0] == 'list':
                        x = e.load(st, ve.Ptr(obj, w[1]), I64)
                        c.ob(x == SIZE(), 'size', '%s: the size that the hook sets does not reach the container' % n, loc, n)
                if k is not None:
                    c.ob(k == len(got), 'events', '%s: %s after the walk' % (n, tell(got[k]) if k < len(got) else ''), loc, n)
