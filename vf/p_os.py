"""C36: the requests the operating-system layer makes, and what it reports, on every path."""
from . import vg, ve, llvm
from .vg import V
from .core import check
from .p_trace import PT, ve_loc

NS = 1000000000


class I64:
    kind, width, size = 'int', 64, 8


class OS(ve.Evaluator):
    def __init__(self, m):
        super().__init__(m)
        self.merge = False
        self.calls['strlen'] = OS.h_strlen
        self.calls['write'] = lambda e, st, i, a: e.ev(st, ('write', a[0], a[1], a[2])) or vg.var('written', 64)
        self.calls['nanosleep'] = OS.h_sleep
        self.calls['clock_gettime'] = OS.h_clock

    def ev(self, st, e):
        st.ev = st.ev + (e,)

    def h_strlen(self, st, i, a):
        p = a[0]
        if not isinstance(p, ve.Ptr) or p.r.name != 'text':
            raise ve.Unsupported('strlen of %r' % (p,))
        self.nonnull(st, p, 'measures')
        return vg.sub(vg.var('length', 64), p.off)

    def nonnull(self, st, p, what):
        z = self.ptr_eq(st, p, ve.NULL)
        if p.r.name == 'text' and self.truth(st, z) is not False:
            self.flag(st, 'null', '%s a text that may be null' % what)

    def pair(self, st, p):
        return [self.load(st, ve.Ptr(p.r, vg.add(p.off, vg.const(64, o))), I64) for o in (0, 8)]

    def h_sleep(self, st, i, a):
        if len(a) == 2 and isinstance(a[0], ve.Ptr) and a[0].r.kind != 'null':
            self.ev(st, ('sleep',) + tuple(self.pair(st, a[0])))
        else:
            self.flag(st, 'request', 'nanosleep without a time')
        return vg.var('slept', 32)

    def h_clock(self, st, i, a):
        p = a[1]
        self.ev(st, ('clock', a[0]))
        k = sum(1 for e in st.ev if e[0] == 'clock')
        outs = []
        for good in (True, False):
            s = st.copy()
            if good:
                for j, n in enumerate(('sec', 'nsec')):
                    self.store(s, ve.Ptr(p.r, vg.add(p.off, vg.const(64, 8 * j))), vg.var((n, k), 64), I64)
            s.gd = dict(s.gd, ok=good)
            outs.append((s, vg.const(32, 0 if good else 0xffffffff)))
        return outs


def fn(c, m, name):
    f = [n for n in m.funcs if n.startswith(name) and not m.funcs[n].is_decl]
    if len(f) != 1:
        c.incomplete.append('function %s not found' % name)
        return None
    c.functions.add(f[0])
    return f[0]


def go(c, m, f, args, st=None):
    e = OS(m)
    try:
        rets = e.run(f, args, st)
    except ve.Unsupported as x:
        rets = []
        if not e.ub:
            c.incomplete.append('%s: %s' % (f, x))
    for u in e.ub:
        c.ob(False, u[0], u[1], u[2], f)
    return e, [r for r in rets if r[1] is not ve.Stop]


def is_zero(v):
    return isinstance(v, ve.Ptr) and v.r.kind == 'null' or isinstance(v, V) and v.const() == 0


@check('C36', 'effect and value analysis of every path of the POSIX layer: arguments of each system call in normal form, reported result against the state left behind', level='proof')
def c36(c):
    m = llvm.build(llvm.REPO + '/lib/os_posix.cpp')
    c.units.append('lib/os_posix.cpp')
    # debug_out
    f = fn(c, m, '_ZN2ce2os9debug_out')
    if f:
        vg.reset()
        r = ve.Region('text', 'in')
        r.nullable = True
        e, rets = go(c, m, f, [ve.Ptr(r)])
        loc = ve_loc(m, f)
        for st, v in rets:
            z = e.truth(st, e.ptr_eq(st, ve.Ptr(r), ve.NULL))
            w = [x for x in st.ev if x[0] == 'write']
            if z is None:
                c.ob(False, 'null', 'debug_out does not tell a null text from a text', loc, f)
            elif z:
                c.ob(not w, 'null', 'debug_out writes for a null text', loc, f)
            else:
                c.ob(len(w) == 1, 'once', 'debug_out writes the text %d times' % len(w), loc, f)
                for x in w:
                    c.ob(x[1].const() == 2, 'request', 'debug_out writes to descriptor %s' % x[1].const(), loc, f)
                    c.ob(isinstance(x[2], ve.Ptr) and x[2].r is r and x[2].off.const() == 0, 'request', 'debug_out does not write from the start of the text', loc, f)
                    c.ob(x[3] == vg.var('length', 64), 'request', 'debug_out does not write exactly the length of the text', loc, f)
    # sleep_ns
    f = fn(c, m, '_ZN2ce2os8sleep_ns')
    if f:
        vg.reset()
        ns = vg.var('ns', 64)
        e, rets = go(c, m, f, [ns])
        loc = ve_loc(m, f)
        for st, v in rets:
            w = [x for x in st.ev if x[0] == 'sleep']
            c.ob(len(w) == 1, 'once', 'sleep_ns asks the system %d times' % len(w), loc, f)
            for x in w:
                sleep(c, st, ns, x[1], x[2], loc, f)
    # timestamps
    f = fn(c, m, '_ZN2ce2os19monotonic_timestamp')
    if f:
        vg.reset()
        e, rets = go(c, m, f, [])
        loc = ve_loc(m, f)
        for st, v in rets:
            w = [x for x in st.ev if x[0] == 'clock']
            c.ob(len(w) == 1, 'once', 'monotonic_timestamp asks the clock %d times' % len(w), loc, f)
            if len(w) != 1:
                continue
            c.ob(w[0][1].const() == 4, 'request', 'monotonic_timestamp reads clock %s, not the raw monotonic one' % w[0][1].const(), loc, f)
            if not st.gd['ok']:
                c.ob(isinstance(v, V) and v.const() == 0, 'failure', 'monotonic_timestamp returns something when the clock cannot be read', loc, f)
                continue
            want = vg.add(vg.var(('nsec', 1), 64), vg.mul(vg.var(('sec', 1), 64), vg.const(64, NS)))
            same(c, st, v, want, 'value', 'monotonic_timestamp is not seconds * 10^9 + nanoseconds', loc, f)
    f = fn(c, m, '_ZN2ce2os19monotonic_frequency')
    if f:
        vg.reset()
        e, rets = go(c, m, f, [])
        for st, v in rets:
            c.ob(isinstance(v, V) and v.const() == NS, 'value', 'monotonic_frequency is not 10^9', ve_loc(m, f), f)
    # files
    for name, pat in (('map_span(file)', '_ZN2ce2os8map_spanERNS_4spanIKhEENS0_6file_t'), ('map_span(path)', '_ZN2ce2os8map_spanERNS_4spanIKhEEPKc'),
                      ('unmap_span', '_ZN2ce2os10unmap_span')):
        f = fn(c, m, pat)
        if not f:
            continue
        vg.reset()
        S = ve.Region('span', 'in', 16)
        args = [ve.Ptr(S)]
        for a in m.funcs[f].args[1:]:
            args.append(vg.var('file', a.ty.width) if a.ty.kind == 'int' else ve.Ptr(ve.Region('path', 'in')))
        e, rets = go(c, m, f, args)
        loc = ve_loc(m, f)
        for st, v in rets:
            size = e.load(st, ve.Ptr(S), I64)
            data = e.load(st, ve.Ptr(S, vg.const(64, 8)), PT)
            good = e.truth(st, v.bits[0])
            empty = is_zero(size) and is_zero(data)
            if name == 'unmap_span':
                c.ob(empty, 'empty', 'unmap_span leaves a pointer or a size behind', loc, f)
            elif good is None:
                c.incomplete.append('%s: the result is not decided on a path' % name)
            elif good:
                c.ob(not is_zero(size) and not is_zero(data), 'honest', '%s reports success with an empty span' % name, loc, f)
            else:
                c.ob(empty, 'honest', '%s reports failure but leaves a pointer or a size in the span' % name, loc, f)


def same(c, st, v, want, rule, msg, loc, f):
    if v == want:
        return c.ob(True, rule, '', loc, f)
    d = ve.differ(v, want, st.pc) if isinstance(v, V) else None
    if d:
        c.ob(False, rule, '%s (e.g. %d instead of %d)' % (msg, d[0], d[1]), loc, f)
    else:
        c.incomplete.append('%s: form not recognised' % f)


def sleep(c, st, ns, sec, nsec, loc, f):
    """sec * 10^9 + nsec is ns and nsec is below 10^9"""
    C = vg.const(64, NS)
    q, r = vg.udiv(ns, C), vg.urem(ns, C)
    small = st.facts.get(vg.ult(ns, C)) is True or st.facts.get(vg.ult(ns, C) ^ vg.ONE) is False or any(
        p in (vg.ult(ns, C), vg.ule(ns, vg.const(64, NS - 1))) for p in st.pc)
    ok = nsec in (r, vg.sub(ns, vg.mul(q, C))) and sec == q
    if small and sec.const() == 0 and nsec == ns:
        ok = True
    if ok:
        return c.ob(True, 'request', '', loc, f)
    # a point of the path where the request is wrong
    for n in [0, 1, NS - 1, NS, NS + 1, 2 * NS - 1, 2 * NS, 3 * NS + 5, 1 << 32, (1 << 32) * NS + 7, (1 << 63) - 1, (1 << 63) + 1, (1 << 64) - 1, 999, 5 * NS - 1]:
        p = vg.Point(lambda name, n=n: n)
        if all(p.poly(x) for x in st.pc):
            s, t = p.value(sec), p.value(nsec)
            if s * NS + t != n or t >= NS:
                c.ob(False, 'request', 'sleep_ns(%d) asks for %d s + %d ns' % (n, s, t), loc, f)
                return
    c.incomplete.append('sleep_ns: form of the request not recognised')
