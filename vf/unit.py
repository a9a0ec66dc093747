"""Shared set-up for the interpreter-based checks: build a harness, lay out regions, compare final states."""
import os
from . import llvm, dom
from .ai import Interp, Region, State, Ptr, Int, Cond, TRUE, FALSE, Unsupported, UNDEF, Split, Term
from .dom import Lin, var, fresh, new, const, ZERO, Infeasible
from .core import AnalysisError

H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness')
U64 = (1 << 64) - 1


def st_ty(m, name):
    for t in m._tys.values():
        if t.kind == 'struct' and t.name == name:
            return t
    raise AnalysisError('type %s not found' % name)


class Unit:
    """one harness translation unit analysed by one interpreter"""

    def __init__(self, src, flags=(), opaque=(), ctx=None, asserts=True, budget=200):
        dom.reset_syms()
        self.m = llvm.build(os.path.join(H, src), list(flags))
        self.I = Interp(self.m, opaque=opaque, budget=budget)
        self.I.unit = self
        self.ctx = ctx
        self.returned = {}
        h = self.I.handlers
        if asserts:
            h += [(lambda f: f.startswith('_ZN2ce2os3log'), self.log),
                  (lambda f: f.startswith('_ZN2ce2os5error'), lambda I, st, i, a: FALSE),
                  (lambda f: f == 'llvm.debugtrap', lambda *a: None),
                  (lambda f: f.startswith('_ZN2ce7to_text'), lambda I, st, i, a: a[0])]
        if ctx is not None:
            ctx.watch(self.I)
            ctx.units.append('%s %s' % (src, ' '.join(flags)))

    def log(self, I, st, i, a):
        I.oblige(st, False, 'assert', 'an assertion fails in a valid state', i)

    def layout(self, name='layout', n=None):
        G = self.m.globals.get(name)
        if G is None:
            raise AnalysisError('layout table %s not found' % name)
        b = bytes(llvm.global_bytes(G))
        L = [int.from_bytes(b[8 * i:8 * i + 8], 'little') for i in range(len(b) // 8)]
        return L

    def ty(self, name):
        return st_ty(self.m, name)

    def gty(self, name):
        """type of a global of the harness"""
        G = self.m.globals.get(name)
        if G is None:
            raise AnalysisError('global %s not found' % name)
        return G.ty

    def run(self, fn, states, returns=True):
        """final states of an entry point; every entry must be able to return"""
        try:
            fin = self.I.run(fn, states)
        except Unsupported as e:
            if self.ctx is None:
                raise
            self.ctx.incomplete.append('%s: %s' % (fn, e))
            self.returned.setdefault(fn, 1)
            return []
        self.returned.setdefault(fn, 0)
        self.returned[fn] += len(fin)
        return fin

    def done(self):
        for fn, n in self.returned.items():
            if not n and not self.I.violations:
                raise AnalysisError('entry %s never returns in the abstraction' % fn)

    def expect(self, st, ok, rule, msg):
        """an obligation on a final state"""
        old = self.I.cur
        self.I.cur = None
        loc = None
        p = st.path
        if p:
            loc = p[0]
        self.I.oblige(st, bool(ok), rule, msg, None, loc or '?')
        self.I.cur = old
        return ok

    def cases(self, st, alts):
        """(alternative, refined state) for the feasible ones; alts: list of (tag, rows)"""
        out = []
        for tag, rows in alts:
            n = self.I.assume_rows(st, rows)
            if n is not None:
                out.append((tag, n))
        return out

    def eq(self, st, v, e, signed=False):
        """is the value provably equal to the Lin e?"""
        if isinstance(v, Int):
            try:
                v = self.I.norm(st, v, signed)
            except Split as sp:
                return all(self.eq(s, v, e, signed) for s in self.I.split(st, sp.alts))
        elif isinstance(v, Cond):
            return self.eqb(st, v, bool(e.c) if isinstance(e, Lin) else e)
        elif not isinstance(v, Lin):
            return False
        d = v - e
        return st.cons.entails(True, d)

    def eqb(self, st, v, truth):
        """is a boolean value provably `truth`?"""
        if isinstance(v, Int):
            v = Cond('cmp', 'ne', v, Int(v.w, ZERO))
        if not isinstance(v, Cond):
            return False
        for x in self.I.assume(st, v, not truth):
            return False
        return True

    def ptr_is(self, st, v, r, off):
        return isinstance(v, Ptr) and v.r is r and st.cons.entails(True, v.o - off)


def lt(a, b):
    """row: a < b"""
    return (False, b - a - 1)


def le(a, b):
    return (False, b - a)


def eqr(a, b):
    return (True, a - b)


class Arr:
    """an array (or scalar) of a region, addressed by element index"""

    def __init__(self, U, R, off, f=0):
        self.U, self.R, self.f = U, R, f
        self.seg = R.seg_at(off)
        self.size, self.kind = self.seg.fields[f]

    def put(self, st, idx, v):
        """initial content at an index known to differ from the others"""
        if isinstance(v, Lin):
            v = Int(8 * self.size, v)
        if isinstance(idx, int):
            idx = Lin(idx)
        k = (self.R, self.seg.name, self.f)
        st.cells[k] = st.cells.get(k, ()) + ((idx, v),)

    def sym(self, name, lo=0, hi=None):
        return new(name, lo, (1 << (8 * self.size)) - 1 if hi is None else hi)

    def seed(self, states, idx, v):
        """put an initial value at idx in every state where the index is not yet there; v(): value.
        Returns the states (split on aliasing)"""
        out = []
        if isinstance(idx, int):
            idx = Lin(idx)
        work = list(states)
        while work:
            s = work.pop()
            try:
                n = self.U.I.lookup(s, (self.R, self.seg.name, self.f), idx)
            except Split as sp:
                work.extend(self.U.I.split(s, sp.alts))
                continue
            if n is None:
                s = s.fork()
                self.put(s, idx, v)
            out.append(s)
        return out

    def get(self, st, idx):
        """list of (state, value) of the element, split on aliasing"""
        if isinstance(idx, int):
            idx = Lin(idx)
        out = []
        work = [st.fork()]
        while work:
            s = work.pop()
            try:
                v = self.U.I.read(s, self.R, self.seg, idx, self.f, self.size, self.kind)
                out.append((s, v))
            except Split as sp:
                work.extend(self.U.I.split(s, sp.alts))
            except Infeasible:
                pass
        return out

    def is_(self, st, idx, e):
        """does the element provably hold e?"""
        return all(self.U.eq(s, v, e) if not isinstance(e, Term) else v == e for s, v in self.get(st, idx))
