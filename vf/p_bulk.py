"""C01-C03: bulk<N,T> under the object life-cycle and content-token abstraction."""
from .unit import *
from .obj import Objects, RAW, LIVE
from .core import check

SIZES = {'quick': [1, 7], 'thorough': [1, 2, 3, 7, 64, 1000]}


class Bulk(Unit):
    def __init__(self, ctx, N, elem):
        super().__init__('bulk.cpp', ['-DVF_N=%d' % N, '-DVF_ELEM=%d' % elem], ['struct.E', 'struct.F', 'struct.D'], ctx)
        self.N = N
        self.elem = elem
        self.bt = self.ty('struct.ce::bulk')
        L = self.layout()
        self.size_off, self.data_off, self.esz = L[1], L[2], L[3]
        if L[4] != N:
            raise AnalysisError('capacity of the harness type is %d' % L[4])
        self.O = Objects(self.I, 'E')
        self.OF = Objects(self.I, 'F')
        self.OD = Objects(self.I, 'D')
        if elem in (2, 3):
            self.O = self.OF if elem == 2 else self.OD
            self.I.raw_obj_hook = self.O.raw
        else:
            self.I.raw_obj_hook = self.O.raw

    def region(self, name, const=False):
        R = Region(name, self.bt, self.I.opaque, const=const)
        if self.elem == 1:
            R.init = lambda I, st, r, seg, idx, f: Term('tok', '?') if seg.base == self.data_off else None
        self.size_seg = R.seg_at(self.size_off)
        data = R.seg_at(self.data_off)
        if data.stride != self.esz:
            raise AnalysisError('item stride %d, expected %d' % (data.stride, self.esz))
        data.count = Lin(self.N)
        return R

    # ---- content of item slots
    def data(self, R):
        return R.seg_at(self.data_off)

    def put(self, st, R, name, idx, life, tok):
        d = self.data(R)
        if self.elem == 1:
            if life == LIVE:
                key = (R, d.name, 0)
                st.cells[key] = st.cells.get(key, ()) + ((idx, Term('tok', tok)),)
            else:
                # contents of a dead slot are unknown
                key = (R, d.name, 0)
                st.cells[key] = st.cells.get(key, ()) + ((idx, Term('tok', 'dead ' + name)),)
        else:
            self.O.track(st, R, d, name, idx, life, tok)

    def slot(self, st, R, name, idx):
        """(life, token) of a tracked slot in a state"""
        d = self.data(R)
        if self.elem == 1:
            for i, v in st.cells.get((R, d.name, 0), ()):
                if i == idx:
                    return None, v
            return None, None
        return self.O.state(st, R, d, name)

    def same(self, st, R, name, idx, life, tok):
        l, t = self.slot(st, R, name, idx)
        if self.elem == 1:
            lifeok = True
            tokok = life != LIVE or tok is None or tok == 'new' or t == Term('tok', tok)
        else:
            lifeok = l == life
            tokok = life != LIVE or tok is None or t == tok
        return lifeok, tokok

    def initial(self, R, st0, s0, j, p=''):
        """split on the position of the tracked slots j, j+1 and the last one; yields (state, slots)"""
        out = []
        N = self.N
        last = s0 - 1
        for jt, jr in (('below', [lt(j + 1, last)]), ('pre', [eqr(j + 1, last)]), ('last', [eqr(j, last)]), ('dead', [le(s0, j)])):
            st = self.I.assume_rows(st0, jr)
            if st is None:
                continue
            slots = {}
            if jt == 'below':
                slots = {'j': (j, LIVE, p + 'J'), 'k': (j + 1, LIVE, p + 'K'), 'l': (last, LIVE, p + 'L')}
            elif jt == 'pre':
                slots = {'j': (j, LIVE, p + 'J'), 'k': (j + 1, LIVE, p + 'K')}
            elif jt == 'last':
                slots = {'j': (j, LIVE, p + 'J')}
                s2 = self.I.assume_rows(st, [le(j + 1, Lin(N - 1))])
                if s2 is not None:
                    sl = dict(slots)
                    sl['k'] = (j + 1, RAW, '-')
                    out.append((s2, sl))
                s2 = self.I.assume_rows(st, [eqr(j, Lin(N - 1))])
                if s2 is not None:
                    out.append((s2, slots))
                continue
            else:
                slots = {'j': (j, RAW, '-')}
                for x, rows in self.cases(st, [('none', [eqr(s0, ZERO)]), ('some', [lt(ZERO, s0)])]):
                    sl = dict(slots)
                    if x == 'some':
                        sl['l'] = (last, LIVE, p + 'L')
                    out.append((rows, sl))
                continue
            out.append((st, slots))
        for st, slots in out:
            for n, (i, life, tok) in slots.items():
                self.put(st, R, n, i, life, tok)
        return out

    def start(self, s0=None, j=None):
        self.O.tracked.clear()
        st = State()
        return st

    def setsize(self, st, R, s):
        st.cells[(R, self.size_seg.name, 0)] = ((ZERO, Int(64, s)),)

    def size_of(self, st, R):
        c = st.cells.get((R, self.size_seg.name, 0))
        return c[0][1] if c else None

    # ---- the checks of one final state
    def final(self, f, R, want_ret, size, slots, s0, n, op):
        """want_ret None for void; size: Lin; slots: {name: (idx, life, tok)} expected"""
        if want_ret is not None:
            self.expect(f, self.eqb(f, f.ret, want_ret), 'result', '%s %s' % (op, 'must report success here' if want_ret else 'must be refused here'))
        v = self.size_of(f, R)
        self.expect(f, v is not None and self.eq(f, v, size), 'size', 'the size after %s is %r, not %r' % (op, v, size))
        for name, (idx, life, tok) in slots.items():
            lo, to = self.same(f, R, name, idx, life, tok)
            got = self.slot(f, R, name, idx)
            self.expect(f, lo, 'life', 'after %s a slot is %s but must be %s' % (op, got[0], life))
            if lo:
                self.expect(f, to, 'content', 'after %s a slot holds %r but must hold the item %s' % (op, got[1], tok))
        self.O.locals_dead(f)

    def mutate(self, fn, op, args, alts):
        """run a mutator from every initial state.
        args(st, R) -> list of states with argument registers set and case data
        alts(s0, n, slots) -> list of (rows, ret, size, {name: (idx, life, tok)})"""
        self.start()
        s0 = new('size', 0, self.N)
        j = new('j', 0, self.N - 1)
        R = self.region('b')
        for st, slots in self.initial(R, State(), s0, j):
            self.setsize(st, R, s0)
            st.regs['a0'] = Ptr(R, ZERO)
            for st1, n in args(st, s0, slots, R):
                for f in self.run(fn, [st1]):
                    got = 0
                    for rows, ret, size, exp in alts(s0, n, slots):
                        g = self.I.assume_rows(f, rows)
                        if g is None:
                            continue
                        got += 1
                        self.final(g, R, ret, size, exp, s0, n, op)
                    if not got:
                        raise AnalysisError('no specification case covers a final state of ' + fn)

    def num(self, st, s0, slots, R):
        n = new('n', 0, U64)
        st.regs['a1'] = Int(64, n)
        return [(st, n)]

    def pos(self, st, s0, slots, R):
        """an index argument, split on its position relative to the tracked slots"""
        i = new('i', 0, U64)
        st.regs['a1'] = Int(64, i)
        acc = [st]
        for nm, (idx, life, tok) in slots.items():
            acc = [y for x in acc for _, y in self.cases(x, [('', [lt(idx, i)]), ('', [le(i, idx)])])]
        return [(x, i) for x in acc]

    def none(self, st, s0, slots, R):
        return [(st, None)]

    @staticmethod
    def cross(cases, slots, fn):
        """product of a case list with per-slot conditional expectations fn(name, idx, life, tok) -> [(rows, life, tok)]"""
        out = []
        for rows, ret, size in cases:
            acc = [(rows, {})]
            for name, (idx, life, tok) in slots.items():
                nx = []
                for r, e in acc:
                    for r2, l2, t2 in fn(ret, name, idx, life, tok):
                        e2 = dict(e)
                        e2[name] = (idx, l2, t2)
                        nx.append((r + r2, e2))
                acc = nx
            out += [(r, ret, size, e) for r, e in acc]
        return out

    def grow_shrink(self, newsize):
        def fn(ret, name, idx, life, tok, s=newsize):
            if ret is False:
                return [([], life, tok)]
            return [([lt(idx, s)], LIVE, tok if life == LIVE else 'new'), ([le(s, idx)], RAW, '-')]
        return fn

    def all(self):
        N = Lin(self.N)
        E = self.esz

        def resize(s0, n, slots):
            return self.cross([([le(n, N)], True, n), ([lt(N, n)], False, s0)], slots, self.grow_shrink(n))
        if self.elem != 3:
            self.mutate('h_resize', 'resize', self.num, resize)

        def append_n(s0, n, slots):
            return self.cross([([le(n, N - s0)], True, s0 + n), ([lt(N - s0, n)], False, s0)], slots, self.grow_shrink(s0 + n))
        if self.elem != 3:
            self.mutate('h_append_n', 'append_n', self.num, append_n)

        def clear(s0, n, slots):
            return self.cross([([], None, ZERO)], slots, self.grow_shrink(ZERO))
        self.mutate('h_clear', 'clear', self.none, clear)
        self.dtor()

        def remove(s0, i, slots):
            def fn(ret, name, idx, life, tok):
                if ret is False or life == RAW:
                    return [([], life, tok)]
                lasttok = next((t for k, (x, l, t) in slots.items() if k in ('l',)), None)
                if lasttok is None:
                    # the last item is the tracked j or k
                    lasttok = slots['k'][2] if 'k' in slots and slots['k'][1] == LIVE else slots['j'][2]
                return [([lt(idx, s0 - 1), lt(idx, i)], LIVE, tok), ([lt(idx, s0 - 1), lt(i, idx)], LIVE, tok),
                        ([lt(idx, s0 - 1), eqr(idx, i)], LIVE, lasttok), ([le(s0 - 1, idx)], RAW, '-')]
            return self.cross([([lt(i, s0)], True, s0 - 1), ([le(s0, i)], False, s0)], slots, fn)
        self.mutate('h_remove', 'remove_at', self.pos, remove)

        def ordered(s0, i, slots):
            def fn(ret, name, idx, life, tok):
                if ret is False or life == RAW:
                    return [([], life, tok)]
                nxt = slots['k'][2] if name == 'j' and 'k' in slots and slots['k'][1] == LIVE else None
                return [([lt(idx, s0 - 1), lt(idx, i)], LIVE, tok),
                        ([lt(idx, s0 - 1), le(i, idx)], LIVE, nxt), ([le(s0 - 1, idx)], RAW, '-')]
            return self.cross([([lt(i, s0)], True, s0 - 1), ([le(s0, i)], False, s0)], slots, fn)
        self.mutate('h_remove_ordered', 'remove_at<true>', self.pos, ordered)

        if self.elem != 2:
            def app(s0, n, slots):
                src = n

                def fn(ret, name, idx, life, tok):
                    if ret is False or life == LIVE:
                        return [([], life, tok)]
                    return [([eqr(idx, s0)], LIVE, src), ([lt(s0, idx)], RAW, '-')]
                return self.cross([([lt(s0, N)], True, s0 + 1), ([eqr(s0, N)], False, s0)], slots, fn)

            def other(st, s0, slots, R):
                if self.elem == 1:
                    X = Region('e', self.ty('struct.P'), self.I.opaque, const=True)
                    st.cells[(X, X.segs[0].name, 0)] = ((ZERO, Term('tok', 'X')),)
                else:
                    X = Region('e', self.ty('struct.D' if self.elem == 3 else 'struct.E'), self.I.opaque, const=True)
                    self.O.tracked.pop(('e', ''), None)
                    self.O.track(st, X, X.segs[0], 'x', ZERO, LIVE, 'X')
                st.regs['a1'] = Ptr(X, ZERO)
                return [(st, 'X')]

            def own(st, s0, slots, R):
                out = []
                for nm, (idx, life, tok) in slots.items():
                    if life == LIVE:
                        s = st.fork()
                        s.regs['a1'] = Ptr(R, idx * E + self.data_off)
                        out.append((s, tok))
                return out
            self.mutate('h_append', 'append', other, app)
            self.mutate('h_append', 'append of an own item', own, app)
        if not getattr(self, 'light', False):
            self.copies()
        self.accessors()
        self.ctor()
        self.done()

    def dtor(self):
        self.start()
        s0 = new('size', 0, self.N)
        j = new('j', 0, self.N - 1)
        R = self.region('b')
        for st, slots in self.initial(R, State(), s0, j):
            self.setsize(st, R, s0)
            st.regs['a0'] = Ptr(R, ZERO)
            for f in self.run('h_dtor', [st]):
                for name, (idx, life, tok) in slots.items():
                    self.expect(f, self.same(f, R, name, idx, RAW, '-')[0], 'life', 'an item survives the destructor')
                self.O.locals_dead(f)

    def ctor(self):
        self.start()
        j = new('j', 0, self.N - 1)
        R = self.region('b')
        st = State()
        self.put(st, R, 'j', j, RAW, '-')
        st.regs['a0'] = Ptr(R, ZERO)
        for f in self.run('h_ctor', [st]):
            self.final(f, R, None, ZERO, {'j': (j, RAW, '-')}, None, None, 'construction')

    def copies(self):
        N = self.N
        # copy construction
        self.start()
        t0, j = new('ssize', 0, N), new('j', 0, N - 1)
        S = self.region('src', const=True)
        R = self.region('b')
        for st, slots in self.initial(S, State(), t0, j, 's'):
            self.setsize(st, S, t0)
            for n, (i, l, t) in slots.items():
                self.put(st, R, n, i, RAW, '-')
            st.regs['a0'], st.regs['a1'] = Ptr(R, ZERO), Ptr(S, ZERO)
            for f in self.run('h_copy', [st]):
                self.final(f, R, None, t0, slots, None, None, 'copy construction')
                self.untouched(f, S, t0, slots, 'copy construction')
        # assignment
        self.start()
        t0, j, s0 = new('ssize', 0, N), new('j', 0, N - 1), new('size', 0, N)
        S = self.region('src', const=True)
        R = self.region('b')
        for st, slots in self.initial(S, State(), t0, j, 's'):
            self.setsize(st, S, t0)
            self.setsize(st, R, s0)
            acc = [st]
            for n, (i, l, t) in slots.items():
                nx = []
                for s in acc:
                    for life, x in self.cases(s, [(LIVE, [lt(i, s0)]), (RAW, [le(s0, i)])]):
                        self.put(x, R, n, i, life, 'old' + n if life == LIVE else '-')
                        nx.append(x)
                acc = nx
            for s in acc:
                s.regs['a0'], s.regs['a1'] = Ptr(R, ZERO), Ptr(S, ZERO)
                for f in self.run('h_assign', [s]):
                    self.final(f, R, None, t0, slots, None, None, 'assignment')
                    self.untouched(f, S, t0, slots, 'assignment')
        # self assignment
        self.start()
        s0, j = new('size', 0, N), new('j', 0, N - 1)
        R = self.region('b')
        for st, slots in self.initial(R, State(), s0, j):
            self.setsize(st, R, s0)
            st.regs['a0'], st.regs['a1'] = Ptr(R, ZERO), Ptr(R, ZERO)
            for f in self.run('h_assign', [st]):
                self.final(f, R, None, s0, slots, None, None, 'self-assignment')

    def untouched(self, f, S, t0, slots, op):
        v = self.size_of(f, S)
        self.expect(f, v is not None and self.eq(f, v, t0), 'content', '%s changes the size of its source' % op)
        for n, (i, l, t) in slots.items():
            a, b = self.same(f, S, n, i, l, t)
            self.expect(f, a and b, 'content', '%s changes its source' % op)

    def accessors(self):
        N, E, D = self.N, self.esz, self.data_off
        self.start()
        s0 = new('size', 0, N)
        R = self.region('b', const=True)

        def one(fn, what, rows=(), arg=None):
            st = State()
            self.setsize(st, R, s0)
            st.regs['a0'] = Ptr(R, ZERO)
            if arg is not None:
                st.regs['a1'] = Int(64, arg)
            st = self.I.assume_rows(st, list(rows))
            for f in self.run(fn, [st]):
                v = self.size_of(f, R)
                self.expect(f, self.eq(f, v, s0), 'size', '%s changes the size' % fn)
                if isinstance(what, tuple):
                    self.expect(f, self.ptr_is(f, f.ret, R, what[1]), 'accessor', '%s returns %r' % (fn[2:], f.ret))
                else:
                    self.expect(f, self.eq(f, f.ret, what), 'accessor', '%s returns %r' % (fn[2:], f.ret))
        one('h_room', Lin(N) - s0)
        st = State()
        for f in self.run('h_capacity', [st]):
            self.expect(f, self.eq(f, f.ret, Lin(N)), 'accessor', 'capacity() returns %r' % f.ret)
        for p in ('h_', 'h_c'):
            one(p + 'begin', ('p', Lin(D)))
            one(p + 'end', ('p', s0 * E + D))
            one(p + 'span_begin', ('p', Lin(D)))
            one(p + 'span_end', ('p', s0 * E + D))
            one(p + 'back', ('p', s0 * E + D - E), [lt(ZERO, s0)])
            i = new('i', 0, N - 1)
            one(p + 'index', ('p', i * E + D), [lt(i, s0)], i)


def run_bulk(c, rules):
    c.only = rules
    for N in SIZES[c.tier if c.tier in SIZES else 'quick']:
        for elem in (0, 1, 2, 3):
            b = Bulk(c, N, elem)
            b.all()
            c.absorb(b.I)
    if c.tier != 'thorough':
        # a large capacity, without the operations on two objects
        b = Bulk(c, 300, 0)
        b.light = True
        b.all()
        c.absorb(b.I)


TECH = 'abstract interpretation of the LLVM IR of every bulk operation: relational integer domain (libisl), trace partitioning, %s; deterministic loop fixpoints'


@check('C01', TECH % 'size/bounds/result obligations at every return')
def c01(c):
    run_bulk(c, ('bounds', 'null', 'result', 'size', 'accessor', 'assert', 'termination', 'div-zero', 'shift'))


@check('C02', TECH % 'life-cycle typestate (raw/live) of every item slot and local object')
def c02(c):
    run_bulk(c, ('life',))


@check('C03', TECH % 'content tokens of item slots')
def c03(c):
    run_bulk(c, ('content', 'const-write'))
