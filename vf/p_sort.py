"""C08 sorting permutes, C07 priority queue conserves its items."""
from .unit import *
from .obj import RAW, LIVE
from .places import Places, M
from .core import check

TECH = 'abstract interpretation of LLVM IR: marked-item position sets over a relational domain; '


def reach(m):
    """call graph reachability between defined functions"""
    g = {}
    for n, f in m.funcs.items():
        if f.is_decl:
            continue
        g[n] = {i.callee.name for b in f.blocks for i in b.insts if i.op == 'call' and i.callee.k == 'func'}
    def go(a):
        seen, st = set(), list(g.get(a, ()))
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(g.get(x, ()))
        return seen
    return {n: go(n) for n in g}


class Sort(Unit):
    def __init__(self, ctx, elem, N):
        super().__init__('sort.cpp', ['-DVF_ELEM=%d' % elem, '-DVF_N=%d' % N], ['struct.E'], ctx)
        self.N = N
        self.esz, = self.layout()
        self.P = Places(self)
        self.reach = reach(self.m)
        self.I.handlers.append((self.recursive, self.contract))
        self.todo = []

    def recursive(self, name):
        f = self.m.funcs.get(name)
        return bool(f is not None and not f.is_decl)

    def contract(self, I, st, i, a):
        """a call of a recursive function: it permutes [a, b), proved separately for that function"""
        name = i.callee.name
        R, seg = self.P.A
        if len(a) < 2 or not isinstance(a[0], Ptr) or a[0].r is not R:
            raise Unsupported('recursive call of %s with unexpected arguments' % name)
        lo = a[0].o.div(self.esz)
        if isinstance(a[1], Ptr) and a[1].r is R:
            hi = a[1].o.div(self.esz)
        elif isinstance(a[1], Int):
            hi = lo + I.norm(st, a[1]) if lo is not None else None
        else:
            hi = None
        if lo is None or hi is None:
            raise Unsupported('recursive call of %s on an unaligned range' % name)
        if name not in self.todo:
            self.todo.append(name)
        inside = st.cons.entails(False, lo) and st.cons.entails(False, self.n - hi)
        I.oblige(st, inside, 'bounds', 'the recursive call leaves the range being sorted', i)
        order = st.cons.entails(False, hi - lo)
        I.oblige(st, order, 'bounds', 'the recursive call gets a reversed range', i)
        if not (inside and order):
            raise Infeasible()
        if I.entry in self.reach.get(name, ()):
            I.oblige(st, st.cons.entails(False, self.n - (hi - lo) - 1), 'termination', 'the recursive call is not on a strictly smaller range', i)
        xs = []
        for x in self.P.at(st):
            if I.want(st, Cond('and', Cond('row', False, x - lo), Cond('row', False, hi - x - 1))):
                if any(y is not None for y in xs if y is not None and y[1]):
                    raise Unsupported('two copies of one item in a recursive call')
                y = new('moved', None, None)
                st.row(False, y - lo)
                st.row(False, hi - y - 1)
                xs.append((y, True))
            else:
                xs.append((x, False))
        self.P.set(st, [x for x, _ in xs])
        return None

    def start(self, least=0):
        n = self.n = new('n', least, 1 << 56)
        A = Region('range', self.gty('vf_e'), self.I.opaque, count=n)
        self.P.bind(A, A.segs[0])
        st = State()
        m = new('m', 0, None)
        st.row(*lt(m, n))
        self.P.set(st, [m])
        return st, A, m

    def permuted(self, fn, f):
        for g, k in self.P.count(f, ZERO, self.n):
            self.expect(g, k == 1, 'permutation', 'an item is %s by %s' % ('lost' if k == 0 else 'duplicated', fn.replace('h_', '')))
        self.P.locals_dead(f)

    def all(self, fn):
        if fn != 'h_median':
            self.one(fn, 1 if fn == 'h_partition' else 0)
        else:
            self.median()
        done = set()
        while len(done) < len(self.todo):
            fn = next(x for x in self.todo if x not in done)
            done.add(fn)
            self.one(fn, 0)
        self.done()

    def median(self):
        # three elements, any aliasing
        st, A, m = self.start(1)
        idx = [new('abc'[k], 0, None) for k in range(3)]
        for k, x in enumerate(idx):
            st.row(*lt(x, self.n))
            st.regs['a%d' % k] = Ptr(A, x * self.esz)
        for f in self.run('h_median', [st]):
            self.permuted('h_median', f)

    def one(self, fn, least):
        st, A, m = self.start(least)
        F = self.m.funcs[fn]
        st.regs['a0'] = Ptr(A, ZERO)
        for k, a in enumerate(F.args[1:], 1):
            if a.ty.kind == 'ptr' and k == 1:
                st.regs['a1'] = Ptr(A, self.n * self.esz)
            elif a.ty.kind == 'int' and k == 1:
                st.regs['a1'] = Int(a.ty.width, self.n)
            elif a.ty.kind == 'int':
                st.regs['a%d' % k] = Int(a.ty.width, new('arg%d' % k, 0, (1 << a.ty.width) - 1))
            else:
                raise Unsupported('argument %d of %s' % (k, fn))
        for f in self.run(fn, [st]):
            self.permuted(fn, f)
            if fn == 'h_partition':
                ok = isinstance(f.ret, Ptr) and f.ret.r is A and f.cons.entails(False, f.ret.o) and \
                    f.cons.entails(False, self.n * self.esz - f.ret.o - self.esz)
                self.expect(f, ok, 'result', 'partition returns a position outside the range')


@check('C08', TECH + 'recursive calls by verified contract',
       note='Element types: opaque class with arbitrary operator< outcomes, and int; thresholds 128, 2 and 1 (more with the thorough command); ranges of any length below 2^56.')
def c08(c):
    def one(c, elem, N, fn):
        u = Sort(c, elem, N)
        u.all(fn)
        c.absorb(u.I)
    c.par([(one, elem, N, fn) for elem in (0, 1) for N in ([128, 2] if not c.thorough else [128, 1, 2, 3, 16])
           for fn in ('h_intro', 'h_intro3', 'h_insertion', 'h_partition', 'h_median') if N == 128 or fn.startswith('h_intro')])


# ---------------------------------------------------------------- C07
class Heap(Unit):
    def __init__(self, ctx, elem, N):
        super().__init__('heap.cpp', ['-DVF_ELEM=%d' % elem, '-DVF_N=%d' % N], ['struct.E'], ctx)
        self.N, self.elem = N, elem
        self.so, self.do, self.esz, n = self.layout()
        if n != N:
            raise AnalysisError('capacity')
        self.P = Places(self)

    def start(self, size):
        R = self.R = Region('queue', self.gty('vf_q'), self.I.opaque)
        seg = R.seg_at(self.do)
        self.P.bind(R, seg)
        st = State()
        Arr(self, R, self.so).put(st, 0, size)
        st.regs['a0'] = Ptr(R, ZERO)
        return st

    def sizeis(self, f, e, what):
        self.expect(f, Arr(self, self.R, self.so).is_(f, 0, e), 'size', 'the size after %s is wrong' % what)

    def one(self, f, size, want, what):
        for g, k in self.P.count(f, ZERO, size):
            self.expect(g, k == want, 'items', '%s: an item is %s' % (what, 'lost' if k < want else 'duplicated' if want else 'kept'))

    def item(self, tok):
        """an argument object holding tok"""
        X = Region('item', self.gty('vf_e'), self.I.opaque, const=True)
        return X

    def enqueue(self):
        for who in ('item', 'old'):
            size = new('size', 0, self.N)
            st = self.start(size)
            m = new('m', 0, self.N)
            if who == 'old':
                st.row(*lt(m, size))
                self.P.set(st, [m])
            if self.elem == 1:
                st.regs['a1'] = M if who == 'item' else Term('tok', 'o', 'x')
            else:
                X = self.item('')
                st.regs['a1'] = Ptr(X, ZERO)
                self.P.track(st, X, X.segs[0], 'x', ZERO, LIVE, 'M' if who == 'item' else 'o')
            for tag, s in self.cases(st, [('room', [lt(size, Lin(self.N))]), ('full', [le(Lin(self.N), size)])]):
                for f in self.run('h_enqueue', [s]):
                    self.expect(f, self.eqb(f, f.ret, tag == 'room'), 'result', 'enqueue must report %s here' % ('success' if tag == 'room' else 'failure'))
                    self.sizeis(f, size + 1 if tag == 'room' else size, 'enqueue')
                    if tag == 'room':
                        self.one(f, size + 1, 1, 'enqueue')
                    else:
                        xs = self.P.at(f)
                        ok = xs == [] if who == 'item' else len(xs) == 1 and f.cons.entails(True, xs[0] - m)
                        self.expect(f, ok, 'items', 'a refused enqueue changes the queue')
                    self.P.locals_dead(f)

    def result(self, st):
        if self.elem != 1:
            X = self.X = Region('result', self.gty('vf_e'), self.I.opaque)
            st.regs['a1'] = Ptr(X, ZERO)
            self.P.track(st, X, X.segs[0], 'x', ZERO, RAW, '-')

    def ret(self, f):
        if self.elem == 1:
            return 'M' if f.ret == M else 'o' if isinstance(f.ret, Term) and f.ret.k[:2] == ('tok', 'o') else '?'
        return self.P.state(f, self.X, self.X.segs[0], 'x')[1]

    def dequeue(self):
        for who in ('head', 'other') if self.N > 1 else ('head',):
            for fn in ('h_dequeue', 'h_head'):
                size = new('size', 1, self.N)
                st = self.start(size)
                m = ZERO
                if who == 'other':
                    m = new('m', 1, self.N)
                    st.row(*lt(m, size))
                self.P.set(st, [m])
                self.result(st)
                for f in self.run(fn, [st]):
                    self.expect(f, self.ret(f) == ('M' if who == 'head' else 'o'), 'result', '%s does not return the first item' % fn[2:])
                    if fn == 'h_head':
                        xs = self.P.at(f)
                        self.sizeis(f, size, 'head')
                        self.expect(f, len(xs) == 1 and f.cons.entails(True, xs[0] - m), 'items', 'head() changes the queue')
                    else:
                        self.sizeis(f, size - 1, 'dequeue')
                        self.one(f, size - 1, 1 if who == 'other' else 0, 'dequeue')
                    self.P.locals_dead(f)
        size = new('size', 0, self.N)
        st = self.start(size)
        for tag, s in self.cases(st, [(True, [eqr(size, ZERO)]), (False, [lt(ZERO, size)])]):
            for f in self.run('h_empty', [s]):
                self.expect(f, self.eqb(f, f.ret, tag), 'result', 'empty() is wrong')
                self.sizeis(f, size, 'empty')

    def all(self):
        self.enqueue()
        self.dequeue()
        self.done()


@check('C07', TECH + 'loop invariants and ranking',
       note='Capacities 1, 7 (more with the thorough command); item types: opaque class with arbitrary operator< outcomes, and int. dequeue and head are analysed for non-empty queues.')
def c07(c):
    for elem in (0, 1):
        for N in ([1, 7, 100] if not c.thorough else [1, 2, 3, 7, 100, 1000]):
            u = Heap(c, elem, N)
            u.all()
            c.absorb(u.I)
