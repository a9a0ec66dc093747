"""C06: dictionary find/bind from an arbitrary well-formed state, with a generic key."""
from .unit import *
from .obj import Objects, RAW, LIVE
from .core import check


class Dict(Unit):
    def __init__(self, ctx, N):
        super().__init__('dict.cpp', ['-DVF_N=%d' % N], ['struct.E'], ctx)
        self.N = N
        L = self.layout()
        self.soff, self.doff, self.hoff, self.noff, self.esz = L[1:6]
        self.O = Objects(self.I, 'E')
        self.I.raw_obj_hook = self.O.raw

    def start(self, bound):
        """list of states; bound: the key n is the name of the generic slot j, else of no slot"""
        self.O.tracked.clear()
        R = self.R = Region('dict', self.ty('struct.ce::dictionary'), self.I.opaque)
        self.names, self.size, self.heap = Arr(self, R, self.noff), Arr(self, R, self.soff), Arr(self, R, self.hoff)
        self.dseg = R.seg_at(self.doff)
        n, s0 = self.n, self.s0 = new('key', 0, U64), new('size', 0, self.N)
        self.j = j = new('j', 0, self.N - 1)
        st = State()
        self.vj = n if bound else self.names.sym('names[j]')
        if bound:
            st.row(*lt(j, s0))
            st.row(*lt(ZERO, j))
        R.init = self.name_init
        self.size.put(st, 0, s0)
        self.heap.put(st, 0, ZERO)
        self.names.put(st, j, self.vj)
        self.O.track(st, R, self.dseg, 'dj', j, LIVE, 'J')
        st.regs['a0'], st.regs['a1'] = Ptr(R, ZERO), Int(64, n)
        out = []
        for rows in ([eqr(s0, ZERO)], [lt(Lin(1), s0)]):     # sizes 0 and 2..N
            x = self.I.assume_rows(st, rows)
            if x is None:
                continue
            if bound:
                out.append(x)
                continue
            # unbound: a bound slot j has another name
            for r2 in ([le(s0, j)], [eqr(j, ZERO)], [lt(j, s0), lt(ZERO, j), lt(self.vj, n)], [lt(j, s0), lt(ZERO, j), lt(n, self.vj)]):
                y = self.I.assume_rows(x, r2)
                if y is not None:
                    out.append(y)
        return out

    def name_init(self, I, st, r, seg, idx, f):
        """names of bound slots other than the key's own slot differ from the key; unbound slots hold anything"""
        if seg.base != self.noff:
            return None
        k = ('name', idx)
        v = st.divs.get(k)
        if v is None:
            v = st.divs[k] = self.names.sym('name')
            raise Split([[('row',) + le(self.s0, idx)], [('row',) + lt(idx, Lin(1))],
                         [('row',) + lt(idx, self.s0), ('row',) + lt(ZERO, idx), ('row',) + lt(v, self.n)],
                         [('row',) + lt(idx, self.s0), ('row',) + lt(ZERO, idx), ('row',) + lt(self.n, v)]])
        return Int(64, v)

    def cs(self, st, rows):
        n = self.I.assume_rows(st, rows)
        return [n] if n is not None else []

    def frame(self, f, op, slot=None, tok=None):
        """names, values and size after an operation; slot: the one (re)bound, or None"""
        N = self.N
        j, s0 = self.j, self.s0
        self.expect(f, self.heap.is_(f, 0, ZERO), 'frame', '%s changes the dictionary header' % op)
        rest = [f]
        if slot is not None:
            rest = self.cs(f, [lt(j, slot)]) + self.cs(f, [lt(slot, j)])
            for y in self.cs(f, [eqr(j, slot)]):
                self.expect(y, self.names.is_(y, j, self.n), 'bind', '%s does not record the name' % op)
                o = self.O.state(y, self.R, self.dseg, 'dj')
                self.expect(y, o == (LIVE, tok), 'value', '%s leaves the slot %s holding %r' % (op, o[0], o[1]))
        for y in rest:
            o = self.O.state(y, self.R, self.dseg, 'dj')
            self.expect(y, o == (LIVE, 'J'), 'frame', '%s disturbs the value of another slot' % op)
            self.expect(y, self.names.is_(y, j, self.vj), 'frame', '%s disturbs the name of another slot' % op)
        self.O.locals_dead(f)

    def all(self):
        N = Lin(self.N)
        for bound in (True, False):
            if bound and self.N < 2:
                continue
            for s in self.start(bound):
                for f in self.run('h_find', [s]):
                    self.expect(f, self.eq(f, f.ret, self.j if bound else ZERO), 'find',
                                'find %s' % ('misses a bound name' if bound else 'returns a slot for an unbound name'))
                    self.expect(f, self.size.is_(f, 0, self.s0), 'size', 'find changes the size')
                    self.frame(f, 'find')
            for fn in ('h_bind0', 'h_bind1'):
                for s in self.start(bound):
                    tok = 'new'
                    if fn == 'h_bind1':
                        X = Region('item', self.ty('struct.E'), self.I.opaque, const=True)
                        self.O.tracked.pop(('item', X.segs[0].name), None)
                        self.O.track(s, X, X.segs[0], 'x', ZERO, LIVE, 'X')
                        s.regs['a2'] = Ptr(X, ZERO)
                        tok = 'X'
                    for f in self.run(fn, [s]):
                        if bound:
                            self.expect(f, self.eq(f, f.ret, self.j), 'bind', 'bind of a bound name must reuse its slot')
                            self.expect(f, self.size.is_(f, 0, self.s0), 'size', 'bind of a bound name changes the size')
                            self.frame(f, 'bind', self.j, tok)
                            continue
                        for cond, slot in (([eqr(self.s0, ZERO), lt(Lin(1), N)], Lin(1)), ([lt(ZERO, self.s0), lt(self.s0, N)], self.s0)):
                            for y in self.cs(f, cond):
                                self.expect(y, self.eq(y, y.ret, slot), 'bind', 'bind of a new name must take the next free slot')
                                self.expect(y, self.size.is_(y, 0, slot + 1), 'size', 'bind leaves a wrong size')
                                self.frame(y, 'bind', slot, tok)
                        for cond in ([le(N, self.s0)], [eqr(self.s0, ZERO), le(N, Lin(1))]):
                            for y in self.cs(f, cond):
                                self.expect(y, self.eq(y, y.ret, ZERO), 'bind', 'bind must fail when every slot is taken')
                                self.expect(y, self.size.is_(y, 0, self.s0), 'size', 'a failed bind changes the size')
                                self.frame(y, 'failed bind')
        for s in self.start(False):
            for f in self.run('h_optimize', [s]):
                self.expect(f, self.size.is_(f, 0, self.s0), 'size', 'optimize changes the size')
                self.frame(f, 'optimize')
        if self.N > 1:
            for fn in ('h_at_ptr', 'h_cat_ptr', 'h_at_name', 'h_cat_name'):
                for s in self.start(True):
                    if fn.endswith('ptr'):
                        s.regs['a1'] = Int(32, self.j)
                    for f in self.run(fn, [s]):
                        self.expect(f, self.ptr_is(f, f.ret, self.R, self.j * self.esz + self.doff), 'find', 'operator[] names the wrong slot')
                        self.frame(f, 'operator[]')
        self.done()


@check('C06', 'abstract interpretation of find/bind/operator[] with a generic key and slot (relational loop invariants, life-cycle typestate)',
       note='64-bit integer keys, capacities 1, 2 and 8 (more with the thorough command); well-formed states: distinct bound names, heap prefix empty.')
def c06(c):
    for N in ([1, 2, 8] if not c.thorough else [1, 2, 3, 8, 64, 1000]):
        d = Dict(c, N)
        d.all()
        c.absorb(d.I)
