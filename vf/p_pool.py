"""C04 / C05: pool index allocation and queues, one operation from an arbitrary well-formed state."""
from .unit import *
from .obj import Objects, RAW, LIVE
from .core import check

CONF = {'quick': [(9, 'ce::uint16_t'), (256, 'ce::uint8_t'), (2, 'ce::uint16_t')],
        'thorough': [(9, 'ce::uint16_t'), (256, 'ce::uint8_t'), (2, 'ce::uint16_t'), (65536, 'ce::uint16_t'), (100000, 'ce::uint32_t'), (3, 'ce::uint8_t')]}


class Pool(Unit):
    def __init__(self, ctx, N, it):
        super().__init__('pool.cpp', ['-DVF_N=%d' % N, '-DVF_I=%s' % it], ['struct.E'], ctx)
        self.N = N
        L = self.layout()
        self.noff, self.soff, self.doff, self.esz, self.isz = L[1:6]
        self.O = Objects(self.I, 'E')
        self.I.raw_obj_hook = self.O.raw

    def start(self):
        self.O.tracked.clear()
        R = Region('pool', self.ty('struct.ce::pool'), self.I.opaque)
        self.R = R
        self.next, self.size = Arr(self, R, self.noff), Arr(self, R, self.soff)
        self.dseg = R.seg_at(self.doff)
        self.s0 = new('size', 0, self.N - 1)
        self.h = new('free', 0, self.N - 1)
        st = State()
        st.row(*le(self.h, self.s0))
        self.size.put(st, 0, self.s0)
        self.next.put(st, 0, self.h)
        # a generic link that must be preserved unless the operation says otherwise
        self.j = new('j', 1, self.N - 1) if self.N > 1 else None
        self.vj = self.next.sym('next[j]', 0, self.N - 1)
        self.next.put(st, self.j, self.vj)
        st.regs['a0'] = Ptr(R, ZERO)
        self.O.track(st, R, self.dseg, 'dj', self.j, LIVE, 'J')
        return st

    def with_free(self, st):
        """split on the free list being empty; returns (state, link of the free head)"""
        out = []
        for s in self.cs(st, [eqr(self.h, ZERO)]):
            out.append((s, None))
        for s in self.cs(st, [lt(ZERO, self.h)]):
            vh = self.next.sym('next[free]', 0, self.N - 1)
            for x in self.next.seed([s], self.h, vh):
                # aliases of j carry j's value
                for y, v in self.next.get(x, self.h):
                    out.append((y, self.I.norm(y, v)))
        return out

    def cs(self, st, rows):
        n = self.I.assume_rows(st, rows)
        return [n] if n is not None else []

    def frame(self, f, op, links, size, tok=None):
        """links: [(index, value)] expected; every other link is unchanged.  tok: {index: token} for items"""
        for idx, v in links:
            self.expect(f, self.next.is_(f, idx, v), 'links', '%s leaves a wrong link at index %r' % (op, idx))
        self.expect(f, self.size.is_(f, 0, size), 'size', '%s leaves a wrong high-water mark' % op)
        # generic link j
        work = [f]
        for idx, _ in links:
            nx = []
            for s in work:
                nx += self.cs(s, [lt(self.j, idx)]) + self.cs(s, [lt(idx, self.j)])
            work = nx
        for s in work:
            self.expect(s, self.next.is_(s, self.j, self.vj), 'frame', '%s changes a link it must not touch' % op)
        work = [f]
        for idx, t in (tok or {}).items():
            nx = []
            for s in work:
                for y in self.cs(s, [eqr(self.j, idx)]):
                    self.expect(y, self.O.state(y, self.R, self.dseg, 'dj') == (LIVE, t), 'content', '%s does not store the item' % op)
                nx += self.cs(s, [lt(self.j, idx)]) + self.cs(s, [lt(idx, self.j)])
            work = nx
        for s in work:
            self.expect(s, self.O.state(s, self.R, self.dseg, 'dj') == (LIVE, 'J'), 'frame', '%s changes an item it must not touch' % op)

    # ---- C04
    def indices(self):
        N = self.N
        st = self.start()
        for f in self.run('h_reset', [st]):
            self.expect(f, self.size.is_(f, 0, ZERO) and self.next.is_(f, 0, ZERO), 'links', 'reset leaves indices unavailable')
            self.frame(f, 'reset', [(ZERO, ZERO)], ZERO)
        st = self.start()
        for s, vh in self.with_free(st):
            for f in self.run('h_alloc', [s]):
                self.alloc_post(f, vh, 'alloc_index')
        # free of an allocated index
        st = self.start()
        n = new('node', 0, N - 1)
        st.regs['a1'] = Int(8 * self.isz, n)
        for s in self.cs(st, [le(n, self.s0), lt(ZERO, n)]):
            for f in self.run('h_free', [s]):
                self.frame(f, 'free_index', [(ZERO, n), (n, self.h)], self.s0)
        for s in self.cs(st, [eqr(n, ZERO)]):
            for f in self.run('h_free', [s]):
                self.frame(f, 'free_index(nil)', [(ZERO, self.h)], self.s0)
        for f in self.run('h_capacity', [State()]):
            self.expect(f, self.eq(f, f.ret, Lin(N)), 'result', 'capacity() is %r' % f.ret)
        self.done()

    def alloc_post(self, f, vh, op):
        N, s0 = self.N, self.s0
        if vh is not None:
            self.expect(f, self.eq(f, f.ret, self.h), 'result', '%s must return the most recently freed index' % op)
            self.frame(f, op, [(ZERO, vh)], s0)
            return
        for s in self.cs(f, [lt(s0, Lin(N - 1))]):
            self.expect(s, self.eq(s, s.ret, s0 + 1), 'result', '%s must return the next never-used index' % op)
            self.frame(s, op, [(ZERO, ZERO)], s0 + 1)
        for s in self.cs(f, [eqr(s0, Lin(N - 1))]):
            self.expect(s, self.eq(s, s.ret, ZERO), 'result', '%s must report exhaustion' % op)
            self.frame(s, op, [(ZERO, ZERO)], s0)

    # ---- C05
    def queue(self, st, empty):
        """a queue region in a well-formed state: list of (state, tail, head)"""
        Qr = Region('queue', self.gty('vf_q'), self.I.opaque)
        self.Q = Qr
        self.qt = Arr(self, Qr, 0)
        st.regs['a1'] = Ptr(Qr, ZERO)
        if empty:
            self.qt.put(st, 0, ZERO)
            return [(st, None, None)]
        t = new('tail', 1, self.N - 1)
        hd = new('head', 1, self.N - 1)
        self.qt.put(st, 0, t)
        out = []
        # queue nodes are in use: at most the high-water mark, not on the free list
        base = self.cs(st, [le(t, self.s0), le(hd, self.s0)])
        nx = []
        for s in base:
            for a in self.ne(s, t, self.h):
                nx += self.ne(a, hd, self.h)
        for s in nx:
            # single node or several
            for y in self.cs(s, [eqr(t, hd)]):
                out += self.link(y, t, hd, True)
            for y in self.ne(s, t, hd):
                out += self.link(y, t, hd, False)
        return out

    def link(self, s, t, hd, single):
        out = []
        for y in self.next.seed([s], t, hd):
            for z, v in self.next.get(y, t):
                for z2 in self.cs(z, [(True, self.I.norm(z, v) - hd)]):
                    if single:
                        out.append((z2, t, hd))
                        continue
                    v2 = self.next.sym('next[head]', 1, self.N - 1)
                    for w in self.next.seed([z2], hd, v2):
                        out.append((w, t, hd))
        return out

    def ne(self, s, a, b):
        return self.cs(s, [lt(a, b)]) + self.cs(s, [lt(b, a)])

    def linkval(self, s, idx):
        r = self.next.get(s, idx)
        if len(r) != 1:
            raise AnalysisError('ambiguous link')
        return self.I.norm(r[0][0], r[0][1])

    def queues(self):
        N = self.N
        # reset / construction / empty
        for fn in ('h_qreset', 'h_qctor'):
            st = self.start()
            q = self.queue(st, True)[0][0]
            q.cells[(self.Q, self.qt.seg.name, 0)] = ((ZERO, Int(8 * self.isz, self.qt.sym('old tail'))),)
            q.regs['a0'] = Ptr(self.Q, ZERO)
            for f in self.run(fn, [q]):
                self.expect(f, self.qt.is_(f, 0, ZERO), 'queue', 'a new queue is not empty')
        # observers
        for empty in (True, False):
            st = self.start()
            for s, t, hd in self.queue(st, empty):
                for f in self.run('h_empty', [s.fork()]):
                    self.expect(f, self.eqb(f, f.ret, empty), 'result', 'is_empty is wrong')
                    self.frame(f, 'is_empty', [(ZERO, self.h)], self.s0)
                if empty:
                    continue
                for fn, i in (('h_head', hd), ('h_tail', t)):
                    for f in self.run(fn, [s.fork()]):
                        self.expect(f, self.ptr_is(f, f.ret, self.R, i * self.esz + self.doff), 'result', '%s() names the wrong item' % fn[2:])
                        self.frame(f, fn[2:], [(ZERO, self.h)], self.s0)
                        self.expect(f, self.qt.is_(f, 0, t), 'queue', '%s changes the queue' % fn[2:])
        # remove_head
        st = self.start()
        for s, t, hd in self.queue(st, True):
            for f in self.run('h_remove_head', [s]):
                self.expect(f, self.eqb(f, f.ret, False), 'result', 'remove_head of an empty queue must fail')
                self.expect(f, self.qt.is_(f, 0, ZERO), 'queue', 'remove_head changes an empty queue')
                self.frame(f, 'remove_head(empty)', [(ZERO, self.h)], self.s0)
        st = self.start()
        for s, t, hd in self.queue(st, False):
            second = self.linkval(s, hd)
            for f in self.run('h_remove_head', [s]):
                self.expect(f, self.eqb(f, f.ret, True), 'result', 'remove_head must succeed')
                for y in self.cs(f, [eqr(t, hd)]):
                    self.expect(y, self.qt.is_(y, 0, ZERO), 'queue', 'the queue is not empty after its only item was removed')
                    self.frame(y, 'remove_head', [(ZERO, hd), (hd, self.h)], self.s0)
                for y in self.ne(f, t, hd):
                    self.expect(y, self.qt.is_(y, 0, t), 'queue', 'remove_head changes the tail')
                    self.frame(y, 'remove_head', [(ZERO, hd), (hd, self.h), (t, second)], self.s0)
        # inserts
        for fn, op in (('h_insert_head', 'insert_head'), ('h_append_tail', 'append_tail')):
            for src in ('other', 'own'):
                for empty in (True, False):
                    st = self.start()
                    for s, t, hd in self.queue(st, empty):
                        for s2, vh in self.with_free(s):
                            for s3, tok in self.item(s2, src):
                                for f in self.run(fn, [s3]):
                                    self.insert_post(f, op, empty, t, hd, vh, tok)
        self.done()

    def item(self, s, src):
        if src == 'other':
            X = Region('item', self.ty('struct.E'), self.I.opaque, const=True)
            self.O.tracked.pop(('item', X.segs[0].name), None)
            self.O.track(s, X, X.segs[0], 'x', ZERO, LIVE, 'X')
            s.regs['a2'] = Ptr(X, ZERO)
            return [(s, 'X')]
        # an item of the same pool that is in use
        out = []
        for y in self.cs(s, [le(self.j, self.s0)]):
            for z in self.ne(y, self.j, self.h):
                z.regs['a2'] = Ptr(self.R, self.j * self.esz + self.doff)
                out.append((z, 'J'))
        return out

    def insert_post(self, f, op, empty, t, hd, vh, tok):
        N, s0 = self.N, self.s0
        if vh is not None:
            cases = [(f, self.h, vh, s0)]
        else:
            cases = [(y, s0 + 1, ZERO, s0 + 1) for y in self.cs(f, [lt(s0, Lin(N - 1))])]
            for y in self.cs(f, [eqr(s0, Lin(N - 1))]):
                self.expect(y, self.eqb(y, y.ret, False), 'result', '%s must fail when the pool is exhausted' % op)
                self.expect(y, self.qt.is_(y, 0, ZERO if empty else t), 'queue', 'a failed %s changes the queue' % op)
                self.frame(y, 'failed ' + op, [(ZERO, ZERO)], s0)
        for y, node, fr, sz in cases:
            self.expect(y, self.eqb(y, y.ret, True), 'result', '%s must succeed' % op)
            if empty:
                self.expect(y, self.qt.is_(y, 0, node), 'queue', '%s into an empty queue does not set the tail' % op)
                self.frame(y, op, [(ZERO, fr), (node, node)], sz, {node: tok})
            else:
                self.expect(y, self.qt.is_(y, 0, node if op == 'append_tail' else t), 'queue', '%s leaves the wrong tail' % op)
                self.frame(y, op, [(ZERO, fr), (node, hd), (t, node)], sz, {node: tok})


TECH = 'abstract interpretation of LLVM IR from an arbitrary well-formed state (relational domain, alias case splits, generic frame cell)'


def run_pool(c, what):
    for N, it in CONF[c.tier if c.tier in CONF else 'quick']:
        p = Pool(c, N, it)
        getattr(p, what)()
        c.absorb(p.I)


@check('C04', TECH, note='Checked per operation against the link representation (free list through next[0], high-water mark in size) for three capacities and index types; '
       'the history statement follows because every operation preserves well-formedness (free nodes distinct, in use nodes disjoint from the free list).')
def c04(c):
    run_pool(c, 'indices')


@check('C05', TECH, note='Preconditions: the queue and free list are well formed and disjoint (established by the operations themselves from reset).')
def c05(c):
    run_pool(c, 'queues')
