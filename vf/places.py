"""Where is the marked item?  Array contents abstracted to the set of positions that hold one arbitrary marked
initial item M (every other content is 'o').  One M that ends up in exactly one place, for an arbitrary M, means
the array is a permutation of its input."""
from .ai import Unsupported, Ptr, Int, Term, Split, Cond, Infeasible
from .dom import Lin, new, fresh, ZERO
from .obj import Objects, RAW, LIVE

M = Term('tok', 'M')


class Places(Objects):
    def __init__(self, unit, cls='E'):
        super().__init__(unit.I, cls)
        self.U = unit
        self.A = None            # (region, segment)
        I = unit.I
        I.raw_obj_hook = self.raw
        I.hooks['load'] = self.load
        I.hooks['store'] = self.store_
        I.hooks['prepare'] = self.prepare
        I.partition_extra = self.signs
        I.hooks['must_dirs'] = self.must
        c = '%d%s' % (len(cls), cls)
        I.handlers.append((lambda f: f == '_ZNK%sltERKS_' % c, self.less))

    def bind(self, region, seg):
        self.A = (region, seg)
        self.tracked.clear()
        self.idx_bytes = seg.stride

    # ---- the set of positions
    def at(self, st):
        out = []
        n = 0
        while ('M', n) in st.gn:
            out.append(st.gn[('M', n)])
            n += 1
        return out

    def set(self, st, xs):
        for k in list(st.gn):
            if k[0] == 'M':
                del st.gn[k]
        for n, x in enumerate(xs):
            st.gn[('M', n)] = x

    def holds(self, st, idx):
        for x in self.at(st):
            if self.I.eq_idx(st, x, idx):
                return True
        return False

    def put(self, st, idx, tok):
        xs = [x for x in self.at(st) if not self.I.eq_idx(st, x, idx)]
        if tok == 'M':
            xs.append(idx)
        self.set(st, xs)

    # ---- element of class type
    def mine(self, r, s):
        return self.A and r is self.A[0] and s.name == self.A[1].name

    def find(self, st, p, inst, what):
        s, idx, f = self.I.locate(st, p, self.size(p), what, inst)
        if self.mine(p.r, s):
            return ('place', idx)
        return super().find(st, p, inst, what)

    def get(self, st, p, inst, what='read'):
        k = self.find(st, p, inst, what)
        if k and k[0] == 'place':
            return k, (LIVE, 'M' if self.holds(st, k[1]) else 'o')
        return k, (st.gd[k] if k else (None, 'o'))

    def begin(self, st, p, tok, inst):
        k, (life, old) = self.get(st, p, inst, 'construction')
        if k and k[0] == 'place':
            self.I.oblige(st, False, 'life', 'constructs an item over a live one', inst)
            return self.put(st, k[1], tok)
        return super().begin(st, p, tok, inst)

    def assign(self, I, st, inst, args):
        k, _ = self.get(st, args[0], inst, 'assignment')
        if k and k[0] == 'place':
            tok = self.use(st, args[1], inst, 'assigns from')
            self.put(st, k[1], tok)
            I.oblige(st, True, 'life', '', inst)
            return args[0]
        return super().assign(I, st, inst, args)

    def dtor(self, I, st, inst, args):
        k, _ = self.get(st, args[0], inst, 'destruction')
        if k and k[0] == 'place':
            I.oblige(st, False, 'life', 'destroys an item of the range', inst)
            return
        return super().dtor(I, st, inst, args)

    def less(self, I, st, i, a):
        for p in a:
            self.use(st, p, i, 'compares')
        return Cond('row', False, Lin.__sub__(dom_var(), Lin(1)))

    # ---- trivially copyable element
    def load(self, I, st, r, s, idx, f, ty, inst):
        if not self.mine(r, s) or s.kind == 'obj':
            return None
        return M if self.holds(st, idx) else Term('tok', 'o', fresh('o'))

    def store_(self, I, st, r, s, idx, f, v, ty, inst):
        if not self.mine(r, s) or s.kind == 'obj':
            return False
        if r.const:
            I.oblige(st, False, 'const-write', 'write to read-only %s' % r.name, inst)
        self.put(st, idx, 'M' if v == M else 'o')
        return True

    # ---- loops: keep the order of the positions and the loop indices apart
    def must(self, loop, vals):
        xs = [v for k, v in vals.items() if k[0] == 'gn' and k[1][0] == 'M' and isinstance(v, Lin)]
        ds = self.indices(loop.I, None, loop, lambda i: vals.get(('phi', i.id)))
        out = xs + ds + [x - d for x in xs for d in ds]
        return out + [a - b for k, a in enumerate(ds) for b in ds[k + 1:]]

    def indices(self, I, s, loop, get=None):
        out = []
        for i in loop.phis:
            v = get(i) if get else s.regs.get(i.id)
            if isinstance(v, Ptr) and self.A and v.r is self.A[0]:
                d = (v.o - self.A[1].base).div(self.A[1].stride)
                if d is not None:
                    out.append(d)
            elif isinstance(v, Int) and v.w == 64:
                out.append(v.e)
        return out

    def prepare(self, I, s, loop):
        xs = self.at(s)
        for x in xs:
            for d in self.indices(I, s, loop):
                I.eq_idx(s, x, d)
                e = x - d
                if not (s.cons.entails(False, e) or s.cons.entails(False, -e)):
                    raise Split([[('row', False, e - 1)], [('row', False, -e - 1)]])
        s.gd['signs'] = tuple(tuple(self.sign(s, x - d) for d in self.indices(I, s, loop)) for x in xs)

    def sign(self, s, e):
        if s.cons.entails(False, e - 1):
            return 1
        return 0 if s.cons.entails(False, e) else -1

    def signs(self, s):
        return None

    # ---- final states
    def count(self, st, lo, hi):
        """refinements of the state in which the number of positions inside [lo, hi) is decided: (state, n)"""
        I = self.I
        out = []
        work = [(st.fork(), 0, 0)]
        while work:
            s, k, n = work.pop()
            xs = self.at(s)
            if k == len(xs):
                out.append((s, n))
                continue
            for rows, d in (([(False, -xs[k] + lo - 1)], 0), ([(False, xs[k] - lo), (False, hi - xs[k] - 1)], 1), ([(False, xs[k] - hi)], 0)):
                t = I.assume_rows(s, rows)
                if t is not None:
                    work.append((t, k + 1, n + d))
        return out


def dom_var():
    return new('lt', 0, 1)
