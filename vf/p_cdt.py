"""C29 C30 C31 C37 C38: the triangulation, by shape analysis (mesh.py)"""
import os
from . import llvm, mesh
from .core import check, AnalysisError
from .mesh import Mesh, State, P, S, C, ZERO, ONE, Ptr, Agg, Fork, Dead, sym, Tab, Unsupported

SRC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'cdt.cpp')


def build(q, n):
    m = llvm.build(SRC, ['-DCE_USER_ERROR_LEVEL=0', '-DVF_Q=%d' % q, '-DVF_N=%d' % n],
                   keep=lambda x: x.startswith(('_ZN2ce3cdt', '_ZNK2ce3cdt', 'x_')),
                   passes='function(sroa<modify-cfg>),always-inline,function(sroa<modify-cfg>,instsimplify,simplifycfg,early-cse,loop-simplify,lcssa,loop(loop-unroll-full),sroa<modify-cfg>,instsimplify,simplifycfg,early-cse,adce,simplifycfg)')
    G = m.globals.get('layout')
    if G is None:
        raise AnalysisError('layout table not found')
    b = bytes(llvm.global_bytes(G))
    return m, [int.from_bytes(b[i:i + 8], 'little') for i in range(0, len(b), 8)]


def target(m, wrapper):
    """the operation that a wrapper calls"""
    F = m.funcs.get(wrapper)
    if F is None:
        raise AnalysisError('%s not found' % wrapper)
    for B in F.blocks:
        for i in B.insts:
            if i.op == 'call' and i.callee.name.startswith(('_ZN2ce3cdt', '_ZNK2ce3cdt')):
                return i.callee.name
    raise AnalysisError('%s calls no operation' % wrapper)


def orient(a, b, c):
    """twice the signed area; negative for a face"""
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def cyc(t):
    t = tuple(t)
    return min((t, t[1:] + t[:1], t[2:] + t[:2]), key=repr)


class Cdt:
    def __init__(self, ctx, q, n):
        self.c = ctx
        self.m, self.L = build(q, n)
        self.M = M = Mesh(self.m, self.L)
        self.Q = self.L[0]
        self.limit = self.L[1]
        M.on_sync = self.on_sync
        M.on_return = self.on_return
        self.name = {}
        for w in ('flip', 'try_flip', 'insert_node', 'insert', 'insert_edge', 'locate_node', 'locate', 'fill_ex', 'constrain', 'incircle'):
            self.name[w] = target(self.m, 'x_' + w)
        n = self.name
        for w, h in (('incircle', self.c_incircle), ('flip', self.c_flip), ('try_flip', self.c_flip), ('insert_node', self.c_insert), ('insert', self.c_insert_any),
                     ('insert_edge', self.c_insert_edge), ('locate_node', self.c_locate), ('locate', self.c_locate), ('fill_ex', self.c_fill_ex),
                     ('constrain', self.c_constrain)):
            M.contracts.append((self.inner(n[w]), h))
        M.contracts.append((lambda x: x.startswith('_Z7vf_edge') or x.startswith('_Z7vf_face'), self.c_show))
        M.on_write = self.on_write
        M.track_fill = self.track
        M.on_header = self.on_header
        M.keep_cells = self.keep_cells
        self.root = None

    def inner(self, name):
        """calls of an operation from inside an operation"""
        return lambda x: x == name and not self.top

    @property
    def top(self):
        return len(self.st_fr) == 1

    # ---------------------------------------------------------- states
    def state(self, lo=4):
        st = State()
        s = S(sym('n', lo, self.limit, 'size'))
        st.size = st.size0 = s
        return st

    def face(self, st):
        f = self.M.new_face(st)
        st.known.append(f)
        return f

    def xy(self, st, v):
        v = st.canon(v)
        return (self.M.get(st, v.scale(2), 3, 'xy'), self.M.get(st, v.scale(2) + 1, 3, 'xy'))

    def xy0(self, st, v):
        """coordinates at the last sync point, or of the new vertex"""
        return self.xy(st, v)

    def ob(self, st, ok, rule, msg):
        return self.M.ob(st, ok, rule, msg)

    # ---------------------------------------------------------- half edges
    def half(self, st, v):
        """(face, slot) of a half edge value, None for nil, False if it is not one"""
        v = st.canon(v)
        if not v.t:
            return None
        k = self.M.mod(st, v, 4)
        if k is None or k.const() is None or k.const() == 3:
            return False
        return st.canon(self.M.div(st, v, 4)), k.const()

    def is_new_face(self, st, key):
        return st.is_le0(st.size0.scale(2) - key) is True and st.is_le0(key + 1 - st.size.scale(2)) is True

    def arg_half(self, st, v, what):
        h = self.half(st, v)
        ok = h is None or (h and (self.M.real(st, h[0]) or self.M.reserved(st, h[0])))
        self.ob(st, ok, 'argument', '%s is called with something that is not a half edge of the mesh' % what)
        if not ok:
            raise Dead()
        return h

    # ---------------------------------------------------------- invariant
    def invariant(self, st):
        M = self.M
        g = st.canon(st.size - st.size0).const()
        if not self.ob(st, g in (0, 1), 'frame', 'the vertex count changes by %s' % (g if g is not None else 'an unknown amount')):
            raise Dead()
        new = [st.size0.scale(2) + j for j in range(2 * g)]
        for key in new:
            for slot, f in mesh.CELLS + [(3, 'xy')]:
                v = st.cur.get((key, slot, f))
                ok = v is not None and not any(Tab.kind[s] == 'u' for s in st.canon(v).syms())
                if not self.ob(st, ok, 'topology', 'a slot of a new face is left unset'):
                    raise Dead()
        for c in st.cur:
            if not g and self.M.is_new(st, c[0]):
                if not self.ob(st, False, 'frame', 'slots beyond the last vertex are written without a vertex being added'):
                    raise Dead()
        touched = list(dict.fromkeys([st.canon(c[0]) for c in st.cur if c[2] != 'xy' and not M.reserved(st, c[0])] + new))
        for key in touched:
            for k in range(3):
                if not self.far(st, key, k):
                    for f in 'pce':
                        M.get(st, key, k, f)
        faces = list(dict.fromkeys(touched + st.known))
        for key in faces:
            for k in range(3):
                c = (key, k, 'e')
                v = st.cur.get(c)
                if v is None:
                    v = st.pre.get(c)
                if v is None:
                    continue
                h = self.half(st, v)
                cf = M.get(st, key, k, 'c')
                if h is None:
                    self.ob(st, st.is_le0(ONE - cf) is True, 'flags', 'a border edge may be left unconstrained')
                    continue
                ok = h and (M.real(st, h[0]) or self.is_new_face(st, h[0]))
                if not self.ob(st, ok, 'twin', 'the twin of an edge is not an edge of the mesh'):
                    raise Dead()
                G, j = h
                back = M.get(st, G, j, 'e')
                ok = st.is_eq0(back - key.scale(4) - k) is True
                if not self.ob(st, ok, 'twin', 'the twin of the twin of an edge is another edge'):
                    raise Dead()
                self.ob(st, st.is_eq0(cf - M.get(st, G, j, 'c')) is True, 'flags', 'the two sides of an edge carry different constrained flags')
                a, b = M.get(st, key, (k + 1) % 3, 'p'), M.get(st, key, (k + 2) % 3, 'p')
                u, w = M.get(st, G, (j + 1) % 3, 'p'), M.get(st, G, (j + 2) % 3, 'p')
                ok = st.is_eq0(a - w) is True and st.is_eq0(b - u) is True
                self.ob(st, ok, 'endpoints', 'the two sides of an edge have different end points')
        return new

    def far(self, st, key, k):
        """an edge nothing was done to and whose link was not looked at: what is across stays as it was"""
        key = st.canon(key)
        if (key, k, 'e') in st.pre or (key, k, 'e') in st.cur or (key, k, 'c') in st.cur and st.is_eq0(st.cur[(key, k, 'c')] - self.M.get_pre(st, key, k, 'c')) is not True:
            return False
        for j in (k + 1, k + 2):
            v = st.cur.get((key, j % 3, 'p'))
            if v is not None and st.is_eq0(v - self.M.get_pre(st, key, j % 3, 'p')) is not True:
                return False
        return True

    def tri(self, st, key, pre=False):
        g = self.M.get_pre if pre else self.M.get
        return tuple(g(st, key, k, 'p') for k in range(3))

    def rim(self, st, keys, pre):
        """directed edges of a set of faces: boundary (with what is across and the flag) and inner ones"""
        g = self.M.get_pre if pre else self.M.get
        ks = {st.canon(k) for k in keys}
        out, inner = {}, []
        for key in ks:
            p = self.tri(st, key, pre)
            for k in range(3):
                h = ('far', key, k) if self.far(st, key, k) else self.half(st, g(st, key, k, 'e'))
                cf = g(st, key, k, 'c')
                e = (p[(k + 1) % 3], p[(k + 2) % 3])
                if h and h[0] in ks:
                    inner.append((e, cf))
                else:
                    out[e] = (h, cf)
        return out, inner

    def changed(self, st):
        ch = []
        for c, v in st.cur.items():
            if self.M.is_new(st, c[0]):
                continue
            if st.is_eq0(v - self.M.get_pre(st, *c)) is not True:
                ch.append((st.canon(c[0]), c[1], c[2]))
        return ch

    def on_sync(self, st, why):
        if self.root == 'reset':
            return
        if not st.cur and st.size == st.size0:
            return self.after(st, 'none', None)
        new = self.invariant(st)
        ch = self.changed(st)
        if not ch and not new:
            return self.after(st, 'none', None)
        M = self.M
        bad = [c for c in ch if M.reserved(st, c[0])]
        self.ob(st, not bad, 'frame', 'the reserved faces are changed')
        bad = [c for c in ch if c[2] == 'xy']
        self.ob(st, not bad, 'frame', 'the coordinates of an existing vertex are changed')
        T = list(dict.fromkeys(c[0] for c in ch if c[2] == 'p'))
        if new:
            r = self.spec_insert(st, T, ch, new)
            return self.after(st, 'insert', r)
        if T:
            r = self.spec_flip(st, T, ch)
            return self.after(st, 'flip', r)
        if all(c[2] == 'fi' for c in ch):
            return self.after(st, 'info', ch)
        if all(c[2] == 'c' for c in ch):
            for c in ch:
                self.ob(st, st.is_eq0(st.cur[c] - 1) is True, 'constrained', 'a constrained flag is taken away')
            return self.after(st, 'mark', ch)
        self.ob(st, False, 'topology', 'links of the mesh are changed although no face is')
        return self.after(st, 'other', None)

    def frame_rest(self, st, T, ch):
        """outside the changed faces only links back may change"""
        bad = [c for c in ch if c[0] not in T and c[2] != 'e']
        self.ob(st, not bad, 'frame', 'a face that is not involved is changed')

    def spec_flip(self, st, T, ch):
        M = self.M
        self.frame_rest(st, T, ch)
        if not self.ob(st, len(T) == 2, 'topology', '%d faces are changed by what is neither a flip nor an insertion' % len(T)):
            raise Dead()
        A, B = T
        shared = None
        for k in range(3):
            h = self.half(st, M.get_pre(st, A, k, 'e'))
            if h and h[0] == B:
                shared = (k, h[1])
        if not self.ob(st, shared is not None, 'topology', 'two faces are changed that are not neighbours'):
            raise Dead()
        k, j = shared
        cf = M.get_pre(st, A, k, 'c')
        self.ob(st, st.is_eq0(cf) is True, 'constrained', 'an edge is flipped that may be constrained')
        pa, x, y = [M.get_pre(st, A, (k + d) % 3, 'p') for d in range(3)]
        pb = M.get_pre(st, B, j, 'p')
        want = {cyc((pa, x, pb)), cyc((pb, y, pa))}
        got = {cyc(self.tri(st, A)), cyc(self.tri(st, B))}
        self.ob(st, got == want, 'topology', 'a flip leaves faces with other corners than the swapped diagonal gives')
        self.region(st, [A, B], [A, B])
        for key in (A, B):
            self.ob(st, st.is_eq0(M.get(st, key, 3, 'fi') - M.get_pre(st, key, 3, 'fi')) is True, 'info', 'a flip changes the data of a face')
        # node ids of the edges around the two faces
        st.gd['outer'] = Agg([F.scale(4) + n for F in (A, B) for n in range(3) if not self.inner_edge(st, F, n, (A, B))])
        g = st.gd.get('face')
        st.gd['flip_b'], st.gd['flip_pb'], st.gd['flip_pa'] = (B, pb, pa) if g is None or st.canon(g) == A else (A, pa, pb)
        return dict(A=A, k=k, B=B, j=j, pa=pa, pb=pb, x=x, y=y)

    def inner_edge(self, st, F, n, faces):
        if self.far(st, F, n):
            return False
        h = self.half(st, self.M.get(st, F, n, 'e'))
        return bool(h) and h[0] in [st.canon(x) for x in faces]

    def region(self, st, before, after, split=None):
        """the boundary of the changed region keeps its neighbours and flags; new inner edges are unconstrained"""
        o1, i1 = self.rim(st, before, True)
        o2, i2 = self.rim(st, after, False)
        self.ob(st, set(o1) == set(o2), 'topology', 'the outline of the changed faces is not the old outline')
        for e in o1:
            if e in o2:
                self.ob(st, o1[e][0] == o2[e][0], 'twin', 'an outer edge of the changed faces gets another neighbour')
                self.ob(st, st.is_eq0(o1[e][1] - o2[e][1]) is True, 'flags', 'an outer edge of the changed faces gets another constrained flag')
        for e, cf in i2:
            w = split.get(frozenset(e)) if split else None
            if w is None:
                self.ob(st, st.is_eq0(cf) is True, 'flags', 'a new edge inside the changed faces is not unconstrained')
            else:
                self.ob(st, st.is_eq0(cf - w) is True, 'flags', 'a piece of a split edge does not keep the constrained flag')

    def spec_insert(self, st, T, ch, new):
        M = self.M
        self.frame_rest(st, T, ch)
        n = st.size0
        x, y = M.get(st, n.scale(2), 3, 'xy'), M.get(st, n.scale(2) + 1, 3, 'xy')
        px, py = st.gd['px'], st.gd['py']
        self.ob(st, st.is_eq0(x - px) is True and st.is_eq0(y - py) is True, 'topology', 'the new vertex does not get the coordinates of the point')
        if not self.ob(st, 1 <= len(T) <= 2, 'topology', 'an insertion changes %d faces' % len(T)):
            raise Dead()
        got = [self.tri(st, k) for k in T + new]
        fi = {}
        F = st.canon(st.gd['face'])
        if not self.ob(st, F in T, 'topology', 'an insertion leaves the located face as it was'):
            raise Dead()
        if len(T) == 1:
            p = self.tri(st, F, True)
            want = {cyc((n, p[1], p[2])): F, cyc((p[0], n, p[2])): F, cyc((p[0], p[1], n)): F}
            self.region(st, [F], T + new)
            edge = None
        else:
            G = T[0] if T[1] == F else T[1]
            edge = None
            for k in range(3):
                h = self.half(st, M.get_pre(st, F, k, 'e'))
                if h and h[0] == G:
                    edge = (k, h[1])
            if not self.ob(st, edge is not None, 'topology', 'an insertion on an edge changes two faces that are not neighbours'):
                raise Dead()
            k, j = edge
            pa, a, b = [M.get_pre(st, F, (k + d) % 3, 'p') for d in range(3)]
            pb = M.get_pre(st, G, j, 'p')
            cf = M.get_pre(st, F, k, 'c')
            want = {cyc((pa, a, n)): F, cyc((pa, n, b)): F, cyc((pb, b, n)): G, cyc((pb, n, a)): G}
            # the outline is that of both faces, with the split edge inside
            self.region(st, [F, G], T + new, {frozenset((a, n)): cf, frozenset((n, b)): cf})
        ok = {cyc(t) for t in got} == set(want) and len(got) == len(want)
        if self.ob(st, ok, 'topology', 'an insertion leaves faces with other corners than the split requires'):
            for key, t in zip(T + new, got):
                o = want[cyc(t)]
                self.ob(st, st.is_eq0(M.get(st, key, 3, 'fi') - M.get_pre(st, o, 3, 'fi')) is True, 'info', 'a face made by a split does not inherit the data of the face it was split from')
            if len(T) == 1:
                P0 = (px, py)
                q = {v: self.xy(st, v) for v in p}
                for t in got:
                    cs = [P0 if v == n else q[v] for v in t]
                    self.ob(st, st.is_le0(orient(*cs) + 1) is True, 'oriented', 'a face made by an insertion may not be a proper clockwise triangle')
            else:
                q = {v: self.xy(st, v) for v in (pa, a, b)}
                for t in got:
                    if pb in t:
                        continue
                    cs = [(px, py) if v == n else q[v] for v in t]
                    self.ob(st, st.is_le0(orient(*cs) + 1) is True, 'oriented', 'a face made by an insertion may not be a proper clockwise triangle')
        st.gd['outer'] = Agg([K.scale(4) + k for K in T + new for k in range(3) if st.is_eq0(M.get(st, K, k, 'p') - n) is True])
        st.gd['edge'] = edge[0] if edge else None
        st.gd['inserted'] = True
        return dict(edge=edge)

    # ---------------------------------------------------------- what an operation may do
    def after(self, st, kind, r):
        root = self.root
        done = st.gd.get('did', ())
        if kind == 'none':
            return
        st.gd['did'] = (done + (kind,))[-2:]
        if root in ('flip', 'try_flip'):
            if self.ob(st, kind == 'flip' and not done, 'topology', '%s does something else than one flip' % root):
                h = (st.canon(st.gd['face']), st.gd['slot'])
                self.ob(st, h in ((r['A'], r['k']), (r['B'], r['j'])), 'topology', '%s flips another edge than the one given' % root)
            if root == 'try_flip' and kind == 'flip':
                q = {v: self.xy(st, v) for v in (r['pa'], r['pb'], r['x'], r['y'])}
                for t in ((r['pa'], r['x'], r['pb']), (r['pb'], r['y'], r['pa'])):
                    self.ob(st, st.is_le0(orient(*[q[v] for v in t]) + 1) is True, 'oriented', 'a trial flip may leave a face that is not a proper clockwise triangle')
        elif root == 'insert_node':
            self.ob(st, kind == 'insert' and not done, 'topology', 'an insertion does something else than one insertion')
        elif root == 'constrain':
            if self.ob(st, kind == 'mark' and not done, 'topology', 'marking an edge changes more than its flags'):
                h = (st.canon(st.gd['face']), st.gd['slot'])
                w = {h}
                t = self.half(st, self.M.get(st, h[0], h[1], 'e'))
                if t:
                    w.add(t)
                self.ob(st, all((c[0], c[1]) in w for c in r), 'flags', 'another edge than the given one is marked constrained')
        elif root in ('insert_edge',):
            self.ob(st, kind in ('mark', 'flip'), 'topology', 'inserting an edge changes the mesh by other means than flips, marks and insertions')
        elif root in ('fill', 'fill_ex'):
            self.ob(st, kind == 'info', 'topology', 'filling changes the mesh itself')
        else:
            self.ob(st, False, 'topology', '%s changes the mesh itself' % root)

    # ---------------------------------------------------------- contracts of operations
    def c_flip(self, st, i, a):
        h = self.arg_half(st, a[1], 'flip')
        self.M.sync(st, 'call')
        if h and self.root in ('flip', 'try_flip', 'insert_node'):
            st.gd['seen'] = Agg(list(st.gd.get('seen', Agg([])).v)[-7:] + [st.canon(a[1])])
        if self.root == 'constrain':
            self.marked(st)
        n = self.M.choose(st, i, [None, None]) if self.M.used(i) else 0
        self.M.havoc(st)
        return C(n)

    def c_constrain(self, st, i, a):
        h = self.arg_half(st, a[1], 'marking')
        self.M.sync(st, 'call')
        if self.root == 'insert_edge' and h:
            # the edge begins where the marked part of the segment ends and runs along what is left of it
            k = [self.xy(st, self.M.corner(st, h[0], h[1] + d)) for d in (1, 2)]
            at = st.gd['at'].v
            far = [k[1 - d] for d in (0, 1) if self.same(st, k[d], at)]
            if len(far) == 2:
                raise Dead()    # two corners of a face at one point
            if self.ob(st, len(far) == 1, 'segment', 'an edge is marked that does not begin where the marked part of the segment ends'):
                q = st.gd['q'].v
                self.ob(st, st.is_eq0(orient(at, far[0], q)) is True, 'segment', 'an edge is marked that is not on the line of the segment')
                st.gd['at'] = Agg(list(far[0]))
        self.M.havoc(st)
        return ZERO

    def same(self, st, a, b):
        return all(st.is_eq0(x - y) is True for x, y in zip(a, b))

    def marked(self, st):
        """before anything else happens the edge is constrained"""
        if st.gd.get('marked'):
            return
        st.gd['marked'] = True
        h = (st.canon(st.gd['face']), st.gd['slot'])
        self.ob(st, st.is_le0(ONE - self.M.get(st, h[0], h[1], 'c')) is True, 'flags', 'the edge given is not marked constrained')

    def node(self, st, v):
        """face of a node value (0 for nil), None if it is not one"""
        v = st.canon(v)
        if not v.t:
            return ZERO
        k = self.M.div(st, v, 4)
        if k is None:
            return None
        k = st.canon(k)
        return k if self.M.real(st, k) or self.M.reserved(st, k) else None

    def any_node(self, st, i, tag):
        """nil or a node of a real face"""
        k = ('ch', len(st.fr), i.id, tag, 'node')

        def some(s):
            f = self.M.new_face(s)
            s.force[k] = f.scale(4) + S(sym('r', 0, 3))
        if self.M.choose(st, i, [None, some], tag) == 0:
            return ZERO
        return st.canon(st.force[k])

    def c_insert(self, st, i, a):
        x, y, n = a[1:4]
        f = self.node(st, n)
        self.ob(st, f is not None, 'argument', 'insertion is called with something that is not a node of the mesh')
        if f is None:
            raise Dead()
        if f.t:
            ok = st.gd.get('contains') == Agg([st.canon(x), st.canon(y), f])
            self.ob(st, ok, 'located', 'a point is inserted in a face that was not located for it')
        self.M.sync(st, 'call')
        full = st.canon(st.size - self.limit)
        g = self.M.choose(st, i, [None, lambda s: s.add_le0(s.size + 1 - self.limit)], 'grow')
        r = self.any_node(st, i, 'node')
        if r.t and 'at' in st.gd and self.same(st, (x, y), st.gd['at'].v):
            st.gd['vertex'] = ONE
        if g:
            if not r.t:
                raise Dead()
            st.size = st.size + 1
        self.M.havoc(st)
        st.gd.pop('contains', None)
        return r

    def c_insert_any(self, st, i, a):
        self.M.sync(st, 'call')
        r = self.any_node(st, i, 'node')
        self.grow(st)
        self.M.havoc(st)
        st.gd.pop('contains', None)
        if self.root == 'insert_v':
            self.scaled(st, a[1:3])
            st.gd['ret'] = r
        return r

    def scaled(self, st, a):
        """the points handed on are the given ones, rounded down to even multiples of the scale"""
        st.gd['called'] = st.gd.get('called', 0) + 1
        for x, w in zip(a, st.gd['point'].v):
            ok = False
            if isinstance(x, P):
                d = st.canon(w - x.scale(1 << self.Q))
                ok = st.is_le0(d.scale(-1)) is True and st.is_le0(d + 1 - (2 << self.Q)) is True and self.M.mod(st, x, 2) == ZERO
            self.ob(st, ok, 'scale', 'a point is not rounded down to an even position of the grid')

    def grow(self, st):
        s = S(sym('n', 4, self.limit, 'size'))
        st.add_le0(st.size - s)
        st.size = st.size0 = s

    def c_insert_edge(self, st, i, a):
        self.M.sync(st, 'call')
        n = self.M.choose(st, i, [None, None])
        if self.root == 'insert_edge' and n:
            if self.same(st, a[1:3], st.gd['at'].v):
                st.gd['at'] = Agg([st.canon(x) for x in a[3:5]])
        elif self.root == 'insert_edge_v':
            self.scaled(st, a[1:5])
            st.gd['ret'] = C(n)
        self.grow(st)
        self.M.havoc(st)
        st.gd.pop('contains', None)
        return C(n)

    def c_locate(self, st, i, a):
        r = self.any_node(st, i, 'node')
        if self.root == 'locate_v':
            st.gd['called'] = st.gd.get('called', 0) + 1
            self.ob(st, self.same(st, a[1:3], st.gd['point'].v), 'scale', 'locate looks for another point')
            st.gd['ret'] = r
        if r.t:
            f = st.canon(self.M.div(st, r, 4))
            st.gd['contains'] = Agg([st.canon(a[1]), st.canon(a[2]), f])
            if 'vertex' in st.gd and self.same(st, a[1:3], st.gd['at'].v):
                # the point is a vertex, so it is a corner of the face
                k = self.M.choose(st, i, [None] * 3, 'corner')
                for x, y in zip(self.xy(st, self.M.corner(st, f, k)), st.gd['at'].v):
                    st.union(x, y)
        return r

    def c_incircle(self, st, i, a):
        f, v = st.canon(a[1]), st.canon(a[2])
        ok = self.M.real(st, f) and st.is_le0(v.scale(-1)) is True and st.is_le0(v + 1 - st.size) is True
        self.ob(st, ok, 'argument', 'the in-circle test is called for something that is not a face and a vertex')
        if not ok:
            raise Dead()
        n = self.M.choose(st, i, [None, None], 'in')
        st.gd['incircle'] = Agg(list(st.gd.get('incircle', Agg([])).v) + [Agg([f, v, C(n)])])
        return C(n)

    # ---------------------------------------------------------- flood fill
    # gd: info; from = face whose neighbours are being looked at; todo = face that was set and is not
    # yet put aside; depth = number of faces put aside
    def fi(self, st, f):
        return self.M.get(st, f, 3, 'fi')

    def is_info(self, st, f):
        return st.is_eq0(self.fi(st, f) - st.gd['info']) is True

    def on_write(self, st, c, v):
        if self.root not in ('fill', 'fill_ex'):
            return
        g, slot, f = c
        if f != 'fi':
            return
        self.ob(st, st.is_eq0(v - st.gd['info']) is True, 'fill', 'fill gives a face another value than the one asked for')
        if not self.M.real(st, g):
            self.ob(st, False, 'fill', 'fill sets the value of something that is not a face')
            raise Dead()
        if 'seed' in st.gd:
            self.ob(st, st.canon(st.gd['seed']) == g, 'fill', 'fill begins with another face than the one given')
            del st.gd['seed']
            st.gd['from'] = st.gd['todo'] = g
            return
        if self.is_info(st, g):
            return          # nothing changes
        cf = st.gd.get('from')
        ok = False
        if cf is not None:
            cf = st.canon(cf)
            for k in range(3):
                h = self.half(st, self.M.get(st, cf, k, 'e'))
                if h and h[0] == g and st.is_eq0(self.M.get(st, cf, k, 'c')) is True:
                    ok = True
        self.ob(st, ok, 'fill', 'fill sets a face that is not across an unconstrained edge of a face in the region')
        t = st.gd.get('todo')
        if t is not None and st.canon(t) != cf:
            self.ob(st, False, 'fill', 'a face is set by fill but its neighbours are not looked at')
        t = st.gd.pop('put', None)
        if t is None:
            st.gd['todo'] = g
        else:
            self.ob(st, st.canon(t) == g, 'fill', 'fill puts another face aside than the one it sets')

    def side_done(self, st, f, k):
        c = self.M.get(st, f, k, 'c')
        if st.is_le0(ONE - c) is True:
            return True
        if st.is_eq0(c) is not True:
            return False
        h = self.half(st, self.M.get(st, f, k, 'e'))
        return bool(h) and self.is_info(st, h[0])

    def keep_cells(self, st):
        f = st.gd.get('from')
        if self.root not in ('fill', 'fill_ex') or f is None:
            return []
        f = st.canon(f)
        out = []
        for k in range(3):
            out += [(f, k, x) for x in 'ce']
            e = st.pre.get((f, k, 'e'))
            if e is not None:
                h = self.half(st, e)
                if h:
                    out += [(h[0], 3, 'fi'), (h[0], h[1], 'e'), (h[0], h[1], 'c')]
        return out

    def settle(self, st):
        """every unconstrained side of the face looked at leads to a face of the region"""
        f = st.gd.pop('from', None)
        t = st.gd.pop('todo', None)
        if t is not None and (f is None or st.canon(t) != st.canon(f)):
            self.ob(st, False, 'fill', 'a face is set by fill but its neighbours are not looked at')
        t = st.gd.pop('put', None)
        if t is not None:
            self.ob(st, self.is_info(st, t), 'fill', 'fill puts a face aside that it does not set')
        if f is None:
            return
        f = st.canon(f)
        for k in range(3):
            self.ob(st, self.side_done(st, f, k), 'fill', 'fill leaves a face out that is across an unconstrained edge of the region')

    def track(self, st, what, v, x):
        d = st.gd.get('depth')
        if self.root not in ('fill', 'fill_ex') or d is None:
            return
        if what == 'rename':
            if st.is_eq0(d - v) is True:
                st.gd['depth'] = x
        elif what == 'push':
            ok = st.is_eq0(x - d.scale(4)) is True
            self.ob(st, ok, 'fill', 'a face put aside by fill may overwrite another one')
            t = st.gd.pop('todo', None)
            v = st.canon(v)
            if not self.M.real(st, v):
                self.ob(st, False, 'fill', 'fill puts something aside that is not a face')
                raise Dead()
            if t is None:
                self.ob(st, 'put' not in st.gd, 'fill', 'fill puts a face aside that it does not set')
                st.gd['put'] = v
            else:
                self.ob(st, st.canon(t) == v, 'fill', 'fill puts another face aside than the one it sets')
            st.gd['depth'] = st.canon(d + 1)
            if not ok:
                raise Dead()
        elif what == 'pop':
            ok = st.is_eq0(x - (d - 1).scale(4)) is True and st.is_le0(ONE - d) is True
            if not self.ob(st, ok, 'fill', 'fill takes a face back that it had not put aside last'):
                raise Dead()
            self.settle(st)
            st.gd['depth'] = st.canon(d - 1)
            st.pre[(v, 3, 'fi')] = st.canon(st.gd['info'])
            st.gd['from'] = v

    def c_fill_ex(self, st, i, a):
        f = st.canon(a[1])
        info = st.canon(a[2])
        self.ob(st, self.M.real(st, f), 'argument', 'fill is called for something that is not a face')
        if not self.M.real(st, f) or self.root not in ('fill', 'fill_ex'):
            raise Dead()
        # the face looked at: either the one handed over, or it goes on with it later
        cf = st.gd.get('from')
        cf = st.canon(cf) if cf is not None else None
        t = st.gd.get('todo')
        t = st.canon(t) if t is not None else None
        ok = f == t or f == cf
        self.ob(st, ok and self.is_info(st, f) and st.is_eq0(info - st.gd['info']) is True, 'fill', 'fill goes on with a face that it had not put aside, or with another value')
        if t == f:
            del st.gd['todo']
        if cf == f:
            del st.gd['from']
        self.M.sync(st, 'call')
        known = [k for k in st.known if st.pre.get((k, 3, 'fi')) is not None and self.is_info(st, k)]
        for c in [c for c in st.pre if c[2] == 'fi']:
            if c[0] not in known:
                del st.pre[c]
        return ZERO

    # ---------------------------------------------------------- views
    def on_header(self, st, phis):
        f = st.gd.get('from')
        if f is not None and self.root in ('fill', 'fill_ex') and 'todo' not in st.gd and 'put' not in st.gd:
            f = st.canon(f)
            if all((f, k, 'c') in st.pre and (st.canon(st.pre[(f, k, 'c')]).t != {} or (f, k, 'e') in st.pre) and self.side_done(st, f, k) for k in range(3)):
                del st.gd['from']
        d = st.gd.get('pos')
        if d is None:
            return None
        k = self.M.mod(st, d, 4)
        f = st.canon(self.M.div(st, d, 4))
        k = k.const()
        lim = st.size.scale(2) - (1 if k else 0)
        if not (st.is_le0(C(6) - f) is True and st.is_le0(f - lim) is True):
            return None
        F = S(sym('n', 6, 2 * self.limit))
        st.add_le0(F - lim)
        out = {}
        for r, v in phis.items():
            if isinstance(v, P) and st.is_eq0(v - d) is True:
                out[r] = F.scale(4) + k
        for o in st.loc:
            for off in st.loc[o]:
                sz, v = st.loc[o][off]
                if isinstance(v, P) and v.t and st.is_eq0(v - d) is True:
                    st.loc[o][off] = (sz, F.scale(4) + k)
        st.gd['pos'] = F.scale(4) + k
        return out

    def c_show(self, st, i, a):
        M = self.M
        face = i.callee.name.startswith('_Z7vf_face')
        pos = st.canon(st.gd['pos'])
        if not self.ob(st, st.is_le0(pos + 1 - st.size.scale(8)) is True, 'views', 'a view shows more edges or faces than there are'):
            raise Dead()
        k = M.mod(st, pos, 4).const()
        f = st.canon(M.div(st, pos, 4))
        o = st.canon(a[0])
        L = self.L

        class T:
            kind = 'int'

            def __init__(self, size):
                self.size, self.width = size, 8 * size

        def rd(off, size):
            return M.load(st, Ptr(o.o, o.off + off), T(size))

        def eq(v, w, msg):
            self.ob(st, isinstance(v, P) and (st.is_eq0(v - w) is True or st.is_eq0((M.sgn(st, v, 32) or v) - w) is True), 'views', msg)
        m = 1 << self.Q

        def point(off, v, msg):
            for d, x in enumerate(self.xy(st, v)):
                eq(rd(off + 4 * d, 4), x.scale(m), msg)

        def flag(v, c, msg):
            n = v.const() if isinstance(v, P) else None
            self.ob(st, n is not None and (st.is_le0(ONE - c) is True if n & 1 else st.is_le0(c) is True), 'views', msg)
        p = self.tri(st, f)
        if face:
            for j in range(3):
                point(L[12] + 8 * j, p[j], 'a face shown has other corner points than the face')
                eq(rd(L[13] + 2 * j, 2), M.get(st, f, j, 'e'), 'a face shown has other neighbours than the face')
                flag(rd(L[14] + j, 1), M.get(st, f, j, 'c'), 'a face shown has other constrained flags than the face')
            eq(rd(L[15], 2), self.fi(st, f), 'a face shown has other data than the face')
            st.gd['pos'] = (f + 1).scale(4)
        else:
            point(L[7], p[(k + 1) % 3], 'an edge shown has another first end point than the edge')
            point(L[8], p[(k + 2) % 3], 'an edge shown has another second end point than the edge')
            flag(rd(L[10], 1), M.get(st, f, k, 'c'), 'an edge shown has another constrained flag than the edge')
            e = M.get(st, f, k, 'e')
            n = rd(L[9], 1)
            n = n.const() if isinstance(n, P) else None
            self.ob(st, n is not None and st.is_le0((e + 1 - pos) if n & 1 else (pos - e)) is True, 'views', 'an edge shown is not primary exactly when it comes after its other side')
            st.gd['pos'] = pos + 1 if k < 2 else (f + 1).scale(4)
        if o.o != 'mesh':
            st.loc[o.o] = {}        # what was shown is a temporary: reading it again would not be understood
        return ZERO

    # ---------------------------------------------------------- returns
    def on_return(self, st, v):
        M = self.M
        if self.root == 'reset':
            return self.ret_reset(st)
        if self.root == 'next_edge':
            st.size0 = st.size
        self.M.sync(st, 'return')
        r = self.root
        did = st.gd.get('did', ())
        if r in ('fill', 'fill_ex'):
            self.settle(st)
            if 'depth' in st.gd:
                self.ob(st, st.is_eq0(st.gd['depth']) is True, 'fill', 'fill returns although faces put aside are not finished')
            if 'seed' in st.gd:
                f = st.gd['seed']
                self.ob(st, not f.t or self.is_info(st, f), 'fill', 'fill leaves the given face as it was')
        elif r in ('edges', 'faces'):
            d = st.gd['pos']
            ok = st.is_eq0(d - st.size.scale(8)) is True or st.gd.get('few') and st.is_eq0(d - 24) is True
            self.ob(st, ok, 'views', 'a view ends before the last edge or face')
        elif r in ('edge', 'face'):
            self.ob(st, st.gd['pos'] != st.gd['pos0'], 'views', 'nothing is shown')
        elif r in ('vert_a', 'vert_b', 'vert_o'):
            h = st.canon(st.gd['face']), st.gd['slot']
            w = self.M.corner(st, h[0], h[1] + {'a': 1, 'b': 2, 'o': 0}[r[-1]])
            x = self.xy(st, w)[st.gd['axis']].scale(1 << self.Q)
            self.ob(st, isinstance(v, P) and st.is_eq0(v - x) is True, 'views', 'edge_%s returns another point' % r)
        elif r == 'next_edge':
            f, k = st.canon(st.gd['face']), st.gd['slot']
            self.ob(st, isinstance(v, P) and st.is_eq0(v - f.scale(4) - (k + 1) % 3) is True, 'views', 'next_edge is not the next edge of the face')
        elif r == 'incircle':
            k = v.const() if v is not None else None
            d = st.gd['det']
            ok = k is not None and st.is_le0(d + 1 if k & 1 else d.scale(-1)) is True
            self.ob(st, ok, 'incircle', 'the in-circle test is not the sign of the in-circle determinant')
        elif r in ('insert_v', 'insert_edge_v', 'locate_v'):
            self.ob(st, st.gd.get('called') == 1, 'result', '%s does not call the operation it stands for exactly once' % r[:-2])
            if isinstance(v, P) and 'ret' in st.gd:
                w = st.gd['ret']
                if r == 'locate_v':
                    ok = st.is_eq0(v - w) is True
                else:
                    k = v.const()
                    ok = k is not None and (st.is_le0(ONE - w) is True if k & 1 else st.is_eq0(w) is True)
                self.ob(st, ok, 'result', '%s does not report what the operation it stands for returned' % r[:-2])
        if r in ('flip', 'try_flip'):
            k = v.const() if v is not None else None
            self.ob(st, k is not None and (k & 1 == 1) == ('flip' in did), 'result', '%s does not report whether it flipped' % r)
            if r == 'try_flip' and 'flip' not in did:
                self.refused(st)
            if r == 'flip':
                self.tested(st, 'flip' in did)
        elif r == 'constrain':
            self.marked(st)
        elif r == 'insert_node':
            self.ret_insert(st, v, did)
        elif r in ('locate_node', 'locate'):
            self.ret_locate(st, v)
        elif r == 'insert_edge':
            k = v.const() if v is not None else None
            if self.ob(st, k is not None, 'result', 'what edge insertion returns is not decided') and k & 1:
                self.ob(st, self.same(st, st.gd['at'].v, st.gd['q'].v), 'segment', 'edge insertion reports success although not all of the segment is marked')
        elif r in ('insert',):
            f = self.node(st, v)
            self.ob(st, f is not None, 'result', 'insertion returns something that is not a node')

    def refused(self, st):
        f, k = st.canon(st.gd['face']), st.gd['slot']
        ok = not f.t or st.is_le0(ONE - self.M.get(st, f, k, 'c')) is True
        if not ok:
            h = self.half(st, self.M.get(st, f, k, 'e'))
            p = [self.xy(st, self.M.corner(st, f, k + d)) for d in range(3)]
            q = self.xy(st, self.M.corner(st, h[0], h[1]))
            ok = any(st.is_le0(orient(*t).scale(-1)) is True for t in ((p[0], p[1], q), (q, p[2], p[0])))
        self.ob(st, ok, 'oriented', 'a trial flip is refused although the edge is free and the two faces form a strictly convex quadrangle')

    def tested(self, st, did):
        """a flip is made exactly when the edge is free and the vertex across is inside the circle"""
        f, k = st.canon(st.gd['face']), st.gd['slot']
        if not f.t:
            return
        t = st.gd.get('incircle')
        if t is None:
            if did:
                self.ob(st, False, 'delaunay', 'an edge is flipped without the in-circle test')
            else:
                self.ob(st, st.is_le0(ONE - self.M.get_pre(st, f, k, 'c')) is True, 'delaunay', 'an edge is left although it may be free and was not tested')
            return
        w = [st.canon(x.v[2]).const() for x in t.v]
        if did:
            g, pb, pa = [st.canon(st.gd[x]) for x in ('flip_b', 'flip_pb', 'flip_pa')]
            ok = any(n == 1 and (st.canon(x.v[0]), st.canon(x.v[1])) in ((f, pb), (g, pa)) for n, x in zip(w, t.v))
            self.ob(st, ok, 'delaunay', 'an edge is flipped although the vertex across it was not found inside the circle')
            want = [st.canon(x) for x in st.gd['outer'].v]
            have = [st.canon(x) for x in st.gd.get('seen', Agg([])).v]
            self.ob(st, all(x in have for x in want), 'delaunay', 'after a flip not all four edges around it are tested again')
        else:
            h = self.half(st, self.M.get(st, f, k, 'e'))
            ok = st.is_le0(ONE - self.M.get(st, f, k, 'c')) is True
            if h and not ok:
                pb, pa = self.M.corner(st, h[0], h[1]), self.M.corner(st, f, k)
                ok = any(n == 0 and (st.canon(x.v[0]), st.canon(x.v[1])) in ((f, pb), (h[0], pa)) for n, x in zip(w, t.v))
            self.ob(st, ok, 'delaunay', 'an edge is left although the vertex across it was not found outside the circle')

    def ret_insert(self, st, v, did):
        M = self.M
        f = self.node(st, v)
        self.ob(st, f is not None, 'result', 'insertion returns something that is not a node')
        if f is None:
            return
        full = st.is_le0(C(self.limit) - st.gd['size0']) is True
        if st.gd['nil']:
            self.ob(st, not f.t and not did, 'refuse', 'insertion outside the mesh is not refused')
            return
        o = st.gd['orient'].v
        strict = [st.is_le0(x + 1) for x in o]
        zero = [st.is_eq0(x) for x in o]
        if all(z is True for z in zero):
            return      # their sum is the orientation of the face, which is not zero
        if did:
            self.ob(st, bool(f.t), 'result', 'a successful insertion returns nil')
            want = [st.canon(x) for x in st.gd['outer'].v]
            have = [st.canon(x) for x in st.gd.get('seen', Agg([])).v]
            self.ob(st, all(x in have for x in want), 'delaunay', 'after an insertion not all edges around the new vertex are tested')
            e = st.gd.get('edge')
            if e is None:
                self.ob(st, all(strict), 'topology', 'a face is split in three although the point may lie on one of its edges')
            else:
                self.ob(st, zero[e] is True and all(strict[k] for k in range(3) if k != e), 'topology', 'an edge is split on which the point may not lie')
            return
        # nothing was changed
        if not f.t:
            ok = full
            if not ok:
                for k in range(3):
                    if zero[k] is True and all(strict[j] for j in range(3) if j != k):
                        # a border edge cannot be split
                        ok = self.half(st, M.get_pre(st, st.gd['face'], k, 'e')) is None
            self.ob(st, ok, 'refuse', 'insertion is refused although there is room and the point lies in a face or on an inner edge')
        else:
            ok = sum(1 for z in zero if z is True) >= 2
            self.ob(st, ok, 'refuse', 'insertion reports success although no vertex was added for a new point')

    def ret_locate(self, st, v):
        f = self.node(st, v)
        self.ob(st, f is not None, 'result', 'locate returns something that is not a node')
        if f is None or not f.t:
            return
        p = self.tri(st, f)
        q = [self.xy(st, x) for x in p]
        P0 = (st.gd['px'], st.gd['py'])
        s = st.gd['scale']
        for k in range(3):
            a, b = q[(k + 1) % 3], q[(k + 2) % 3]
            a, b = (a[0].scale(s), a[1].scale(s)), (b[0].scale(s), b[1].scale(s))
            self.ob(st, st.is_le0(orient(P0, a, b)) is True, 'contains', 'the located face may not contain the point')

    # ---------------------------------------------------------- roots
    def go(self, root, states):
        self.root = root
        M = self.M
        self.st_fr = []
        me = self
        old = M.call

        def call(st, fr, i):
            me.st_fr = st.fr
            return old(st, fr, i)
        M.call = call
        try:
            n = M.run(root, states)
        finally:
            del M.call
        if not n and not M.violations and not M.incomplete:
            M.incomplete.add('%s never returns in the abstraction' % root)
        return n

    def mesh(self):
        return Ptr('mesh', ZERO)

    def r_flip(self, root):
        sts = []
        for k in range(3):
            st = self.state()
            f = self.face(st)
            st.gd.update(face=f, slot=k)
            sts.append((st, 'x_' + root, [self.mesh(), f.scale(4) + k]))
            st = self.state()
            st.gd.update(face=ZERO, slot=k)
            sts.append((st, 'x_' + root, [self.mesh(), C(k)]))
        self.go(root, sts)

    def r_constrain(self):
        sts = []
        for k in range(3):
            st = self.state()
            f = self.face(st)
            st.gd.update(face=f, slot=k)
            sts.append((st, 'x_constrain', [self.mesh(), f.scale(4) + k]))
        self.go('constrain', sts)

    def coord(self, name, lo=-32768, hi=32767):
        return S(sym('w', lo, hi, name))

    def r_insert_node(self):
        sts = []
        for r in range(1):
            st = self.state()
            f = self.face(st)
            r = S(sym('r', 0, 3))
            px, py = self.coord('px'), self.coord('py')
            q = [self.xy(st, self.M.corner(st, f, k)) for k in range(3)]
            o = [orient((px, py), q[(k + 1) % 3], q[(k + 2) % 3]) for k in range(3)]
            for x in o:
                st.add_le0(x)
            # the face is a proper one
            st.add_le0(o[0] + o[1] + o[2] + 1)
            st.gd.update(face=f, px=px, py=py, orient=Agg(o), nil=False, size0=st.size0)
            sts.append((st, 'x_insert_node', [self.mesh(), px, py, f.scale(4) + r]))
        st = self.state()
        px, py = self.coord('px'), self.coord('py')
        st.gd.update(px=px, py=py, nil=True, size0=st.size0)
        sts.append((st, 'x_insert_node', [self.mesh(), px, py, ZERO]))
        self.go('insert_node', sts)

    def r_locate_node(self):
        st = self.state()
        px, py = self.coord('px', -(1 << 31), (1 << 31) - 1), self.coord('py', -(1 << 31), (1 << 31) - 1)
        st.gd.update(px=px, py=py, scale=1)
        h = S(sym('h', 0, (1 << 64) - 1, 'hint'))
        self.go('locate_node', [(st, 'x_locate_node', [self.mesh(), px, py, h])])

    def r_locate(self):
        st = self.state()
        px, py = self.coord('px', -(1 << 29), 1 << 29), self.coord('py', -(1 << 29), 1 << 29)
        st.gd.update(px=px, py=py, scale=1 << self.Q)
        h = S(sym('h', 0, (1 << 32) - 1, 'hint'))
        self.go('locate', [(st, 'x_locate', [self.mesh(), px, py, h])])

    def r_insert(self):
        st = self.state()
        h = S(sym('h', 0, (1 << 64) - 1, 'hint'))
        self.go('insert', [(st, 'x_insert', [self.mesh(), self.coord('px'), self.coord('py'), h])])

    def forget_points(self, st):
        """at a loop header of edge insertion: coordinates are any value of their range, nothing is known of any face"""
        new = {}

        def any_of(v):
            if isinstance(v, P):
                v = st.canon(v)
                ss = v.syms()
                if not ss or any(Tab.kind[s] in 'fn' for s in ss) or v.one() is not None and Tab.kind[v.one()] == 'w':
                    return v
                if v not in new:
                    lo, hi = st.range(v)
                    new[v] = S(sym('w', *self.widen(lo, hi)))
                return new[v]
            if isinstance(v, Agg):
                return Agg([any_of(x) for x in v.v])
            return v
        for f in st.fr:
            for r in f.regs:
                f.regs[r] = any_of(f.regs[r])
        for o in st.loc:
            for off in st.loc[o]:
                sz, v = st.loc[o][off]
                st.loc[o][off] = (sz, any_of(v))
        st.gd.pop('contains', None)
        # a corner at the point reached
        at = st.gd.get('at')
        pre = {}
        if at is not None:
            named = {S(s) for f in st.fr for v in f.regs.values() if isinstance(v, P) for s in st.canon(v).syms() if Tab.kind[s] == 'f'}
            for F in sorted(named, key=repr):
                for k in range(3):
                    v = st.pre.get((F, k, 'p'))
                    if v is None:
                        continue
                    v = st.canon(v)
                    x = [st.pre.get((v.scale(2) + d, 3, 'xy')) for d in (0, 1)]
                    if None not in x and self.same(st, x, at.v):
                        if any((F, j, 'p') in pre for j in range(k)):
                            raise Dead()    # two corners of a face at one point
                        pre[(F, k, 'p')] = v
                        for d in (0, 1):
                            pre[(v.scale(2) + d, 3, 'xy')] = any_of(x[d])
            st.gd['at'] = any_of(at)
        st.pre = pre
        keep = lambda n: all(Tab.kind[s] in 'fnv' for s in n.syms())
        st.le = {n: u for n, u in st.le.items() if keep(n)}
        st.ne = {n for n in st.ne if keep(n)}

    @staticmethod
    def widen(lo, hi):
        for w in (1, 8, 16, 17, 18, 32, 64):
            if lo >= 0 and hi < 1 << w:
                return 0, (1 << w) - 1
            if -(1 << w - 1) <= lo and hi < 1 << w - 1:
                return -(1 << w - 1), (1 << w - 1) - 1
        return lo, hi

    def r_insert_edge(self):
        self.M.weaken = self.forget_points
        st = self.state()
        h = S(sym('h', 0, (1 << 64) - 1, 'hint'))
        a = [self.coord(n) for n in ('px', 'py', 'qx', 'qy')]
        st.gd.update(at=Agg(a[:2]), q=Agg(a[2:]))
        self.go('insert_edge', [(st, 'x_insert_edge', [self.mesh()] + a + [h])])

    def node_states(self, root, **gd):
        sts = []
        for k in range(3):
            st = self.state()
            f = self.face(st)
            st.gd.update(face=f, slot=k, pos=f.scale(4) + k, pos0=f.scale(4) + k)
            st.gd.update(gd)
            sts.append((st, f.scale(4) + k))
        return sts

    def r_show(self, root):
        sts = []
        if root == 'face':
            st = self.state()
            f = self.face(st)
            st.gd.update(pos=f.scale(4), pos0=f.scale(4))
            sts = [(st, 'x_face', [self.mesh(), f.scale(4) + S(sym('r', 0, 3))])]
        else:
            sts = [(st, 'x_edge', [self.mesh(), e]) for st, e in self.node_states(root)]
        self.go(root, sts)

    def r_view(self, root):
        st = self.state()
        st.gd['pos'] = C(24)
        sts = [(st, 'x_' + root, [self.mesh()])]
        st = self.state(0)
        st.add_le0(st.size - 3)
        st.gd.update(pos=C(24), few=True)
        sts.append((st, 'x_' + root, [self.mesh()]))
        self.go(root, sts)

    def r_vert(self, w):
        sts = []
        for axis in range(2):
            for st, e in self.node_states('vert'):
                del st.gd['pos'], st.gd['pos0']
                st.gd['axis'] = axis
                sts.append((st, 'x_' + w, [self.mesh(), e, C(axis)]))
        self.go(w, sts)

    def r_next_edge(self):
        sts = []
        for st, e in self.node_states('next'):
            del st.gd['pos'], st.gd['pos0']
            sts.append((st, 'x_next_edge', [e]))
        self.go('next_edge', sts)

    def r_incircle(self):
        st = self.state()
        f = self.face(st)
        v = S(sym('v', 0, self.limit - 1))
        st.add_le0(v + 1 - st.size)
        (px, py) = self.xy(st, v)
        q = [self.xy(st, self.M.corner(st, f, k)) for k in range(3)]
        d = [(x - px, y - py) for x, y in q]
        det = ZERO
        for k in range(3):
            a, b, c = d[k], d[(k + 1) % 3], d[(k + 2) % 3]
            det = det + (a[0] * a[0] + a[1] * a[1]) * (b[0] * c[1] - b[1] * c[0])
        st.gd['det'] = det
        self.M.trust = self.M.overflow = True
        self.go('incircle', [(st, 'x_incircle', [self.mesh(), f, v])])

    def r_fill(self):
        info = S(sym('i', 0, 65535, 'info'))
        st = self.state()
        f = self.face(st)
        st.gd.update(seed=f, info=info, depth=ZERO)
        sts = [(st, 'x_fill', [self.mesh(), f.scale(4) + S(sym('r', 0, 3)), info])]
        st = self.state()
        st.gd.update(seed=ZERO, info=info, depth=ZERO)
        sts.append((st, 'x_fill', [self.mesh(), S(sym('r', 0, 3)), info]))
        self.go('fill', sts)

    def r_fill_ex(self):
        st = self.state()
        info = S(sym('i', 0, 65535, 'info'))
        f = self.face(st)
        st.pre[(f, 3, 'fi')] = info
        st.gd.update(info=info, depth=ZERO)
        st.gd['from'] = f
        self.go('fill_ex', [(st, 'x_fill_ex', [self.mesh(), f, info])])

    def vec(self, st, name, n):
        lo = -(1 << 15 + self.Q) if self.Q < 16 else -(1 << 31)
        v = [S(sym('w', lo, -lo - 1, name + c)) for c in 'xy']
        o = 'A0.' + name
        st.loc[o] = {0: (4, v[0]), 4: (4, v[1])}
        st.osz[o] = 8
        return Ptr(o, ZERO), v

    def r_vec(self, root):
        st = self.state()
        h = S(sym('h', 0, (1 << (32 if root == 'locate_v' else 64)) - 1, 'hint'))
        a = [self.mesh()]
        v = []
        for name in ('p', 'q')[:2 if root == 'insert_edge_v' else 1]:
            o, x = self.vec(st, name, 0)
            a.append(o)
            v += x
        st.gd['point'] = Agg(v)
        self.go(root, [(st, 'x_' + root, a + [h])])

    def r_reset(self):
        st = State()
        st.size = st.size0 = C(3)
        self.go('reset', [(st, 'x_reset', [self.mesh()])])

    def ret_reset(self, st):
        M = self.M
        M.sync(st, 'return')
        if not self.ob(st, st.size.const() == 4, 'reset', 'a fresh mesh does not have four vertices'):
            return

        def cell(f, k, w):
            v = st.pre.get((C(f), k, w))
            n = st.canon(v).const() if v is not None else None
            self.ob(st, n is not None, 'reset', 'a fresh mesh is not set completely')
            if n is None:
                raise Dead()
            return n
        xy = [(cell(2 * v, 3, 'xy'), cell(2 * v + 1, 3, 'xy')) for v in range(4)]
        lo, hi = -32768, 32767
        self.ob(st, set(xy) == {(lo, lo), (hi, lo), (lo, hi), (hi, hi)}, 'reset', 'the corners of a fresh mesh are not those of the grid')
        self.ob(st, all(cell(0, k, 'p') == 0 and cell(0, k, 'e') == 0 and cell(0, k, 'c') for k in range(3)), 'reset', 'the nil edges of a fresh mesh are not closed')
        self.ob(st, all(cell(f, 3, 'fi') == 0 for f in range(8)), 'reset', 'the faces of a fresh mesh have data')
        for f in (6, 7):
            p = [cell(f, k, 'p') for k in range(3)]
            ok = all(0 <= v < 4 for v in p) and orient(*[tuple(C(x) for x in xy[v]) for v in p]).const() < 0 if all(0 <= v < 4 for v in p) else False
            self.ob(st, ok, 'oriented', 'a face of a fresh mesh is not a proper clockwise triangle')
            for k in range(3):
                e, c = cell(f, k, 'e'), cell(f, k, 'c')
                a, b = p[(k + 1) % 3], p[(k + 2) % 3]
                if not e:
                    self.ob(st, c, 'flags', 'a border edge of a fresh mesh is not constrained')
                    self.ob(st, xy[a][0] == xy[b][0] or xy[a][1] == xy[b][1], 'topology', 'a fresh mesh does not reach the corners of the grid')
                    continue
                g, j = e // 4, e % 4
                ok = g in (6, 7) and j < 3 and cell(g, j, 'e') == 4 * f + k
                if self.ob(st, ok, 'twin', 'the twin of the twin of an edge of a fresh mesh is another edge'):
                    self.ob(st, (cell(g, (j + 1) % 3, 'p'), cell(g, (j + 2) % 3, 'p')) == (b, a), 'endpoints', 'the two sides of an edge of a fresh mesh have different end points')
                    self.ob(st, cell(g, j, 'c') == c == 0, 'flags', 'the inner edge of a fresh mesh is constrained')

    def finish(self):
        M, c = self.M, self.c
        for (rule, loc, root), (a, b) in M.obl.items():
            if c.only is not None and rule not in c.only:
                continue
            c.obligations += a + b
            c.discharged += a
            r = c.rules.setdefault(rule, [0, 0])
            r[0] += a + b
            r[1] += b
            c.sites.add(loc)
            c.functions.add(root)
        for v in M.violations.values():
            if c.only is None or v['rule'] in c.only:
                c.bad.append(v)
        c.incomplete += sorted(M.incomplete)
        c.info['paths'] = c.info.get('paths', 0) + M.paths
        c.info['abstract_steps'] = c.info.get('abstract_steps', 0) + M.steps


ROOTS = dict(flip=lambda u: u.r_flip('flip'), try_flip=lambda u: u.r_flip('try_flip'), constrain=lambda u: u.r_constrain(),
             insert_node=lambda u: u.r_insert_node(), locate_node=lambda u: u.r_locate_node(), locate=lambda u: u.r_locate(),
             insert=lambda u: u.r_insert(), insert_edge=lambda u: u.r_insert_edge(), reset=lambda u: u.r_reset(), incircle=lambda u: u.r_incircle(),
             fill=lambda u: u.r_fill(), fill_ex=lambda u: u.r_fill_ex(), next_edge=lambda u: u.r_next_edge())
for _w in ('edge', 'face'):
    ROOTS[_w] = lambda u, w=_w: u.r_show(w)
for _w in ('edges', 'faces'):
    ROOTS[_w] = lambda u, w=_w: u.r_view(w)
for _w in ('vert_a', 'vert_b', 'vert_o'):
    ROOTS[_w] = lambda u, w=_w: u.r_vert(w)
for _w in ('insert_v', 'insert_edge_v', 'locate_v'):
    ROOTS[_w] = lambda u, w=_w: u.r_vec(w)


def job(c, root, q, n):
    u = Cdt(c, q, n)
    u.M.deadline = c.t0 + (2400 if c.thorough else 600)
    try:
        ROOTS[root](u)
    finally:
        u.finish()


UPDATES = ['insert_edge', 'insert_node', 'flip', 'try_flip', 'constrain', 'reset', 'insert']
QUERIES = ['locate', 'locate_node']
FILL = ['fill_ex', 'fill']
VIEWS = ['edge', 'face', 'edges', 'faces', 'vert_a', 'vert_b', 'vert_o', 'next_edge']
WRAP = ['insert_v', 'insert_edge_v', 'locate_v']
TECH = 'shape analysis of the compiled triangulation: symbolic faces and vertices, links materialised by case split, one abstract step per operation from every state that meets the invariant'
NOTE = ('Each operation is analysed from an arbitrary mesh that meets the invariant (twins reciprocal, flags and end points of twins equal, border edges constrained, corners of a face distinct, '
        'two faces share at most one edge); inner operations are replaced by what their own analysis establishes. Decided per instance (scale, capacity).')


def run(c, rules, roots):
    c.only = set(rules)
    inst = [(0, 8192), (6, 100)]
    if c.thorough:
        inst += [(14, 8192), (0, 16), (1, 4), (16, 5000)]
    jobs = [(job, r, q, n) for r in roots for q, n in inst]
    jobs.sort(key=lambda j: (['locate', 'insert_edge', 'fill_ex', 'insert_node', 'locate_node'] + [j[1]]).index(j[1]))
    c.par(jobs)


@check('C29', TECH, note=NOTE)
def c29(c):
    run(c, ['constrained', 'flags'], UPDATES + FILL)


@check('C30', TECH, note=NOTE)
def c30(c):
    run(c, ['twin', 'flags', 'endpoints', 'topology', 'frame', 'info', 'argument', 'reset'], UPDATES + FILL + QUERIES + VIEWS + WRAP)


@check('C31', TECH, note=NOTE)
def c31(c):
    run(c, ['bounds', 'stack', 'refuse', 'result', 'views', 'scale'], UPDATES + FILL + QUERIES + VIEWS + WRAP + ['incircle'])


@check('C37', TECH, note=NOTE + ' Faces of the mesh are assumed to be proper before an operation; the in-circle determinant of points of the 16 bit grid is taken to fit in 64 bits.')
def c37(c):
    run(c, ['oriented', 'delaunay', 'incircle', 'overflow'], UPDATES + ['incircle'])


@check('C38', TECH, note=NOTE + ' A vertex that a located face contains is taken to be a corner of that face. Termination of the walks is not decided.')
def c38(c):
    run(c, ['contains', 'located', 'segment', 'fill'], QUERIES + FILL + ['insert_edge', 'insert'])
