"""Object life-cycle and content-token ghost state for opaque element types."""
from .ai import Unsupported, Undef, Ptr, Region, Cond, TRUE
from .dom import Lin, ZERO

RAW, LIVE = 'raw', 'live'


class Objects:
    """tracks the life and content of named cells of 'obj' segments; every local object is tracked"""

    def __init__(self, interp, cls='E'):
        self.I = interp
        self.tracked = {}      # (region name, seg name) -> [(name, idx)]
        self.events = 0
        interp.objects.append(self)
        n = '%d%s' % (len(cls), cls)
        H = interp.handlers
        H.append((lambda f: f == '_ZN%sC1Ev' % n or f == '_ZN%sC2Ev' % n, self.ctor))
        H.append((lambda f: f in ('_ZN%sC1ERKS_' % n, '_ZN%sC2ERKS_' % n, '_ZN%sC1EOS_' % n, '_ZN%sC2EOS_' % n), self.copy))
        H.append((lambda f: f in ('_ZN%saSERKS_' % n, '_ZN%saSEOS_' % n), self.assign))
        H.append((lambda f: f in ('_ZN%sD1Ev' % n, '_ZN%sD2Ev' % n), self.dtor))
        interp.raw_obj_hook = self.raw

    def track(self, st, r, seg, name, idx, life, tok):
        self.tracked.setdefault((r.name, seg.name), []).append((name, idx))
        st.gd[('obj', r.name, seg.name, name)] = (life, tok)

    def find(self, st, p, inst, what):
        """(key of the tracked cell or None, region) of an object access"""
        I = self.I
        s, idx, f = I.locate(st, p, self.size(p), what, inst)
        if f != 0 or s.fields.get(0, (0, ''))[1] != 'obj':
            raise Unsupported('%s of an object at a non-object location' % what)
        if p.r.kind == 'alloca':
            k = ('obj', p.r.name, s.name, 0)
            if k not in st.gd:
                st.gd[k] = (RAW, '-')
            return k
        for name, i in self.tracked.get((p.r.name, s.name), ()):
            if ('obj', p.r.name, s.name, name) in st.gd and I.eq_idx(st, i, idx):
                return ('obj', p.r.name, s.name, name)
        return None

    def size(self, p):
        for s in p.r.segs if isinstance(p, Ptr) and p.r else ():
            if s.kind == 'obj':
                return s.stride
        return 1

    def get(self, st, p, inst, what='read'):
        k = self.find(st, p, inst, what)
        return k, (st.gd[k] if k else (None, '?'))

    def writable(self, st, p, inst):
        if p.r.const:
            self.I.oblige(st, False, 'const-write', 'modifies the read-only %s' % p.r.name, inst)

    def ctor(self, I, st, inst, args):
        self.begin(st, args[0], 'new', inst)

    def begin(self, st, p, tok, inst):
        self.writable(st, p, inst)
        k, (life, old) = self.get(st, p, inst, 'construction')
        self.I.oblige(st, life in (None, RAW), 'life', 'constructs an object over a live one', inst)
        if k:
            st.gd[k] = (LIVE, tok)

    def copy(self, I, st, inst, args):
        tok = self.use(st, args[1], inst, 'copies from')
        self.begin(st, args[0], tok, inst)

    def use(self, st, p, inst, what):
        k, (life, tok) = self.get(st, p, inst)
        self.I.oblige(st, life in (None, LIVE), 'life', '%s storage that holds no live object' % what, inst)
        return tok

    def assign(self, I, st, inst, args):
        tok = self.use(st, args[1], inst, 'assigns from')
        self.writable(st, args[0], inst)
        k, (life, old) = self.get(st, args[0], inst, 'assignment')
        I.oblige(st, life in (None, LIVE), 'life', 'assigns to storage that holds no live object', inst)
        if k:
            st.gd[k] = (LIVE, tok)
        return args[0]

    def dtor(self, I, st, inst, args):
        self.writable(st, args[0], inst)
        k, (life, old) = self.get(st, args[0], inst, 'destruction')
        I.oblige(st, life in (None, LIVE), 'life', 'destroys storage that holds no live object', inst)
        if k:
            st.gd[k] = (RAW, '-')

    def raw(self, I, st, r, seg, idx, inst):
        if r.kind == 'alloca':
            k = ('obj', r.name, seg.name, 0)
            life = st.gd.get(k, (RAW, '-'))[0]
            I.oblige(st, life == RAW, 'life', 'raw write over a live object', inst)
            return
        for name, i in self.tracked.get((r.name, seg.name), ()):
            k = ('obj', r.name, seg.name, name)
            if k in st.gd and I.eq_idx(st, i, idx):
                I.oblige(st, st.gd[k][0] == RAW, 'life', 'raw write over a live object', inst)

    def locals_dead(self, st, rule='life'):
        """every local object must be destroyed at return"""
        for k, v in st.gd.items():
            if k[0] == 'obj' and k[1].startswith('%'):
                self.I.oblige(st, v[0] == RAW, rule, 'a local object is not destroyed', None)

    def state(self, st, r, seg, name):
        return st.gd[('obj', r.name, seg.name, name)]
