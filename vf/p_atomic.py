"""C22 atomic operations, C23 mutexes: effect rules on the memory and lock operations of every path."""
import re
from . import llvm, ai
from .unit import *
from .core import check

WITNESS = re.compile(r'([^\s:]+:\d+):\d+: error: (.*)')


def witness(c, src, flags, what):
    """a translation unit that must build; every error is a violated compile-time obligation"""
    import os
    try:
        bc = llvm.compile_bc(os.path.join(H, src), list(flags))
        os.unlink(bc)
        c.ob(True, 'witness', '', src + ' ' + ' '.join(flags), what)
    except llvm.BuildError as e:
        errs = WITNESS.findall(str(e)) or [(src, str(e)[:300])]
        for loc, msg in errs[:5]:
            c.ob(False, 'witness', msg, loc, what)


RMW = {'exchange': 'xchg', 'add': 'add', 'sub': 'sub', 'xor': 'xor', 'and': 'and', 'or': 'or'}


class Atomic(Unit):
    def __init__(self, c, T, kind, V=None):
        fl = ['-DVF_T=' + T, '-DVF_KIND=%d' % kind] + (['-DVF_V=' + V] if V else [])
        super().__init__('atomic.cpp', fl, [], c)
        self.T, self.kind, self.flags = T, kind, fl
        self.sz = self.layout()[0]
        I = self.I
        I.op_atomicrmw = self.rmw
        I.op_cmpxchg = self.cas
        I.op_bitcast = lambda st, i: I.val(st, i.ops[0])
        I.op_ptrtoint = self.thru(I.op_ptrtoint)
        I.op_inttoptr = self.thru(I.op_inttoptr)
        I.op_trunc = self.thru(I.op_trunc)
        I.op_zext = self.thru(I.op_zext)
        I.op_add = self.arith('add', I.op_add)
        I.op_sub = self.arith('sub', I.op_sub)
        self.ld, self.st_ = I.op_load, I.op_store
        I.op_load = self.load
        I.op_store = self.store

    def thru(self, f):
        # a bool travels as i8/i1: the same value
        def g(st, i):
            v = self.I.val(st, i.ops[0])
            return v if isinstance(v, Term) else f(st, i)
        return g

    def arith(self, op, f):
        def g(st, i):
            a, b = [self.I.val(st, o) for o in i.ops]
            if isinstance(a, Term) or isinstance(b, Term):
                return Term(op, a, b)
            return f(st, i)
        return g

    def own(self, st, p, i):
        return isinstance(p, Ptr) and p.r is getattr(self, 'A', None)

    def place(self, st, p, i, size):
        ok = self.own(st, p, i) and st.cons.entails(True, p.o) and size == self.sz
        self.I.oblige(st, ok, 'target', 'an atomic access is not to exactly the atomic object', i)
        return ok

    def order(self, st, i, *o):
        self.I.oblige(st, all(x == 'seq_cst' for x in o), 'order', 'an atomic access is %s, not sequentially consistent' % '/'.join(o), i)

    def effect(self, st, what):
        st.gd['ev'] = st.gd.get('ev', ()) + (what,)
        if len(st.gd['ev']) > 3:
            self.I.oblige(st, False, 'single', 'the operation performs its effect more than once', self.I.cur)
            raise Infeasible()

    def observe(self, st, i, what):
        st.gd['last'] = what
        return Term('obs', what)

    def load(self, st, i):
        p = self.I.val(st, i.ops[0])
        if not self.own(st, p, i):
            return self.ld(st, i)
        if i.ordering == 'na':
            self.I.oblige(st, False, 'plain', 'the atomic object is read by a plain access', i)
            return Term('plain')
        self.place(st, p, i, i.ty.size)
        if self.op == 'load':
            self.order(st, i, i.ordering)
            self.effect(st, 'load')
        return self.observe(st, i, 'ld%d' % i.id)

    def store(self, st, i):
        p = self.I.val(st, i.ops[1])
        if not self.own(st, p, i):
            return self.st_(st, i)
        v = self.I.val(st, i.ops[0])
        if i.ordering == 'na':
            if self.op in ('ctor', 'zero'):
                return self.st_(st, i)
            self.I.oblige(st, False, 'plain', 'the atomic object is written by a plain access', i)
            return
        self.place(st, p, i, i.ops[0].ty.size)
        self.order(st, i, i.ordering)
        self.I.oblige(st, self.op == 'store' and v == self.v, 'effect', 'stores something other than the given value', i)
        self.effect(st, 'store')

    def rmw(self, st, i):
        p, v = [self.I.val(st, o) for o in i.ops[:2]]
        self.place(st, p, i, i.ops[1].ty.size)
        self.order(st, i, i.ordering)
        want = RMW.get(self.op)
        self.I.oblige(st, i.rmw == want or i.rmw == 'f' + str(want), 'effect', 'performs %s instead of %s' % (i.rmw, self.op), i)
        self.I.oblige(st, v == self.v or v == getattr(self, 'v2', None), 'effect', 'the operand of the atomic access is not the argument', i)
        self.effect(st, i.rmw)
        return self.observe(st, i, 'rmw%d' % i.id)

    def cas(self, st, i):
        p, e, n = [self.I.val(st, o) for o in i.ops[:3]]
        key = Term('cas', i.id)
        d = st.divs.get(key)
        if d is None:
            d = st.divs[key] = new('cas', 0, 1)
            self.place(st, p, i, i.ops[1].ty.size)
            self.order(st, i, i.ordering, i.ordering2)
            op = self.op
            if op == 'cas':
                self.I.oblige(st, e == self.e0 and n == self.v, 'effect', 'compares or stores the wrong value', i)
                self.I.oblige(st, not i.weak, 'weak', 'compare_exchange may fail although the values are equal', i)
            else:
                fresh_ = isinstance(e, Term) and e == Term('obs', st.gd.get('last'))
                self.I.oblige(st, fresh_, 'fresh', 'a retry does not use the value just observed', i)
                vs = [self.v, getattr(self, 'v2', self.v)]
                new_ = {'add': [('add', e, v) for v in vs] + [('add', v, e) for v in vs], 'sub': [('sub', e, v) for v in vs]}.get(op, [])
                got = n.k if isinstance(n, Term) else ()
                if got and got[0] in ('fadd', 'fsub'):
                    got = (got[0][1:],) + got[2:]
                elif got and got[0] == 'gep':
                    got = ('add', got[1], got[2])
                self.I.oblige(st, got in new_ or (op == 'exchange' and n == self.v), 'effect', 'stores something other than the observed value %s the argument' % op, i)
        ok = self.I.want(st, Cond('row', False, d - 1))
        del st.divs[key]
        if ok:
            self.effect(st, 'cas')
            st.gd['was'] = e
            return ai.Agg([e, TRUE])
        st.gd['failed'] = st.gd.get('failed', 0) + 1 if self.op == 'cas' else 1
        return ai.Agg([self.observe(st, i, 'cas%d' % i.id), FALSE])

    def one(self, op):
        fn = 'h_' + op
        F = self.m.funcs[fn]
        self.op = op
        st = State()
        A = self.A = Region('atomic', self.gty('vf_a'))
        sret = F.args and F.args[0].ty.kind == 'ptr' and len(F.args) > {'load': 1, 'store': 2, 'cas': 3, 'ctor': 2, 'zero': 1}.get(op, 2)
        if sret:
            raise Unsupported('value returned in memory')
        st.regs['a0'] = Ptr(A, ZERO)
        self.v = Term('argument')
        k = 1
        if op == 'cas':
            X = Region('expected', self.gty('vf_x'))
            st.regs['a1'] = Ptr(X, ZERO)
            self.e0 = Term('expected')
            seg = X.seg_at(0)
            if len(seg.fields) != 1:
                raise Unsupported('expected of several fields')
            st.cells[(X, seg.name, 0)] = ((ZERO, self.e0),)
            k = 2
        if op not in ('load', 'zero'):
            a = F.args[k]
            if op in ('add', 'sub') and a.ty.kind == 'int':
                x = new('argument', -(1 << (a.ty.width - 1)), (1 << (a.ty.width - 1)) - 1)
                self.v = Int(a.ty.width, x)
                self.v2 = Int(a.ty.width, x * 4)
                if self.T != 'vf_ptr':
                    self.v = self.v2 = Term('argument')
            st.regs['a%d' % k] = self.v
        for f in self.run(fn, [st]):
            ev = f.gd.get('ev', ())
            if op in ('ctor', 'zero'):
                for s, v in Arr(self, A, 0).get(f, 0):
                    zero = isinstance(v, Int) and self.eq(s, v, ZERO) or isinstance(v, Term) and 'zero' in repr(v) or isinstance(v, Ptr) and v.r is None
                    self.expect(s, v == self.v if op == 'ctor' else (zero or isinstance(v, Term) and v.k[0] != 'undef'), 'effect',
                                'the constructor stores a wrong value')
                self.expect(f, ev == (), 'single', 'the constructor has an extra effect')
                continue
            if op == 'cas':
                failed = f.gd.get('failed', 0)
                self.expect(f, len(ev) + failed == 1, 'single', 'compare_exchange makes %d attempts' % (len(ev) + failed))
                self.expect(f, self.eqb(f, f.ret, bool(ev)), 'result', 'compare_exchange reports the wrong outcome')
                for s, v in Arr(self, X, 0).get(f, 0):
                    self.expect(s, v == self.e0 if ev else v == Term('obs', f.gd.get('last')), 'result',
                                'expected is wrong after %s' % ('success' if ev else 'failure'))
                continue
            self.expect(f, len(ev) == 1, 'single', '%s performs its effect %d times' % (op, len(ev)))
            if op != 'store':
                was = f.gd['was'] if ev == ('cas',) else Term('obs', f.gd.get('last'))
                self.expect(f, f.ret == was, 'result', '%s does not return the value it observed' % op)

    def all(self):
        for op in ['load', 'store', 'exchange', 'cas', 'ctor', 'zero'] + (['add', 'sub'] if self.kind >= 2 else []) + (['xor', 'and', 'or'] if self.kind >= 3 else []):
            self.one(op)
        self.done()


TECH = 'abstract interpretation of LLVM IR with an effect rule per memory access; '


@check('C22', TECH + 'compile-time witnesses for the deleted copy operations',
       note='Value types bool, unsigned char, int, long long, an enum, float, double, pointer and an 8-byte struct; the x86-64 lowering of std::atomic by clang 18 / libstdc++. '
            'Indivisibility itself is the meaning of the LLVM atomic instructions. The MSVC variant (atomic_msvc_x86.h) is not analysed.')
def c22(c):
    for T, k, V in (('int', 3, None), ('unsigned char', 3, None), ('long long', 3, None), ('bool', 1, None), ('vf_en', 1, None),
                    ('float', 2, None), ('double', 2, None), ('vf_ptr', 2, 'long'), ('vf_pair', 1, None)):
        u = Atomic(c, T, k, V)
        u.all()
        c.absorb(u.I, skip=('termination',))
        witness(c, 'atomic.cpp', u.flags + ['-DVF_WITNESS'], T)


# ---------------------------------------------------------------- C23
LOCKS = {   # function -> (mode it needs or gives up, possible results)
    'pthread_mutex_lock': ('lock', (0,)), 'pthread_mutex_trylock': ('try', (0, 16)), 'pthread_mutex_unlock': ('unlock', (0,)),
    'pthread_rwlock_wrlock': ('lock', (0, 35)), 'pthread_rwlock_trywrlock': ('try', (0, 16)), 'pthread_rwlock_unlock': ('unlock', (0,)),
    'pthread_rwlock_rdlock': ('rlock', (0, 11, 35)), 'pthread_rwlock_tryrdlock': ('rtry', (0, 16, 11)),
    'pthread_mutex_init': ('init', (0,)), 'pthread_rwlock_init': ('init', (0,)),
    'pthread_mutex_destroy': ('end', (0,)), 'pthread_rwlock_destroy': ('end', (0,)),
    'pthread_mutex_timedlock': ('timed', (0, 110)), 'pthread_rwlock_timedwrlock': ('timed', (0, 110)), 'pthread_rwlock_timedrdlock': ('timed', (0, 110)),
    'pthread_mutex_clocklock': ('timed', (0, 110)), 'pthread_rwlock_clockwrlock': ('timed', (0, 110)), 'pthread_rwlock_clockrdlock': ('timed', (0, 110)),
}

OPS = [  # function, object, the one effect it must have, may it fail
    ('15construct_mutexERNS_12thread_mutexE', 'm', None), ('13destroy_mutexERNS_12thread_mutexE', 'm', None),
    ('17try_acquire_mutexERNS_12thread_mutexE', 'm', 'try'), ('13acquire_mutexERNS_12thread_mutexE', 'm', 'lock'),
    ('13release_mutexERNS_12thread_mutexE', 'm', 'unlock'),
    ('15construct_mutexERNS_19thread_shared_mutexE', 's', None), ('13destroy_mutexERNS_19thread_shared_mutexE', 's', None),
    ('17try_acquire_mutexERNS_19thread_shared_mutexE', 's', 'try'), ('13acquire_mutexERNS_19thread_shared_mutexE', 's', 'lock'),
    ('13release_mutexERNS_19thread_shared_mutexE', 's', 'unlock'), ('24try_acquire_mutex_sharedERNS_19thread_shared_mutexE', 's', 'rtry'),
    ('20acquire_mutex_sharedERNS_19thread_shared_mutexE', 's', 'rlock'), ('20release_mutex_sharedERNS_19thread_shared_mutexE', 's', 'unlock'),
]


class Mutex(Unit):
    def __init__(self, c):
        super().__init__('mutex.cpp', [], [], c)
        self.I.handlers += [(lambda f: f in LOCKS, self.lock), (lambda f: f.startswith('_ZSt') and 'throw' in f, self.throw)]

    def throw(self, I, st, i, a):
        raise Infeasible()       # the lock implementation refuses (deadlock): nothing was acquired and nothing returns

    def lock(self, I, st, i, a):
        name = i.callee.name
        kind, res = LOCKS[name]
        key = Term('res', i.id)
        d = st.divs.get(key)
        if d is None:
            d = st.divs[key] = new('result', 0, 200)
            I.oblige(st, isinstance(a[0], Ptr) and a[0].r is self.Q and st.cons.entails(True, a[0].o), 'target', '%s is not called on the mutex itself' % name, i)
            I.oblige(st, ('rwlock' in name) == (self.obj == 's'), 'target', '%s is the wrong kind of lock' % name, i)
        for r in res[:-1]:
            if I.want(st, Cond('and', Cond('row', False, d - r), Cond('row', False, Lin(r) - d))):
                break
        else:
            r = res[-1]
        del st.divs[key]
        st.gd['attempts'] = min(st.gd.get('attempts', 0) + (r != 11 or 'try' in kind), 3)
        ev = st.gd.get('ev', ())
        if kind in ('lock', 'rlock', 'timed') and self.want in ('try', 'rtry'):
            I.oblige(st, False, 'blocking', '%s may block in a try operation' % name, i)
        if r == 0 or kind not in ('lock', 'rlock', 'try', 'rtry', 'timed'):
            st.gd['ev'] = (ev + (kind,))[:3]
        return Int(32, Lin(r))

    def all(self):
        for fn, obj, want in OPS:
            self.obj, self.want = obj, want
            ctor = 'construct' in fn
            fn = '_ZN2ce' + fn
            if fn not in self.m.funcs:
                self.ctx.ob(False, 'target', 'the operation is not implemented', fn, fn)
                continue
            self.Q = Region('mutex', self.gty('vf_p' + obj), const=not ctor)
            st = State()
            st.regs['a0'] = Ptr(self.Q, ZERO)
            for f in self.run(fn, [st]):
                ev = f.gd.get('ev', ())
                short = fn[8:].rstrip('E')
                if want is None:
                    ok = all(e in ('init', 'end') for e in ev) and len(ev) <= 1
                    self.expect(f, ok, 'effect', '%s performs lock operations: %s' % (short, ', '.join(ev)))
                    if ctor and not ev:
                        for seg in self.Q.segs:
                            for fo, (z, k) in seg.fields.items():
                                for s, v in Arr(self, self.Q, seg.base, fo).get(f, 0) if not seg.count or (isinstance(seg.count, Lin) and seg.count.is_const() and seg.count.c == 1) else []:
                                    zero = isinstance(v, Int) and self.eq(s, v, ZERO) or isinstance(v, Ptr) and v.r is None
                                    self.expect(s, zero, 'effect', 'construction leaves part of the lock unset')
                    continue
                if want in ('try', 'rtry'):
                    self.expect(f, ev in ((), (want,)) and f.gd.get('attempts') == 1, 'effect', '%s must try exactly once to lock' % short)
                    self.expect(f, self.eqb(f, f.ret, bool(ev)), 'result', '%s does not report the outcome' % short)
                else:
                    self.expect(f, ev == (want,), 'effect', '%s must perform exactly one %s; it performs %s' % (short, want, ', '.join(ev) or 'none'))
        self.done()


@check('C23', TECH + 'compile-time witnesses for size and alignment',
       note='The std implementation on libstdc++/glibc, analysed down to the pthread calls, whose mutual exclusion is trusted. libstdc++ destroys a mutex by doing nothing, so the '
            'destroy half can only be checked for absence of other effects. The Win32 variant is not analysed.')
def c23(c):
    u = Mutex(c)
    u.all()
    c.absorb(u.I, skip=('termination',))
    witness(c, 'mutex.cpp', ['-DVF_WITNESS'], 'mutex')
