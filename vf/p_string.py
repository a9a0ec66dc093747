"""C11: as_string writes inside its buffer, reads inside its arguments, and terminates the text."""
import re
from . import ai
from .unit import *
from .core import check

LONGEST = {'a': 4, 'h': 3, 's': 6, 't': 5, 'i': 11, 'j': 10, 'l': 20, 'm': 20, 'x': 20, 'y': 20}
# std::to_chars(first, first + 32, value) of the library
FLOAT = {'f': 32, 'd': 32}
NUM = re.compile(r'^_ZN2ce7to_textEPc([ahstijlmxyfd])$')
ARRAYS = {'h_arr': {0: 7}, 'h_arr1': {1: 1}, 'h_marr': {0: 5, 1: 3}, 'h_mix': {2: 3}, 'h_mix2': {5: 9}}
STRINGS = {'h_cstr': (1,), 'h_cstr2': (0, 1), 'h_mix2': (4,), 'h_mstr': (0,)}
OBJECTS = {'h_thing': (0,)}


class Text(Unit):
    def __init__(self, c, src='text.cpp'):
        super().__init__(src, [], (), c, asserts=False)
        h = self.I.handlers
        h.append((lambda f: NUM.match(f) is not None, self.number))
        h.append((lambda f: f == 'vf_sink', self.sink))
        self.I.hooks['store'] = self.stored
        self.I.hooks['load'] = self.loaded
        i8 = next(t for t in self.m._tys.values() if t.kind == 'int' and t.width == 8)
        self.i8 = i8

    # the buffer is only a set of offsets: what matters is where the last character written is
    def buffer(self, r):
        return r.kind == 'alloca' and r.segs and all(z == 1 for s in r.segs for z, k in s.fields.values()) and (r.size or 0) > 1

    def stored(self, I, st, r, s, idx, f, v, ty, inst):
        if not self.buffer(r):
            return False
        st.gd['end', r.name] = isinstance(v, Int) and v.e == ZERO
        return True

    def loaded(self, I, st, r, s, idx, f, ty, inst):
        if r.kind == 'text':
            n = r.length
            if n is None:
                return Int(8, new('char', 0, 255))
            if st.cons.entails(True, idx - n):
                return Int(8, ZERO)
            if st.cons.entails(False, n - idx - 1):
                return Int(8, new('char', 1, 255))
            raise Split([[('row',) + eqr(idx, n)], [('row',) + lt(idx, n)]])
        if self.buffer(r):
            return Int(8, new('char', 0, 255))
        return None

    def number(self, I, st, i, a):
        t = NUM.match(i.callee.name).group(1)
        n = LONGEST.get(t) or FLOAT[t]
        p = a[0]
        if not isinstance(p, Ptr) or p.r is None:
            raise Unsupported('to_text into %r' % (p,))
        s = p.r.segs[0]
        ok = len(p.r.segs) == 1 and st.cons.entails(False, p.o - s.base) and st.cons.entails(False, s.count * s.stride - (p.o - s.base) - n)
        I.oblige(st, ok, 'bounds', 'a number of up to %d characters is written at offset %r of a buffer of %s' % (n, p.o, p.r.size), i)
        if self.buffer(p.r):
            st.gd['end', p.r.name] = False
        return Ptr(p.r, p.o + new('digits', 1, n))

    def sink(self, I, st, i, a):
        p = a[0]
        ok = isinstance(p, Ptr) and p.r is not None
        if ok and self.buffer(p.r):
            I.oblige(st, p.o == ZERO, 'text', 'as is not the start of the buffer', i)
            I.oblige(st, st.gd.get(('end', p.r.name), False), 'terminated', 'the text is not terminated', i)
        elif ok and p.r.kind == 'text':
            I.oblige(st, p.o == ZERO, 'text', 'as is not the argument', i)
        else:
            raise Unsupported('the text is not in a buffer: %r' % (p,))
        return None

    def text(self, name, n=None):
        """a C string of unknown length, or an array of n characters"""
        if n is None:
            L = new('length', 0, 1 << 40)
            r = Region(name, self.i8, count=L + 1, kind='text')
            r.length = L
        else:
            r = Region(name, self.i8, count=Lin(n), kind='text')
            r.length = None
        return r

    def entry(self, fn):
        F = self.m.funcs[fn]
        sts = [State()]
        for k, a in enumerate(F.args):
            reg = 'a%d' % k
            out = []
            for st in sts:
                if k in ARRAYS.get(fn, {}):
                    st.regs[reg] = Ptr(self.text('argument %d' % k, ARRAYS[fn][k]), ZERO)
                elif k in STRINGS.get(fn, ()):
                    n = st.fork()
                    n.regs[reg] = Ptr(None, ZERO)
                    out.append(n)
                    st.regs[reg] = Ptr(self.text('argument %d' % k), ZERO)
                elif k in OBJECTS.get(fn, ()):
                    st.regs[reg] = Ptr(Region('argument %d' % k, self.st(a)), ZERO)
                elif a.ty.kind == 'ptr':
                    n = st.fork()
                    n.regs[reg] = Ptr(None, ZERO)
                    out.append(n)
                    st.regs[reg] = Ptr(Region('pointee', segs=[]), ZERO)
                elif a.ty.kind == 'int' and a.ty.width == 1:
                    b = st.fork()
                    b.regs[reg] = FALSE
                    out.append(b)
                    st.regs[reg] = TRUE
                elif a.ty.kind == 'int':
                    st.regs[reg] = Int(a.ty.width, new('arg%d' % k, 0, (1 << a.ty.width) - 1))
                else:
                    st.regs[reg] = Term('fp', fn, k)
                out.append(st)
            sts = out
        self.run(fn, sts)

    def st(self, a):
        return self.ty('struct.thing')


def one(c, fns):
    u = Text(c)
    for f in fns:
        u.entry(f)
    u.done()
    c.absorb(u.I)


@check('C11', 'abstract interpretation of as_string over every kind of argument: relational offsets (libisl), string lengths, ghost terminator; number lengths by summary (decided by C10)',
       level='proof')
def c11(c):
    m = llvm.build(os.path.join(H, 'text.cpp'))
    fns = sorted(n for n in m.funcs if n.startswith('h_'))
    c.par([(one, fns[k::8]) for k in range(8)])
