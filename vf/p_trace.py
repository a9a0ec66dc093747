"""C24, C25: the reporting macros and their default hooks, decided on the sequence of external effects.

Every path of a use of a macro is followed through the library's templates and its effects (calls of the condition,
of the arguments, of the hooks with the contents of the tables they are given, and the debugger trap) are compared
with the sequence the property prescribes, written once here as a function of the condition and the hook's answer."""
import os
from . import vg, ve, llvm
from .vg import V
from .unit import H
from .core import check

TT = '_ZN2ce7to_text'
SIZES = {'a': (8, 's'), 'h': (8, 'u'), 's': (16, 's'), 't': (16, 'u'), 'i': (32, 's'), 'j': (32, 'u'),
         'l': (64, 's'), 'm': (64, 'u'), 'x': (64, 's'), 'y': (64, 'u'), 'f': (32, 'f'), 'd': (64, 'f')}


def token(v, kind):
    """one abstract character standing for the text of a number: that of its value, whatever the type"""
    if kind == 'f':
        return vg.fn('textf', 8, v)
    return vg.fn('text', 8, (vg.sext if kind == 's' else vg.zext)(v, 72))


class Trace(ve.Evaluator):
    def __init__(self, m, **k):
        super().__init__(m, **k)
        self.merge = False
        self.calls[lambda n: n.startswith(TT)] = Trace.h_to_text
        self.calls[lambda n: n.startswith('_ZN2ce2os3log')] = Trace.h_hook
        self.calls[lambda n: n.startswith('_ZN2ce2os5error')] = Trace.h_hook
        self.calls[lambda n: n in ('vf_test', 'vf_flag', 'vf_number', 'vf_letter', 'vf_text')] = Trace.h_source
        self.calls['vf_value'] = lambda e, st, i, a: e.ev(st, ('value', a[0]))
        self.calls['strlen'] = Trace.h_strlen

    def ev(self, st, e):
        st.ev = st.ev + (e,)

    # externals
    def h_to_text(self, st, i, a):
        F = self.mod.funcs[i.callee.name]
        if not F.is_decl:
            return self.run(i.callee.name, a, st)
        k = i.callee.name[len(TT) + 3:]
        if k not in SIZES or not isinstance(a[1], V):
            raise ve.Unsupported('to_text of ' + k)
        t = token(a[1], SIZES[k][1])
        p = a[0]
        self.oob(st, p, 1, 'write')
        self.put(st, p, [t], 1)
        return ve.Ptr(p.r, vg.add(p.off, vg.const(64, 1)))

    def h_source(self, st, i, a):
        n = i.callee.name
        k = sum(1 for e in st.ev if e[0] == 'call' and e[1] == n)
        self.ev(st, ('call', n))
        return self.source(st, n, k)

    def source(self, st, n, k):
        if n == 'vf_text':
            r = self.__dict__.setdefault('_texts', {})
            if k not in r:
                r[k] = ve.Region('text%d' % k, 'in')
                r[k].nullable = True
                r[k].text = k
            return ve.Ptr(r[k])
        return vg.var((n, k), {'vf_test': 1, 'vf_flag': 1, 'vf_number': 32, 'vf_letter': 8}[n])

    def h_strlen(self, st, i, a):
        p = a[0]
        if isinstance(p, ve.Ptr) and p.r.kind == 'const':
            return vg.const(64, len(self.cstr(st, p)))
        raise ve.Unsupported('strlen')

    def cstr(self, st, p, limit=4096):
        """the characters up to the terminator; None when there is none"""
        out = []
        while len(out) < limit:
            q = ve.Ptr(p.r, vg.add(p.off, vg.const(64, len(out))))
            self.oob(st, q, 1, 'read')
            b = self.load_byte(st, q, 0)
            if not isinstance(b, V):
                self.flag(st, 'text', 'a text given to a hook has no terminator')
                raise ve.Unsupported('a text that is not initialised')
            if b.const() == 0:
                return tuple(out)
            out.append(chr(b.const()) if b.const() is not None else b)
        raise ve.Unsupported('a text without end')

    def text(self, st, p):
        if isinstance(p, ve.Ptr):
            if p.r.kind == 'null':
                return 'null'
            if getattr(p.r, 'text', None) is not None and p.off.const() == 0:
                return ('ptr', p.r.text)
            return self.cstr(st, p)
        raise ve.Unsupported('hook text %r' % (p,))

    def h_hook(self, st, i, a):
        kind = 'log' if '3log' in i.callee.name else 'error'
        n = a[1].const()
        if n is None:
            raise ve.Unsupported('hook with a symbolic count')
        p = a[2]
        tab = []
        for k in range(min(n, 64) + 1):
            row = []
            for j in range(2):
                q = ve.Ptr(p.r, vg.add(p.off, vg.const(64, 16 * k + 8 * j)))
                self.oob(st, q, 8, 'read')
                x = self.load(st, q, PT)
                if isinstance(x, ve.Undef):
                    self.flag(st, 'terminated', 'the table of the %s hook has %d entries but entry %d is not set' % (kind, n, k))
                    raise ve.Unsupported('hook table')
                row.append(self.text(st, x))
            tab.append(tuple(row))
        k = sum(1 for e in st.ev if e[0] == 'error')
        self.ev(st, (kind, a[0], n, tuple(tab)))
        if kind == 'error':
            return vg.var(('break', k), 1)

    def intrinsic(self, st, fr, i, name):
        if name in ('llvm.debugtrap', 'llvm.trap'):
            self.ev(st, ('trap',))
            return None
        return super().intrinsic(st, fr, i, name)

    def op_call(self, st, fr, i):
        if i.callee.k == 'asm':
            s = i.callee.name or ''
            if 'int ' in s or 'trap' in s or 'brk' in s:
                self.ev(st, ('trap',))
                return None
            raise ve.Unsupported('assembly')
        return super().op_call(st, fr, i)


class _P:
    kind = 'ptr'
    size = 8


PT = _P()


# ---- what the property prescribes
class Spec:
    """the prescribed effects on one analysed path: ask() takes the path's own decisions"""

    def __init__(self, e, st, want_texts):
        self.e, self.st = e, st
        self.ev = []
        self.n = {}
        self.missing = None

    def src(self, n):
        k = self.n.get(n, 0)
        self.n[n] = k + 1
        self.ev.append(('call', n))
        return self.e.source(self.st, n, k)

    def ask(self, v, what):
        r = self.e.truth(self.st, v.bits[0])
        if r is None:
            self.missing = what
            raise Missing(what)
        return r


class Missing(Exception):
    pass


def text_of(v, n):
    if n == 'vf_text':
        return ('ptr', v.r.text)
    if n == 'vf_number':
        return (token(v, 's'),)
    if n == 'vf_letter':
        return (v,)
    if n == 'vf_flag':
        return ('#', '<', vg.ite(v.bits[0], vg.const(8, ord('T')), vg.const(8, ord('F'))), '>')
    return tuple(n)          # a literal


def chars(s):
    return tuple(s)


def report(s, kind, line, cond, args, quoted):
    vals = []
    for a in args:
        vals.append((s.src(a), a) if a.startswith('vf_') else (None, a))
    tab = [(chars(kind), ('at', line)), (chars(cond), chars(', '.join(quoted)))]
    tab += [(chars('...'), text_of(v, a)) for v, a in vals]
    tab.append(('null', 'null'))
    s.ev.append(('log', 0, 2 + len(args), tuple(tab)))
    k = sum(1 for e in s.ev if e[0] == 'error')
    s.ev.append(('error', 0, 2 + len(args), tuple(tab)))
    return vg.var(('break', k), 1)


def affirm(s, kind, line, args, cond='vf_test', level=1, quoted=None):
    """the value of CE_VERIFY / CE_REJECT / CE_ASSERT"""
    v = s.src(cond)
    if level == 0:
        return v
    good = s.ask(v, 'the condition')
    if kind == 'CE_REJECT':
        if not good:
            return False
    elif good:
        return True
    quoted = quoted if quoted is not None else [a + '()' for a in args]
    b = report(s, kind, line, cond + '()', args, quoted)
    if s.ask(b, 'the answer of the error hook'):
        s.ev.append(('trap',))
    return kind == 'CE_REJECT'


def asked(kind, *args):
    def f(s, line, level):
        v = affirm(s, kind, line, args, level=level)
        if kind != 'CE_ASSERT':
            s.ev.append(('value', v))
    return f


def error(*args, quoted=None):
    def f(s, line, level):
        report(s, 'CE_ERROR', line, '', args, quoted if quoted is not None else [a + '()' for a in args])
        s.ev.append(('trap',))
    return f


def twice(s, line, level):
    a = affirm(s, 'CE_VERIFY', line, (), level=level)
    if level == 0:
        a = s.ask(a, 'the condition')
    if not a:
        return
    b = affirm(s, 'CE_VERIFY', line, (), cond='vf_flag', level=level)
    if level == 0:
        b = s.ask(b, 'the condition')
    if b:
        s.ev.append(('value', True))


def branch(s, line, level):
    a = affirm(s, 'CE_REJECT', line, (), level=level)
    if level == 0:
        a = s.ask(a, 'the condition')
    s.ev.append(('value', a))


MACROS = {
    'verify0': asked('CE_VERIFY'), 'verify1': asked('CE_VERIFY', 'vf_number'), 'verify2': asked('CE_VERIFY', 'vf_text', 'vf_letter'),
    'reject0': asked('CE_REJECT'), 'reject1': asked('CE_REJECT', 'vf_text'),
    'assert0': asked('CE_ASSERT'), 'assert1': asked('CE_ASSERT', 'vf_letter'),
    'assert3': asked('CE_ASSERT', 'vf_number', 'vf_flag', 'vf_text'),
    'error0': error(), 'error1': error('vf_text'), 'error2': error('no', 'vf_number', quoted=['"no"', 'vf_number()']),
    'twice': twice, 'branch': branch,
}


def log(level, name, *pairs, before=0):
    """pairs: (key, source) in order; a source is a call, a literal, or ('use', k, calls) for the k-th letter"""
    def f(s, line, on):
        for _ in range(before):
            s.src('vf_letter')
        if not on:
            return
        rows = []
        for key, srcs, pick in pairs:
            vs = [s.src(x) for x in srcs]
            rows.append((key, srcs, pick, vs))
        letters = lambda k: s.e.source(s.st, 'vf_letter', k)
        tab = [(chars('$'), chars(name))]
        for key, srcs, pick, vs in rows:
            tab.append((chars(key), (letters(pick),) if isinstance(pick, int) else text_of(vs[0], srcs[0]) if pick is None else pick(s, vs)))
        tab.append(('null', 'null'))
        s.ev.append(('log', level, 1 + len(pairs), tuple(tab)))
    return f


def lit(quoted, text):
    return (quoted, [], lambda s, vs: chars(text))


N, L, T, B = ['vf_number'], ['vf_letter'], ['vf_text'], ['vf_flag']
LOGS = {'log_' + n: log(k, n, ('vf_number()', N, None)) for k, n in
        enumerate(('fatal', 'error', 'warn', 'note', 'info', 'debug', 'spam', 'more'))}
LOGS.update({
    'log_custom': log(7, 'custom', ('vf_number()', N, None)),
    'log_0': log(4, 'info'),
    'log_3': log(4, 'info', ('vf_text()', T, None), ('vf_letter()', L, None), ('vf_number()', N, None)),
    'log_5': log(2, 'warn', ('vf_number()', N, None), ('vf_letter()', L, None), ('vf_flag()', B, None), ('vf_text()', T, None),
                 ('vf_number()', N, None)),
    'log_nested': log(3, 'note', ("two(vf_letter(), 'x')", L, 0), ('vf_letter()', L, 1)),
    'log_quote': log(3, 'note', ('txt("a,b", vf_letter())', L, 0), ("two(vf_letter(), ',')", L, 1), ('vf_letter()', L, 2)),
    'log_escape': log(3, 'note', ('txt("a\\"," , vf_letter())', L, 0), ("two(vf_letter(), '\\'')", L, 1),
                      ('txt("),\\\\", vf_letter())', L, 2), ('vf_letter()', L, 3)),
    'log_index': log(3, 'note', ("a[two(1, 'x')]", [], 1), ('pair_of{ vf_letter(), a[0] }.c', L, 2), ('(vf_letter(), a[1])', L, 1), before=2),
    'log_literal': log(3, 'note', lit('"),("', '),('), lit("'\"'", '"'), ('vf_letter()', L, 0), lit("','", ','), lit('"\'"', "'"),
                       lit('"\\\\"', '\\'), lit('"[{"', '[{'), lit("'\\\\'", '\\'), lit('")"', ')'), ('vf_letter()', L, 1)),
    'log_trail': log(3, 'note', ('vf_letter()', L, 0), lit('"a\\\\\\", b\\\\"', 'a\\", b\\'), ('vf_letter()', L, 1)),
    'log_space': log(3, 'note', ('vf_letter()', L, 0), ('vf_letter ( )', L, 1)),
    'msg_1': log(4, 'info', ('$msg', T, None)),
    'msg_3': log(1, 'error', ('$msg', L + N, lambda s, vs: (vs[0], token(vs[1], 's'), '!', '!'))),
})


def lines():
    out = {}
    for n, l in enumerate(open(os.path.join(H, 'trace.cpp')), 1):
        if l.startswith('FN vf_'):
            out[l[6:].split('(')[0]] = n
    return out


def is_at(t, line):
    if not isinstance(t, tuple) or any(isinstance(x, V) for x in t):
        return False
    return ''.join(t).endswith('/trace.cpp(%d)' % line)


def show(t):
    if t == 'null':
        return 'null'
    if isinstance(t, tuple) and t and t[0] == 'ptr':
        return 'the C string argument'
    if isinstance(t, tuple) and t and t[0] == 'at':
        return 'the file and line'
    return '"%s"' % ''.join(x if isinstance(x, str) else '%' for x in t)


def same_text(e, st, got, want):
    if isinstance(want, tuple) and len(want) == 2 and want[0] == 'at':
        return is_at(got, want[1])
    if got == want:
        return True
    return isinstance(got, tuple) and isinstance(want, tuple) and len(got) == len(want) and 'ptr' not in (got[:1] + want[:1]) and all(
        same_char(e, st, a, b) for a, b in zip(got, want))


def same_char(e, st, a, b):
    """equal on this path"""
    a, b = [vg.const(8, ord(x)) if isinstance(x, str) and len(x) == 1 else x for x in (a, b)]
    if a == b:
        return True
    return isinstance(a, V) and isinstance(b, V) and all(x == y or e.truth(st, x ^ y) is False for x, y in zip(a.bits, b.bits))


def tell(e):
    if e is None:
        return 'nothing'
    return {'call': lambda: 'the evaluation of %s()' % e[1], 'log': lambda: 'a call of the log hook', 'error': lambda: 'a call of the error hook',
            'trap': lambda: 'the debugger trap', 'value': lambda: 'the result'}[e[0]]()


def differs(e, st, got, want):
    """first difference of two effect sequences, or None; argument evaluations between two other effects are unordered"""
    def norm(evs):
        out, run = [], []
        for x in evs:
            if x[0] == 'call':
                run.append(x)
            else:
                out += sorted(run, key=repr) + [x]
                run = []
        return out + sorted(run, key=repr)
    got, want = norm(got), norm(want)
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None
        w = want[k] if k < len(want) else None
        if g is None or w is None or g[0] != w[0] or (g[0] == 'call' and g != w):
            return '%s where %s is prescribed' % (tell(g), tell(w))
        if g[0] == 'value':
            if isinstance(w[1], bool):
                t = e.truth(st, g[1].bits[0])
                if t is None or t != w[1]:
                    return 'the result is not the truth of the condition'
            elif vg.trunc(g[1], 1) != w[1]:
                return 'the result is not the truth of the condition'
        if g[0] in ('log', 'error'):
            if g[1].const() != w[1] & 0xffffffff:
                return 'the %s hook gets level %s instead of %d' % (g[0], g[1].const(), w[1])
            if g[2] != w[2]:
                return 'the %s hook gets %d entries instead of %d' % (g[0], g[2], w[2])
            for j, (a, b) in enumerate(zip(g[3], w[3])):
                for q in (0, 1):
                    if not same_text(e, st, a[q], b[q]):
                        return 'entry %d of the %s hook has %s %s instead of %s' % (j, g[0], ('name', 'text')[q], show(a[q]), show(b[q]))
    return None


def judge(c, m, table, level, tag, on=True):
    at = lines()
    for n, spec in table.items():
        f = 'vf_' + n
        if f not in m.funcs:
            continue
        vg.reset()
        e = Trace(m)
        loc = '%s:%d' % ('harness/trace.cpp', at[n])
        name = '%s%s' % (n, tag)
        try:
            rets = e.run(f, [])
        except ve.Unsupported as x:
            for u in e.ub:
                c.ob(False, u[0], '%s: %s' % (name, u[1]), u[2], f)
            if not e.ub:
                c.incomplete.append('%s: %s' % (name, x))
            continue
        c.functions.add(name)
        seen = 0
        for st, _ in rets:
            s = Spec(e, st, None)
            try:
                spec(s, at[n], level)
            except Missing as x:
                c.ob(False, 'decides', '%s: the effects do not depend on %s' % (name, x), loc, f)
                continue
            d = differs(e, st, st.ev, s.ev)
            c.ob(d is None, 'effects', '%s: %s' % (name, d), loc, f)
            seen += 1
        if not seen and not rets:
            c.incomplete.append('%s: no path returns' % name)


CONF = (((), ''), (('-U__clang__',), ' (gcc branch)'))


@check('C24', 'effect-sequence analysis of every use shape of the macros: all paths, prescribed sequence of evaluations, hook calls with table contents, and traps', level='proof')
def c24(c):
    for flags, tag in CONF:
        for level in (1, 0):
            fl = list(flags) + ([] if level else ['-DCE_USER_ERROR_LEVEL=0', '-DVF_ERR0'])
            m = llvm.build(os.path.join(H, 'trace.cpp'), fl)
            c.units.append('trace.cpp ' + ' '.join(fl))
            t = dict(MACROS)
            if not level:
                t = {k: v for k, v in t.items() if not k.startswith('error')}
            judge(c, m, t, level, tag + ('' if level else ' (error level 0)'))
    default_hooks(c, ('error',))


@check('C25', 'effect-sequence analysis of every logging macro shape and of the default hooks (loop induction over the entries)', level='proof')
def c25(c):
    for flags, tag in CONF:
        for level in (1, 0):
            fl = list(flags) + ([] if level else ['-DCE_USER_LOG_LEVEL=0'])
            m = llvm.build(os.path.join(H, 'trace.cpp'), fl)
            c.units.append('trace.cpp ' + ' '.join(fl))
            judge(c, m, LOGS, level, tag + ('' if level else ' (logging disabled)'))
    default_hooks(c, ('log',))


# ---- the default hooks
class Hook(Trace):
    """the default hooks over a table of symbolic texts"""

    def __init__(self, m):
        super().__init__(m)
        self.calls['_ZN2ce2os9debug_outEPKc'] = Hook.h_out
        self.loop_hook = Hook.loop
        self.inside = set()
        self.K = vg.zext(vg.var('k', 20), 32)
        self.uniform = []
        self.decide = self.dec

    def dec(self, st, pred, a, b):
        p = vg.icmp(pred, a, b)
        return self.truth(st, p)

    def h_out(self, st, i, a):
        p = a[0]
        if isinstance(p, ve.CondPtr):
            raise ve.Unsupported('text chosen by a condition')
        if isinstance(p, ve.Ptr) and p.r.kind == 'in' and getattr(p.r, 'addr', None) is not None and p.off.const() == 0:
            self.ev(st, ('out', ('entry', p.r.addr)))
        else:
            for x in self.cstr(st, p) if not (isinstance(p, ve.Ptr) and p.r.kind == 'null') else ():
                self.ev(st, ('out', x))

    def on_access(self, st, p, n, write):
        if p.r.name == 'argv':
            if write:
                self.flag(st, 'writes', 'the hook writes into the table it is given')
            self.ev(st, ('read', p.off, n))

    def loop(self, F, fr, h, st, stops):
        if (fr, h) in self.inside:
            return None
        self.inside.add((fr, h))
        try:
            return self.induct(F, fr, h, st, stops)
        finally:
            self.inside.discard((fr, h))

    def induct(self, F, fr, h, st, stops):
        for _ in range(10):
            it = self.exec(F, fr, h, None, st.copy(), stops | {h}, True)
            back = [o for o in it if o[0] == 'at' and o[2] == h]
            outs = [o for o in it if o not in back]
            if outs or len(back) != 1:
                break
            st = back[0][1]         # this iteration is always run: look at the next one
        if not outs or not back:
            return None
        if len(back) != 1:
            raise ve.Unsupported('an iteration with several outcomes')
        s1 = back[0][1]
        if not any(isinstance(p, frozenset) for p in s1.pc[len(st.pc):]):
            return None
        phis = [(fr, i.id, i) for i in F.blocks[h].insts if i.op == 'phi']
        sk = s1.copy()
        # local scratch objects that an iteration rewrites hold nothing a later iteration may rely on
        scratch = changed(st.mem, s1.mem)
        if any(r.kind != 'local' for r in scratch):
            raise ve.Unsupported('a loop that changes memory')
        for r in scratch:
            sk.mem[r] = {}
        nxt = {}
        for f, d, i in phis:
            a, b = st.regs[(f, d)], s1.regs[(f, d)]
            if isinstance(a, V) and isinstance(b, V):
                step = vg.sub(b, a)
                if step.const() is None:
                    raise ve.Unsupported('a loop variable without a constant step')
                k = vg.zext(vg.trunc(self.K, 20), b.w) if b.w >= 32 else vg.trunc(self.K, b.w)
                m = lambda j, b=b, step=step, k=k: vg.add(b, vg.mul(vg.add(k, vg.const(b.w, j)), step))
                sk.regs[(f, d)] = m(0)
                nxt[(f, d)] = m(1)
            elif isinstance(a, ve.Ptr) and isinstance(b, ve.Ptr) and a.r is b.r:
                step = vg.sub(b.off, a.off)
                k = vg.zext(vg.trunc(self.K, 20), 64)
                sk.regs[(f, d)] = ve.Ptr(b.r, vg.add(b.off, vg.mul(k, step)))
                nxt[(f, d)] = ve.Ptr(b.r, vg.add(b.off, vg.mul(vg.add(k, vg.const(64, 1)), step)))
            else:
                nxt[(f, d)] = b
        sk.ev = ()
        n = len(sk.pc)
        it = self.exec(F, fr, h, None, sk, stops | {h}, True)
        back = [o for o in it if o[0] == 'at' and o[2] == h]
        exits = [o for o in it if o not in back]
        if len(back) != 1:
            raise ve.Unsupported('an iteration with several outcomes')
        b = back[0][1]
        for k, v in nxt.items():
            if b.regs[k] != v:
                raise ve.Unsupported('a loop variable that does not progress evenly')
        if changed(sk.mem, b.mem) - scratch:
            raise ve.Unsupported('a loop that changes memory')
        conds = b.pc[n:]
        rep = ('rep', conds, b.ev)
        for o in exits:
            o[1].ev = s1.ev + (rep,) + o[1].ev
        return outs + exits


def changed(a, b):
    return {r for r in set(a) | set(b) if a.get(r) != b.get(r)}


LV = [('negative', lambda: vg.vec(list(vg.var('l', 31).bits) + [vg.ONE]), 0)] + [
    (str(k), lambda k=k: vg.const(32, k), k) for k in range(8)] + [
    ('of %d bits' % (j + 1), lambda j=j: vg.vec(list(vg.var('l', j).bits) + [vg.ONE] + [vg.NIL] * (31 - j)), 7) for j in range(3, 31)]


def argv_text(i, j):
    """the text in entry i, column j (i: 64-bit value or number)"""
    if isinstance(i, int):
        i = vg.const(64, i)
    off = vg.add(vg.mul(i, vg.const(64, 16)), vg.const(64, 8 * j))
    return vg.concat([vg.mem_byte('argv', vg.add(off, vg.const(64, b))) for b in range(8)])


def fresh():
    vg.reset()
    vg.INT = True


def run_hook(c, m, kind, level, argc, table=True):
    e = Hook(m)
    f = [n for n in m.funcs if n.startswith('_ZN2ce2os' + ('3log' if kind == 'log' else '5error'))]
    if len(f) != 1 or m.funcs[f[0]].is_decl:
        c.incomplete.append('default %s hook not found' % kind)
        return None, [], '?'
    r = ve.Region('argv', 'in')
    r.init = None
    e.argv = r
    loc = ve_loc(m, f[0])
    c.functions.add(f[0])
    try:
        rets = e.run(f[0], [level, argc, ve.Ptr(r) if table else ve.NULL])
    except ve.Unsupported as x:
        for u in e.ub:
            c.ob(False, u[0], 'default %s hook: %s' % (kind, u[1]), u[2], f[0])
        if not e.ub:
            c.incomplete.append('default %s hook: %s' % (kind, x))
        return e, [], loc
    for u in e.ub:
        c.ob(False, u[0], 'default %s hook: %s' % (kind, u[1]), u[2], f[0])
    return e, rets, loc


def ve_loc(m, f):
    for b in m.funcs[f].blocks:
        for i in b.insts:
            if i.loc() != '?':
                return i.loc()
    return '?'


def stream(ev):
    return [x[1] for x in ev if x[0] == 'out']


def want_log(level, n):
    s = list('FEWNIDSM'[level] + ': {')
    for i in range(n):
        s += list((', ' if i else ' ') + '"') + [('entry', argv_text(i, 0))] + list('": "') + [('entry', argv_text(i, 1))] + ['"']
    return s + list(' }\n')


def want_error(n):
    """location, condition and every extra argument's text in order"""
    s = list('******** FAILED ********\n')
    if n < 2:
        return s
    t = lambda i, j: [('entry', argv_text(i, j))]
    s += t(0, 1) + list(': ') + t(0, 0) + list(': ') + t(1, 0) + list(': (') + t(1, 1) + list(') = (')
    for i in range(2, n):
        s += list(', ' if i > 2 else '') + t(i, 1)
    return s + list(')\n')


def brief(s):
    return ''.join(x if isinstance(x, str) else '<entry>' if isinstance(x, tuple) else '%' for x in s)


def flat(s):
    return [vg.const(8, ord(x)) if isinstance(x, str) else x for x in s]


def default_hooks(c, which):
    m = llvm.build(llvm.REPO + '/lib/os.cpp')
    c.units.append('lib/os.cpp')
    for kind in which:
        name = 'default %s hook' % kind
        # any level
        fresh()
        for tag, mk, row in LV:
            lv = mk()
            for n in (0, 3) if kind == 'error' else (1,):
                e, rets, loc = run_hook(c, m, kind, lv, vg.const(32, n))
                for st, v in rets:
                    if kind == 'log':
                        c.ob(flat(stream(st.ev)) == flat(want_log(row, 1)), 'output', '%s, level %s: writes %s instead of %s' % (
                            name, tag, brief(stream(st.ev)), brief(want_log(row, 1))), loc, name)
                    else:
                        want = tag == '0'
                        t = v.const() if isinstance(v, V) else None
                        c.ob(t is not None and (t & 1) == want, 'break', '%s, level %s: %s where %s is prescribed' % (
                            name, tag, 'a break' if t else 'no break' if t == 0 else 'an undecided answer', 'a break' if want else 'no break'), loc, name)
        # every number of entries: small numbers exactly, and one general iteration
        for n in range(0, 6):
            fresh()
            e, rets, loc = run_hook(c, m, kind, vg.const(32, 4), vg.const(32, n))
            for st, v in rets:
                if kind == 'log':
                    c.ob(flat(stream(st.ev)) == flat(want_log(4, n)), 'output', '%s, %d entries: writes %s instead of %s' % (
                        name, n, brief(stream(st.ev)), brief(want_log(4, n))), loc, name)
                else:
                    c.ob(flat(stream(st.ev)) == flat(want_error(n)), 'output', '%s, %d entries: writes %s instead of %s' % (
                        name, n, brief(stream(st.ev)), brief(want_error(n))), loc, name)
                for x in st.ev:
                    if x[0] == 'read':
                        o = x[1].const()
                        c.ob(o is not None and o < 16 * n, 'reads', '%s, %d entries: reads the table at offset %s' % (name, n, o), loc, name)
        fresh()
        argc = vg.zext(vg.var('argc', 20), 32)
        e, rets, loc = run_hook(c, m, kind, vg.const(32, 4), argc)
        reps = 0
        for st, v in rets:
            for x in st.ev:
                if x[0] == 'read':
                    o = x[1].const()
                    ok = o is not None and known_less(e, st, vg.const(32, o // 16), argc)
                    c.ob(ok, 'reads', '%s: reads entry %s of the table without knowing that it was given' % (name, o // 16 if o is not None else '?'), loc, name)
            for x in st.ev:
                if x[0] != 'rep':
                    continue
                reps += 1
                body(c, e, x, argc, name, loc)
        if rets and not reps:
            c.incomplete.append('%s: no general iteration found' % name)
        if kind == 'error':
            fresh()
            e, rets, loc = run_hook(c, m, kind, vg.const(32, 0), vg.zext(vg.var('argc', 20), 32), table=False)
            for st, v in rets:
                c.ob(isinstance(v, V) and v.const() == 1, 'break', name + ': no break at level 0 without a table', loc, name)


def known_less(e, st, a, b):
    """is a < b (both non-negative) on this path?  a is a number"""
    n = a.const()
    if n is None:
        return any(p == vg.ONE or e.truth(st, p) for p in (vg.slt(a, b), vg.ult(a, b)))
    # every value of b up to a is ruled out: by an ordering, or one by one
    for k in range(n + 1):
        at = vg.const(32, k)
        if any(e.truth(st, p) for p in (vg.slt(at, b), vg.ult(at, b))):
            continue
        if e.truth(st, vg.eq(at, b)) is False:
            continue
        if any(e.truth(st, q(vg.const(32, j), b)) for j in range(k, n + 4) for q in (vg.slt, vg.ult)):
            continue
        if any(e.truth(st, q(b, vg.const(32, j + 1))) is False for j in range(k, n + 4) for q in (vg.slt, vg.ult)):
            continue
        return False
    return True


def body(c, e, rep, argc, name, loc):
    """one general iteration: it runs exactly while its entry exists, and its effects are linear in its number"""
    _, conds, ev = rep
    reads = [x[1] for x in ev if x[0] == 'read']
    idx = set()
    K = vg.zext(vg.var('k', 20), 64)
    for o in reads:
        hit = None
        for i in range(0, 4):
            d = vg.sub(o, vg.mul(vg.add(K, vg.const(64, i)), vg.const(64, 16))).const()
            if d is not None and 0 <= d < 16:
                hit = i
                break
            e32 = vg.add(vg.trunc(K, 32), vg.const(32, i)).bits
            wide = [vg.vec(list(e32) + [top] * 32) for top in (e32[-1], vg.NIL)]
            if d is None and any(o.bits == vg.add(vg.mul(y, vg.const(64, 16)), vg.const(64, x)).bits for x in (0, 8) for y in wide):
                hit = i
                break
        if hit is None:
            d = vg.sub(o, vg.mul(K, vg.const(64, 16))).const()
            c.ob(False, 'reads', '%s: reads the table at an offset that is not that of its entry' % name, loc, name)
        else:
            idx.add(hit)
    if len(idx) != 1:
        c.incomplete.append('%s: the general iteration uses %d entries' % (name, len(idx)))
        return
    i = idx.pop()
    me = vg.add(vg.zext(vg.var('k', 20), 32), vg.const(32, i))
    good = set()
    for a, b in ((me, argc), (vg.sext(me, 64), vg.sext(argc, 64)), (vg.zext(me, 64), vg.zext(argc, 64))):
        good |= {vg.slt(a, b), vg.ult(a, b), vg.eq(a, b) ^ vg.ONE}
        s = vg.const(a.w, 16)
        good.add(vg.eq(vg.mul(a, s), vg.mul(b, s)) ^ vg.ONE)
    ok = len(conds) == 1 and conds[0] in good
    if not ok:
        w = None
        for p in map(vg.Point, ve.points(7, 400)):
            x, y = p.value(me), p.value(argc)
            got = all(p.poly(q) for q in conds)
            if x <= y and bool(got) != (x < y):
                w = (x, y)
                break
        if w:
            c.ob(False, 'reads', '%s: with %d entries the iteration for entry %d %s' % (name, w[1], w[0], 'is run' if w[0] >= w[1] else 'is not run'), loc, name)
        else:
            c.incomplete.append('%s: the condition of the iteration is not recognised' % name)
    else:
        c.ob(True, 'entry', '', loc, name)
    for x in ev:
        if x[0] == 'rep':
            c.incomplete.append('%s: nested loop' % name)
