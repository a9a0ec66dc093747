"""C32 (no heap, no mutable statics, no exceptions, no includes) and C33 (integer-only, address- and time-independent):
effect rules over every instruction of the library's functions."""
import os
import re
import subprocess
from . import llvm
from .unit import H
from .core import check, AnalysisError

REPO = llvm.REPO
LIB = os.path.realpath(REPO + '/lib')

HEAP = re.compile(r'^(_Zn[wa]m.*|_Zd[la]Pv.*|malloc|calloc|realloc|reallocarray|free|cfree|aligned_alloc|posix_memalign|memalign|valloc|pvalloc|strdup|strndup|'
                  r'v?asprintf|getline|getdelim|s?brk|open_memstream|fopen|fdopen|freopen|tmpfile|v?f?printf|puts|putchar|fputs|fputc|fwrite|setlocale|'
                  r'_ZNK?S[tabsiod].*basic_string.*|_ZNK?St7__cxx11.*|_ZNK?Ss.*|_ZNS[aio].*)$')
PLACEMENT = re.compile(r'^(_Zn[wa]mPv|_Zd[la]PvS_)$')
EXC = re.compile(r'^(__cxa_throw|__cxa_rethrow|__cxa_allocate_exception|_Unwind_.*|longjmp|siglongjmp)$')
STATIC = re.compile(r'^(__cxa_guard_.*|__cxa_atexit|__cxa_thread_atexit.*|atexit|__tls_.*|pthread_[gs]etspecific|pthread_once|setenv|putenv|srand|rand|random|strtok|localtime|gmtime|asctime|ctime)$')
TIME = re.compile(r'^(llvm\.readcyclecounter|llvm\.x86\.rdtsc.*|clock_gettime|gettimeofday|time|clock|rand|random|getrandom|getenv|getpid|llvm\.(thread\.pointer|frameaddress.*|returnaddress|addressofreturnaddress.*))$')
DIAG = re.compile(r'error_hook|call_log_hook|2os3log|2os5error|as_string')


def inlib(f):
    return bool(f) and os.path.realpath(f).startswith(LIB + '/')


def insts(F):
    for B in F.blocks:
        for i in B.insts:
            yield i


def home(F):
    for i in insts(F):
        if i.line:
            return i.file
    return ''


def operands(i):
    st = list(i.ops or []) + ([i.callee] if i.callee is not None else [])
    while st:
        v = st.pop()
        yield v
        st.extend(v.ops or ())


def callees(F):
    for i in insts(F):
        for v in operands(i):
            if v.k == 'func':
                yield v.name, i


def closure(m, roots, stop=lambda n: False):
    seen = {}
    work = []
    for r in roots:
        if r not in seen:
            seen[r] = None
            work.append(r)
    while work:
        n = work.pop()
        F = m.funcs.get(n)
        if F is None or F.is_decl:
            continue
        for c, i in callees(F):
            if c not in seen and not stop(c):
                seen[c] = (n, i)
                work.append(c)
    return seen


def path(seen, n):
    p = []
    while seen.get(n):
        f, i = seen[n]
        p.append('%s (%s)' % (f, i.loc()))
        n = f
    return ' <- '.join(p)


def load(src, flags=()):
    return llvm.build(src, flags, keep=lambda n: True, passes='function(sroa<modify-cfg>)')


def where(i, p=''):
    return i.loc() + ((' via ' + p) if p else '')


def effects(c, src, flags=()):
    m = load(src, flags)
    c.units.append(src + ' ' + ' '.join(flags))
    roots = [n for n, F in m.funcs.items() if not F.is_decl and inlib(home(F))]
    if not roots and not src.endswith('win32.cpp'):
        raise AnalysisError('no library function found in ' + src)
    seen = closure(m, roots)
    for n in roots:
        F = m.funcs[n]
        c.functions.add(n)
        if n.startswith('__cxx_global_var_init') or n.startswith('_GLOBAL__sub'):
            c.ob(False, 'dynamic-init', 'a library object is initialised at run time', next(insts(F)).loc())
        for i in insts(F):
            for v in operands(i):
                if v.k == 'global':
                    G = m.globals.get(v.name)
                    ok = G is None or G.const and not G.tls
                    # constants defined elsewhere are fine, variables are not
                    c.ob(ok, 'mutable-static', '%s uses the mutable object %s of static storage' % (n, v.name), i.loc())
            if i.op in ('invoke', 'landingpad', 'resume'):
                c.ob(False, 'exceptions', '%s takes part in exception handling' % n, i.loc())
            if i.op == 'call' and i.callee is not None and i.callee.k == 'asm':
                c.sites.add(i.loc())
    for n in seen:
        F = m.funcs.get(n)
        if F is not None and not F.is_decl:
            continue
        via = path(seen, n)
        i = seen[n][1] if seen[n] else None
        loc = i.loc() if i is not None else '?'
        ok = not HEAP.match(n) or PLACEMENT.match(n)
        c.ob(ok, 'heap', 'calls %s (%s)' % (n, via), loc)
        # an error exit of the C++ runtime's lock functions may throw; the library itself must not
        direct = seen[n] and inlib(home(m.funcs[seen[n][0]]))
        c.ob(not EXC.match(n) or not direct and 'mutex' in src, 'exceptions', 'calls %s (%s)' % (n, via), loc)
        c.ob(not STATIC.match(n), 'mutable-static', 'calls %s (%s)' % (n, via), loc)
    c.info['library functions'] = c.info.get('library functions', 0) + len(roots)


def no_includes(c):
    ce = LIB + '/h/ce/ce.h'
    r = subprocess.run([llvm.clang()] + llvm.BASEFLAGS + ['-fsyntax-only', '-H', '-x', 'c++', '-include', ce, '/dev/null', '-I', REPO + '/lib/h'],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('ce.h does not compile on its own: ' + r.stderr[-300:])
    inc = [l.split()[-1] for l in r.stderr.splitlines() if re.match(r'^\.+ ', l)]
    other = [x for x in inc if os.path.realpath(x) != os.path.realpath(ce)]
    c.units.append('ce.h alone (preprocessor include trace)')
    c.ob(not other, 'includes', 'ce.h includes %s' % ', '.join(other[:4]), ce)


LIBS = ['lib/os.cpp', 'lib/os_posix.cpp', 'lib/to_text.cpp', 'lib/mutex_std.cpp']


@check('C32', 'call-graph and global-reference effect rules over the LLVM IR of every library function (all templates instantiated), plus the preprocessor include trace of ce.h')
def c32(c):
    jobs = [(no_includes,), (effects, os.path.join(H, 'everything.cpp'))]
    for f in LIBS:
        if not os.path.exists(os.path.join(REPO, f)):
            raise AnalysisError('%s is gone' % f)
    import glob
    for f in sorted(glob.glob(REPO + '/lib/*.cpp')):
        if 'win32' not in f:
            jobs.append((effects, f))
    c.par(jobs)


FLOATY = ('float', 'double')


def isfp(t):
    if t is None:
        return False
    if t.kind in FLOATY or t.kind.startswith('other') and t.size:
        return True
    return any(isfp(e) for e in t.elems or ()) if t.kind in ('vec', 'struct', 'array') else False


FPOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui'}


@check('C33', 'instruction-level effect rules (no floating point, no address-, time- or environment-derived values, no undefined operands) over the call-graph closure of every geometric entry point, LLVM IR after mem2reg')
def c33(c):
    src = os.path.join(H, 'integer.cpp')
    m = load(src)
    c.units.append(src)
    roots = [n for n, F in m.funcs.items() if not F.is_decl and (n.startswith('h_') or n.startswith('_ZN2ce3cdt') or n.startswith('_ZNK2ce3cdt'))]
    seen = closure(m, roots, lambda n: DIAG.search(n))
    need = ['8z_encode', '7z_query', '6rotate', '6vector', '12insert_point', '11insert_edge', '8incircle', '6locate', '4fill', '19in_range_rr_segment', '6inside', '10ab_less_cd']
    for a in need:
        if not any(a in n for n in seen):
            raise AnalysisError('entry %s not found' % a)
    for n in seen:
        F = m.funcs.get(n)
        via = path(seen, n)
        if F is None or F.is_decl:
            loc = seen[n][1].loc() if seen[n] else '?'
            c.ob(not TIME.match(n), 'environment', 'calls %s (%s)' % (n, via), loc)
            c.ob(not re.match(r'^(llvm\.(sqrt|sin|cos|pow|exp|log|fabs|floor|ceil|fma|fmuladd|round|rint|trunc)\b.*|(sqrt|sin|cos|tan|atan2?|pow|exp|log|hypot|floor|ceil|l?l?r?round|fabs)[fl]?)$', n), 'floating-point',
                 'calls %s (%s)' % (n, via), loc)
            continue
        c.functions.add(n)
        users = {}
        for i in insts(F):
            for o in i.ops or ():
                if o.k == 'inst':
                    users.setdefault(o.id, []).append(i)
        for i in insts(F):
            fp = i.op in FPOPS or isfp(i.ty) or any(isfp(o.ty) for o in i.ops or () if o.k not in ('meta',))
            c.ob(not fp, 'floating-point', '%s computes with floating point (%s)' % (n, i.op), i.loc())
            if i.op == 'ptrtoint':
                # a pointer may only become an integer inside the difference of two pointers
                ok = all(u.op == 'sub' and all(o.k == 'inst' and def_(F, o.id) == 'ptrtoint' for o in u.ops) for u in users.get(i.id, []))
                c.ob(ok, 'address', '%s computes with the value of an address' % n, i.loc())
            if i.op == 'inttoptr':
                c.ob(False, 'address', '%s makes an address out of an integer' % n, i.loc())
            if i.op == 'call' and i.callee is not None and i.callee.k == 'asm':
                c.ob(False, 'environment', '%s contains inline assembly' % n, i.loc())
            # (parts of bit fields and of by-value results are legitimately built on top of undefined bits: and/or/insertvalue/store/phi are not uses)
            if i.op not in ('icmp', 'br', 'switch', 'select', 'gep', 'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'load'):
                continue
            for o in operands(i):
                if o.k in ('undef', 'poison'):
                    c.ob(False, 'uninitialised', '%s uses an uninitialised value' % n, i.loc())
            c.ob(True, 'uninitialised', '', i.loc())


def def_(F, id):
    for i in insts(F):
        if i.id == id:
            return i.op
    return None
