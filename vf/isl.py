"""ctypes binding to libisl (the polyhedral library used by gcc): the numeric
abstract domain's entailment, bound and projection operations.

A row is (eq, const, ((sym, coef), ...)): const + sum coef*sym  == 0 / >= 0.
Ranges of the symbols are given as extra rows by the caller."""
import ctypes as C

_L = None
P = C.c_void_p


def _lib():
    global _L
    if _L is None:
        for n in ('libisl.so.23', '/usr/lib/x86_64-linux-gnu/libisl.so.23', 'libisl.so'):
            try:
                _L = C.CDLL(n)
                break
            except OSError:
                pass
        if _L is None:
            raise RuntimeError('libisl not found')
    return _L


def _f(n, r, *a):
    g = getattr(_lib(), n)
    g.restype = r
    g.argtypes = list(a)
    return g


_ctx_alloc = _f('isl_ctx_alloc', P)
_space = _f('isl_space_set_alloc', P, P, C.c_uint, C.c_uint)
_space_copy = _f('isl_space_copy', P, P)
_mat = _f('isl_mat_zero', P, P, C.c_uint, C.c_uint)
_msi = _f('isl_mat_set_element_si', P, P, C.c_int, C.c_int, C.c_int)
_mval = _f('isl_mat_set_element_val', P, P, C.c_int, C.c_int, P)
_vsi = _f('isl_val_int_from_si', P, P, C.c_long)
_vchunks = _f('isl_val_int_from_chunks', P, P, C.c_size_t, C.c_size_t, P)
_vneg = _f('isl_val_neg', P, P)
_fromm = _f('isl_basic_set_from_constraint_matrices', P, P, P, P, C.c_int, C.c_int, C.c_int, C.c_int)
_empty = _f('isl_basic_set_is_empty', C.c_int, P)
_free = _f('isl_basic_set_free', P, P)
_copy = _f('isl_basic_set_copy', P, P)
_maxlp = _f('isl_basic_set_max_lp_val', P, P, P)
_vstr = _f('isl_val_to_str', P, P)
_vfree = _f('isl_val_free', P, P)
_aff0 = _f('isl_aff_zero_on_domain_space', P, P)
_affco = _f('isl_aff_set_coefficient_val', P, P, C.c_int, C.c_int, P)
_affco_si = _f('isl_aff_set_coefficient_si', P, P, C.c_int, C.c_int, C.c_int)
_afffree = _f('isl_aff_free', P, P)
_getspace = _f('isl_basic_set_get_space', P, P)
_proj = _f('isl_basic_set_project_out', P, P, C.c_int, C.c_uint, C.c_uint)
_nodivs = _f('isl_basic_set_remove_divs', P, P)
_redund = _f('isl_basic_set_remove_redundancies', P, P)
_eqm = _f('isl_basic_set_equalities_matrix', P, P, C.c_int, C.c_int, C.c_int, C.c_int)
_iqm = _f('isl_basic_set_inequalities_matrix', P, P, C.c_int, C.c_int, C.c_int, C.c_int)
_mrows = _f('isl_mat_rows', C.c_int, P)
_mget = _f('isl_mat_get_element_val', P, P, C.c_int, C.c_int)
_mfree = _f('isl_mat_free', P, P)
_viszero = _f('isl_val_is_zero', C.c_int, P)
_setmaxop = _f('isl_ctx_set_max_operations', None, P, C.c_ulong)
_resetop = _f('isl_ctx_reset_operations', None, P)
_resete = _f('isl_ctx_reset_error', None, P)
_onerr = _f('isl_options_set_on_error', C.c_int, P, C.c_int)
_libc = C.CDLL(None)
_libc.free.argtypes = [P]

_ctx = None
stats = dict(empty=0, max=0, proj=0)
MAXOPS = 300000


def ctx():
    global _ctx
    if _ctx is None:
        _ctx = _ctx_alloc()
        _onerr(_ctx, 1)  # continue
        _setmaxop(_ctx, MAXOPS)
    return _ctx


def _val(n):
    if -(1 << 62) < n < (1 << 62):
        return _vsi(ctx(), n)
    a = abs(n)
    k = (a.bit_length() + 63) // 64
    buf = (C.c_uint64 * k)(*[(a >> (64 * i)) & ((1 << 64) - 1) for i in range(k)])
    v = _vchunks(ctx(), k, 8, buf)
    return _vneg(v) if n < 0 else v


def _set(m, r, c, n):
    if -(1 << 30) < n < (1 << 30):
        return _msi(m, r, c, n)
    return _mval(m, r, c, _val(n))


class BSet:
    __slots__ = ('p', 'cols', 'n')

    def __init__(self, rows, syms):
        self.cols = {s: i for i, s in enumerate(syms)}
        n = self.n = len(syms)
        eqs = [r for r in rows if r[0]]
        iqs = [r for r in rows if not r[0]]
        c = ctx()
        E = _mat(c, len(eqs), n + 1)
        Q = _mat(c, len(iqs), n + 1)
        for k, r in enumerate(eqs):
            if r[1]:
                E = _set(E, k, n, r[1])
            for s, co in r[2]:
                E = _set(E, k, self.cols[s], co)
        for k, r in enumerate(iqs):
            if r[1]:
                Q = _set(Q, k, n, r[1])
            for s, co in r[2]:
                Q = _set(Q, k, self.cols[s], co)
        # dim types: 3 = set, 4 = div, 1 = param, 0 = cst
        self.p = _fromm(_space(c, 0, n), E, Q, 3, 4, 1, 0)

    def __del__(self):
        if self.p:
            _free(self.p)
            self.p = None

    def empty(self):
        stats['empty'] += 1
        _resetop(ctx())
        r = _empty(self.p)
        if r < 0:
            _resete(ctx())
            # out of budget: fall back to the rational relaxation
            r = 1 if self.max(()) == 'empty' else 0
        return bool(r)

    def max(self, terms):
        """rational maximum of a linear form: int floor, None (unbounded) or 'empty'"""
        stats['max'] += 1
        a = _aff0(_getspace(self.p))
        for s, co in terms:
            a = _affco(a, 2, self.cols[s], _val(co))
        _resetop(ctx())
        v = _maxlp(self.p, a)
        _afffree(a)
        if not v:
            _resete(ctx())
            return None
        q = _vstr(v)
        s = C.cast(q, C.c_char_p).value.decode()
        _libc.free(q)
        _vfree(v)
        if s == 'infty':
            return None
        if s in ('NaN', '-infty'):
            return 'empty'
        if '/' in s:
            x, y = s.split('/')
            return int(x) // int(y)
        return int(s)

    def project(self, keep):
        """rows over the kept symbols (an over-approximation without divs), or None if empty"""
        stats['proj'] += 1
        keep = [s for s in self.cols if s in keep]
        drop = [s for s in self.cols if s not in keep]
        syms = [s for s in self.cols]
        b = _copy(self.p)
        _resetop(ctx())
        # project the highest columns first so that indices stay valid
        for s in sorted(drop, key=lambda s: -self.cols[s]):
            b = _proj(b, 3, self.cols[s], 1)
        b = _nodivs(b)
        b = _redund(b)
        if not b:
            _resete(ctx())
            return []
        rem = [s for s in syms if s not in set(drop)]
        out = []
        for eq, fn in ((True, _eqm), (False, _iqm)):
            m = fn(b, 3, 4, 1, 0)
            for r in range(_mrows(m)):
                t = []
                for c_, s in enumerate(rem):
                    n = _mint(m, r, c_)
                    if n:
                        t.append((s, n))
                out.append((eq, _mint(m, r, len(rem)), tuple(sorted(t))))
            _mfree(m)
        _free(b)
        return out


def _mint(m, r, c):
    v = _mget(m, r, c)
    if _viszero(v) == 1:
        _vfree(v)
        return 0
    q = _vstr(v)
    s = C.cast(q, C.c_char_p).value.decode()
    _libc.free(q)
    _vfree(v)
    return int(s)
