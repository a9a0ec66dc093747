"""C34 compile-time facilities: witnesses that must (or must not) build, and value flow of get<I>."""
import os
from . import llvm
from .unit import *
from .core import check
from .p_atomic import witness

GOOD = {0: 'sequences and items', 1: 'packs, select, are_same, has, tuples, result types of get', 2: 'type traits against <type_traits>',
        3: 'counts and preprocessor utilities', 4: 'every public member of the class templates instantiates', 5: 'function templates instantiate with the stated result types',
        10: 'a true CE_STATIC_ASSERT builds'}
BAD = {6: 'CE_COUNTOF accepts a pointer', 7: 'select_t beyond the list yields a type', 8: 'enable_t<false> yields a type', 9: 'a false CE_STATIC_ASSERT builds',
       11: 'a pool whose index type cannot hold its indices builds'}


def good(c, g):
    witness(c, 'types.cpp', ['-DVF_G=%d' % g], GOOD[g])


def bad(c, g):
    fl = ['-DVF_G=%d' % g]
    c.units.append('types.cpp ' + fl[0] + ' (must not build)')
    try:
        bc = llvm.compile_bc(os.path.join(H, 'types.cpp'), fl)
        os.unlink(bc)
        c.ob(False, 'compile-fail', BAD[g], 'harness/types.cpp (VF_G=%d)' % g)
    except llvm.BuildError as e:
        c.ob(True, 'compile-fail', '', 'types.cpp')


def getters(c):
    try:
        U = Unit('types.cpp', ['-DVF_GET'], [], c)
    except llvm.BuildError as e:
        c.ob(False, 'witness', 'get<I> of a plain aggregate does not build: ' + str(e).split('error:')[-1][:200], 'lib/h/ce/ce.h')
        return
    n = 0
    for f in sorted(U.m.funcs):
        if not f.startswith('h_get_') and f != 'h_tup_1':
            continue
        n += 1
        k = int(f.split('_')[2])
        U.I.new_entry(f) if hasattr(U.I, 'new_entry') else None
        st = State()
        vs = [new('m%d' % j, 0, (1 << 32) - 1) for j in range(len(U.m.funcs[f].args))]
        for j, v in enumerate(vs):
            st.regs['a%d' % j] = Int(32, v)
        for s in U.run(f, [st]):
            U.expect(s, U.eq(s, s.ret, vs[k if f != 'h_tup_1' else 1]), 'get', '%s does not return that member' % f)
    if n < 11:
        raise AnalysisError('getters not found')
    U.done()
    c.absorb(U.I)


@check('C34', 'compile-time witnesses: static_asserts over the real headers against <type_traits>/std::make_index_sequence, explicit instantiation of the public templates, compile-fail witnesses; value flow of get<I> by abstract interpretation')
def c34(c):
    c.par([(good, g) for g in GOOD] + [(bad, g) for g in BAD] + [(getters,)])
