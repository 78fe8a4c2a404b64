# Registry of harnesses.
HARNESSES = []
def H(name, prop, file, num='MPQ', comps=('apron', 'itv', 'box'), desc='', tier='quick', defs={}, as_=None, **kw):
    d = dict(name=name, prop=prop, file=file, num=num, comps=list(comps), desc=desc, tier=tier, defs=dict(defs), id=as_ or name)
    d.update(kw)
    HARNESSES.append(d)

BX = dict(DI=1, DR=1)
def box(name, prop, desc, defs={}, **kw):
    d = dict(BX); d.update(defs)
    H('box_' + name, prop, 'box.c', desc=desc, defs=d, as_='box_' + name + kw.pop('suf', ''), **kw)
def K(k, **kw): return dict(KIND=k, **kw)
C1 = dict(CX=1, CB=1); C2 = dict(CX=1, CB=2)
box('order', 'B01', 'inclusion/equality/top/bottom tests')
box('meetjoin', 'B01', 'meet, join and their array versions')
box('widening', 'B01', 'widening')
box('hash', 'B01', 'hash', defs=dict(DI=0, DR=2))
RR = dict(DI=0, DR=2); II = dict(DI=2, DR=0, CI=1); PT = dict(PATS=1); P2 = dict(PATS=2); CC = dict(CX=2)
for k in (0, 1, 2):
    box('assign', 'B02', 'assignment soundness', defs=K(k, **RR, **PT), suf='_r%d' % k)
    box('assign', 'B02', 'assignment soundness (integer dimensions)', defs=K(k, **II, **P2), suf='_i%d' % k, tier='quick' if k < 2 else 'thorough')
    box('substitute', 'B02', 'substitution soundness, one dimension', defs=K(k, DI=0, DR=1, **C2), suf='_s%d' % k)
    box('substitute', 'B02', 'substitution soundness, one integer dimension', defs=K(k, DI=1, DR=0, CI=1, **C2), suf='_t%d' % k, tier='quick' if k < 2 else 'thorough')
    box('substitute', 'B02', 'substitution soundness', defs=K(k, **RR, **CC, **P2, HOW=1), suf='_r%d' % k, tier='quick' if k < 2 else 'thorough')
    box('substitute', 'B02', 'substitution soundness (integer dimensions)', defs=K(k, **II, **CC, **P2, HOW=1), suf='_i%d' % k, tier='quick' if k == 0 else 'thorough')
    box('meet_lincons', 'B03', 'meet with a linear constraint', defs=K(k, **RR, **(C1 if k == 0 else CC), **PT), suf='_r%d' % k)
    box('meet_lincons', 'B03', 'meet with a linear constraint (integer dimensions)', defs=K(k, **II, **(C1 if k == 0 else CC), **P2), suf='_i%d' % k, tier='quick' if k < 2 else 'thorough')
    box('meet_lincons', 'B03', 'meet with a linear constraint (one integer dimension)', defs=K(k, DI=1, DR=0, CI=1, **C2), suf='_t%d' % k)
    box('sat', 'B05', 'satisfaction tests', defs=K(k), suf='_k%d' % k)
box('assign_par', 'B02', 'parallel assignment', defs=K(1, **RR, **CC, **P2))
for u in (0, 1): box('assign_par3', 'B02', 'parallel %s of three dimensions' % ('substitution' if u else 'assignment'), defs=dict(DI=0, DR=3, PATS=1, SUBST=u), suf='_s' if u else '', tier='thorough' if u else 'quick')
box('assign_best', 'B02', 'best assignment / exact range')
box('bottom', 'B02', 'operations on the empty box')
box('addray', 'B02', 'time elapse', defs=RR)
box('meet_lincons', 'B03', 'meet with two linear constraints', defs=dict(KIND=0, NC=2, **RR, **CC, **P2, HOW=1), suf='_2')
box('meet_lincons_reductive', 'B03', 'meet with linear constraints is reductive', defs=dict(RR, **CC, **P2))
box('satitv', 'B05', 'interval satisfaction')
box('convert', 'B05', 'conversions')
box('of_box', 'B05', 'construction')
box('to_lincons', 'B05', 'conversion to constraints')
box('to_generator', 'B05', 'conversion to generators')
box('adddim', 'B04', 'adding and removing dimensions')
box('remdim', 'B04', 'removing dimensions')
box('permute', 'B04', 'permuting dimensions', defs=dict(DI=2, DR=2))
box('permute', 'B04', 'permuting three dimensions', defs=dict(DI=0, DR=3, PATS=2), suf='_3')
box('forget', 'B04', 'forgetting dimensions')
box('expand', 'B04', 'expanding a dimension')
box('fold', 'B04', 'folding dimensions', defs=dict(DI=1, DR=2))
B3 = dict(DI=1, DR=2, PATS=3); B3I = dict(DI=2, DR=1, PATS=3, INTB=8)
for n, p in (('order', 'B01'), ('meetjoin', 'B01'), ('widening', 'B01'), ('hash', 'B01'), ('adddim', 'B04'), ('remdim', 'B04'), ('forget', 'B04'), ('expand', 'B04'), ('fold', 'B04'), ('convert', 'B05'), ('of_box', 'B05'), ('to_lincons', 'B05'), ('to_generator', 'B05'), ('satitv', 'B05'), ('addray', 'B02'), ('assign_best', 'B02'), ('bottom', 'B02')):
    box(n, p, n + ', three dimensions', defs=B3I if n == 'fold' else B3, suf='_3')
# ---------------------------------------------------------------- octagons
def octh(name, prop, desc, defs={}, suf='', **kw):
    d = dict(DI=0, DR=2); d.update(defs)
    H('oct_' + name, prop, 'oct.c', comps=('apron', 'itv', 'octagons'), desc=desc, defs=d, as_='oct_' + name + suf, **kw)
octh('closure', 'O01', 'closure keeps the points, emptiness')
octh('closure_tight', 'O01', 'closure is strong')
octh('closure_inc', 'O01', 'incremental closure')
octh('order', 'O01', 'inclusion and equality of closed octagons', defs=dict(REPS=5), suf='_c')
octh('order', 'O01', 'inclusion and equality', defs=dict(REPS=2, OPAT=0), suf='_m', cost=50)
octh('order', 'O01', 'inclusion and equality, mixed representations', defs=dict(REPS=6, OPAT=0), suf='_x', tier='thorough')
octh('meet', 'O01', 'meet')
octh('join', 'O01', 'join of closed octagons', defs=dict(REPS=5), suf='_c')
octh('join', 'O01', 'join', defs=dict(REPS=6, OPAT=0), suf='_m')
octh('join', 'O01', 'join', suf='_all', tier='thorough')
WN = ('widening', 'widening with thresholds', 'narrowing', 'perturbation', 'binary perturbation')
for w in range(5):
    octh('widening', 'O01', WN[w] + ' (closed)', defs=dict(WK=w, REPS=5, OPAT=-3 if w in (1, 4) else 0), suf='%d_c' % w)
    octh('widening', 'O01', WN[w] + ' (unclosed)', defs=dict(WK=w, REPS=2, OPAT=-1), suf='%d_m' % w)
    octh('widening', 'O01', WN[w] + ' (closed, more shapes)', defs=dict(WK=w, REPS=5, OPAT=0), suf='%d_c2' % w, tier='thorough')
    octh('widening', 'O01', WN[w] + ' (unclosed, more shapes)', defs=dict(WK=w, REPS=2, OPAT=0), suf='%d_m2' % w, tier='thorough')
OC = dict(REPS=4, OPAT=0); OM = dict(REPS=2, OPAT=0, HOW=1); OS = dict(REPS=4, OPAT=-3)
OPS = (('assign', 'O02', 'assignment'), ('substitute', 'O02', 'substitution'), ('meet_lincons', 'O03', 'meet with a constraint'), ('sat', 'O03', 'satisfaction'), ('bound_linexpr', 'O03', 'bounds of expressions'))
for n, p, ds in OPS:
    ml = n == 'meet_lincons'
    for k in (0, 1, 2):
        octh(n, p, ds + ' (closed octagons)', defs=dict(OC, KIND=k, COEFS=3, **({} if k == 0 and not ml else dict(HOW=1))), suf='_%dc' % k, tier='thorough' if ml and k else 'quick')
        octh(n, p, ds + ' (closed octagons, more coefficients)', defs=dict(OC, KIND=k), suf='_%dc4' % k, tier='thorough')
        octh(n, p, ds + ' (unclosed octagons, more coefficients)', defs=dict(OM, KIND=k), suf='_%dm4' % k, tier='thorough')
        if ml:
            octh(n, p, ds + ' (sparse closed octagons)', defs=dict(OS, KIND=k, COEFS=3, **({} if k == 0 else dict(HOW=1))), suf='_%ds' % k)
    octh(n, p, ds + ' (unclosed octagons)', defs=dict(OM, KIND=0, COEFS=2), suf='_m')
    octh(n, p, ds + ' (integer dimensions)', defs=dict(OS if ml else OC, KIND=0, COEFS=3, DI=2, DR=0, CI=1, HOW=1), suf='_i')
for n, p in (('assign', 'O02'), ('substitute', 'O02'), ('meet_lincons', 'O03'), ('sat', 'O03'), ('bound_linexpr', 'O03')):
    octh(n, p, n + ', one dimension bounded', defs=dict(REPS=4, OPAT=-5, KIND=0, HOW=1), suf='_u')
    octh(n, p, n + ', one dimension bounded, interval coefficients', defs=dict(REPS=4, OPAT=-5, KIND=2, COEFS=5, HOW=1), suf='_u2')
    octh(n, p, n + ', any bounds of the dimensions', defs=dict(REPS=4, OPAT=-6, KIND=0, COEFS=5, HOW=1), suf='_v')
    octh(n, p, n + ', any bounds of the dimensions, interval constants', defs=dict(REPS=4, OPAT=-6, KIND=1, COEFS=4, HOW=1), suf='_v1')
    octh(n, p, n + ', any bounds of three dimensions', defs=dict(REPS=4, OPAT=-6, DR=3, KIND=0, COEFS=4, HOW=1), suf='_v3', tier='thorough')
octh('assign_par', 'O02', 'parallel assignment', defs=dict(REPS=4, OPAT=-3, COEFS=2))
octh('assign_par', 'O02', 'parallel assignment, dense octagons', defs=dict(OC, COEFS=2), suf='_d', tier='thorough')
octh('addray', 'O02', 'time elapse', defs=OC)
octh('meet_exact', 'O03', 'octagonal constraints')
octh('bound', 'O03', 'bounds of dimensions')
octh('to_lincons', 'O05', 'conversion to constraints')
octh('of', 'O05', 'construction')
octh('generators', 'O05', 'construction from generators')
octh('serialize', 'O05', 'serialization')
for n in 'forget adddim remdim permute expand fold'.split():
    octh(n, 'O04', n)
    if n != 'fold': octh(n, 'O04', n + ', one integer dimension', defs=dict(DI=1, DR=1, INTB=8, REPS=4, OPAT=-3), suf='_x')
    octh(n, 'O04', n + ', integer dimensions', defs=dict(DI=2, DR=0, INTB=8, REPS=4, OPAT=-3), suf='_i')
T3 = dict(DI=0, DR=3, REPS=5, OPAT=-4); T3I = dict(DI=1, DR=2, INTB=8, REPS=4, OPAT=-4)
for n, p in (('to_lincons', 'O05'), ('serialize', 'O05'), ('forget', 'O04'), ('adddim', 'O04'), ('remdim', 'O04'), ('permute', 'O04'), ('expand', 'O04'), ('fold', 'O04'), ('bound', 'O03'), ('meet', 'O01'), ('order', 'O01'), ('join', 'O01')):
    octh(n, p, n + ', three dimensions', defs=T3, suf='_3')
    octh(n, p, n + ', three dimensions, one integer', defs=T3I, suf='_3i')
for n, p in (('assign', 'O02'), ('substitute', 'O02'), ('meet_lincons', 'O03'), ('sat', 'O03'), ('bound_linexpr', 'O03')):
    octh(n, p, n + ', three dimensions', defs=dict(T3, KIND=0, COEFS=3, HOW=1), suf='_3')
T4 = dict(DI=0, DR=4, REPS=4, OPAT=-4); T4I = dict(DI=2, DR=2, INTB=8, REPS=4, OPAT=-4)
for n, p in (('to_lincons', 'O05'), ('forget', 'O04'), ('remdim', 'O04'), ('permute', 'O04'), ('expand', 'O04'), ('fold', 'O04'), ('bound', 'O03'), ('meet', 'O01'), ('order', 'O01'), ('join', 'O01')):
    octh(n, p, n + ', four dimensions', defs=T4 if n != 'fold' else T4I, suf='_4')
octh('assign_par', 'O02', 'parallel assignment, three dimensions', defs=dict(T3, COEFS=2), suf='_3')
# ---------------------------------------------------------------- level-0 data types, environments
def core(name, prop, desc, defs={}, suf='', **kw):
    H(name, prop, 'core.c', comps=('apron',), desc=desc, defs=defs, as_=name + suf, **kw)
core('scalar_order', 'C01', 'comparisons of scalars of all kinds')
core('scalar_set', 'C01', 'assignments of scalars')
core('scalar_set2', 'C01', 'assignments from numbers')
core('scalar_convert', 'C01', 'conversions, exact arithmetic')
core('scalar_convert', 'C01', 'conversions, rounding arithmetic', defs=dict(ROUND=1), suf='_round')
core('scalar_inv', 'C01', 'inverse of a scalar')
core('scalar_hash', 'C01', 'hash of scalars')
core('interval_order', 'C01', 'order of intervals')
core('interval_set', 'C01', 'assignments of intervals')
core('coeff_order', 'C01', 'comparisons of coefficients')
core('coeff_set', 'C01', 'assignments of coefficients')
core('linexpr_basic', 'C02', 'copy, types, minimization, reallocation')
for nt in (0, 1, 3, 11, 12):
    core('linexpr_access', 'C02', 'access in sparse expressions, %d terms' % nt, defs=dict(NT=nt), suf='_%d' % nt)
core('linexpr_dense_access', 'C02', 'access in dense expressions')
core('linexpr_equal', 'C02', 'equality')
core('linexpr_equal', 'C02', 'equality, interval coefficients', defs=dict(ITV=1), suf='_itv', tier='thorough')
core('linexpr_compare', 'C02', 'comparison')
core('linexpr_hash', 'C02', 'hash')
core('linexpr_setlist', 'C02', 'list construction')
core('linexpr_adddim', 'C04', 'adding dimensions to expressions')
core('linexpr_permute', 'C04', 'permuting dimensions of expressions')
core('linexpr_permute_long', 'C04', 'permuting dimensions of longer sparse expressions')
core('dimperm', 'C04', 'composition and inverse of permutations')
core('dimchange_invert', 'C04', 'inverse of an addition')
core('array_dims', 'C04', 'arrays of constraints and generators')
core('lincons_sat', 'C03', 'constant constraints')
core('lincons_nonconst', 'C03', 'constraints in general')
for n in 'alloc add remove lce order dimchange dimchange2 rename'.split():
    core('env_' + n, 'C05', 'environments: ' + n)
for ne in (1, 2, 3):
    core('env_lce_array', 'C05', 'common environment of %d environments' % ne, defs=dict(NE=ne), suf='_%d' % ne)
# ---------------------------------------------------------------- tree expressions
def tree(name, prop, desc, defs={}, suf='', **kw):
    H('tree_' + name, prop, 'tree.c', comps=('apron', 'itv'), desc=desc, defs=dict(dict(DI=1, DR=1), **defs), as_='tree_' + name + suf, **kw)
def S(x): return "\"%s\"" % x


R = S('r'); RND = S('udzna'); D2 = dict(DI=0, DR=2, PATS=4); I2 = dict(DI=2, DR=0, PATS=2, INTB=8); M2 = dict(DI=1, DR=1, PATS=3, INTB=8)
def E(n, **kw): return dict(CENV=n, CSTS=4, **kw) # explicit bounds and constants, the point being any
R2 = dict(DI=0, DR=2); R1 = dict(DI=0, DR=1); M1 = dict(DI=1, DR=1, INTB=8)
for n, ds in (('eval', 'evaluation: '), ('lin', 'linearization: ')):
    for q in (0, 1):
        dd = dict(QUASI=1, PT0=1) if q else {}
        if q and n == 'eval': continue
        d2 = dict(D2, **dd); m2 = dict(M2, **dd)
        if q: d2['PATS'] = m2['PATS'] = 2
        u = '_q' if q else ''
        for o, nm, w in (('+-n', 'lin', 'sums and differences'), ('*', 'mul', 'products')):
            tree(n, 'T02', ds + w, defs=dict(d2, OPS=S(o), TYPES=R, LEAF=15, KPATS=2), suf='_' + nm + u)
        tree(n, 'T02', ds + 'quotients', defs=dict(dd, **R2, **E(3), OPS=S('/'), TYPES=R, LEAF=3, LEAF2=6, KPATS=2) if q else dict(d2, OPS=S('/'), TYPES=R, LEAF=3, LEAF2=14, KPATS=2), suf='_div' + u)
        tree(n, 'T02', ds + 'powers', defs=dict(dd, OPS=S('^'), TYPES=R, LEAF=3, EXPO=4, CENV=5), suf='_pow' + u)
        tree(n, 'T02', ds + 'square roots', defs=dict(dd, OPS=S('s'), TYPES=R, LEAF=3, CENV=5), suf='_sqrt' + u)
        tree(n, 'T02', ds + 'remainders', defs=dict(dd, OPS=S('%'), TYPES=R, LEAF=1, LEAF2=4, CSTS=3), suf='_mod' + u)
        tree(n, 'T02', ds + 'rounding to integers', defs=dict(m2, OPS=S('+c'), TYPES=RND, LEAF=2, LEAF2=4), suf='_round' + u)
        if n == 'eval':
            m2['PATS'] = 1
            tree(n, 'T02', ds + 'nested operations', defs=dict(m2, OPS=S('+*'), TYPES=R, OPS2=S('-/'), SHAPE=1, LEAF=2, LEAF2=5), suf='_nest' + u)
            tree(n, 'T02', ds + 'nested operations', defs=dict(m2, OPS=S('-/'), TYPES=R, OPS2=S('+*'), SHAPE=2, LEAF=1, LEAF2=6), suf='_nest2' + u)
        else:
            tree(n, 'T02', ds + 'nested operations', defs=dict(dd, **R2, **E(2), OPS=S('+*'), TYPES=R, OPS2=S('-/'), SHAPE=1, LEAF=2, LEAF2=5), suf='_nest' + u)
            tree(n, 'T02', ds + 'nested operations', defs=dict(dd, **R2, **E(2), OPS=S('-/'), TYPES=R, OPS2=S('+*'), SHAPE=2, LEAF=1, LEAF2=6), suf='_nest2' + u)
tree('intlinear', 'T02', 'linearization of interval linear expressions', defs=dict(D2, OPS=S('+-*n'), TYPES=R), suf='_lin')
tree('intlinear', 'T02', 'linearization of nested interval linear expressions', defs=dict(D2, OPS=S('+-*n'), TYPES=R, LEAF=5, SHAPE=1), suf='_nest')
for n, ds in (('hc4', 'backward evaluation: '), ('tcons', 'linearization of constraints: '), ('subst', 'backward substitution: ')):
    t = n == 'tcons'; sb = n == 'subst'
    tree(n, 'T02', ds + 'sums and differences', defs=dict(R2, **E(2), OPS=S('+-n'), TYPES=R, LEAF=3, LEAF2=5) if sb else dict(M2, OPS=S('+-n'), TYPES=R, LEAF=3, LEAF2=7, KPATS=3), suf='_lin')
    tree(n, 'T02', ds + 'products', defs=dict(D2, OPS=S('*'), TYPES=R, LEAF=2, LEAF2=7, KPATS=2) if t else dict(R2, **E(2 if sb else 3), OPS=S('*'), TYPES=R, LEAF=2, LEAF2=7 if n == 'hc4' else 5), suf='_mul')
    tree(n, 'T02', ds + 'quotients', defs=dict(D2, OPS=S('/'), TYPES=R, LEAF=2, LEAF2=5, KPATS=2) if t else dict(R2, **E(2 if sb else 3), OPS=S('/'), TYPES=R, LEAF=2, LEAF2=5), suf='_div')
    tree(n, 'T02', ds + 'powers', defs=dict(R1, OPS=S('^'), TYPES=R, LEAF=1, EXPO=4, CENV=5), suf='_pow')
    tree(n, 'T02', ds + 'square roots', defs=dict(R1, OPS=S('s'), TYPES=R, LEAF=1, CENV=5), suf='_sqrt')
    tree(n, 'T02', ds + 'remainders', defs=dict(OPS=S('%'), TYPES=R, DI=1, DR=0, INTB=16, LEAF=1, LEAF2=4, CSTS=3, **(dict(CENV=3) if sb else dict(KPATS=2))), suf='_mod')
    tree(n, 'T02', ds + 'rounding to integers', defs=dict({**M2, **R1}, OPS=S("+c"), TYPES=RND, LEAF=1, LEAF2=4, KPATS=3), suf='_round')
    tree(n, 'T02', ds + 'rounded products and quotients', defs=dict(R1, INTB=8, OPS=S('*/'), TYPES=RND, LEAF=1, LEAF2=4, CSTS=3, **(dict(PATS=3, KPATS=2) if t else dict(CENV=3))), suf='_roundmul')
    tree(n, 'T02', ds + 'rounded powers and roots', defs=dict(R1, OPS=S('s^'), TYPES=RND, LEAF=1, EXPO=3, CENV=3), suf='_roundpow')
for n, ds in (('hc4', 'backward evaluation: '), ('tcons', 'linearization of constraints: ')):
    tree(n, 'T02', ds + 'types of constraints', defs=dict(M2, OPS=S('+*'), TYPES=R, LEAF=3, LEAF2=5, CONSOP=4), suf='_ops')
# ---------------------------------------------------------------- polyhedra
MANC = (('newpolka', 'polka'), ('newpolka', 'polkas'), ('box', 'pbox'), ('octagons', 'poct'), ('newpolka', 'pkeq'))
def poly(name, prop, desc, defs={}, suf='', **kw):
    d = dict(MAN=0, DR=2, ALG=0); d.update(defs); c, pre = MANC[d['MAN']]
    H('poly_' + name, prop, 'poly.c', comps=('apron', 'itv', c), desc=desc, defs=d, as_=pre + '_' + name + suf, **kw)
poly('repr', 'P05', 'representations')
for o, w in ((0, 'order'), (2, 'meet'), (3, 'join'), (4, 'widening')): poly('binary', 'P01', w, defs=dict(NCONS=2, BOP=o, NM=6), suf='_' + w)
poly('array', 'P01', 'meet and join of arrays', defs=dict(NCONS=1, STATES=3))
poly('meet_lincons', 'P03', 'meet with a constraint, satisfaction', defs=dict(NCONS=3, STATES=3, NE=7, NMC=1))
poly('meet_lincons', 'P03', 'meet with two constraints', defs=dict(NCONS=1, STATES=2, NE=6, NMC=2), suf='_two')
poly('bound', 'P03', 'bounds')
poly('assign', 'P02', 'assignments and substitutions')
poly('addray', 'P02', 'time elapse', defs=dict(NCONS=2, STATES=2))
poly('dims', 'P04', 'dimension changes')
poly('fold', 'P04', 'fold')
poly('of', 'P05', 'construction')
POLYC = (('strict', dict(MAN=1, MENU=1)), ('lazy', dict(ALG=-1)), ('int', dict(DI=2, DR=0, INTB=8)), ('mixed', dict(DI=1, DR=1, INTB=8)), ('3', dict(DR=3, MENU=2)), ('strictint', dict(MAN=1, MENU=1, DI=1, DR=1, INTB=8)), ('eager', dict(ALG=1)))
for s, d in POLYC:
    n = s == '3'
    poly('repr', 'P05', 'representations', defs=dict(d, NCONS=3, NM=8), suf='_' + s)
    for o, w in ((0, 'order'), (2, 'meet'), (3, 'join'), (4, 'widening')): poly('binary', 'P01', w, defs=dict(NCONS=2, BOP=o, NM=5 if n else 6, STATES=2, **d), suf='_' + w + '_' + s)
    poly('meet_lincons', 'P03', 'meet with a constraint, satisfaction', defs=dict(NCONS=2, STATES=2, NE=7, NMC=1, **d), suf='_' + s)
    poly('meet_lincons', 'P03', 'meet with two constraints', defs=dict(NCONS=1, STATES=1, NE=6, NMC=2, **d), suf='_two_' + s)
    poly('bound', 'P03', 'bounds', defs=d, suf='_' + s)
    poly('assign', 'P02', 'assignments and substitutions', defs=dict(d, STATES=2, NCONS=2), suf='_' + s)
    if 'DI' not in d: poly('addray', 'P02', 'time elapse', defs=dict(NCONS=2, STATES=2, **d), suf='_' + s)
    poly('dims', 'P04', 'dimension changes', defs=dict(d, STATES=2), suf='_' + s)
    poly('fold', 'P04', 'fold', defs=d, suf='_' + s)
    poly('of', 'P05', 'construction', defs=d, suf='_' + s)
for s, d in (('big', dict(DR=3, MENU=2, BASE=1)), ('bigstrict', dict(MAN=1, MENU=1, DR=3, BASE=1))):
    poly('repr', 'P05', 'representations', defs=dict(d, NCONS=2, NM=8), suf='_' + s)
    for o, w in ((0, 'order'), (2, 'meet'), (3, 'join'), (4, 'widening')): poly('binary', 'P01', w, defs=dict(NCONS=1, BOP=o, NM=8, STATES=2, **d), suf='_' + w + '_' + s)
    poly('meet_lincons', 'P03', 'meet with a constraint, satisfaction', defs=dict(NCONS=1, STATES=2, NE=7, NMC=1, **d), suf='_' + s)
    poly('bound', 'P03', 'bounds', defs=dict(d, NCONS=2, STATES=2), suf='_' + s)
    poly('assign', 'P02', 'assignments and substitutions', defs=dict(d, STATES=2, NCONS=1), suf='_' + s)
    poly('addray', 'P02', 'time elapse', defs=dict(NCONS=1, STATES=1, **d), suf='_' + s)
    poly('dims', 'P04', 'dimension changes', defs=dict(d, STATES=2, NCONS=1), suf='_' + s)
    poly('fold', 'P04', 'fold', defs=dict(d, NCONS=1), suf='_' + s)
for s, d in (('iv', {}), ('ivstrict', dict(MAN=1, MENU=1)), ('ivmixed', dict(DI=1, DR=1, INTB=8))):
    poly('meet_lincons', 'P03', 'meet with an interval constraint, satisfaction', defs=dict(NCONS=2, STATES=1, NE=7, NMC=1, NM=6, IVC=1, **d), suf='_' + s)
    poly('bound', 'P03', 'bounds of interval expressions', defs=dict(d, NCONS=2, IVC=1), suf='_' + s)
    poly('assign', 'P02', 'nondeterministic assignments and substitutions', defs=dict(d, STATES=2, NCONS=2, NM=6, NE=5, IVC=1), suf='_' + s)
poly('assign', 'P02', 'parallel assignments and substitutions', defs=dict(NA=2, STATES=2, NCONS=2), suf='_par')
poly('assign', 'P02', 'assignments and substitutions with a destination', defs=dict(DEST=1, STATES=2, NCONS=1, NM=6), suf='_dest')
poly('array', 'P01', 'meet and join of arrays', defs=dict(NCONS=1, STATES=2, MAN=1, MENU=1), suf='_strict')

for s, d in (('', dict(MAN=4, MENU=4)), ('_3', dict(MAN=4, MENU=3, DR=3))):
    poly('repr', 'P06', 'representations', defs=d, suf=s)
    for o, w in ((0, 'order'), (2, 'meet'), (3, 'join'), (4, 'widening')): poly('binary', 'P06', w, defs=dict(NCONS=2, BOP=o, NM=8, STATES=2, **d), suf='_' + w + s)
    poly('meet_lincons', 'P06', 'meet with constraints, satisfaction', defs=dict(NCONS=2, STATES=2, NE=5, **d), suf=s)
    poly('bound', 'P06', 'bounds', defs=d, suf=s)
    poly('assign', 'P06', 'assignments and substitutions', defs=dict(d, STATES=2), suf=s)
    poly('addray', 'P06', 'time elapse', defs=dict(NCONS=2, STATES=2, **d), suf=s)
    poly('dims', 'P06', 'dimension changes', defs=dict(d, STATES=2), suf=s)
    poly('fold', 'P06', 'fold', defs=d, suf=s)
    poly('array', 'P06', 'meet and join of arrays', defs=dict(d, NCONS=1, STATES=2), suf=s)
poly('assign', 'P06', 'parallel assignments and substitutions', defs=dict(NA=2, STATES=2, NCONS=2, MAN=4, MENU=4), suf='_par')
poly('assign', 'P06', 'assignments and substitutions with a destination', defs=dict(DEST=1, STATES=2, NCONS=1, NM=6, MAN=4, MENU=4), suf='_dest')

# deeper (thorough tier only)
for s, d in (('deep', {}), ('deepstrict', dict(MAN=1, MENU=1)), ('deepmixed', dict(DI=1, DR=1, INTB=8)), ('deep3', dict(DR=3, MENU=2))):
    T = dict(tier='thorough')
    poly('repr', 'P05', 'representations', defs=dict(d, NCONS=4, NM=12), suf='_' + s, **T)
    for o, w in ((0, 'order'), (2, 'meet'), (3, 'join'), (4, 'widening')): poly('binary', 'P01', w, defs=dict(NCONS=3, BOP=o, NM=9, STATES=3, **d), suf='_' + w + '_' + s, **T)
    poly('meet_lincons', 'P03', 'meet with constraints, satisfaction', defs=dict(NCONS=3, STATES=4, NE=7, NM=12, **d), suf='_' + s, **T)
    poly('bound', 'P03', 'bounds', defs=dict(d, NCONS=4, NM=12, NE=7), suf='_' + s, **T)
    poly('assign', 'P02', 'assignments and substitutions', defs=dict(d, NCONS=3, NM=12, NE=7), suf='_' + s, **T)
    poly('assign', 'P02', 'parallel assignments and substitutions', defs=dict(d, NCONS=2, NM=9, NE=6, NA=2), suf='_par' + s, **T)
    poly('dims', 'P04', 'dimension changes', defs=dict(d, NCONS=3, NM=12), suf='_' + s, **T)
    poly('fold', 'P04', 'fold', defs=dict(d, NCONS=3, NM=12), suf='_' + s, **T)
# ---------------------------------------------------------------- tree expressions in whole domains
def dom(name, prop, desc, defs={}, suf='', **kw):
    d = dict(MAN=2, DI=0, DR=2, INTB=8); d.update(defs); c, pre = MANC[d['MAN']]
    H('dom_' + name, prop, 'dom.c', comps=('apron', 'itv', c), desc=desc, defs=d, as_=pre + '_dom_' + name + suf, **kw)
for m in (2, 3, 0, 1, 4):
    for s, d in (('', dict(R2)), ('_mixed', dict(M1))):
        if m == 4 and s: continue
        X = dict(d, MAN=m, TYPES=R); bx = m == 2; TH = dict(tier='thorough') if m == 1 else {}
        dom('eval', 'D01', 'bounds', defs=dict(X, CENV=2, CSTS=3, INFS=2 if bx else 1, OPS=S('+-*/n'), LEAF=3, LEAF2=7), suf=s)
        dom('eval', 'D01', 'bounds, rounding to integers', defs=dict(X, CENV=2, CSTS=3, INFS=1, OPS=S('+*/'), LEAF=2, LEAF2=5, TYPES=RND), suf='_round' + s)
        dom('eval', 'D01', 'bounds, powers and roots', defs=dict(X, CENV=2, CSTS=3, INFS=1, OPS=S('^s'), LEAF=3), suf='_pow' + s)
        if bx:
            dom('lin', 'D01', 'linearization', defs=dict(X, CENV=2, CSTS=2, INFS=1, OPS=S('+-*/n'), LEAF=3, LEAF2=7), suf=s)
            dom('lincons', 'D01', 'linearization of constraints', defs=dict(X, CENV=2, CSTS=2, INFS=1, OPS=S('*/'), LEAF=1, LEAF2=7), suf=s)
        dom('meet', 'D02', 'meet', defs=dict(X, CENV=3 if bx else 2, CSTS=2, INFS=2 if bx else 1, OPS=S('+*/') if bx else S('+*'), LEAF=1, LEAF2=7), suf=s)
        dom('meet', 'D02', 'meet, rounding to integers', defs=dict(X, CENV=2, CSTS=2, INFS=1, OPS=S('+/'), LEAF=1, LEAF2=4, TYPES=S('udz'), RELS=1), suf='_round' + s)
        dom('assign', 'D02', 'assignment', defs=dict(X, CENV=2, CSTS=2, INFS=1, OPS=S('+*/'), LEAF=1, LEAF2=7), suf=s, **TH)
        dom('assign', 'D02', 'assignment, nested expressions', defs=dict(X, CENV=1, CSTS=2, INFS=1, OPS=S('*'), OPS2=S('+/'), SHAPE=1, LEAF=3, LEAF2=5, RELS=1), suf='_nest' + s)
        dom('assign', 'D02', 'assignment, rounding to integers', defs=dict(X, CENV=1, CSTS=2, INFS=1, OPS=S('+/'), LEAF=3, LEAF2=4, TYPES=S('udz'), RELS=1), suf='_round' + s)
        dom('subst', 'D02', 'substitution', defs=dict(X, CENV=2, CSTS=2, INFS=1, OPS=S('+*/'), LEAF=1, LEAF2=7), suf=s, **TH)
        dom('subst', 'D02', 'substitution, rounding to integers', defs=dict(X, CENV=1, CSTS=2, INFS=1, OPS=S('+/'), LEAF=3, LEAF2=4, TYPES=S('udz'), RELS=1), suf='_round' + s)
    for k in (1, 2): dom('quasi', 'D01', 'quasilinearization', defs=dict(CX=2, KIND=k, MAN=m, CENV=1, INFS=2, RELS=1, **R2), suf='_%d' % k, tier='quick' if m == 2 else 'thorough')
