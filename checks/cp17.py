"""P17: invalid arguments are rejected before anything is written; documented valid ones are accepted."""
from api import *
from cp06 import SymI
from cp08 import SymU
from cp09 import NP
from cp10 import gt
from harness import Arg
import itertools
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of the argument checks of all public functions (frame: nothing is written), symbolic in the remaining arguments; compiled calls over the documented combinations'
NOTE = 'Per invalid argument: all other scalars symbolic (number of samples symbolic where no loop precedes the check, otherwise listed sizes); unknown option values as one symbolic integer outside the enumeration. Acceptance: executed combinations (bounded).'
SOURCES = ['fnft_nsev', 'fnft_kdvv', 'fnft_manakovv', 'fnft_nsep', 'fnft_nsev_inverse', 'nse_disc', 'kdv_disc', 'manakov_disc', 'akns_disc', 'nse_fscatter', 'kdv_fscatter', 'manakov_fscatter', 'akns_fscatter', 'poly_fmult', 'misc', 'fft_wrapper', 'kiss_fft.c']
ARGS = {'nsev': 'D q T M cs XI K bs nc kappa opts', 'kdvv': 'D q T M cs XI K bs nc opts', 'manakovv': 'D q1 q2 T M cs XI K bs nc kappa opts',
        'nsep': 'D q T phase K main M aux sheet kappa opts', 'nsev_inverse': 'M cs XI K bs nc D q T kappa opts'}
SLOW = {'nsev': [n for n in ALL if n not in DEG], 'manakovv': ['BO', 'CF4_2']}


class Bad(Opts):
    """options with one field outside its enumeration (any value)"""
    def __init__(s, tr, field, **kw):
        Opts.__init__(s, tr, **kw)
        s.field = field
        s.known = set(enum(FAM[tr]).values()) if field == 'discretization' else set(ename(tr, EN[field]).values())
        o, sz, k = layout(tr)[1][field]
        v = next(x for x in (2 ** 32 - 1, 1000, 77) if x not in s.known)
        s.a = s.a.copy(); s.a[o:o + 4] = np.frombuffer(v.to_bytes(4, 'little'), np.uint8)
    def sym(s, e, st):
        from engine import z3of
        r = Opts.sym(s, e, st)
        x = e.newint(st, 'unknown', 0, 2 ** 32 - 1)
        for k in s.known: e.assume_int(st, z3of(x) != k % (1 << 32))
        st.wobj(r[0].o).cells[layout(s.tr)[1][s.field][0]] = (x, 4)
        return r


def base(tr, D=None, **kw):
    """admissible arguments; every pointer is read-only so that any write is a frame violation"""
    symD = D is None
    d = dict(D=SymU('D', 2, 2 ** 32, 5) if symD else U(D), T=Arr('T', 2, 'd'), kappa=I(1), opts=kw.pop('opts', None) or Opts(tr, **kw))
    n = 16
    if tr == 'nsev_inverse':
        d.update(M=U(D), cs=Arr('cs', D), XI=Arr('XI', 2, 'd'), K=U(2), bs=Arr('bs', 2), nc=Arr('nc', 2), q=Arr('q', D))
    elif tr == 'nsep':
        d.update(q=Arr('q', D or n), phase=F('phase'), K=Arr('K', 1, 'u', init=[4]), main=Arr('main', 8), M=Arr('M', 1, 'u', init=[4]), aux=Arr('aux', 8), sheet=Null())
    else:
        d.update(M=SymU('M', 1, 2 ** 32, 3) if symD else U(3), cs=Arr('cs', 64), XI=Arr('XI', 2, 'd'), K=Arr('K', 1, 'u', init=[2]), bs=Arr('bs', 2), nc=Arr('nc', 8))
        if tr == 'manakovv': d.update(q1=Arr('q1', n), q2=Arr('q2', n))
        elif tr == 'kdvv': d.update(q=Arr('q', D, init=[C(var('q[%d]' % k)) for k in range(D)]))
        else: d.update(q=Arr('q', n))
    return d


def mk(tr, d): return Case('fnft_' + tr, [d[a] for a in ARGS[tr].split()])


def conds(tr, what):
    v = lambda nm, k: var('%s[%d]' % (nm, k))
    def pre(e, st, cs):
        if tr != 'kdvv' or True:
            if what == 'T reversed': gt(st, v('T', 0), v('T', 1))
            elif what == 'T empty': st.path.append(('f', '=', v('T', 0), v('T', 1)))
            else: gt(st, v('T', 1), v('T', 0))
        if tr not in ('nsep', 'nsev_inverse'):
            if what == 'XI reversed': gt(st, v('XI', 0), v('XI', 1))
            elif what == 'XI empty': st.path.append(('f', '=', v('XI', 0), v('XI', 1)))
            elif what not in ('XI NULL', 'zero on grid'): gt(st, v('XI', 1), v('XI', 0))
        if tr == 'nsev_inverse':
            for k in (0, 1):
                if what != 'bound state %d not above the axis' % k: gt(st, var('im(bs[%d])' % k) if False else X.cvar('bs[%d]' % k).im, ZERO)
                else: gt(st, ZERO, X.cvar('bs[%d]' % k).im)
            if what == 'bound state twice': pass
    return pre


def variants(tr):
    """(what, D or None, overrides, option overrides / unknown field)"""
    cb = (None,) if tr in ('nsev', 'manakovv') else (2, 3, 4) if tr == 'kdvv' else (2, 8)
    D0 = cb[-1]
    out = []
    add = lambda what, D=D0, over=None, bad=None, **kw: out.append((tr, what, D, over or {}, bad, kw))
    for d in (0, 1): add('D=%d' % d, D0, {'D': U(d)})
    if tr in ('nsep', 'nsev_inverse'):
        for d in (3, 5, 6, 7, 9, 10, 12, 15, 24, 96, 1000): add('D=%d' % d, D0, {'D': U(d)} if tr == 'nsep' else {'D': U(d), 'M': U(1000)})
    for nm in {'nsev': ['q'], 'kdvv': ['q'], 'manakovv': ['q1', 'q2'], 'nsep': ['q', 'K', 'M'], 'nsev_inverse': ['q', 'bs', 'nc', 'cs', 'XI']}[tr] + ['T']:
        for d in cb: add('%s NULL' % nm, d, {nm: Null()})
    for w in ('T reversed', 'T empty'): add(w)
    if tr in ('nsev', 'kdvv', 'manakovv'):
        for w in ('XI reversed', 'XI empty'):
            add(w)
            add(w, over={'bs': Null(), 'nc': Null(), 'K': Null()})
        add('XI NULL', over={'XI': Null()})
        for d in cb: add('K NULL', d, {'K': Null()})
        add('K NULL', over={'K': Null(), 'cs': Null(), 'XI': Null()})
    if tr != 'kdvv':
        add('kappa', over={'kappa': SymI([1, -1 % 2 ** 32])})
        for k in (0, 2, -2): add('kappa', over={'kappa': I(k)})
    flds = {'nsev': ['bound_state_filtering', 'bound_state_localization', 'discspec_type', 'contspec_type', 'discretization'], 'kdvv': ['bound_state_localization', 'discspec_type', 'contspec_type', 'discretization'],
            'manakovv': ['bound_state_filtering', 'bound_state_localization', 'contspec_type', 'discretization'], 'nsep': ['localization', 'filtering', 'discretization'],
            'nsev_inverse': ['discretization', 'contspec_type', 'contspec_inversion_method', 'discspec_type']}[tr]
    for f in flds:
        kws = [{}]
        if tr in ('nsev', 'kdvv', 'manakovv'): kws += [dict(richardson_extrapolation_flag=1), dict(bound_state_localization='NEWTON')] if f != 'bound_state_localization' else [dict(richardson_extrapolation_flag=1)]
        for kw in kws:
            kw = dict(kw)
            if tr == 'kdvv' : kw.setdefault('grid_spacing', .1)
            over = {'bs': Arr('bs', 2, init=[C(ZERO, fconst_(k)) for k in (1, 2)])} if tr == 'kdvv' else {}
            add('unknown ' + f, over=over, bad=f, **kw)
        if f == 'contspec_type' and tr != 'nsev_inverse': add('unknown ' + f, over={'bs': Null(), 'nc': Null()}, bad=f)
        if f in ('bound_state_localization', 'discspec_type', 'bound_state_filtering'): add('unknown ' + f, over=dict({'cs': Null(), 'XI': Null()}, **({'bs': Arr('bs', 2, init=[C(ZERO, fconst_(k)) for k in (1, 2)])} if tr == 'kdvv' else {})), bad=f)
    if tr in SLOW:
        for n in SLOW[tr]:
            for l in ('FAST_EIGENVALUE', 'SUBSAMPLE_AND_REFINE'): add('%s with %s' % (n, l), discretization=n, bound_state_localization=l)
    if tr == 'nsev':
        for b in ((float('nan'), 1, 0, 1), (-1, float('nan'), 0, 1), (-1, 1, float('nan'), 1), (-1, 1, 0, float('nan')), (1, -1, 0, 1), (-1, 1, 2, 1)):
            for l in ('FAST_EIGENVALUE', 'SUBSAMPLE_AND_REFINE', 'NEWTON'): add('box %s' % (b,), bound_state_filtering='MANUAL', bounding_box=b, bound_state_localization=l)
    if tr == 'nsep':
        for b in ((float('nan'), 1, 0, 1), (-1, float('nan'), 0, 1), (-1, 1, float('nan'), 1), (-1, 1, 0, float('nan')), (1, -1, 0, 1), (-1, 1, 2, 1)):
            for l in ('GRIDSEARCH', 'SUBSAMPLE_AND_REFINE', 'NEWTON', 'MIXED'): add('box %s' % (b,), filtering='MANUAL', bounding_box=b, localization=l)
        add('sheet indices', over={'sheet': Arr('sheet', 8, 'd')})
        for f in ('MANUAL', 'AUTO'): add('auxiliary spectrum filtered without main spectrum', over={'main': Null()}, filtering=f, bounding_box=(-1, 1, -1, 1))
        for n in ('BO', 'CF4_2'):
            for l in ('GRIDSEARCH', 'SUBSAMPLE_AND_REFINE', 'MIXED'):
                if n == 'BO': add('%s with %s' % (n, l), D=2, discretization=n, localization=l)
    if tr == 'kdvv':
        for d in cb:
            for k in range(d):
                for im in ('z', -1):
                    q = [C(var('q[%d]' % j), var('z') if j == k else ZERO) for j in range(d)]
                    add('sample %d not real' % k, d, {'q': Arr('q', d, init=q)})
        g = lambda a, b: Arr('XI', 2, 'd', init=[a, b])
        x = var('x')
        for M, a, b in ((3, ZERO, x), (2, X.neg(x), ZERO), (3, X.neg(x), x), (5, X.neg(x), x), (1, ZERO, x)): add('zero on grid', D0, {'XI': g(a, b), 'M': U(M)})
        for k in (0, 1):
            z = [C(ZERO, fconst_(1)), C(ZERO, fconst_(2))]
            for w in (C(var('g'), fconst_(1)), C(ZERO, ZERO), C(ZERO, X.neg(var('x')))):
                zz = list(z); zz[k] = w
                add('initial guess %d' % k, D0, {'bs': Arr('bs', 2, init=zz)}, bound_state_localization='NEWTON')
        for gs in (0.0, -1.0, float('nan')): add('grid spacing %s' % gs, D0, bound_state_localization='GRIDSEARCH_AND_REFINE', grid_spacing=gs)
        add('grid spacing not set', D0, bound_state_localization='GRIDSEARCH_AND_REFINE')
    if tr == 'nsev_inverse':
        no = {'cs': Null(), 'M': U(0), 'XI': Null()}
        add('M odd', 8, {'M': U(9), 'cs': Arr('cs', 9)}); add('M<D', 8, {'M': U(6), 'cs': Arr('cs', 6)})
        for o in ({}, no):
            add('bound states with kappa=-1', 8, dict(o, kappa=I(-1)))
            for k in (0, 1): add('bound state %d not above the axis' % k, 8, dict(o))
            add('bound state twice', 8, dict(o, bs=Arr('bs', 2, init=[X.cvar('bs[0]')] * 2)))
            add('bound state twice', 8, dict(o, K=U(3), nc=Arr('nc', 3), bs=Arr('bs', 3, init=[X.cvar('bs[0]'), C(var('o'), X.cvar('bs[0]').im), X.cvar('bs[0]')])))
        add('no spectrum', 8, dict(no, K=U(0), bs=Null(), nc=Null()))
        for n in ALL:
            if n not in ('2SPLIT2A', '2SPLIT2_MODAL'): add('discretization ' + n, 8, discretization=n)
        add('iteration with kappa=1', 8, {}, contspec_inversion_method='TFMATRIX_CONTAINS_AB_FROM_ITER')
        add('iteration with M!=D', 8, {'kappa': I(-1), 'K': U(0), 'M': U(16), 'cs': Arr('cs', 16)}, contspec_inversion_method='TFMATRIX_CONTAINS_AB_FROM_ITER')
        for t in ('REFLECTION_COEFFICIENT', 'B_OF_XI'): add('seed potential with continuous spectrum', 8, {}, contspec_type=t, contspec_inversion_method='USE_SEED_POTENTIAL_INSTEAD')
        sy = {'T': Arr('T', 2, 'd', init=[X.neg(var('x')), var('x')])}
        add('B_OF_TAU with M!=D', 8, dict(sy, M=U(16), cs=Arr('cs', 16)), contspec_type='B_OF_TAU')
        add('B_OF_TAU with asymmetric window', 8, {}, contspec_type='B_OF_TAU')
        for t in ('B_OF_TAU', 'B_OF_XI'): add('oversampling factor 0', 8, dict(sy), contspec_type=t, oversampling_factor=0)
    return out


def fconst_(x): return const(x)


def check(c):
    warm(*ARGS)
    jobs = [(i, tr) for tr in ARGS for i in range(len(variants(tr)))]
    c.parallel(reject, jobs)
    helpers(c)
    battery(c)


def case(v):
    tr, what, D, over, bad, kw = v
    o = Bad(tr, bad, **kw) if bad else Opts(tr, **kw)
    d = base(tr, D, opts=o); d.update(over)
    return mk(tr, d)


def reject(c, i, tr):
    v = variants(tr)[i]
    tr, what, D, over, bad, kw = v
    cs = case(v)
    nm = 'fnft_%s rejects: %s%s #%d' % (tr, what, ' (any number of samples)' if D is None and 'D' not in over else '', i)
    p0 = conds(tr, what)
    def pre(e, st, cs):
        p0(e, st, cs)
        if 'not real' in what: st.path.append(('f', '<>', var('z'), ZERO))
        if what.startswith('initial guess'): st.path.append(('f', '<>', var('g'), ZERO)); gt(st, var('x'), ZERO)
        if what == 'zero on grid' or what.startswith(('B_OF_TAU with M', 'oversampling')): gt(st, var('x'), ZERO)
        if what == 'B_OF_TAU with asymmetric window': st.path.append(('f', '<>', X.neg(var('T[1]')), var('T[0]')))
    e, R = cs.sym(c, pre=pre, max_steps=200000, max_states=40)
    c.safety_fail(nm, cs, e, scope='unbounded')
    if not R: c.record(nm, 'undecided', 'engine', 'no path')
    for st in R:
        ok = isinstance(st.retval, int) and st.retval != 0
        c.truth(nm, ok) or c.fail_concrete(nm, cs, lambda o: o['ret'] == 0 or not o['guards'], 'returned %s' % (st.retval,), numbers(what))
        leak = [o.name for o in st.live_heap()]
        c.truth(nm + ' releases its memory', not leak) or c.fail_concrete(nm + ' memory', None, None, str(leak[:3]))


def numbers(what):
    """values satisfying the preconditions of the instance"""
    a = {'T[0]': -1, 'T[1]': 2, 'XI[0]': 1, 'XI[1]': 3, 'x': 1, 'g': mpf('.25'), 'z': mpf('.25'), 'phase': mpf('.3'), 'int:D': 5, 'int:M': 3}
    for k in (0, 1):
        z = X.cvar('bs[%d]' % k)
        a[str(z.re)] = k; a[str(z.im)] = 1 + k
    if what == 'T reversed': a['T[0]'] = 3
    if what == 'T empty': a['T[0]'] = 2
    if what == 'XI reversed': a['XI[1]'] = -1
    if what == 'XI empty': a['XI[1]'] = 1
    for k in (0, 1):
        if what == 'bound state %d not above the axis' % k: a['bs[%d].im' % k] = -1
    return {k: mpf(v) for k, v in a.items()}


def helpers(c):
    for D in (0, 1):
        rej1(c, 'D=%d' % D, [U(D), Arr('T', 2, 'd'), U(4), Arr('XI', 2, 'd'), I(enum('nse')['2SPLIT2A'])], None)
    A = lambda **k: [k.get('D', SymU('D', 2, 2 ** 32, 5)), k.get('T', Arr('T', 2, 'd')), k.get('M', SymU('M', 1, 2 ** 32, 4)), k.get('XI', Arr('XI', 2, 'd')), k.get('n', I(enum('nse')['2SPLIT2A']))]
    rej1(c, 'M=0', A(M=U(0)), 1); rej1(c, 'T NULL', A(T=Null()), 1); rej1(c, 'XI NULL', A(XI=Null()), 1); rej1(c, 'T reversed', A(), 0)
    for tr, fam in (('nsev', 'nse'), ('manakovv', 'manakov')):
        for n, v in sorted(enum(fam).items()):
            deg = DEG.get(n, 0) if fam == 'nse' else None
            if deg: continue
            if fam == 'manakov' and n not in ('BO', 'CF4_2'): continue
            cs = Case('fnft_%s_max_K' % tr, [SymU('D', 1, 2 ** 32, 9), Opts(tr, discretization=n)], ret='size')
            e, R = cs.sym(c)
            c.safety_fail('%s_max_K' % tr, cs, e, scope='unbounded')
            for st in R:
                nm = 'fnft_%s_max_K(%s) reports that there is no bound' % (tr, n)
                c.truth(nm, st.retval == 0) or c.fail_concrete(nm, cs, lambda o: o['ret'] != 0, st.retval)


def rej1(c, what, args, Tok):
    cs = Case('fnft_nsev_inverse_XI', args)
    nm = 'fnft_nsev_inverse_XI rejects ' + what
    def pre(e, st, cs):
        if Tok == 0: gt(st, var('T[0]'), var('T[1]'))
        elif what != 'T NULL': gt(st, var('T[1]'), var('T[0]'))
    e, R = cs.sym(c, pre=pre)
    c.safety_fail(nm, cs, e, scope='unbounded')
    if not R: c.record(nm, 'undecided', 'engine', 'no path')
    for st in R:
        c.truth(nm, isinstance(st.retval, int) and st.retval != 0) or c.fail_concrete(nm, cs, lambda o: o['ret'] == 0, st.retval, numbers(what))


# ------------------------------------------------------------------ compiled calls
def battery(c):
    rng = np.random.default_rng(c.seed + 17)
    items = []
    for tr in ARGS:
        V = variants(tr)
        for i, v in enumerate(V): items.append(exrej(tr, v, i))
    items += accept_items(rng)
    c.battery(items)


def exrej(tr, v, i):
    what = v[1]
    cs = case(v)
    a = numbers(what)
    if 'asymmetric' in what: a['T[0]'] = mpf(-1)
    class Ev(dict):
        def __contains__(s, k): return True
        def __missing__(s, k):
            r = mpf(np.random.default_rng(abs(hash(str(k))) % 2 ** 31).uniform(.2, .9)); s[k] = r; return r
    cs.assign = Ev(a)
    def judge(o):
        if o['ret'] == 0: return 'accepted'
        if not o['guards']: return 'buffers of the caller were changed'
    return ('fnft_%s rejects %s executed #%d' % (tr, what, i), cs, judge, dict(argument=what))


def many(nm, gen, info=None):
    """one child process executes a whole group of calls"""
    def run():
        for desc, cs, fin in gen():
            o = cs.conc({}, 'real')
            if abs(o['ret']) == 3: continue       # numerical breakdown at a spurious eigenvalue, not a rejected argument
            if o['ret'] != 0: return dict(bad='%s: returned %d' % (desc, o['ret']))
            if not o['guards']: return dict(bad='%s: memory outside the arrays modified' % desc)
            r = fin(o) if fin else None
            if r: return dict(bad='%s: %s' % (desc, r))
        return dict(bad=None)
    return (nm, NP('fnft', run, nm), lambda o: o['bad'], info or {})


def written(*names):
    def f(o):
        for n in names:
            if n in o and o[n] is not None and np.any(o[n] == SENT): return '%s not completely written' % n
    return f


def sig(D, rng, a=1.0):
    t = np.linspace(-1, 1, D)
    return (a / np.cosh(3 * t) * np.exp(1j * t) + .05 * (rng.normal(size=D) + 1j * rng.normal(size=D))) * .8


def accept_items(rng): return [many(*x) for x in gens(rng)]


def gens(rng):
    """(name, generator of (description, case, final check), info): calls over the documented combinations"""
    items = []
    seed = int(rng.integers(1 << 30))
    for n in ALL:
        def g(n=n):
            r = np.random.default_rng(seed)
            locs = ['NEWTON', 'FAST_EIGENVALUE', 'SUBSAMPLE_AND_REFINE'] if n in DEG else ['NEWTON']
            for D in (2, 3, 8, 16):
                for kap, loc, filt, ds, cst, rich, nrm in itertools.product((1, -1), locs, ('NONE', 'BASIC', 'FULL', 'MANUAL'), ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH'), ('REFLECTION_COEFFICIENT', 'AB', 'BOTH'), (0, 1), (0, 1)):
                    if rich and D < 4: continue
                    if r.uniform() > (.12 if D < 16 else .04): continue
                    bs = np.array([.1 + .4j, -.2 + .7j]); K = 2 if loc == 'NEWTON' else 4 * D * ups(n) * 4
                    M = int(r.integers(1, 6))
                    kw = dict(discretization=n, bound_state_localization=loc, bound_state_filtering=filt, discspec_type=ds, contspec_type=cst, richardson_extrapolation_flag=rich, normalization_flag=nrm)
                    if filt == 'MANUAL': kw['bounding_box'] = (-5, 5, 0, 5)
                    mode = int(r.integers(3))
                    sg = sig(D, r)
                    cs = nsev_case(sg, (-1.0, 1.5), M, (-1.0, 2.0), K, kap, None if mode == 1 else bs if loc == 'NEWTON' else True, True if mode else False, contspec=mode != 2, **kw)
                    yield 'D=%d kappa=%d %s' % (D, kap, kw), cs, written('cs')
        items.append(('fnft_nsev accepts documented combinations, %s' % n, g))
    for n in ALL:
        for van in ('', '_VANILLA'):
            def g(n=n, van=van):
                r = np.random.default_rng(seed + 1)
                for D in (2, 3, 8, 16):
                    for loc, ds, cst, rich, nrm in itertools.product(('NEWTON', 'GRIDSEARCH_AND_REFINE'), ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH'), ('REFLECTION_COEFFICIENT', 'AB', 'BOTH'), (0, 1), (0, 1)):
                        if rich and D < 4: continue
                        if r.uniform() > .3: continue
                        M = int(r.integers(1, 6)); mode = int(r.integers(3))
                        kw = dict(discretization=n + van, bound_state_localization=loc, discspec_type=ds, contspec_type=cst, richardson_extrapolation_flag=rich, normalization_flag=nrm, grid_spacing=.05)
                        bs = np.array([.4j, .7j])
                        cs = kdvv_case(sig(D, r, .8).real + 0j, (-1.0, 1.5), M, (.3, 2.0), 2 if loc == 'NEWTON' else 40, None if mode == 1 else bs if loc == 'NEWTON' else True, True if mode else False, contspec=mode != 2, **kw)
                        yield 'D=%d %s' % (D, kw), cs, written('cs')
            items.append(('fnft_kdvv accepts documented combinations, %s%s' % (n, van), g))
    for n in sorted(set(enum('manakov')) & (set(MDEG) | {'BO', 'CF4_2'})):
        def g(n=n):
            r = np.random.default_rng(seed + 2)
            for D in (2, 3, 8, 16):
                for kap, loc, cst, rich, nrm, filt in itertools.product((1, -1), ('FAST_EIGENVALUE', 'SUBSAMPLE_AND_REFINE'), ('REFLECTION_COEFFICIENT', 'AB', 'BOTH'), (0, 1), (0, 1), ('NONE', 'BASIC', 'FULL')):
                    if (rich or n == 'FTES4_suzuki' or n.startswith('FTES4')) and D < 4: continue
                    if r.uniform() > .4: continue
                    M = int(r.integers(1, 6)); mode = int(r.integers(3))
                    if n in SLOW['manakovv'] and kap == 1: mode = 1
                    kw = dict(discretization=n, bound_state_localization=loc, contspec_type=cst, richardson_extrapolation_flag=rich, normalization_flag=nrm, bound_state_filtering=filt)
                    L = {'REFLECTION_COEFFICIENT': 2, 'AB': 3, 'BOTH': 5}[cst] * M; K = 20 * D
                    a = pub_case('manakovv', D, [RawArr('q1', sig(D, r)), RawArr('q2', sig(D, r))], (-1.0, 1.5), M, (-1.0, 2.0), K, None if mode == 1 else True, False, [I(kap)], mode != 2, L, **kw)
                    yield 'D=%d kappa=%d %s' % (D, kap, kw), Case('fnft_manakovv', a), written('cs')
        items.append(('fnft_manakovv accepts documented combinations, %s' % n, g, dict(key='fnft_manakovv rejects the documented discretization FTES4_4B (not implemented)') if n == 'FTES4_4B' else None))
    for n in ALL:
        if n not in DEG and n not in ('BO', 'CF4_2'): continue
        if n == '4SPLIT4B': continue
        def g(n=n):
            r = np.random.default_rng(seed + 3)
            from cp14 import ncase
            locs = ('SUBSAMPLE_AND_REFINE', 'GRIDSEARCH', 'MIXED', 'NEWTON') if n in DEG else ('NEWTON',)
            for D in (2, 8, 16):
                for kap, loc, filt, nrm, pp in itertools.product((1, -1), locs, ('NONE', 'MANUAL', 'AUTO'), (0, 1), (1, 2, 3)):
                    if r.uniform() > .4: continue
                    kw = dict(discretization=n, localization=loc, filtering=filt, normalization_flag=nrm, points_per_spine=pp)
                    if filt == 'MANUAL': kw['bounding_box'] = (-3, 3, -3, 3)
                    K = 2 if loc == 'NEWTON' else 64 * D
                    mode = int(r.integers(3))
                    main = None if mode == 1 and filt == 'NONE' else RawArr('main', np.concatenate([np.array([.1 + .3j, .2 - .1j] * 3), np.full(200 * D, SENT)]), 'io')
                    aux = None if mode == 2 else RawArr('aux', np.concatenate([np.array([.1 + .3j, .2 - .1j]), np.full(100 * D, SENT)]), 'io')
                    cs = Case('fnft_nsep', [U(D), RawArr('q', sig(D, r)), RawArr('T', np.array([-1.0, 1.5])), F(float(r.uniform(-2, 2)) * int(r.integers(2))), RawArr('K', np.array([K], np.uint64), 'io'), main or Null(),
                                            RawArr('M', np.array([K], np.uint64), 'io'), aux or Null(), Null(), I(kap), Opts('nsep', **kw)])
                    yield 'D=%d kappa=%d %s' % (D, kap, kw), cs, None
        items.append(('fnft_nsep accepts documented combinations, %s' % n, g))
    for n in ('2SPLIT2A', '2SPLIT2_MODAL'):
        def g(n=n):
            r = np.random.default_rng(seed + 4)
            for D in (2, 4, 8, 32):
                for cst, met, ds, kap, K, Mf in itertools.product((None, 'REFLECTION_COEFFICIENT', 'B_OF_XI', 'B_OF_TAU'), ('DEFAULT', 'TFMATRIX_CONTAINS_REFL_COEFF', 'TFMATRIX_CONTAINS_AB_FROM_ITER', 'USE_SEED_POTENTIAL_INSTEAD'), ('NORMING_CONSTANTS', 'RESIDUES'), (1, -1), (0, 1, 2, 3), (1, 2)):
                    if kap == -1 and K: continue
                    if cst is None and (not K or Mf > 1): continue
                    if met == 'TFMATRIX_CONTAINS_AB_FROM_ITER' and (cst != 'REFLECTION_COEFFICIENT' or kap == 1 or Mf > 1): continue
                    if met == 'TFMATRIX_CONTAINS_REFL_COEFF' and cst != 'REFLECTION_COEFFICIENT': continue
                    if met == 'USE_SEED_POTENTIAL_INSTEAD' and cst: continue
                    if cst == 'B_OF_TAU' and Mf > 1: continue
                    M = Mf * D if cst else 0
                    a = 2.0 if cst == 'B_OF_TAU' else 1.5
                    kw = dict(discretization=n, contspec_inversion_method=met, discspec_type=ds)
                    if cst: kw['contspec_type'] = cst
                    x = np.linspace(-1, 1, max(M, 1))
                    cont = .3 * np.exp(-x ** 2 * 4) * np.exp(1j * x)
                    if cst == 'B_OF_TAU': cont = cont * .1
                    XI = xi_grid(D, (-a, 2.0), M, n) if cst else None
                    bs = np.array([.3 + .5j, -.4 + .5j, .1 + 1j])[:K]; nc = np.array([1 + .5j, -1 + .1j, .3j])[:K]
                    cs = Case('fnft_nsev_inverse', [U(M), RawArr('cs', cont, 'io') if cst else Null(), RawArr('XI', XI) if cst else Null(), U(K), RawArr('bs', bs) if K else Null(), RawArr('nc', nc) if K else Null(),
                                                    U(D), RawArr('q', np.full(D, SENT) if met != 'USE_SEED_POTENTIAL_INSTEAD' else .1 + np.zeros(D, complex), 'io'), RawArr('T', np.array([-a, 2.0])), I(kap), Opts('nsev_inverse', **kw)])
                    yield 'D=%d M=%d kappa=%d K=%d %s' % (D, M, kap, K, kw), cs, written('q')
        items.append(('fnft_nsev_inverse accepts documented combinations, %s' % n, g))
    def g():
        r = np.random.default_rng(seed + 5)
        for fn, tr in (('nsev', 'nsev'), ('kdvv', 'kdvv'), ('manakovv', 'manakovv')):
            for D in (4, 16):
                q = sig(D, r); q = q.real + 0j if tr == 'kdvv' else q
                lead = [RawArr('q', q)] + ([RawArr('q2', q)] if tr == 'manakovv' else [])
                a = [U(D)] + lead + [RawArr('T', np.array([-1.0, 1.0])), U(4), RawArr('cs', np.full(8, SENT), 'io'), RawArr('XI', np.array([.5, 1.0])), RawArr('K', np.array([64], np.uint64), 'io')]
                bsd = tr != 'kdvv'      # the default localization of kdvv needs initial guesses or a grid spacing
                a += [RawArr('bs', np.full(64, SENT), 'io') if bsd else Null(), RawArr('nc', np.full(64, SENT), 'io') if bsd else Null()] + ([] if tr == 'kdvv' else [I(1)]) + [Null()]
                yield '%s with opts=NULL, D=%d' % (fn, D), Case('fnft_' + fn, a), None
        yield 'nsep with opts=NULL', Case('fnft_nsep', [U(16), RawArr('q', sig(16, r)), RawArr('T', np.array([-1.0, 1.0])), F(0.0), RawArr('K', np.array([256], np.uint64), 'io'), RawArr('main', np.full(256, SENT), 'io'), RawArr('M', np.array([256], np.uint64), 'io'), RawArr('aux', np.full(256, SENT), 'io'), Null(), I(1), Null()]), None
        yield 'nsev_inverse with opts=NULL', Case('fnft_nsev_inverse', [U(16), RawArr('cs', np.full(16, .1 + 0j), 'io'), RawArr('XI', xi_grid(16, (-1.0, 1.0), 16, '2SPLIT2A')), U(0), Null(), Null(), U(16), RawArr('q', np.full(16, SENT), 'io'), RawArr('T', np.array([-1.0, 1.0])), I(1), Null()]), written('q')
    items.append(('default options are accepted', g))
    return items


def xi_grid(D, T, M, n):
    o = Case('fnft_nsev_inverse_XI', [U(D), RawArr('T', np.array(T, float)), U(M), RawArr('XI', np.zeros(2), 'out'), I(enum('nse')[n])]).conc({}, 'real')
    return o['XI'].copy() if o['ret'] == 0 else np.array([-1.0, 1.0])
