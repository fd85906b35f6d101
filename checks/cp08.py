"""P08: phase factors and changes of basis."""
from cp06 import *
from specs import *
LEVEL = 'proof'
TECHNIQUE = 'contract-based deductive verification: postconditions of the phase factor and basis change functions as exact identities in all arguments'
NOTE = 'Loop-free functions; step size, boundaries, number of samples, spectral parameter all symbolic; one obligation per listed discretization. Doubles treated as exact reals.'


class SymU(Arg):
    def __init__(s, name, lo=0, hi=2 ** 40, con=5): s.nm, s.lo, s.hi, s.c, s.v = name, lo, hi, con, name
    def sym(s, e, st): return [e.newint(st, s.nm, s.lo, s.hi)]
    def con(s, ev): return [ct.c_size_t(int(ev(var('int:' + s.nm))))]


def sampler(k, rng):
    k = str(k)
    if k.startswith('int:'): return mpf(rng.randrange(1, 40))
    return mpf(rng.uniform(0.05, 0.5)) if k == 'eps' else mpf(rng.uniform(-1.2, 1.2))


def check(c):
    for fam in ('nse', 'kdv', 'manakov'):
        for n, v in known(fam)[0].items():
            phases(c, fam, n, v)
    jobs = []
    for n in ALL:
        for d in (0, 1):
            for van in (0, 1):
                jobs.append(('akns', n, van, d, 'KdV'))
                jobs.append(('akns', n, van, d, 'NSE'))
                jobs.append(('kdv', n, van, d, 'KdV'))
    c.parallel(basis, jobs)
    battery(c)


def phases(c, fam, n, v):
    eps, T0, T1, D = var('eps'), var('T[0]'), var('T[1]'), var('int:D')
    h = const(Fraction(1, 2))
    b = n.replace('_VANILLA', '')
    # boundary points of the discretization: half a step beyond the first and last sample
    L, R = X.sub(T0, mul(h, eps)), X.add(T1, mul(h, eps))
    fast = X.neg(mul(eps, D)) if spec(fam, n)['degree'] else ZERO
    shift = ZERO
    if fam == 'nse' and b in ('2SPLIT2A', '2SPLIT2_MODAL'):
        shift = eps                     # stored in the basis modified by one power of z (degree 1)
    if fam == 'manakov':
        if n == 'FTES4_suzuki':
            fast = X.neg(mul(const(Fraction(7, 3)), mul(eps, D)))
        if n in ('4SPLIT4A', '4SPLIT4B', '4SPLIT6B', 'CF4_2'):
            # samples of these schemes lie in [T0, T1+eps]: boundaries shifted by half a step
            L, R = X.add(L, mul(h, eps)), X.add(R, mul(h, eps))
    want = dict(rho=X.add(mul(const(-2), R), shift), a=X.add(fast, X.sub(R, L)), b=X.add(X.sub(X.sub(fast, R), L), shift))
    for w in want:
        T1v = F('T[1]')
        T = Arr('T', 2, 'd')
        args = [F('eps'), T1v, Arr('o', 1, 'd', 'out'), I(v)] if w == 'rho' else [F('eps'), SymU('D'), T, Arr('o', 1, 'd', 'out'), I(v)]
        cs = Case('%s_phase_factor_%s' % (PRE[fam], w), args)
        nm = '%s(%s) is the free propagation between the boundaries' % (cs.fname, n)
        for e, st in run(c, cs, nm):
            if st.retval != 0:
                c.fail_concrete(nm, cs, lambda o: o['ret'] != 0, 'rejected with %s' % st.retval, {'int:D': mpf(5)}); continue
            c.eq(nm, cs, st, [(('o', 0), e.getd(st, cs.ptr['o'], 0) if hasattr(e, 'getd') else e.getf(st, cs.ptr['o'], 0), want[w])], sampler=sampler)


def basis(c, fam, n, van, d, pde):
    nm = '%s %s%s %s basis change%s' % (fam, n, ' vanilla' if van else '', pde, ' with derivative' if d else '')
    name = n + ('_VANILLA' if fam == 'kdv' and van else '')
    v = enum(fam).get(name)
    if v is None:
        c.record(nm, 'undecided', '', 'not found'); return
    got = {}
    for dirn in ('to', 'from'):
        tail = [I(v)] + ([U(van), I({'KdV': 0, 'NSE': 1}[pde])] if fam == 'akns' else [])
        cs = Case('%s_change_of_basis_matrix_%s_S' % (PRE[fam], dirn), [Arr('o', 16 if d else 4, 'c', 'out'), Z('xi'), U(d), F('eps')] + tail)
        S = (basis_to_S if dirn == 'to' else basis_from_S)(pde, n, van, cvar('xi'), var('eps'))
        spec_ = [S[i][j].v for i in range(2) for j in range(2)]
        if d:
            o = C.of(0); v_ = [[S[i][j].v for j in range(2)] for i in range(2)]; dv = [[S[i][j].d for j in range(2)] for i in range(2)]
            spec_ = v_[0] + [o, o] + v_[1] + [o, o] + dv[0] + v_[0] + dv[1] + v_[1]
        for e, st in run(c, cs, nm):
            if st.retval != 0:
                if pde == 'KdV' and abs(sret(st.retval)) == 3 and zero_path(st):
                    c.truth(nm + ' %s S: xi=0 rejected' % dirn, True); continue
                c.fail_concrete(nm + ' accepted', cs, lambda o: o['ret'] != 0, 'returned %s' % st.retval); continue
            if pde == 'KdV' and zero_path(st):
                c.fail_concrete(nm + ' xi=0 rejected', cs, lambda o: o['ret'] == 0, 'accepted', {'xi.re': mpf(0), 'xi.im': mpf(0)}); continue
            cnt = 16 if d else 4
            out = [e.getc(st, cs.ptr['o'], k) for k in range(cnt)]
            c.eq(nm + ' %s S' % dirn, cs, st, [x for k in range(cnt) for x in cpairs('o', k, out[k], spec_[k])], sampler=sampler)
            got[dirn] = (out, cs, st)
    if len(got) == 2:
        m = 4 if d else 2
        A, B = got['to'][0], got['from'][0]
        if any(x.re is X.UNDEF or x.im is X.UNDEF for x in A + B):
            return
        it = []
        for i in range(m):
            for j in range(m):
                z = sum((A[i * m + k] * B[k * m + j] for k in range(1, m)), A[i * m] * B[j])
                it += [(None, z.re, ONE if i == j else ZERO), (None, z.im, ZERO)]
        c.eq(nm + ': the two matrices are inverse', None, None, it, sampler=sampler)


def zero_path(st):
    return sum(1 for p in path_conds(st) if p[0] == 'oeq') >= 2


def battery(c):
    rng = np.random.default_rng(c.seed + 8)
    items = []
    for fam in ('kdv', 'akns'):
        for n in ALL:
            for van in (0, 1):
                for pde in (('KdV', 'NSE') if fam == 'akns' else ('KdV',)):
                    for d in (0, 1):
                        for dirn in ('to', 'from'):
                            v = enum(fam).get(n + ('_VANILLA' if fam == 'kdv' and van else ''))
                            if v is None: continue
                            xi = complex(*rng.normal(size=2)) * 10.0 ** rng.integers(-2, 2); eps = float(rng.uniform(0.01, 1))
                            tail = [I(v)] + ([U(van), I({'KdV': 0, 'NSE': 1}[pde])] if fam == 'akns' else [])
                            m = 4 if d else 2
                            cs = Case('%s_change_of_basis_matrix_%s_S' % (PRE[fam], dirn), [RawArr('o', np.full(m * m, 7e70 + 0j), 'out'), Z(C.of(fconst(xi.real)) + IU * C.of(fconst(xi.imag))), U(d), F(eps)] + tail)
                            W = nbasis(pde, n, van, xi, eps)
                            if dirn == 'from': W = np.linalg.inv(W)
                            W = W[:m, :m]
                            def judge(o, W=W, m=m):
                                if o['ret'] != 0: return 'returned %d' % o['ret']
                                if not o['guards']: return 'wrote outside the buffer'
                                G = o['o'].reshape(m, m)
                                if not np.allclose(G, W, rtol=1e-9, atol=1e-9 * np.abs(W).max()): return 'matrix %s instead of %s' % (G.tolist(), W.tolist())
                            items.append(('%s %s van=%d %s d=%d %s executed' % (fam, n, van, pde, d, dirn), cs, judge, dict(xi=str(xi), eps=eps)))
    c.battery(items)
