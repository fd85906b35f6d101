"""Failing inner steps: the instances of the other checks (function, symbolic arguments, contracts of the callees), re-executed
with every callee additionally allowed to fail, or every allocation allowed to fail."""
from api import *
import harness, subprocess, os, random
from engine import PathEnd, Unsupported, Alts


class Got(Exception): pass


def capture(fn, c, *job):
    """(case, contracts, precondition, engine options) of the first symbolic run of a job of another check"""
    box = []
    def sym(s, chk, **kw):
        box.append((s, kw)); raise Got()
    old = harness.Case.sym; harness.Case.sym = sym
    try:
        fn(c, *job)
    except Got: pass
    finally: harness.Case.sym = old
    if not box: return None
    cs, kw = box[0]; kw = dict(kw)
    return cs, kw.pop('contracts', {}), kw.pop('pre', None), kw


# functions documented to return an error code
CODES = set("""akns_discretization_change_of_basis_matrix_from_S akns_discretization_change_of_basis_matrix_to_S akns_discretization_lambda_to_z akns_discretization_method_weights
akns_discretization_preprocess_signal akns_discretization_z_to_lambda akns_fscatter akns_scatter_matrix fft_wrapper_create_plan fft_wrapper_execute_plan
kdv_discretization_change_of_basis_matrix_from_S kdv_discretization_change_of_basis_matrix_to_S kdv_discretization_lambda_to_z kdv_discretization_method_weights kdv_discretization_phase_factor_a
kdv_discretization_phase_factor_b kdv_discretization_phase_factor_rho kdv_discretization_preprocess_signal kdv_discretization_to_akns_discretization kdv_discretization_vanilla_flag
kdv_discretization_z_to_lambda kdv_finvscatter kdv_fscatter kdv_scatter_bound_states kdv_scatter_matrix kdv_slow_discretization manakov_discretization_lambda_to_z manakov_discretization_phase_factor_a
manakov_discretization_phase_factor_b manakov_discretization_phase_factor_rho manakov_discretization_preprocess_signal manakov_discretization_z_to_lambda manakov_fscatter manakov_scatter_matrix
misc_downsample misc_filter misc_filter_inv misc_filter_nonreal misc_merge misc_resample nse_discretization_lambda_to_z nse_discretization_method_weights nse_discretization_phase_factor_a
nse_discretization_phase_factor_b nse_discretization_phase_factor_rho nse_discretization_preprocess_signal nse_discretization_to_akns_discretization nse_discretization_z_to_lambda nse_finvscatter
nse_fscatter nse_scatter_bound_states nse_scatter_matrix poly_chirpz poly_eval poly_evalderiv poly_fmult poly_fmult2x2 poly_fmult3x3 poly_fmult_two_polys poly_fmult_two_polys2x2 poly_fmult_two_polys3x3
poly_roots_fasteigen poly_roots_fftgridsearch poly_roots_fftgridsearch_paraherm poly_specfact""".split())
CODES = {'fnft__' + x for x in CODES}


from ir import I32


def failing(name, con, code, thin):
    def f(e, st, a):
        s2 = st.fork() if not st.ghost.get('inner') and not st.ghost.get('failed') else None
        if s2 is not None: s2.ghost['inner'] = (name, 'call %d' % st.ghost.get('ncall', 0))
        st.ghost['ncall'] = st.ghost.get('ncall', 0) + 1
        r = con(e, st, a)
        l = list(r.l) if isinstance(r, Alts) else [(st, r)]
        if thin: l = l[:1]
        if s2 is not None: l.append((s2, code % (1 << 32)))
        return Alts(l) if len(l) > 1 or isinstance(r, Alts) else r
    return f


def query(st):
    """innermost active function that returns a value rather than an error code (unsupported settings are signalled by 0 or NaN there)"""
    f = st.frames[-1].f.name.lstrip('@')
    return f if f.startswith('fnft__') and f not in CODES else None


def noplan(con):
    def f(e, st, a):
        s2 = st.fork() if not st.ghost.get('inner') and not st.ghost.get('failed') else None
        if s2 is not None: s2.ghost['failed'] = 'kiss_fft_alloc'; s2.path.append(('alloc-fails', 'kiss_fft_alloc', s2.where()))
        r = con(e, st, a)
        return Alts([(st, r)] + ([(s2, 0)] if s2 is not None else [])) if not isinstance(r, Alts) else r
    return f


def sgn32(v): return v - (1 << 32) if isinstance(v, int) and v >= 1 << 31 else v


def rerun(c, label, cap, mode, code=7, thin=True, max_states=4000, **over):
    """mode: 'inner' | 'alloc' | 'frame'; returns (engine, paths)"""
    cs, con, pre, kw = cap
    kw = dict(kw, max_states=max_states, **over)
    con = dict(con)
    if mode in ('inner', 'frame'):
        con = {n: failing(n, f, code, thin) if n in CODES else f for n, f in con.items()}
        kw['fault'] = lambda name, st: code if name in CODES and not st.ghost.get('inner') and not st.ghost.get('failed') and query(st) is None else None
    if mode in ('alloc', 'frame'):
        kw['malloc_fail'] = True
        if 'kiss_fft_alloc' in con: con['kiss_fft_alloc'] = noplan(con['kiss_fft_alloc'])
    e, R = cs.sym(c, contracts=con, pre=pre, **kw)
    return cs, e, R


def public_caps(c, which=None):
    """instances of the public transforms over the contracts of their inner steps"""
    import cp10, cp11, cp12, cp13, cp14
    J = []
    for n in ('2SPLIT2A', 'BO', '4SPLIT4B', 'ES4', 'CF4_3'):
        for nf in (1, 0): J.append(('nsev', cp10.job, n, 2, 2, 'BOTH', 1, nf))
    J.append(('nsev', cp10.job, '2SPLIT3S', 2, 2, 'REFLECTION_COEFFICIENT', 1, 1))
    for n in ('2SPLIT2A', 'BO', '2SPLIT2_MODAL'):
        for f in ('BASIC', 'FULL', 'NONE', 'MANUAL'): J.append(('nsev', cp11.job, n, 'NEWTON', f, 'BOTH', 1, 1))
    for n in ('2SPLIT2A', '2SPLIT4B'):
        J += [('nsev', cp11.job, n, 'FAST_EIGENVALUE', f, 'BOTH', 1, 0) for f in ('BASIC', 'FULL')] + [('nsev', cp11.job, n, 'SUBSAMPLE_AND_REFINE', 'BASIC', 'BOTH', 1, 1)]
    for n, van in (('2SPLIT2A', 1), ('BO', 0), ('2SPLIT4B', 0), ('CF4_2', 1)):
        J += [('kdvv', cp12.cont, n, van, 2, 2, 'BOTH', 1), ('kdvv', cp12.newt, n, van, 'BOTH', 1, 1, 1), ('kdvv', cp12.newt, n, van, 'RESIDUES', 0, 2, 1), ('kdvv', cp12.grid, n, van, '+-++', 1)]
    for n in ('2SPLIT3A', 'BO', 'CF4_2', 'FTES4_suzuki'): J += [('manakovv', cp13.cont, n, 2, 2, ct_, 1, 1) for ct_ in ('REFLECTION_COEFFICIENT', 'BOTH')]
    for n in ('2SPLIT2A', '2SPLIT4B'):
        for loc in ('SUBSAMPLE_AND_REFINE', 'GRIDSEARCH'):
            for f in ('MANUAL', 'AUTO'): J.append(('nsep', cp14.spec, n, loc, f, 'ma', 1, 1, 99, 99))
        J.append(('nsep', cp14.spec, n, 'MIXED', 'MANUAL', 'ma', 1, 1, 99, 99))
    J += [('nsep', cp14.newt, 'BO', w, 1, 1, 1, 1, f) for w, f in (('m', 'NONE'), ('a', 'NONE'), ('m', 'MANUAL'))]
    return J


def private_caps(c):
    import cp01, cp02, cp03, cp04, cp05, cp09, cp12, cp13, cp15, cp22, cp24
    J = [('poly_fmult', cp01.run, m, deg, n, w) for m, l in ((1, ((1, 3), (2, 5))), (2, ((1, 3), (2, 4))), (3, ((1, 3), (2, 4)))) for deg, n in l for w in (0, 1)]
    J += [(fam, cp02.run, fam, n, 2, 1) for fam in ('akns', 'nse', 'kdv') for n in ('2SPLIT2A', '4SPLIT4B', '2SPLIT2_MODAL', '2SPLIT4B')] + [('kdv', cp02.run, 'kdv', '2SPLIT2A_VANILLA', 2, 1)]
    for disc in ('BO', 'CF4_2', 'CF4_3', 'ES4', 'TES4'):
        for fam, van, pde in (('akns', 0, 'NSE'), ('nse', 0, None), ('kdv', 0, None), ('kdv', 1, None)):
            J += [(fam, cp03.run, fam, disc, van, 1, 1, 1, 0, pde), (fam, cp03.run, fam, disc, van, 0, 2, 1, 1, pde)] + [(fam, cp04.run, fam, disc, van, 2, 1, w, 0, pde) for w in (0, 1)]
    J += [('poly_chirpz', cp09.job, 'cz', d, M) for d, M in ((0, 1), (1, 2), (4, 6))]
    J += [('manakov', cp13.fast, n, 2, 1, 1, '') for n in ('2SPLIT3A', 'FTES4_suzuki', '4SPLIT4B', '2SPLIT4B')] + [('manakov', cp13.slow, n, 1, 2, 1, '') for n in ('BO', 'CF4_2')]
    J += [(fam, cp15.spec, fam, n, 2, 1) for fam in ('nse', 'kdv') for n in ('2SPLIT2A', '2SPLIT2_MODAL')] + [('poly_fmult_two', cp15.two, d, 0, 0) for d in (1, 2)]
    J += [('misc_resample', cp22.job, 'rs', 'misc', 4, 0), ('misc_downsample', cp22.job, 'ds', 'misc', 7, 4)]
    J += [(fam, cp22.job, 'pp', (fam, n), D, s) for fam in ('nse', 'kdv') for n in ALL for D, s in (((4, 2),) if ups(n) > 1 else ((7, 4),))]
    J += [('manakov', cp22.job, 'pm', n, D, s) for n in list(MDEG) + ['BO', 'CF4_2'] for D, s in (((7, 4),) if MUPS.get(n, 1) == 1 else ((6, 3),))]
    J += [('fnft_nsev', cp22.rich, n, 4, 'BOTH', 1) for n in ('2SPLIT2A', 'BO', 'ES4')] + [('fnft_nsev', cp22.richbs, n, 'BOTH') for n in ('2SPLIT2A', 'BO')]
    J += [('poly_roots_fftgridsearch', cp24.free, 3), ('poly_roots_fftgridsearch_paraherm', cp24.paraherm, 3, 2), ('poly_roots_fasteigen', cp24.solver, 3, 0)]
    return J


# ------------------------------------------------------------------ execution with failing allocations, arguments placed before inaccessible pages
EV = lambda n: X.MpEval({}).ev([n])[0]


def gcall(L, cs, fail_at=0, page=1):
    """(return value, {name: array after the call}, changed read-only arguments)"""
    L.fv_reset()
    ct.c_long.in_dll(L, 'fv_page').value = page
    ct.c_long.in_dll(L, 'fv_fail_at').value = fail_at
    L.fv_arg.restype = ct.c_void_p; L.fv_arg.argtypes = [ct.c_size_t]
    av, arrs = [], []
    for a in cs.args:
        if isinstance(a, harness.RawArr):
            n = a.a.nbytes; p = L.fv_arg(max(n, 1))
            ct.memmove(p, a.a.ctypes.data, n); av.append(ct.c_void_p(p)); arrs.append((a, p, n))
        else: av += a.con(EV)
    f = getattr(L, cs.fname); f.restype = ct.c_int32
    r = f(*av)
    out = {a.name: np.frombuffer(ct.string_at(p, n), a.a.dtype) for a, p, n in arrs}
    ro = [a.name for a, p, n in arrs if a.role == 'in' and out[a.name].tobytes() != a.a.tobytes()]
    return r, out, ro


def sweep(nm, g, limit, kmax, what, info=None, maxD=9):
    """battery item: calls of a generator with the k-th allocation failing; what: 'mem' | 'code'"""
    import mmap as mm, re
    box = mm.mmap(-1, 4096)
    def run():
        L = replay.lib('track'); replay.quiet(L)
        sf = (ct.c_char_p * 400000).in_dll(L, 'fv_sf'); sl = (ct.c_int * 400000).in_dll(L, 'fv_sl')
        tot = 0
        rng = random.Random(7)
        done = 0
        for desc, cs, fin in g():
            m = re.search(r'D=(\d+)', desc)
            if m and int(m.group(1)) > maxD: continue
            if rng.random() > limit: continue
            done += 1
            def here(s): b = s.encode()[:4000]; box[:len(b) + 1] = b + b'\0'
            here(desc + ': no failed allocation')
            r0, out, ro = gcall(L, cs)
            n = ct.c_long.in_dll(L, 'fv_count').value
            sites = [(sf[k], sl[k]) for k in range(1, min(n, 399999) + 1)]
            e = replay.track_errors()
            if e and what == 'mem': return dict(bad='%s: %s' % (desc, e), tot=tot)
            first, last = {}, {}
            for k, s in enumerate(sites, 1): first.setdefault(s, k); last[s] = k
            ks = sorted(set(first.values()) | set(last.values()) | ({rng.randrange(1, n + 1) for _ in range(4)} if n else set()))
            if len(ks) > kmax: ks = sorted(rng.sample(ks, kmax))
            for k in ks:
                here('%s: allocation %d of %d (%s:%d) fails' % (desc, k, n, os.path.basename(sites[k - 1][0].decode()), sites[k - 1][1]))
                r, out, ro = gcall(L, cs, k)
                tot += 1
                where = box[:].split(b'\0')[0].decode()
                e = replay.track_errors()
                if what == 'mem' and e: return dict(bad='%s: %s' % (where, e), tot=tot)
                if not ct.c_long.in_dll(L, 'fv_did_fail').value: continue
                if what == 'mem' and r == 0: return dict(bad='%s: returned 0' % where, tot=tot)
                if what == 'code' and abs(r) != 1: return dict(bad='%s: returned %d' % (where, r), tot=tot)
        return dict(bad=None, tot=tot)
    run.box = box
    from cp09 import NP
    def judge(o): return o['bad']
    return (nm, NP('fnft', run, nm), judge, dict(info or {}, box=box))


def systematic(rng):
    """all combinations of the options that select code in the public functions, few samples; (name, generator)"""
    from cp17 import sig
    import itertools
    out = []
    box = (-5, 5, 0, 5)
    for n, D in (('2SPLIT2_MODAL', 4), ('2SPLIT2A', 4), ('BO', 5), ('4SPLIT4B', 4), ('ES4', 4)):
        def g(n=n, D=D):
            r = np.random.default_rng(11)
            locs = ['NEWTON', 'FAST_EIGENVALUE', 'SUBSAMPLE_AND_REFINE'] if n in DEG else ['NEWTON']
            for loc, ds, cst, rich, mode, amp in itertools.product(locs, ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH'), ('REFLECTION_COEFFICIENT', 'AB', 'BOTH'), (0, 1), (0, 1, 2), (1, .001)):
                if mode == 2 and cst != 'AB' or mode == 1 and ds != 'BOTH': continue
                if r.uniform() > .6: continue
                filt = ('NONE', 'BASIC', 'FULL', 'MANUAL')[r.integers(4)]
                kw = dict(discretization=n, bound_state_localization=loc, bound_state_filtering=filt, discspec_type=ds, contspec_type=cst, richardson_extrapolation_flag=rich, normalization_flag=int(r.integers(2)), bounding_box=box)
                if loc.startswith('SUB') and r.integers(2): kw['Dsub'] = int(r.integers(2, D + 1))
                bs = np.array([.1 + .4j, -.2 + .7j]); K = 2 if loc == 'NEWTON' else 6 * D * ups(n) * 4
                yield 'D=%d amplitude %g %s' % (D, amp, kw), nsev_case(sig(D, r) * amp, (-1.0, 1.5), 2, (-1.0, 2.0), K, 1, None if mode == 1 else bs if loc == 'NEWTON' else True, True if mode else False, contspec=mode != 2, **kw), None
        out.append(('fnft_nsev systematic, %s' % n, g))
    for n, D in (('2SPLIT2A', 4), ('BO_VANILLA', 5), ('4SPLIT4B', 4), ('ES4', 4)):
        def g(n=n, D=D):
            r = np.random.default_rng(12)
            for loc, ds, cst, rich, mode, amp in itertools.product(('NEWTON', 'GRIDSEARCH_AND_REFINE'), ('NORMING_CONSTANTS', 'RESIDUES', 'BOTH'), ('REFLECTION_COEFFICIENT', 'AB', 'BOTH'), (0, 1), (0, 1, 2), (1, -1)):
                if mode == 2 and cst != 'AB' or mode == 1 and ds != 'BOTH': continue
                kw = dict(discretization=n, bound_state_localization=loc, discspec_type=ds, contspec_type=cst, richardson_extrapolation_flag=rich, normalization_flag=int(r.integers(2)), grid_spacing=.05)
                q = np.abs(sig(D, r)).astype(complex) * amp * (3 if amp > 0 else 1)
                yield 'D=%d amplitude %g %s' % (D, amp, kw), kdvv_case(q, (-1.0, 1.5), 2, (.3, 2.0), 2 if loc == 'NEWTON' else 40, None if mode == 1 else np.array([.4j, .7j]) if loc == 'NEWTON' else True, True if mode else False, contspec=mode != 2, **kw), None
        out.append(('fnft_kdvv systematic, %s' % n, g))
    for n, D in (('2SPLIT3A', 4), ('BO', 5), ('4SPLIT4B', 4), ('CF4_2', 4), ('FTES4_suzuki', 4)):
        def g(n=n, D=D):
            r = np.random.default_rng(13)
            for loc, cst, rich, mode, kap in itertools.product(('FAST_EIGENVALUE', 'SUBSAMPLE_AND_REFINE'), ('REFLECTION_COEFFICIENT', 'AB', 'BOTH'), (0, 1), (0, 1, 2), (1, -1)):
                if n in ('BO', 'CF4_2') and kap == 1: mode = 1
                if r.uniform() > .6: continue
                filt = ('NONE', 'BASIC', 'FULL')[r.integers(3)]
                kw = dict(discretization=n, bound_state_localization=loc, contspec_type=cst, richardson_extrapolation_flag=rich, normalization_flag=int(r.integers(2)), bound_state_filtering=filt)
                L = {'REFLECTION_COEFFICIENT': 2, 'AB': 3, 'BOTH': 5}[cst] * 2
                yield 'D=%d kappa=%d %s' % (D, kap, kw), Case('fnft_manakovv', pub_case('manakovv', D, [RawArr('q1', sig(D, r)), RawArr('q2', sig(D, r))], (-1.0, 1.5), 2, (-1.0, 2.0), 30 * D, None if mode == 1 else True, False, [I(kap)], mode != 2, L, **kw)), None
        out.append(('fnft_manakovv systematic, %s' % n, g))
    return out


# ------------------------------------------------------------------ execution with failing inner functions
INJ = sorted(x for x in CODES if not x.endswith(('_to_akns_discretization', 'vanilla_flag', 'slow_discretization')))
_shim = None


def shim():
    """stand-ins for the inner functions: forward to the compiled function, or return an error code at the chosen call"""
    global _shim
    if _shim: return _shim
    d = replay.workdir() + '/shim'; os.makedirs(d, exist_ok=True)
    so = replay.build('track')
    nm = set(l.split()[-1] for l in subprocess.run(['nm', '-D', '--defined-only', so], capture_output=True, text=True).stdout.splitlines())
    fs = [x for x in INJ if x in nm]
    a = ['.data', '.globl fi_cnt', '.globl fi_at', '.globl fi_code', '.globl fi_did', '.globl fi_real', '.globl fi_log', '.balign 16', 'fi_cnt: .quad 0', 'fi_at: .quad 0', 'fi_code: .quad 0', 'fi_did: .quad 0',
         'fi_real: .zero %d' % (8 * len(fs)), '.bss', '.balign 16', 'fi_log: .zero %d' % (2 * 65536), '.text']
    for i, f in enumerate(fs):
        a += ['.globl ' + f, '.type %s,@function' % f, f + ':', 'movq fi_cnt@GOTPCREL(%rip), %r11', 'incq (%r11)', 'movq (%r11), %rax', 'cmpq $65535, %rax', 'ja 2f', 'movq fi_log@GOTPCREL(%rip), %r10', 'movw $%d, (%%r10,%%rax,2)' % i, '2:',
              'movq fi_at@GOTPCREL(%rip), %r10', 'cmpq (%r10), %rax', 'jne 1f', 'movq fi_did@GOTPCREL(%rip), %r10', 'movq $%d, (%%r10)' % (i + 1), 'movq fi_code@GOTPCREL(%rip), %r10', 'movq (%r10), %rax', 'ret',
              '1:', 'movq fi_real@GOTPCREL(%rip), %r10', 'movq %d(%%r10), %%r10' % (8 * i), 'jmp *%r10']
    a.append('.section .note.GNU-stack,"",@progbits')
    open(d + '/shim.s', 'w').write('\n'.join(a) + '\n')
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-o', d + '/shim.so', d + '/shim.s'], capture_output=True, text=True)
    if r.returncode: raise RuntimeError(r.stderr)
    # a second copy of the library, loaded after (and hence bound to) the stand-ins
    import shutil
    shutil.copyfile(so, d + '/libfnft_fault.so')
    _shim = (d, fs)
    return _shim


def load_shim():
    d, fs = shim()
    S = ct.CDLL(d + '/shim.so', mode=ct.RTLD_GLOBAL)
    L = ct.CDLL(d + '/libfnft_fault.so')
    dl = ct.CDLL(None); dl.dlsym.restype = ct.c_void_p; dl.dlsym.argtypes = [ct.c_void_p, ct.c_char_p]
    real = (ct.c_void_p * len(fs)).in_dll(S, 'fi_real')
    for i, f in enumerate(fs):
        p = dl.dlsym(L._handle, f.encode())
        if not p or p == ct.cast(getattr(S, f), ct.c_void_p).value: raise RuntimeError('no ' + f)
        real[i] = p
    return S, L, fs


def inject(nm, g, limit, kmax, info=None, maxD=9):
    """battery item: calls of a generator with one inner function call failing"""
    import mmap as mm, re
    box = mm.mmap(-1, 4096)
    def run():
        S, L, fs = load_shim(); replay.quiet(L)
        q = lambda n: ct.c_long.in_dll(S, n)
        log = (ct.c_uint16 * 65536).in_dll(S, 'fi_log')
        rng = random.Random(8); tot = 0
        for desc, cs, fin in g():
            m = re.search(r'D=(\d+)', desc)
            if m and int(m.group(1)) > maxD or rng.random() > limit: continue
            q('fi_cnt').value = 0; q('fi_at').value = 0
            r0, out, ro = gcall(L, cs)
            n = min(q('fi_cnt').value, 65535)
            if r0 != 0: continue
            seq = [log[k] for k in range(1, n + 1)]
            first, last = {}, {}
            for k in range(n):
                s = tuple(seq[max(0, k - 2):k + 1]); first.setdefault(s, k + 1); last[s] = k + 1
            ks = sorted(set(first.values()) | set(last.values()))
            if len(ks) > kmax: ks = sorted(rng.sample(ks, kmax))
            for k in ks:
                code = rng.choice((7, -7, 5))
                w = '%s: call %d of %d (%s) fails with code %d' % (desc, k, n, fs[seq[k - 1]], code); b = w.encode()[:4000]; box[:len(b) + 1] = b + b'\0'
                q('fi_cnt').value = 0; q('fi_at').value = k; q('fi_did').value = 0; q('fi_code').value = code
                r, out, ro = gcall(L, cs); tot += 1
                q('fi_at').value = 0
                if q('fi_did').value and abs(r) != abs(code): return dict(bad='%s: returned %d' % (w, r))
        return dict(bad=None, tot=tot)
    from cp09 import NP
    return (nm, NP('fnft', run, nm), lambda o: o['bad'], dict(info or {}, box=box))
