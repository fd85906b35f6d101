"""Public transforms: option structures (layout read from the headers of the tree under test by the C compiler),
call instances, and numeric references written from the definitions."""
from contracts import *
from cp06 import PRE, known
import subprocess, os, ctypes as ct, math
import numpy as np

FIELDS = {
    'nsev': 'bound_state_filtering bound_state_localization niter tol Dsub discspec_type contspec_type normalization_flag discretization richardson_extrapolation_flag bounding_box',
    'kdvv': 'bound_state_localization niter discspec_type contspec_type normalization_flag discretization richardson_extrapolation_flag grid_spacing',
    'manakovv': 'bound_state_filtering bound_state_localization niter Dsub discspec_type contspec_type normalization_flag discretization richardson_extrapolation_flag',
    'nsep': 'localization filtering bounding_box max_evals discretization normalization_flag floquet_range points_per_spine Dsub tol',
    'nsev_inverse': 'discretization contspec_type contspec_inversion_method discspec_type max_iter oversampling_factor'}
HDR = {k: 'fnft_%s.h' % k for k in FIELDS}
ENUMS = {'nsev': ['bsfilt', 'bsloc', 'dstype', 'cstype'], 'kdvv': ['bsloc', 'dstype', 'cstype'], 'manakovv': ['bsfilt', 'bsloc', 'dstype', 'cstype'],
         'nsep': ['loc', 'filt'], 'nsev_inverse': ['cstype', 'csmethod', 'dstype']}
_lay = {}
_names = {}


def layout(tr):
    """(size, {field: (offset, size, kind)}) with kind i(nteger) or d(ouble)"""
    if tr not in _lay:
        t = 'fnft_%s_opts_t' % tr
        p = replay.workdir() + '/lay_%s_%d' % (tr, os.getpid())
        src = '#include <stdio.h>\n#include <stddef.h>\n#include "%s"\n#define K(x) _Generic((x), double:1, double*:1, default:0)\nint main(void){ %s x; printf("%%zu\\n", sizeof x);\n' % (HDR[tr], t)
        for f in FIELDS[tr].split():
            src += 'printf("%s %%zu %%zu %%d\\n", offsetof(%s,%s), sizeof x.%s, K(x.%s));\n' % (f, t, f, f, f)
        src += 'return 0;}\n'
        open(p + '.c', 'w').write(src)
        r = subprocess.run(['gcc', '-std=c11', '-w', '-DFNFT_ENABLE_SHORT_NAMES'] + replay.incs() + [p + '.c', '-o', p], capture_output=True, text=True)
        if r.returncode: raise RuntimeError(r.stderr[-800:])
        l = subprocess.run([p], capture_output=True, text=True).stdout.split('\n')
        d = {}
        for x in l[1:]:
            if x:
                n, o, s, k = x.split(); d[n] = (int(o), int(s), 'd' if k == '1' else 'i')
        _lay[tr] = (int(l[0]), d)
    return _lay[tr]


def ename(tr, kind):
    """names (without prefix) -> values of the option enumerations"""
    if (tr, kind) not in _names:
        t = 'fnft_%s_%s_t' % (tr, kind)
        _names[tr, kind] = {k[len(t) - 1:]: v for k, v in replay.enum_values(HDR[tr], t).items()}
    return _names[tr, kind]


EN = {'bound_state_filtering': 'bsfilt', 'bound_state_localization': 'bsloc', 'discspec_type': 'dstype', 'contspec_type': 'cstype',
      'localization': 'loc', 'filtering': 'filt', 'contspec_inversion_method': 'csmethod'}
FAM = {'nsev': 'nse', 'nsep': 'nse', 'nsev_inverse': 'nse', 'kdvv': 'kdv', 'manakovv': 'manakov'}


def optval(tr, f, v):
    if isinstance(v, str):
        if f == 'discretization':
            d = enum(FAM[tr])
            if v not in d: raise Unsupported('discretization %s not found' % v)
            return d[v]
        return ename(tr, EN[f])[v]
    return v


def default_bytes(tr):
    sz, _ = layout(tr)
    L = replay.lib('real')
    class S(ct.Structure): _fields_ = [('b', ct.c_uint8 * sz)]
    f = getattr(L, 'fnft_%s_default_opts' % tr); f.restype = S; f.argtypes = []
    return np.frombuffer(bytes(f().b), np.uint8).copy()


_def = {}


def opt_bytes(tr, kw):
    if tr not in _def: _def[tr] = default_bytes(tr)
    b = _def[tr].copy()
    sz, lay = layout(tr)
    for f, v in kw.items():
        o, s, k = lay[f]
        v = optval(tr, f, v)
        if k == 'd':
            a = np.array(v, np.float64).reshape(-1); b[o:o + 8 * len(a)] = a.view(np.uint8)
        else:
            b[o:o + s] = np.frombuffer((int(v) % (1 << (8 * s))).to_bytes(s, 'little'), np.uint8)
    return b


def warm(*trs):
    """compute everything that is read from the tree before worker processes are forked"""
    for t in trs:
        opt_bytes(t, {}); enum(FAM[t])
        for k in ENUMS[t]: ename(t, k)


class Opts(RawArr):
    """option structure; symbolic execution sees the same field values"""
    def __init__(s, tr, name='opts', **kw):
        s.tr, s.kw = tr, kw
        RawArr.__init__(s, name, opt_bytes(tr, {k: v for k, v in kw.items() if not isinstance(v, N)}), 'in')

    def sym(s, e, st):
        sz, lay = layout(s.tr)
        o = st.new(sz, 'arg', s.name)
        b = bytes(s.a)
        for f, (off, size, k) in lay.items():
            if k == 'd':
                for j in range(size // 8):
                    v = np.frombuffer(b[off + 8 * j:off + 8 * j + 8], np.float64)[0]
                    o.cells[off + 8 * j] = (fconst(float(v)), 8)
                if f in s.kw and isinstance(s.kw[f], N): o.cells[off] = (s.kw[f], 8)
            else:
                o.cells[off] = (int.from_bytes(b[off:off + size], 'little'), size)
        s.cells0 = dict(o.cells)
        return [Ptr(o.id, 0)]


# ------------------------------------------------------------------------------ numeric references
def nresample(q, eps, delta):
    D = len(q)
    f = np.where(np.arange(D) < (D + 1) // 2, np.arange(D), np.arange(D) - D)
    return np.fft.ifft(np.fft.fft(q) * np.exp(2j * np.pi * f / D * delta / eps))


def nprep(fam, n, q, ds, eps, kappa=1):
    """samples handed to the scattering step: (q, r, number of retained samples, stride)"""
    from cp22 import subs, wtab
    q = np.asarray(q, complex); D = len(q)
    nsk, w = subs(D, ds)
    rq = (lambda z: -kappa * np.conj(z)) if fam == 'nse' else (lambda z: -np.ones_like(z))
    if n in ('ES4', 'TES4'):
        h = nsk * eps; s = q[::nsk][:w]; g = np.concatenate([[0], s, [0]])
        Q = np.stack([s, (g[2:] - g[:-2]) / (2 * h), (g[2:] - 2 * g[1:-1] + g[:-2]) / h ** 2], 1)
        R = rq(Q) if fam == 'nse' else np.tile([-1.0, 0, 0], (w, 1)).astype(complex)
        return Q.reshape(-1), R.reshape(-1), w, nsk
    off, rows, _ = wtab(n, num=True)
    if ups(n) == 1: return q[::nsk][:w], rq(q[::nsk][:w]), w, nsk
    nodes = [nresample(q, eps, nsk * eps * o)[::nsk][:w] for o in off]
    Q = np.stack([sum(a * b for a, b in zip(r, nodes)) for r in rows], 1).reshape(-1)
    R = np.stack([sum(a * rq(b) for a, b in zip(r, nodes)) for r in rows], 1).reshape(-1)
    return Q, R, w, nsk


def nscaled(ms):
    """ordered product (later leftmost) of a sequence of (…,m,m) arrays as (matrix, log scale)"""
    P, L = None, 0.0
    for M in ms:
        P = M if P is None else M @ P
        s = np.max(np.abs(P), axis=(-1, -2), keepdims=True); P = P / s; L = L + np.log(s[..., 0, 0])
    return P, L


def nse_H(n, qp, rp, eps, lam):
    """(first column [H11,H21] and their logarithmic scale) of the discretized scattering problem at each lam"""
    from schemes import nfactor2
    lam = np.atleast_1d(np.asarray(lam, complex))
    u = ups(n)
    if n in DEG:
        z = np.exp(2j * lam * eps / (DEG[n] * u))
        def fac():
            if n.startswith('4SPLIT'):
                for k in range(len(qp) // 2): yield np.moveaxis(nfactor_at(n, qp, rp, k, eps, z), 2, 0)
            else:
                for k in range(len(qp)): yield np.moveaxis(nfactor_at(n, qp, rp, k, eps, z), 2, 0)
        P, L = nscaled(fac())
    else:
        from specs import nstep
        D = len(qp) // u
        P, L = nscaled(np.stack([nstep(n, k, qp, rp, l, eps)[:2, :2] for l in lam]) for k in range(D))
    return P[:, 0, 0], P[:, 1, 0], L


def nfactor_at(n, qp, rp, k, eps, z):
    from schemes import ntransfer2
    m = ups(n)
    return ntransfer2(n, qp[k * m:(k + 1) * m], rp[k * m:(k + 1) * m], eps, z)


def nse_pf(n, eps, D, T):
    """phase factors (rho, a, b) between the discretization's and the requested boundaries"""
    fast = -eps * D if n in DEG else 0.0
    sh = eps if n in ('2SPLIT2A', '2SPLIT2_MODAL') else 0.0
    L, R = T[0] - eps / 2, T[1] + eps / 2
    return -2 * R + sh, fast + R - L, fast - R - L + sh


def nse_ab(n, q, T, kappa, lam, ds=None):
    """(rho, a, b) of the discretized problem; also returns step size and the retained interval"""
    D = len(q); eps = (T[1] - T[0]) / (D - 1)
    qp, rp, w, nsk = nprep('nse', n, q, D if ds is None else ds, eps, kappa)
    T0, T1 = T[0], T[0] + (w - 1) * nsk * eps
    if w == D: T1 = T[1]
    e = (T1 - T0) / (w - 1)
    H11, H21, L = nse_H(n, qp, rp, e, lam)
    pr, pa, pb = nse_pf(n, e, w, (T0, T1))
    with np.errstate(all='ignore'):
        return H21 * np.exp(1j * lam * pr) / H11, H11 * np.exp(L + 1j * lam * pa), H21 * np.exp(L + 1j * lam * pb), e, (T0, T1), w


def nsev_case(q, T, M=0, XI=None, K=0, kappa=1, bs=None, nc=None, nbs=None, contspec=True, opts=None, cslen=None, label=None, **kw):
    """fnft_nsev instance. bs: initial bound states or True; contspec False -> NULL"""
    D = len(q)
    ob = Opts('nsev', **kw) if opts is None else opts
    ct_ = kw.get('contspec_type', 'REFLECTION_COEFFICIENT')
    n = {'REFLECTION_COEFFICIENT': 1, 'AB': 2, 'BOTH': 3}.get(ct_, 3) * M
    a = [U(D), RawArr('q', np.asarray(q, complex)), RawArr('T', np.array(T, float)), U(M),
         RawArr('cs', np.full(max(n, 1), SENT), 'out') if contspec else Null(), RawArr('XI', np.array(XI, float)) if XI is not None else Null(),
         RawArr('K', np.array([K], np.uint64), 'io')]
    if bs is None: a += [Null(), Null()]
    else:
        init = np.full(max(K, 1), SENT)
        if bs is not True: init[:len(bs)] = bs
        m = 2 if kw.get('discspec_type') == 'BOTH' else 1
        a += [RawArr('bs', init, 'io'), RawArr('nc', np.full(max(m * K, 1), SENT), 'out') if nc is not False else Null()]
    a += [I(kappa), ob]
    return Case('fnft_nsev', a)


def kdv_pf(n, eps, D, T):
    fast = -eps * D if n in DEG else 0.0
    L, R = T[0] - eps / 2, T[1] + eps / 2
    return -2 * R, fast + R - L, fast - R - L


def kdv_S(n, van, qp, rp, eps, lam):
    """first column of the S-basis scattering matrix of the discretized problem, with log scale"""
    from specs import nstep, nbasis
    lam = np.atleast_1d(np.asarray(lam, complex)); u = ups(n)
    qe, re_ = (qp, rp) if van else (rp, qp)
    B = np.stack([nbasis('KdV', n, van, l, eps)[:2, :2] for l in lam])
    if n in DEG:
        z = np.exp(2j * lam * eps / (DEG[n] * u))
        P, L = nscaled(np.moveaxis(nfactor_at(n, qe, re_, k, eps, z), 2, 0) for k in range(len(qp) // u))
    else:
        P, L = nscaled(np.stack([nstep(n, k, qe, re_, l, eps)[:2, :2] for l in lam]) for k in range(len(qp) // u))
    S = B @ P @ np.linalg.inv(B)
    return S[:, 0, 0], S[:, 1, 0], L


def kdv_ab(n, van, q, T, lam, ds=None):
    D = len(q); eps = (T[1] - T[0]) / (D - 1)
    qp, rp, w, nsk = nprep('kdv', n, q, D if ds is None else ds, eps)
    T0, T1 = T[0], T[0] + (w - 1) * nsk * eps
    if w == D: T1 = T[1]
    e = (T1 - T0) / (w - 1)
    H11, H21, L = kdv_S(n, van, qp, rp, e, lam)
    pr, pa, pb = kdv_pf(n, e, w, (T0, T1))
    with np.errstate(all='ignore'):
        return H21 * np.exp(1j * lam * pr) / H11, H11 * np.exp(L + 1j * lam * pa), H21 * np.exp(L + 1j * lam * pb), e, (T0, T1), w


def pub_case(tr, D, lead, T, M, XI, K, bs, nc, tail, contspec, n, **kw):
    m = 2 if kw.get('discspec_type') == 'BOTH' else 1
    a = [U(D)] + lead + [RawArr('T', np.array(T, float)), U(M), RawArr('cs', np.full(max(n, 1), SENT), 'out') if contspec else Null(),
                         RawArr('XI', np.array(XI, float)) if XI is not None else Null(), RawArr('K', np.array([K], np.uint64), 'io')]
    if bs is None: a += [Null(), Null()]
    else:
        init = np.full(max(K, 1), SENT)
        if bs is not True: init[:len(bs)] = bs
        a += [RawArr('bs', init, 'io'), RawArr('nc', np.full(max(m * K, 1), SENT), 'out') if nc is not False else Null()]
    return a + tail + [Opts(tr, **kw)]


def kdvv_case(q, T, M=0, XI=None, K=0, bs=None, nc=None, contspec=True, **kw):
    n = {'REFLECTION_COEFFICIENT': 1, 'AB': 2, 'BOTH': 3}.get(kw.get('contspec_type', 'REFLECTION_COEFFICIENT'), 3) * M
    return Case('fnft_kdvv', pub_case('kdvv', len(q), [RawArr('q', np.asarray(q, complex))], T, M, XI, K, bs, nc, [], contspec, n, **kw))
