"""P21: output capacities are honoured, counts equal the valid entries, nothing else is written."""
from fault import *
import mmap as mm, itertools, re
LEVEL = 'other'
TECHNIQUE = 'contract-based deductive verification of the public functions over the contracts of their inner steps: bounds of every write to the output arrays (allocated with exactly the documented length), counts; compiled calls over all capacities'
NOTE = 'Sizes fixed per instance (bounded), values and branch outcomes symbolic. Compiled calls: every output array ends at an inaccessible page, all capacities from 1 to beyond the number of points found.'
SOURCES = ['fnft_nsev.c', 'fnft_kdvv.c', 'fnft_manakovv.c', 'fnft_nsep.c', 'fnft_nsev_inverse.c', 'nse_', 'kdv_', 'manakov_', 'akns_', 'misc', 'poly_', 'fft_wrapper', 'kiss_fft.c']


def check(c):
    warm('nsev', 'kdvv', 'manakovv', 'nsep', 'nsev_inverse')
    c.parallel(sym, [(j, k) for j in public_caps(c) for k in room(j)])
    c.battery(caps(c, np.random.default_rng(c.seed + 21)), 'track', stop=99)


PAIR = {'bs': 'K', 'nc': 'K', 'main': 'K', 'aux': 'M'}


def room(j):
    """capacities of an instance (None: ample)"""
    if j[1].__name__ == 'cont' or j[0] == 'nsev' and j[1].__module__ == 'cp10': return [None]
    if j[0] == 'nsev' and 'NEWTON' in j: return [None]
    if j[0] == 'kdvv' and j[1].__name__ == 'newt': return [None]
    if j[0] == 'nsep' and j[1].__name__ == 'newt': return [None]
    return [None, 1, 2] if j[0] != 'kdvv' else [None, 1]


def shrink(cs, cap):
    import copy as cp
    b = Case(cs.fname, [cp.copy(a) for a in cs.args])
    b.__dict__.update({k: v for k, v in cs.__dict__.items() if k not in ('args', 'fname', 'ptr')})
    b.args = [cp.copy(a) for a in cs.args]
    old = {a.name: a.init[0] for a in b.args if a.name in ('K', 'M') and getattr(a, 'init', None)}
    for a in b.args:
        if a.name in old: a.init = [min(cap, old[a.name])]
        elif a.name in PAIR and PAIR[a.name] in old and hasattr(a, 'n'):
            o = old[PAIR[a.name]]
            a.n = a.n // o * min(cap, o)
            if getattr(a, 'init', None): a.init = a.init[:a.n]
    return b


def sym(c, j, cap):
    got = capture(j[1], c, *j[2:])
    lab = 'fnft_%s %s room %s' % (j[0], ' '.join(str(x) for x in j[2:]), cap or 'ample')
    if got is None: c.record(lab, 'undecided', 'engine', 'no instance'); return
    if cap: got = (shrink(got[0], cap),) + got[1:]
    cs, e, R = rerun(c, lab, got, '')
    c.safety_fail(lab, cs, e)
    caps_ = {a.name: a.init[0] for a in cs.args if a.name in ('K', 'M') and getattr(a, 'init', None)}
    good = 0
    for st in R:
        if st.retval != 0: continue
        good += 1
        for k, mx in caps_.items():
            n = e.getu(st, cs.ptr[k])
            used = [a for a in cs.args if PAIR.get(a.name) == k and hasattr(a, 'n')]
            if not used and cs.fname == 'fnft_nsep': continue
            ok = isinstance(n, int) and n <= mx
            c.truth(lab + ': count within the capacity', ok, scope='bounded') or c.fail_concrete(lab + ': count within the capacity', None, None, '*%s=%s, capacity %s' % (k, n, mx))
            if not ok: return
            for a in used:
                f = a.n // mx
                for i in range(n * f):
                    z = e.getc(st, cs.ptr[a.name], i)
                    ok = z.re is not X.UNDEF and z.im is not X.UNDEF
                    c.truth(lab + ': reported entries are written', ok, scope='bounded') or c.fail_concrete(lab + ': reported entries are written', None, None, '%s[%d]' % (a.name, i))
                    if not ok: return
        a = next((a for a in cs.args if a.name == 'cs' and hasattr(a, 'n')), None)
        if a is not None:
            ok = all(e.getc(st, cs.ptr['cs'], i).re is not X.UNDEF for i in range(a.n))
            c.truth(lab + ': continuous spectrum completely written', ok, scope='bounded') or c.fail_concrete(lab + ': continuous spectrum completely written', None, None, '')
    if not good: c.record(lab, 'undecided', 'engine', 'no successful path')


FILL = {np.dtype(np.complex128): SENT, np.dtype(np.float64): SENT.real, np.dtype(np.uint64): 77}


def untouched(x): return np.all(x == SENT)


def setarg(cs, name, a):
    b = Case(cs.fname, list(cs.args))
    for i, x in enumerate(b.args):
        if x.name == name: b.args[i] = a
    return b


def get(cs, name):
    for x in cs.args:
        if x.name == name and isinstance(x, harness.RawArr): return x
    return None


def cases(rng):
    """ample calls: (description, case, outputs [(count name, array, factor)])"""
    import cp17
    for x in list(systematic(rng)) + [y for y in cp17.gens(rng)]:
        if len(x) > 2 and x[2]: continue
        yield x


def one(L, desc, cs, R):
    """message or None"""
    opts = next((a for a in cs.args if isinstance(a, Opts)), None)
    kw = opts.kw if opts else {}
    newton = kw.get('bound_state_localization', kw.get('localization')) == 'NEWTON'
    both = kw.get('discspec_type') == 'BOTH'
    outs = [('K', 'bs', 1), ('K', 'nc', 2 if both else 1)] if cs.fname != 'fnft_nsep' else [('K', 'main', 1), ('M', 'aux', 1)]
    cnts = {k for k, a, f in outs if get(cs, a) is not None and get(cs, k) is not None}
    r0, full, ro = gcall(L, cs)
    e = replay.track_errors()
    if e: return 'heap: ' + e
    if r0 != 0: return None
    nf = {k: int(full[k][0]) for k in cnts}
    if r0 == 0 and 'K' in nf and cs.fname in ('fnft_nsev', 'fnft_manakovv') and opts is not None and not newton:
        f = getattr(L, cs.fname + '_max_K'); f.restype = ct.c_size_t
        n = next(a for a in cs.args if a.__class__ is U); mx = f(n.con(EV)[0], *opts.con(EV))
        if nf['K'] > mx: return '%d bound states reported, %s_max_K announces at most %d' % (nf['K'], cs.fname, mx)
    lim = {k: int(get(cs, k).a[0]) for k in cnts}
    if newton:
        tries = [None]
    else:
        tries = []
        m = max(nf.values(), default=0)
        S = sorted(set([1, 2, 3] + [max(1, m // 2), max(1, m - 1), m, m + 1, m + 3]))
        for n in S:
            if len(cnts) == 2 and R.random() < .5:
                tries.append({k: R.choice(S) for k in sorted(cnts)})
            else: tries.append({k: n for k in cnts})
        tries = [t for t in tries if all(v >= 1 for v in t.values())]
        if not cnts: tries = [None]
    for t in tries:
        if t is not None and any(nf[k] >= lim[k] and t[k] > lim[k] for k in t): continue
        b = cs
        if t is not None:
            for k in t: b = setarg(b, k, RawArr(k, np.array([t[k]], np.uint64), 'io'))
            for k, a, f in outs:
                x = get(cs, a)
                if x is not None and k in t: b = setarg(b, a, RawArr(a, np.full(t[k] * f, SENT), 'io'))
        r, o, ro = gcall(L, b)
        w = 'capacities %s' % t if t is not None else 'initial guesses'
        e = replay.track_errors()
        if e: return '%s: heap: %s' % (w, e)
        if abs(r) == 3: continue
        if r != 0: return '%s (found %s with ample capacity): returned %d' % (w, nf, r)
        for k, a, f in outs:
            x = get(b, a)
            if x is None or k not in cnts: continue
            n = int(o[k][0]); cap = int(get(b, k).a[0])
            ft = f
            if cs.fname == 'fnft_nsep' and newton: cap = len(x.a)
            if n > cap: return '%s: %d points reported, capacity %d' % (w, n, cap)
            if t is not None and n != min(cap, nf[k]): return '%s: %d points in %s returned, %d found with ample capacity' % (w, n, k, nf[k])
            v = o[a]
            if len(v) < n * f: return '%s: %s has %d entries, %d reported' % (w, a, len(v), n)
            if np.any(v[:n * f] == SENT): return '%s: entries of %s among the reported %d not written' % (w, a, n)
            if a != 'nc' and t is not None and not newton and not kw.get('richardson_extrapolation_flag'):
                U_ = full[a][:nf[k]]
                if n and np.all(np.isfinite(v[:n])) and np.max([np.min(np.abs(U_ - z)) / (1 + abs(z)) for z in v[:n]]) > 1e-6: return '%s: a reported entry of %s is not among those found with ample capacity' % (w, a)
        for k in ('K', 'M'):
            x = get(b, k)
            if x is not None and k not in cnts and cs.fname != 'fnft_nsep' and k == 'K' and int(o[k][0]) not in (0,): return '%s: *%s = %d although nothing was computed' % (w, k, int(o[k][0]))
        if 'cs' in o and opts is not None and cs.fname != 'fnft_nsev_inverse' and np.any(o['cs'] == SENT): return '%s: continuous spectrum not completely written' % w
    return None


def caps(c, rng):
    items = []
    q = 1.0 if c.tier == 'quick' else 4.0
    for x in cases(rng):
        tr = x[0].split()[0]
        lim = 1.0 if 'systematic' in x[0] else {'fnft_nsev': .04, 'fnft_kdvv': .03, 'fnft_manakovv': .15, 'fnft_nsep': .2, 'fnft_nsev_inverse': .3}.get(tr, 1.0) * q
        box = mm.mmap(-1, 4096)
        def run(g=x[1], lim=lim, box=box):
            L = replay.lib('track'); replay.quiet(L)
            R = random.Random(5)
            for desc, cs, fin in g():
                m = re.search(r'D=(\d+)', desc)
                if m and int(m.group(1)) > 16 or R.random() > lim: continue
                b = desc.encode()[:4000]; box[:len(b) + 1] = b + b'\0'
                bad = one(L, desc, cs, R)
                if bad: return dict(bad='%s %s: %s' % (cs.fname, desc, bad))
            return dict(bad=None)
        from cp09 import NP
        nm = 'capacities: ' + x[0].replace(' accepts', '')
        items.append((nm, NP('fnft', run, nm), lambda o: o['bad'], dict(box=box)))
    return items
