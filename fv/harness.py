"""Checks: contracts on functions of /repo, obligations, discharge, replay, evidence."""
import os, sys, json, time, random, ctypes as ct, traceback, hashlib, copy
from fractions import Fraction
import numpy as np
import mpmath
from mpmath import mpf, mpc
import expr as X
from expr import N, C, ZERO, ONE, const, var, fconst
import ir, replay
from engine import Engine, State, Ptr, IP, Unsupported, Budget, LIBC, z3of

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GUARD = 64
SENT = complex(1.2345e77, -6.54321e77)


# ------------------------------------------------------------------ arguments
class Arg:
    name = None

    def sym(s, e, st):
        raise NotImplementedError

    def con(s, ev):
        raise NotImplementedError

    def out(s):
        return None


class U(Arg):
    def __init__(s, v): s.v = v
    def sym(s, e, st): return [s.v]
    def con(s, ev): return [ct.c_size_t(s.v)]


class I(Arg):
    def __init__(s, v): s.v = v
    def sym(s, e, st): return [s.v % (1 << 32) if isinstance(s.v, int) else s.v]
    def con(s, ev): return [ct.c_int32(s.v)]


class F(Arg):
    def __init__(s, v): s.v = var(v) if isinstance(v, str) else v if isinstance(v, N) else fconst(float(v))
    def sym(s, e, st): return [s.v]
    def con(s, ev): return [ct.c_double(float(ev(s.v)))]


class Z(Arg):
    def __init__(s, v): s.v = X.cvar(v) if isinstance(v, str) else C.of(v)
    def sym(s, e, st): return [s.v.re, s.v.im]
    def con(s, ev): return [ct.c_double(float(ev(s.v.re))), ct.c_double(float(ev(s.v.im)))]


class Null(Arg):
    def sym(s, e, st): return [0]
    def con(s, ev): return [ct.c_void_p(0)]


class Arr(Arg):
    """array argument; kind c(omplex) d(ouble) u(size_t) i(nt32); role in | out | io"""

    def __init__(s, name, n, kind='c', role='in', init=None):
        s.name, s.n, s.kind, s.role = name, n, kind, role
        if init is not None:
            s.init = [C.of(x) for x in init] if kind == 'c' else [x if isinstance(x, (N, int)) and kind in 'ui' or isinstance(x, N) else fconst(float(x)) if kind == 'd' else x for x in init]
        elif role == 'out':
            s.init = None
        elif kind == 'c':
            s.init = [X.cvar("%s[%d]" % (name, k)) for k in range(n)]
        else:
            s.init = [var("%s[%d]" % (name, k)) for k in range(n)]

    def sym(s, e, st):
        w = {'c': 16, 'd': 8, 'u': 8, 'i': 4}[s.kind]
        o = st.new(w * s.n, 'arg', s.name, ro=(s.role == 'in'))
        if s.init is not None:
            for k, z in enumerate(s.init):
                if s.kind == 'c':
                    o.cells[16 * k] = (z.re, 8); o.cells[16 * k + 8] = (z.im, 8)
                else:
                    o.cells[w * k] = (z, w)
        return [Ptr(o.id, 0)]

    def con(s, ev):
        dt = {'c': np.complex128, 'd': np.float64, 'u': np.uint64, 'i': np.int32}[s.kind]
        a = np.empty(s.n + 2 * GUARD, dtype=dt)
        a[:] = SENT if s.kind == 'c' else SENT.real if s.kind == 'd' else 77
        if s.init is not None:
            for k, z in enumerate(s.init):
                if s.kind == 'c':
                    a[GUARD + k] = complex(float(ev(z.re)), float(ev(z.im)))
                elif s.kind == 'd':
                    a[GUARD + k] = float(ev(z))
                else:
                    a[GUARD + k] = z
        s.buf = a; s.orig = a.copy()
        return [ct.c_void_p(a.ctypes.data + GUARD * a.itemsize)]

    def out(s):
        return s.buf[GUARD:GUARD + s.n]

    def guards_ok(s):
        same = lambda x, y: x.tobytes() == y.tobytes()
        return same(s.buf[:GUARD], s.orig[:GUARD]) and same(s.buf[GUARD + s.n:], s.orig[GUARD + s.n:]) and (s.role != 'in' or same(s.buf, s.orig))


class RawArr(Arr):
    """concrete numpy array argument (execution only)"""

    def __init__(s, name, a, role='in'):
        s.name, s.a, s.role, s.n = name, np.ascontiguousarray(a), role, len(a)

    def sym(s, e, st):
        raise Unsupported("concrete array")

    def con(s, ev):
        a = np.empty(s.n + 2 * GUARD, dtype=s.a.dtype)
        a[:] = SENT if a.dtype == np.complex128 else SENT.real if a.dtype == np.float64 else 77
        a[GUARD:GUARD + s.n] = s.a
        s.buf = a; s.orig = a.copy()
        return [ct.c_void_p(a.ctypes.data + GUARD * a.itemsize)]


class Raw(Arg):
    """raw ctypes value"""
    def __init__(s, v, name=None): s.v, s.name = v, name
    def con(s, ev): return [s.v]
    def out(s): return None


class Case:
    """one instance of a contract: function + symbolic arguments"""

    def __init__(s, fname, args, stem=None, ret='int'):
        s.fname, s.args, s.stem, s.ret = fname, args, stem, ret
        s.assign = None

    def __repr__(s):
        return s.fname + '(' + ', '.join(str(getattr(a, 'v', a.name or 'NULL')) for a in s.args) + ')'

    def sym(s, chk, **kw):
        contracts = kw.pop('contracts', {})
        pre = kw.pop('pre', None)
        e = chk.engine(contracts, **kw)
        st = State()
        av = []
        s.ptr = {}
        for a in s.args:
            v = a.sym(e, st)
            if a.name:
                s.ptr[a.name] = v[0]
            av += v
        if pre:
            pre(e, st, s)
        mod = None
        if s.stem:
            mod = next((m for m in chk.prog.mods if os.path.basename(m.file) == s.stem + '.c'), None)
        R = e.call(s.fname, av, st, mod)
        chk.note_engine(e, s.fname)
        return e, R

    def conc(s, assign, variant='real'):
        E = X.MpEval(assign)
        def ev(n):
            return E.ev([n])[0]
        L = replay.lib(variant)
        replay.quiet(L)
        f = getattr(L, (s.stem + '__' + s.fname) if s.stem and not hasattr(L, s.fname) else s.fname)
        f.restype = {'int': ct.c_int32, 'size': ct.c_size_t, 'double': ct.c_double, 'complex': CD, 'void': None}[s.ret]
        av = []
        for a in s.args:
            av += a.con(ev)
        r = f(*av)
        out = {'ret': r if s.ret != 'complex' else complex(r.re, r.im)}
        for a in s.args:
            if a.name:
                out[a.name] = a.out()
        out['guards'] = all(a.guards_ok() for a in s.args if isinstance(a, Arr))
        out['ro_ok'] = all(a.buf.tobytes() == a.orig.tobytes() for a in s.args if isinstance(a, Arr) and a.role == 'in')
        return out


class CD(ct.Structure):
    _fields_ = [("re", ct.c_double), ("im", ct.c_double)]


_RELP = {frozenset('<'): 'olt', frozenset('='): 'oeq', frozenset('>'): 'ogt', frozenset('<='): 'ole', frozenset('>='): 'oge', frozenset('<>'): 'one'}


def path_conds(st):
    out = []
    for p in st.path:
        if p[0] == 'f':
            rs = frozenset(p[1]) - {'u'}
            if rs in _RELP:
                out.append((_RELP[rs], p[2], p[3]))
            elif not rs:
                out.append(('uno', p[2], p[3]))
    return out


# ------------------------------------------------------------------ check
class Check:
    def __init__(c, pid, sources=None, level='proof'):
        c.pid = pid; c.level = level
        c.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        c.tier = os.environ.get('VERIF_TIER', 'quick')
        c.t0 = time.time()
        c.budget = float(os.environ.get('FV_BUDGET', 700 if c.tier == 'quick' else 2400))
        c.obl = []           # dict(name,status,backend,detail,n)
        c.oidx = {}; c.proved = set()
        c.viol = []
        c.under = {}; c.contracts_used = set(); c.inl = set(); c.ext = set()
        c.assumptions = []
        c.safety = {}
        c.solver_s = 0.0
        c.z3q = 0
        c.evals = 0; c.samples = []
        c.known = load_known(pid)
        c.known_hit = []
        c.rng = random.Random("%s-%d" % (pid, c.seed))
        c.notes = []; c.wid = ''
        c.sources = sources
        c._prog = None

    @property
    def prog(c):
        if c._prog is None:
            c._prog = ir.load(c.sources)
        return c._prog

    def engine(c, contracts=None, **kw):
        kw.setdefault('deadline', c.t0 + c.budget)
        return Engine(c.prog, contracts or {}, seed=c.seed, **kw)

    def note_engine(c, e, fname):
        c.under[fname] = c.under.get(fname, 0) + 1
        c.contracts_used |= e.used_contracts; c.inl |= e.inlined; c.ext |= e.externs
        for k, v in e.nobl.items():
            c.safety[k] = c.safety.get(k, 0) + v
        c.z3q += e.zfail_stats[0]

    def left(c):
        return c.t0 + c.budget - time.time()

    # -- obligations
    def record(c, name, status, backend, detail='', n=1):
        k = (name, status, backend, str(detail)[:400])
        o = c.oidx.get(k)
        if o is None or o[0] >= len(c.obl) or c.obl[o[0]] is not o[1]:
            o = dict(name=name, status=status, backend=backend, detail=k[3], n=n)
            c.oidx[k] = (len(c.obl), o); c.obl.append(o)
        else: o[1]['n'] += n

    def eq(c, name, case, st, items, sampler=None, scope='unbounded', tol=1e-9, assume=(), rtol_real=1e-6, fns=None):
        """items: list of (where, impl term, spec term), where = (array name, index, 're'|'im') or None.
        Discharges impl == spec for all symbol values on this path; refutation is replayed on the real library."""
        t = time.time()
        if len(c.viol) >= 3:
            c.record(name, 'undecided', '', 'not examined after three violations'); return None
        pairs = [(a, b) for _, a, b in items]
        verdict, idx, note = True, None, 'prime-field identity test'
        new = [(a, b) for a, b in pairs if a is not b and (a.id, b.id) not in c.proved]      # terms are hash-consed: an identity is decided once
        if new or len(pairs) < 1:
            verdict, idx, note = X.identical(pairs, c.seed)
            if verdict: c.proved.update((a.id, b.id) for a, b in new)
        c.solver_s += time.time() - t
        if verdict:
            c.record(name, 'discharged' if scope == 'unbounded' else 'bounded', note, scope, len(pairs))
            return True
        conds = (path_conds(st) if st is not None else []) + list(assume)
        worst, wit, used = X.numeric_compare(pairs, c.seed, conds=conds, sampler=sampler, fns=fns)
        c.solver_s += time.time() - t
        if used == 0:
            if verdict is False and not conds:
                c.record(name, 'undecided', note, 'no admissible real point')
            else:
                c.record(name, 'undecided', note, 'path condition not sampled')
            return None
        if worst < mpf(10) ** -25:
            c.record(name, 'numeric', 'multi-precision evaluation', '%s; %s' % (note, scope), len(pairs)); return True
        if worst < tol:
            c.record(name, 'numeric', 'multi-precision evaluation', 'equal up to %s (decimal constants)' % mpmath.nstr(worst, 3), len(pairs)); return True
        # refuted: replay on the real code
        assign, i, vi, vs = wit
        where = items[i][0]
        c.record(name, 'refuted', note, '%s: code %s, contract %s' % (where, mpmath.nstr(vi, 12), mpmath.nstr(vs, 12)))
        tried = []
        for attempt in range(6 if case is not None else 1):
            if attempt:
                worst, wit, used = X.numeric_compare(pairs, c.seed * 1000 + attempt, conds=conds, sampler=sampler, points=1, fns=fns)
                if not wit:
                    continue
                assign, i, vi, vs = wit
                where = items[i][0]
            ok, rep = c.replay_eq(case, assign, items, rtol_real)
            tried.append(rep)
            if ok:
                c.violation(name, rep, concrete=True)
                return False
        c.violation(name, dict(obligation=name, term=str(where), code_value=mpmath.nstr(vi, 15), contract_value=mpmath.nstr(vs, 15), assignment={str(k): mpmath.nstr(v, 17) for k, v in assign.items()}, note="not reproduced on the compiled library", tried=tried[:2]), concrete=False)
        return False

    def replay_eq(c, case, assign, items, rtol):
        """run the compiled function at the (double rounded) assignment and compare with the contract value"""
        if case is None:
            return False, {}
        asg = {k: mpf(float(v)) for k, v in assign.items()}
        try:
            out = run_forked(lambda: case.conc(dict(asg)))
        except Crash as k:
            return True, dict(function=case.fname, case=repr(case), assignment=jsonable(asg), crashed=str(k))
        c.evals += 1
        E = X.MpEval(dict(asg))
        sv = E.ev([s for _, _, s in items])
        mag = max([abs(v) for v in sv if not mpmath.isnan(v) and not mpmath.isinf(v)] + [mpf(10) ** -300])
        bad = None
        for (w, _, _), v in zip(items, sv):
            if w is None or mpmath.isnan(v):
                continue
            r = out['ret'] if w[0] == 'ret' else out[w[0]][w[1]]
            if len(w) > 2 and w[2] in ('re', 'im'):
                r = getattr(complex(r), 'real' if w[2] == 're' else 'imag')
            d = abs(mpf(float(r)) - v) if r == r and abs(r) < 1e300 else mpmath.inf
            if d > rtol * max(abs(v), mag * mpf(10) ** -3):
                bad = (w, r, v); break
        rep = dict(function=case.fname, case=repr(case), assignment=jsonable(asg), output=None if not bad else str(bad[0]), observed=None if not bad else repr(bad[1]), expected=None if not bad else mpmath.nstr(bad[2], 17))
        return bad is not None, rep

    def truth(c, name, ok, backend='symbolic execution', detail='', scope='unbounded', n=1):
        """decided boolean obligation (no numeric replay attached)"""
        c.record(name, ('discharged' if scope == 'unbounded' else 'bounded') if ok else 'refuted', backend, detail, n)
        return ok

    def safety_ok(c, name, e, scope='unbounded', report=True):
        """all memory-safety / frame obligations generated while executing were discharged"""
        n = sum(e.nobl.values())
        if not e.fails:
            c.record(name + ' [safety]', 'discharged' if scope == 'unbounded' else 'bounded', 'bounds/frame tracking', str(e.nobl), max(n, 1))
            return True
        return False

    def known_finding(c, key):
        """key identifies a specific failing input/site; True when it is a listed finding"""
        for k in c.known:
            if k == key:
                if k not in c.known_hit:
                    c.known_hit.append(k)
                return True
        return False

    def violation(c, name, rep, concrete):
        key = rep.get('key') if isinstance(rep, dict) else None
        if key and c.known_finding(key):
            return False
        os.makedirs(os.path.join(VERIF, 'out', 'replay'), exist_ok=True)
        path = os.path.join('out', 'replay', '%s%s-%d.json' % (c.pid, c.wid, len(c.viol) + 1))
        d = dict(property=c.pid, obligation=name, concrete=concrete, seed=c.seed, replay=rep)
        json.dump(d, open(os.path.join(VERIF, path), 'w'), indent=1, default=str)
        c.viol.append((name, path, concrete))
        print("obligation FAILED: %s" % name)
        print("   " + json.dumps(rep, default=str)[:1200])
        sys.stdout.flush()
        return True

    def rand_assign(c, names=None, case=None):
        class D(dict):
            def __missing__(s, k):
                if k == 'pi':
                    return mpmath.pi
                v = mpf(c.rng.uniform(-1.2, 1.2)) if not str(k).startswith('eps') else mpf(c.rng.uniform(0.05, 0.5))
                s[k] = v
                return v
            def __contains__(s, k):
                s[k]
                return True
        return D()

    def run_case(c, cs, nm, assign=None, variant='real', timeout=60):
        """execute on the compiled library in a child; (False, None) after reporting a crash"""
        try:
            out = run_forked(lambda: cs.conc(assign if assign is not None else c.rand_assign(), variant), timeout)
        except Crash as k:
            c.record(nm, 'refuted', 'execution', 'crash: %s' % k)
            c.violation(nm, dict(function=cs.fname, case=repr(cs), crashed=str(k), assignment=str(assign)[:400] if assign else None), True)
            return False, None
        c.evals += 1
        return True, out

    def battery(c, items, variant='real', timeout=300, stop=1):
        """bounded executions of contract instances on the compiled library.
        items: (label, Case, judge(out) -> message or None, info dict). All run in forked children; crashes are violations."""
        items = list(items)
        if not items:
            return True
        replay.lib(variant)
        def work(cs, judge):
            r = cs.conc({} if cs.assign is None else copy.copy(cs.assign), variant)
            try:
                with np.errstate(all='ignore'):
                    return 'ok', judge(r)
            except Exception as ex:
                return 'oracle', '%s: %s' % (type(ex).__name__, ex)
        res = run_many([lambda cs=cs, j=j: work(cs, j) for _, cs, j, _ in items], timeout)
        nbad = 0
        for (nm, cs, judge, info), r in zip(items, res):
            if r is None:
                c.record(nm, 'undecided', 'execution', 'not run'); continue
            c.evals += 1
            if isinstance(r, Crash):
                bad = 'crashed: %s' % r
                if 'box' in info: bad += ' (%s)' % info['box'][:].split(b'\0')[0].decode()
            elif isinstance(r, Exception):
                c.record(nm, 'undecided', 'execution', r); continue
            elif r[0] == 'oracle':
                c.record(nm, 'undecided', 'oracle', r[1]); continue
            else:
                bad = r[1]
            c.record(nm, 'bounded' if not bad else 'refuted', 'execution', bad or '')
            if bad:
                info = {k: v for k, v in info.items() if k != 'box'}; info.update(function=cs.fname, case=repr(cs), observed=bad)
                nbad += c.violation(nm, info, True)
                if nbad >= stop:
                    break
        return nbad == 0

    def parallel(c, fn, jobs, nproc=8):
        """fn(c, *job) for every job, distributed over forked workers; obligations and violations are merged"""
        import pickle
        jobs = list(jobs)
        c.prog
        replay.lib('real')
        nproc = min(nproc, max(1, len(jobs)))
        if nproc == 1:
            for j in jobs:
                fn(c, *j)
            return
        kids = []
        sys.stdout.flush(); sys.stderr.flush()
        for w in range(nproc):
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rfd)
                    import io
                    c.obl = []; c.under = {}; c.contracts_used = set(); c.inl = set(); c.ext = set(); c.safety = {}
                    c.solver_s = 0.0; c.z3q = 0; c.evals = 0; c.samples = []; c.notes = []; nv = len(c.viol); c.wid = '%s-w%d' % (c.wid, w)
                    buf = io.StringIO(); so = sys.stdout; sys.stdout = buf
                    for j in jobs[w::nproc]:
                        try:
                            fn(c, *j)
                        except Unsupported as u:
                            c.record('job %s' % (j,), 'undecided', 'engine', u)
                        except Exception:
                            c.record('job %s' % (j,), 'undecided', 'internal', traceback.format_exc()[-300:])
                    sys.stdout = so
                    d = dict(obl=c.obl, under=c.under, cu=c.contracts_used, inl=c.inl, ext=c.ext, safety=c.safety, solver=c.solver_s, z3q=c.z3q, evals=c.evals, samples=c.samples, notes=c.notes, viol=c.viol[nv:], known=c.known_hit, out=buf.getvalue())
                    with os.fdopen(wfd, 'wb') as f:
                        pickle.dump(d, f)
                finally:
                    os._exit(0)
            os.close(wfd); kids.append((pid, rfd))
        for pid, rfd in kids:
            with os.fdopen(rfd, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                c.record('worker', 'undecided', 'internal', 'worker died'); continue
            d = pickle.loads(data)
            c.obl += d['obl']; c.contracts_used |= d['cu']; c.inl |= d['inl']; c.ext |= d['ext']
            for k, v in d['under'].items(): c.under[k] = c.under.get(k, 0) + v
            for k, v in d['safety'].items(): c.safety[k] = c.safety.get(k, 0) + v
            c.solver_s += d['solver']; c.z3q += d['z3q']; c.evals += d['evals']; c.notes += d['notes']; c.viol += d['viol']
            for k in d['known']:
                if k not in c.known_hit: c.known_hit.append(k)
            for x in d['samples']: c.sample(x)
            sys.stdout.write(d['out']); sys.stdout.flush()

    def truth_ret(c, nm, cs, ok, retval):
        """the path returned the contract's code; otherwise replay"""
        if ok:
            return c.truth(nm, True, scope='bounded')
        c.fail_concrete(nm, cs, lambda o: o['ret'] != 0, 'returned %s' % (retval,))
        return False

    def fail_concrete(c, nm, cs, bad, detail, assign=None):
        """obligation refuted symbolically; bad(out) tells whether the compiled run shows it"""
        c.record(nm, 'refuted', 'symbolic execution', detail)
        conc = False; rep = dict(function=cs.fname if cs else '', case=repr(cs) if cs else '', detail=str(detail))
        if cs is not None:
            for _ in range(4):
                a = c.rand_assign(); a.update(assign or {})
                try:
                    out = run_forked(lambda: cs.conc(a))
                except Crash as k:
                    conc = True; rep['crashed'] = str(k); break
                except Exception as ex:
                    rep['replay_error'] = str(ex)[:200]; break
                c.evals += 1
                try:
                    if bad(out):
                        conc = True; rep['observed'] = {k: str(v)[:300] for k, v in out.items()}; break
                except Exception as ex:
                    rep['replay_error'] = str(ex)[:200]
        c.violation(nm, rep, conc)

    def safety_fail(c, nm, cs, e, scope='bounded', ignore=()):
        """memory-safety obligations of one symbolic run; failures are replayed with guards and tracked allocations"""
        fails = [f for f in e.fails if f[0] not in ignore]
        if not fails:
            return c.safety_ok(nm, e, scope) or True
        kind, msg, st = fails[0]
        c.record(nm + ' [' + kind + ']', 'refuted', 'bounds/frame tracking', msg)
        conc = False; rep = dict(function=cs.fname, case=repr(cs), detail=msg)
        try:
            for _ in range(2):
                a = c.rand_assign()
                def go():
                    replay.track_reset()
                    o = cs.conc(a, 'track')
                    return o['guards'], replay.track_errors()
                try:
                    g, er = run_forked(go)
                except Crash as k:
                    conc = True; rep['crashed'] = str(k); break
                c.evals += 1
                if not g or er:
                    conc = True; rep['observed'] = 'guards intact: %s; allocation errors: %s' % (g, er); break
        except Exception as ex:
            rep['replay_error'] = str(ex)[:200]
        c.violation(nm, rep, conc)
        return False

    def sample(c, x):
        if len(c.samples) < 6:
            c.samples.append(x)

    # -- end of run
    def finish(c, explanation='', extra=None):
        dis = [o for o in c.obl if o['status'] == 'discharged']; bnd = [o for o in c.obl if o['status'] == 'bounded']
        num = [o for o in c.obl if o['status'] == 'numeric']; und = [o for o in c.obl if o['status'] == 'undecided']
        ref = [o for o in c.obl if o['status'] == 'refuted']
        back = {}
        for o in c.obl:
            if o['status'] in ('discharged', 'bounded', 'numeric'):
                back[o['backend']] = back.get(o['backend'], 0) + o['n']
        cnt = lambda l: sum(o['n'] for o in l)
        if not c.obl and not c.viol:
            print("no obligation was generated: vacuous run"); c.record('non-vacuity', 'undecided', '', '')
        cov = dict(
            obligations=cnt(dis) + cnt(und) + cnt(ref),
            discharged=cnt(dis),
            bounded_obligations=cnt(bnd), numeric_obligations=cnt(num), undecided=[o['name'] + ': ' + o['detail'] for o in und][:40],
            refuted=[o['name'] for o in ref][:40],
            checker_cmd="python3-vt fv/run.py %s" % c.pid,
            trusted_base=["clang 18 front end and opt sroa/mem2reg (extraction)", "fv/engine.py VC generator", "fv/expr.py prime-field identity test (error < 2^-100 per obligation)", "z3 (integer side conditions)",
                          "doubles treated as exact reals; decimal literals rationalised to the nearest simple rational", "libm functions are their mathematical namesakes"],
            functions_under_contract=sorted(c.under), callee_contracts_assumed_at_call_sites=sorted(c.contracts_used), helpers_inlined=sorted(c.inl), external_functions_trusted=sorted(c.ext),
            backends=back, safety_obligations=c.safety, z3_queries=c.z3q, solver_seconds=round(c.solver_s, 2),
            evaluations=c.evals, distinct_nontrivial=c.evals, rule="contract instances executed on the compiled library (replay and validation); non-trivial: random potentials, no zero vectors unless stated",
            samples=c.samples or [o['name'] for o in c.obl[:4]],
            explanation=explanation or "obligations listed by status; bounded_obligations hold for all data at the stated sizes only and are not counted as discharged",
            known_findings=c.known_hit)
        if extra:
            cov.update(extra)
        ev = dict(property=c.pid, tier=c.tier, seed=c.seed, level=c.level, coverage=cov, assumptions=c.assumptions + c.notes, wall_s=round(time.time() - c.t0, 2), violations=len(c.viol))
        EV = os.environ.get('FV_EVID') or os.path.join(VERIF, 'evidence'); os.makedirs(EV, exist_ok=True)
        json.dump(ev, open(os.path.join(EV, c.pid + '.json'), 'w'), indent=1, default=str)
        for k in c.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (c.pid, k))
        print("%s: %d discharged, %d bounded, %d numeric, %d undecided, %d refuted; %d executions; %.1fs" % (c.pid, cnt(dis), cnt(bnd), cnt(num), len(und), len(ref), c.evals, time.time() - c.t0))
        for o in und[:10]:
            print("  undecided: %s (%s %s)" % (o['name'], o['backend'], o['detail']))
        if c.viol:
            conc = [v for v in c.viol if v[2]]
            if conc:
                print("VIOLATION property=%s replay=%s" % (c.pid, conc[0][1]))
            else:
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (c.pid, c.viol[0][1]))
            return 1
        return 0


def sret(v):
    """signed value of a returned i32"""
    return v - (1 << 32) if isinstance(v, int) and v >= 1 << 31 else v


def jsonable(a):
    return {str(k): float(v) for k, v in a.items()}


def load_known(pid):
    """known-findings.txt lines: 'known: property=<id> <key>' (suppress) or 'fixed: property=...' (suppress nothing)"""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    except OSError:
        pass
    return out


# ------------------------------------------------------------------ containment of crashes of the compiled code
class Crash(Exception):
    pass


def run_forked(fn, timeout=120):
    """run fn() in a forked child; a crash or hang of the code under test becomes Crash"""
    import pickle, signal, select
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                b = pickle.dumps((True, fn()))
            except BaseException as ex:
                b = pickle.dumps((False, "%s: %s" % (type(ex).__name__, ex)))
            with os.fdopen(w, 'wb') as f:
                f.write(b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, stt = os.waitpid(pid, 0)
    if os.WIFSIGNALED(stt):
        raise Crash("killed by signal %d" % os.WTERMSIG(stt))
    if not data:
        raise Crash("no result")
    ok, v = pickle.loads(data)
    if not ok:
        raise RuntimeError(v)
    return v


def run_many(thunks, timeout=300, nproc=8):
    """run all thunks in forked children (round robin); returns results, Crash or Exception per thunk"""
    import pickle, signal, struct
    n = len(thunks); out = [None] * n
    nproc = min(nproc, max(1, n // 2))
    todo = [list(range(w, n, nproc)) for w in range(nproc)]
    while any(todo):
        kids = []
        sys.stdout.flush(); sys.stderr.flush()
        for q in todo:
            if not q:
                kids.append(None); continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    f = os.fdopen(w, 'wb')
                    for i in q:
                        signal.alarm(timeout)
                        try:
                            b = pickle.dumps((i, True, thunks[i]()))
                        except BaseException as ex:
                            b = pickle.dumps((i, False, "%s: %s" % (type(ex).__name__, ex)))
                        f.write(struct.pack('<Q', len(b)) + b); f.flush()
                    f.close()
                finally:
                    os._exit(0)
            os.close(w); kids.append((pid, r))
        datas = [b''] * len(kids)
        import threading
        def rd(k, fd):
            with os.fdopen(fd, 'rb') as f:
                datas[k] = f.read()
        ths = [threading.Thread(target=rd, args=(k, x[1])) for k, x in enumerate(kids) if x]
        for t in ths: t.start()
        for t in ths: t.join()
        for k, x in enumerate(kids):
            if not x:
                continue
            _, stt = os.waitpid(x[0], 0)
            data = datas[k]; p = 0; done = set()
            while p + 8 <= len(data):
                ln = struct.unpack('<Q', data[p:p + 8])[0]
                if p + 8 + ln > len(data):
                    break
                i, ok, v = pickle.loads(data[p + 8:p + 8 + ln]); p += 8 + ln
                out[i] = v if ok else RuntimeError(v); done.add(i)
            rest = [i for i in todo[k] if i not in done]
            if rest:
                sig = os.WTERMSIG(stt) if os.WIFSIGNALED(stt) else 0
                out[rest[0]] = Crash('killed by signal %d' % sig if sig != 14 else 'no result after %d s' % timeout)
                rest = rest[1:]
            todo[k] = rest
    return out


def main(mod, pid):
    """runs a check module; only exits 0 or 1"""
    c = None
    try:
        c = mod.make() if hasattr(mod, 'make') else Check(pid, getattr(mod, 'SOURCES', None), getattr(mod, 'LEVEL', 'proof'))
        mod.check(c)
        return c.finish(getattr(mod, 'EXPLANATION', ''))
    except Exception:
        traceback.print_exc()
        if c is None:
            c = Check(pid)
        c.record('check completed', 'undecided', 'internal', traceback.format_exc()[-300:])
        c.notes.append("the check did not complete: " + traceback.format_exc()[-400:])
        return c.finish()
