"""Extraction of the verified text: /repo's C sources -> LLVM IR (clang -O0, then sroa+mem2reg)
-> Python objects.  Done afresh from the working tree on every run; nothing is edited by hand.
Dropped by the extraction: gcc's -O3/-Ofast code generation, IEEE rounding (see DESIGN.md)."""
import os, re, struct, subprocess, tempfile, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

REPO = os.environ.get("FNFT_REPO", "/repo")
INCS = ["include", "include/private", "include/3rd_party/kiss_fft", "include/3rd_party/eiscor", "src", "src/private"]

TOK = re.compile(r'''c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|[%@!#][-\w.$]+|-?0x[0-9A-Fa-fKLMHR]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[\[\]{}()<>,=*:!]''')


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "n", "el", "size", "align", "offs", "s")

    def __init__(s, k, n=0, el=None):
        s.k, s.n, s.el = k, n, el
        s.offs = None
        if k == 'i':
            b = max(1, (n + 7) // 8)
            s.size = 1 << (b - 1).bit_length(); s.align = s.size
        elif k == 'f':
            s.size = {32: 4, 64: 8, 80: 16}[n]; s.align = s.size
        elif k == 'p':
            s.size = s.align = 8
        elif k == 'a':
            s.size = n * el.size; s.align = el.align
        elif k == 's':
            o = 0; s.offs = []; al = 1
            for e in el:
                o = (o + e.align - 1) // e.align * e.align
                s.offs.append(o); o += e.size; al = max(al, e.align)
            s.size = (o + al - 1) // al * al; s.align = al
        else:
            s.size = s.align = 0
        s.s = s.k + str(n)

    def __repr__(s):
        return {'i': 'i%d' % s.n, 'f': 'double', 'p': 'ptr', 'v': 'void'}.get(s.k) or (
            '[%d x %r]' % (s.n, s.el) if s.k == 'a' else '{%s}' % ', '.join(map(repr, s.el)))


PTR = T('p'); VOID = T('v'); DBL = T('f', 64); I1 = T('i', 1); I64 = T('i', 64); I32 = T('i', 32); I8 = T('i', 8)
_ity = {1: I1, 8: I8, 32: I32, 64: I64}

ATTR = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg returned nofree
dso_local local_unnamed_addr unnamed_addr internal external private global constant hidden tail musttail notail fastcc ccc
nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc volatile nest immarg mustprogress thread_local common
linkonce_odr weak noreturn allocptr dead_on_unwind writable disjoint nneg allocalign'''.split())


class Parser:
    def __init__(p, toks, mod):
        p.t, p.i, p.m = toks, 0, mod

    def peek(p, k=0):
        return p.t[p.i + k] if p.i + k < len(p.t) else None

    def next(p):
        x = p.t[p.i]; p.i += 1; return x

    def eat(p, x):
        if p.peek() == x:
            p.i += 1; return True
        return False

    def need(p, x):
        if not p.eat(x):
            raise IRError("expected %r got %r in %s" % (x, p.peek(), ' '.join(p.t)[:200]))

    def skip_attr(p):
        while True:
            x = p.peek()
            if x in ATTR:
                p.i += 1
                continue
            if x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'memory', 'thread_local', 'elementtype', 'initializes', 'captures'):
                p.i += 1
                if p.peek() == '(':
                    d = 0
                    while True:
                        y = p.next()
                        d += (y == '(') - (y == ')')
                        if d == 0:
                            break
                elif x == 'align':
                    p.next()
                continue
            if x and x[0] == '#':
                p.i += 1
                continue
            return

    def type(p):
        x = p.next()
        if x == 'ptr':
            return PTR
        if x == 'double':
            return DBL
        if x == 'void':
            return VOID
        if x == 'float':
            return T('f', 32)
        if x == 'x86_fp80':
            return T('f', 80)
        if re.fullmatch(r'i\d+', x):
            return _ity.get(int(x[1:])) or T('i', int(x[1:]))
        if x == '[':
            n = int(p.next()); p.need('x'); e = p.type(); p.need(']')
            return T('a', n, e)
        if x == '<':
            if p.peek() == '{':
                r = p.type(); p.need('>'); return r
            n = int(p.next()); p.need('x'); e = p.type(); p.need('>')
            return T('a', n, e)
        if x == '{':
            el = []
            while not p.eat('}'):
                el.append(p.type()); p.eat(',')
            return T('s', 0, el)
        if x[0] == '%':
            return p.m.types[x]
        if x in ('label', 'metadata'):
            return VOID
        if x == 'opaque':
            return T('s', 0, [])
        raise IRError("type " + x + ' in ' + ' '.join(p.t)[:160])

    # operand kinds: ('r',name) ('c',value) ('g',name) ('agg',[(ty,op)..]) ('z',) ('u',) ('gep',ty,base,idx) ('cast',op)
    def value(p, ty):
        x = p.next()
        if x[0] == '%':
            return ('r', x)
        if x[0] == '@':
            return ('g', x)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('u',)
        if x == 'zeroinitializer':
            return ('z',)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x[:2] == 'c"':
            b = x[2:-1]
            out = bytearray(); i = 0
            while i < len(b):
                if b[i] == '\\':
                    out.append(int(b[i + 1:i + 3], 16)); i += 3
                else:
                    out += b[i].encode('latin1', 'replace'); i += 1
            return ('str', bytes(out))
        if x in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[x]
            el = []
            while not p.eat(close):
                t = p.type(); el.append((t, p.value(t))); p.eat(',')
            return ('agg', el)
        if x == 'getelementptr':
            p.skip_attr(); p.need('(')
            p.skip_attr()
            t = p.type(); p.need(',')
            bt = p.type(); b = p.value(bt); idx = []
            while p.eat(','):
                it = p.type(); idx.append((it, p.value(it)))
            p.need(')')
            return ('gep', t, b, idx)
        if x in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'addrspacecast'):
            p.need('('); t = p.type(); v = p.value(t); p.need('to'); p.type(); p.need(')')
            return v
        if ty.k == 'f':
            if x[:2] == '0x':
                if x[2] in 'KLMHR':
                    return ('u',)
                return ('cf', struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0])
            return ('cf', float(x))
        if ty.k == 'i':
            return ('c', int(x) % (1 << ty.n))
        raise IRError("value %s of %r: %s" % (x, ty, ' '.join(p.t)[:200]))

    def tv(p):
        p.skip_attr(); t = p.type(); p.skip_attr()
        return t, p.value(t)


class Ins:
    __slots__ = ("op", "res", "ty", "a", "line")

    def __init__(s, op, res, ty, a):
        s.op, s.res, s.ty, s.a = op, res, ty, a

    def __repr__(s):
        return "%s = %s %s %s" % (s.res, s.op, s.ty, s.a)


class Func:
    def __init__(f, name, params, ret, file):
        f.name, f.params, f.ret, f.file = name, params, ret, file
        f.blocks = {}; f.entry = None; f.internal = False
        f.lines = None


class Module:
    def __init__(m):
        m.types = {}; m.funcs = {}; m.globals = {}; m.declared = set(); m.file = None


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('zext sext trunc bitcast ptrtoint inttoptr uitofp sitofp fptoui fptosi fpext fptrunc freeze'.split())


def parse_ins(toks, mod):
    p = Parser(toks, mod)
    res = None
    if len(toks) > 1 and toks[1] == '=':
        res = toks[0]; p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'load':
        p.skip_attr(); t = p.type(); p.need(','); _, a = p.tv()
        return Ins('load', res, t, a)
    if op == 'store':
        p.skip_attr(); t, v = p.tv(); p.need(','); _, a = p.tv()
        return Ins('store', None, t, (v, a))
    if op == 'getelementptr':
        p.skip_attr(); t = p.type(); p.need(','); _, b = p.tv(); idx = []
        while p.eat(','):
            if p.peek()[0] == '!':
                break
            idx.append(p.tv())
        return Ins('gep', res, t, (b, idx))
    if op in BIN:
        p.skip_attr(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return Ins(op, res, t, (a, b))
    if op == 'fneg':
        p.skip_attr(); t = p.type(); return Ins(op, res, t, p.value(t))
    if op in ('icmp', 'fcmp'):
        p.skip_attr(); pr = p.next(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return Ins(op, res, t, (pr, a, b))
    if op in CASTS:
        p.skip_attr(); t = p.type(); a = p.value(t)
        t2 = t
        if p.eat('to'):
            t2 = p.type()
        return Ins(op, res, t2, (a, t))
    if op == 'phi':
        p.skip_attr(); t = p.type(); inc = []
        while True:
            p.need('['); v = p.value(t); p.need(','); b = p.next(); p.need(']')
            inc.append((v, b))
            if not (p.eat(',') and p.peek() == '['):
                break
        return Ins('phi', res, t, dict((b, v) for v, b in inc))
    if op == 'br':
        if p.eat('label'):
            return Ins('jmp', None, None, p.next())
        t, c = p.tv(); p.need(','); p.need('label'); a = p.next(); p.need(','); p.need('label'); b = p.next()
        return Ins('br', None, None, (c, a, b))
    if op == 'switch':
        t, v = p.tv(); p.need(','); p.need('label'); d = p.next(); p.need('['); cs = []
        while not p.eat(']'):
            tt = p.type(); c = p.value(tt); p.need(','); p.need('label'); cs.append((c[1], p.next()))
        return Ins('switch', None, t, (v, d, cs))
    if op == 'ret':
        t = p.type()
        return Ins('ret', None, t, None if t.k == 'v' else p.value(t))
    if op == 'unreachable':
        return Ins('unreachable', None, None, None)
    if op == 'select':
        p.skip_attr(); _, c = p.tv(); p.need(','); t, a = p.tv(); p.need(','); _, b = p.tv()
        return Ins('select', res, t, (c, a, b))
    if op == 'extractvalue':
        t, v = p.tv(); ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Ins(op, res, t, (v, ix))
    if op == 'insertvalue':
        t, v = p.tv(); p.need(','); t2, w = p.tv(); ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Ins(op, res, t, (v, w, ix))
    if op == 'alloca':
        p.skip_attr(); t = p.type(); n = None
        if p.eat(','):
            if p.peek() != 'align':
                n = p.tv()
        return Ins('alloca', res, t, n)
    if op == 'call':
        p.skip_attr(); t = p.type()
        if p.peek() == '(':        # vararg function type
            d = 0
            while True:
                y = p.next(); d += (y == '(') - (y == ')')
                if d == 0:
                    break
        callee = p.next(); p.need('('); args = []
        while not p.eat(')'):
            p.skip_attr(); at = p.type()
            if at is VOID:           # metadata
                while p.peek() not in (',', ')'):
                    p.next()
                p.eat(','); continue
            p.skip_attr(); args.append((at, p.value(at))); p.eat(',')
        return Ins('call', res, t, (callee, args))
    raise IRError("instruction " + ' '.join(toks)[:120])


def parse_module(text, file):
    m = Module(); m.file = file
    lines = text.split('\n')
    # type names first
    pend = []
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            toks = TOK.findall(ln); pend.append((toks[0], toks[3:]))
    while pend:
        again = []
        for n, toks in pend:
            try:
                m.types[n] = Parser(toks, m).type()
            except KeyError:
                again.append((n, toks))
        if len(again) == len(pend):
            break
        pend = again
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('@'):
            toks = TOK.findall(ln)
            name = toks[0]; p = Parser(toks, m); p.i = 2
            const = 'constant' in toks[:12]
            tls = 'thread_local' in toks[:12]
            ext = 'external' in toks[:6]
            p.skip_attr()
            t = p.type(); v = ('z',)
            if not ext:
                try:
                    v = p.value(t)
                except IRError:
                    v = ('u',)
            m.globals[name] = (t, v, const, 'internal' in toks[:6] or 'private' in toks[:6])
        elif ln.startswith('declare'):
            mm = re.search(r'@([\w.$]+)\(', ln)
            m.declared.add('@' + mm.group(1))
        elif ln.startswith('define'):
            toks = TOK.findall(ln)
            k = next(j for j, x in enumerate(toks) if x[0] == '@')
            p = Parser(toks, m); p.i = 1; p.skip_attr(); ret = p.type(); p.i = k + 1
            p.need('('); params = []; cnt = 0
            while not p.eat(')'):
                if p.eat('...'):
                    continue
                byval = False
                ty = p.type()
                j = p.i
                p.skip_attr()
                byval = 'byval' in p.t[j:p.i]
                nm = p.peek()
                if nm and nm[0] == '%':
                    p.i += 1
                else:
                    nm = '%%%d' % cnt
                cnt += 1
                params.append((ty, nm, byval)); p.eat(',')
            f = Func(toks[k], params, ret, file); f.internal = ' internal ' in ln
            i += 1; cur = None
            while not lines[i].startswith('}'):
                l = lines[i]
                mm = re.match(r'^([-\w.$]+|"[^"]*"):', l)
                if mm:
                    cur = '%' + mm.group(1); f.blocks[cur] = []
                    if f.entry is None:
                        f.entry = cur
                elif l.strip() and not l.strip().startswith(';') and not l.strip().startswith('#dbg'):
                    if cur is None:
                        cur = '%entry0'; f.entry = cur; f.blocks[cur] = []
                    s = l.strip()
                    if re.match(r'switch ', s) and not s.rstrip().endswith(']'):
                        while not lines[i].strip().startswith(']'):
                            i += 1; s += ' ' + lines[i].strip()
                    s = s.split(' ; ')[0]
                    toks = TOK.findall(s)
                    if toks[0] == 'call' and '@llvm.dbg' in s:
                        i += 1; continue
                    f.blocks[cur].append(parse_ins(toks, m))
                i += 1
            m.funcs[f.name] = f
        i += 1
    return m


def cflags():
    return ["-std=c99", "-D_GNU_SOURCE", "-O0", "-Xclang", "-disable-O0-optnone", "-fcx-limited-range",
            "-ffp-contract=off", "-fno-discard-value-names", "-w"] + __import__("replay").incs()


def compile_ll(src, out, extra=()):
    r = subprocess.run(["clang-18", "-S", "-emit-llvm"] + cflags() + list(extra) + [src, "-o", out + ".0.ll"], capture_output=True, text=True)
    if r.returncode:
        raise IRError("clang failed on %s:\n%s" % (src, r.stderr[-3000:]))
    r = subprocess.run(["opt-18" if False else "opt", "-S", "-passes=sroa,mem2reg", out + ".0.ll", "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise IRError("opt failed on %s:\n%s" % (src, r.stderr[-3000:]))
    os.unlink(out + ".0.ll")


def sources():
    l = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/private/*.c") + glob.glob(REPO + "/src/3rd_party/kiss_fft/*.c"))
    return [s for s in l if not s.endswith("testcases.c")]


class Program:
    """all modules of the library; functions looked up by name (static ones by module first)"""

    def __init__(self, mods):
        self.mods = mods; self.funcs = {}
        for m in mods:
            for n, f in m.funcs.items():
                f.mod = m
                if n not in self.funcs or self.funcs[n].internal:
                    self.funcs[n] = f

    def find(self, name, mod=None):
        if not name.startswith('@'):
            name = '@' + name
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        return self.funcs.get(name)


def load(only=None):
    srcs = sources()
    if only:
        srcs = [s for s in srcs if any(re.search(o, os.path.basename(s)) for o in only)]
    with tempfile.TemporaryDirectory(prefix="fv_ir_") as d:
        def one(s):
            o = os.path.join(d, os.path.basename(s) + ".ll")
            compile_ll(s, o)
            return parse_text(o, s)
        def parse_text(o, s):
            return open(o).read(), s
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(one, srcs))
    mods = [parse_module(t, os.path.relpath(s, REPO)) for t, s in texts]
    return Program(mods)


if __name__ == '__main__':
    import time
    t = time.time(); P = load(); print(len(P.funcs), time.time() - t)
