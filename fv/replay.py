"""Builds the real library from /repo's working tree (same compiler and options as its CMake build) into a
scratch directory and runs it through ctypes: replay of counterexamples and validation of contracts.
A second variant routes malloc/calloc/free through a tracker (fault injection, leak and red-zone checks)."""
import os, re, glob, subprocess, tempfile, atexit, shutil, ctypes as ct, hashlib
from concurrent.futures import ThreadPoolExecutor
import numpy as np

REPO = os.environ.get("FNFT_REPO", "/repo")
_dir = None


def workdir():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="fv_build_")
        atexit.register(shutil.rmtree, _dir, True)
    return _dir


def config_dir():
    """directory with a generated fnft_config.h when the tree does not contain one"""
    if os.path.exists(REPO + "/include/fnft_config.h"):
        return None
    d = workdir() + "/cfg"
    os.makedirs(d, exist_ok=True)
    cm = open(REPO + "/CMakeLists.txt").read()
    def v(k):
        m = re.search(r'set\s*\(\s*%s\s+"?([^\s")]*)"?\s*\)' % k, cm)
        return m.group(1) if m else ''
    t = open(REPO + "/include/fnft_config.h.in").read()
    t = re.sub(r'@(\w+)@', lambda m: v(m.group(1)), t)
    have = {'HAVE___THREAD', 'HAVE_PRAGMA_GCC_OPTIMIZE_OFAST'}
    t = re.sub(r'#cmakedefine (\w+)( \d+)?', lambda m: '#define %s 1' % m.group(1) if m.group(1) in have else '/* #undef %s */' % m.group(1), t)
    open(d + "/fnft_config.h", "w").write(t)
    return d


def incs():
    l = ["include", "include/private", "include/3rd_party/kiss_fft", "include/3rd_party/eiscor", "src", "src/private"]
    c = config_dir()
    return (["-I" + c] if c else []) + ["-I%s/%s" % (REPO, x) for x in l]


ALLOC_H = r'''
#ifndef FV_ALLOC_H
#define FV_ALLOC_H
#include <stdlib.h>
#include <string.h>
void *fv_malloc(size_t n, const char *f, int l);
void *fv_calloc(size_t n, size_t m, const char *f, int l);
void fv_free(void *p, const char *f, int l);
#define malloc(n) fv_malloc((n), __FILE__, __LINE__)
#define calloc(n,m) fv_calloc((n),(m), __FILE__, __LINE__)
#define free(p) fv_free((p), __FILE__, __LINE__)
#endif
'''
ALLOC_C = r'''
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
#define RZ 256
#define MAXB 400000
/* fv_page: every block ends at an inaccessible page, so that reads and writes past its end (or after it was released) trap */
typedef struct { unsigned char *base, *u; size_t n, len; const char *f; int l; int live; } B;
static B *b; static long nb; unsigned long fv_poison=0x7ff4dead0000beefULL; long fv_count, fv_fail_at, fv_errors, fv_did_fail, fv_page; char fv_msg[2000];
const char *fv_sf[MAXB]; int fv_sl[MAXB];
static void rep(const char *w, const char *f, int l, size_t n){ fv_errors++; size_t k=strlen(fv_msg);
  if(k<1500) snprintf(fv_msg+k,sizeof fv_msg-k,"%s %s:%d size %zu; ",w,f,l,n); }
static void drop(B*x){ if(x->len) munmap(x->base,x->len); else free(x->base); x->live=0; x->u=(unsigned char*)1; }
void fv_reset(void){ if(!b) b=calloc(MAXB,sizeof *b);
  for(long i=0;i<nb;i++) if(b[i].live) drop(&b[i]);
  nb=0; fv_count=0; fv_fail_at=0; fv_errors=0; fv_did_fail=0; fv_msg[0]=0; }
static unsigned char *pages(size_t n, unsigned char **base, size_t *len){
  size_t r=(n+7)/8*8, m=(r+4095)/4096*4096; if(m==r) m+=4096;
  unsigned char*p=mmap(NULL,m+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) return NULL;
  mprotect(p+m,4096,PROT_NONE); memset(p,0xA5,m); *base=p; *len=m+4096; return p+m-r; }
void *fv_arg(size_t n){ unsigned char*q; size_t l; return pages(n,&q,&l); }
void *fv_malloc(size_t n,const char*f,int l){ fv_count++;
  if(fv_count<MAXB){ fv_sf[fv_count]=f; fv_sl[fv_count]=l; }
  if(fv_fail_at && fv_count==fv_fail_at){ fv_did_fail=1; size_t k=strlen(fv_msg); snprintf(fv_msg+k,sizeof fv_msg-k,"[failed %s:%d] ",f,l); return NULL; }
  if(n>((size_t)1<<33)){ rep("absurd allocation",f,l,n); return NULL; }
  unsigned char*p,*u; size_t len=0;
  if(fv_page){ u=pages(n,&p,&len); if(!u) return NULL; }
  else { p=malloc(n+2*RZ); if(!p) return NULL; memset(p,0xA5,RZ); memset(p+RZ+n,0xA5,RZ); u=p+RZ; }
  for(size_t i=0;i+8<=n;i+=8){ uint64_t v=fv_poison; memcpy(u+i,&v,8);} 
  if(nb<MAXB){ b[nb].base=p;b[nb].u=u;b[nb].len=len;b[nb].n=n;b[nb].f=f;b[nb].l=l;b[nb].live=1;nb++; }
  return u; }
void *fv_calloc(size_t n,size_t m,const char*f,int l){ void*p=fv_malloc(n*m,f,l); if(p) memset(p,0,n*m); return p; }
static void chk(B*x){ for(unsigned char*q=x->base;q<x->u;q++) if(*q!=0xA5){rep("write before block",x->f,x->l,x->n);break;}
  int e=x->len?(int)((x->n+7)/8*8-x->n):RZ;
  for(int i=0;i<e;i++) if(x->u[x->n+i]!=0xA5){rep("write past block",x->f,x->l,x->n);break;} }
void fv_free(void*p,const char*f,int l){ if(!p) return;
  for(long i=nb-1;i>=0;i--) if(b[i].live && b[i].u==(unsigned char*)p){ chk(&b[i]); if(!b[i].len) memset(b[i].base,0x5A,b[i].n+2*RZ); drop(&b[i]); return; }
  rep("double free or free of unknown pointer",f,l,0); }
long fv_check(void){ for(long i=0;i<nb;i++) if(b[i].live) chk(&b[i]); return fv_errors; }
long fv_leaks(void){ long k=0; for(long i=0;i<nb;i++) if(b[i].live){ k++; size_t s=strlen(fv_msg); if(s<1500) snprintf(fv_msg+s,sizeof fv_msg-s,"leak %s:%d size %zu; ",b[i].f,b[i].l,b[i].n);} return k; }
void fv_forget(void*p){ for(long i=nb-1;i>=0;i--) if(b[i].u==(unsigned char*)p) b[i].live=0; }
'''
CACHE = os.environ.get("FV_CACHE", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".cache"))


def cache_path(key):
    """object files keyed by the content of everything they are compiled from (speeds up repeated runs only)"""
    try:
        os.makedirs(CACHE, exist_ok=True)
    except OSError:
        return None
    return os.path.join(CACHE, hashlib.sha256(key.encode()).hexdigest()[:40] + ".o")


_eis = None


def eiscor_objs():
    global _eis
    if _eis is None:
        d = workdir() + "/eis"; os.makedirs(d, exist_ok=True)
        fs = sorted(glob.glob(REPO + "/src/3rd_party/eiscor/*.f90"))
        def one(f):
            o = d + "/" + os.path.basename(f)[:-4] + ".o"
            c = cache_path("eis" + hh + hashlib.sha256(open(f, "rb").read()).hexdigest())
            if c and os.path.exists(c):
                return c
            r = subprocess.run(["gfortran", "-O2", "-fPIC", "-w", "-cpp", "-ffree-line-length-none", "-I" + REPO + "/include/3rd_party/eiscor", "-c", f, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(r.stderr[-2000:])
            if c:
                t = c + ".%d" % os.getpid(); shutil.copyfile(o, t); os.replace(t, c)
            return o
        hh = hashlib.sha256(open(REPO + "/include/3rd_party/eiscor/eiscor.h", "rb").read()).hexdigest()
        with ThreadPoolExecutor(8) as ex:
            _eis = list(ex.map(one, fs))
    return _eis


def build(variant="real", extra_c=()):
    """variant 'real': options of the project's build; 'track': tracked allocations. -> path of shared library.
    Static functions are exported as <file stem>__<name> so that counterexamples in them can be replayed."""
    d = workdir() + "/" + variant
    so = d + "/libfnft_%s.so" % variant
    if os.path.exists(so):
        return so
    os.makedirs(d, exist_ok=True)
    flags = ["-std=c99", "-D_GNU_SOURCE", "-O2", "-fPIC", "-w", "-fkeep-static-functions", "-fno-ipa-cp", "-fno-ipa-sra", "-fno-ipa-icf", "-fno-partial-inlining"] + incs()
    if variant == 'track':
        open(d + "/fv_alloc.h", "w").write(ALLOC_H); open(d + "/fv_alloc.c", "w").write(ALLOC_C)
        flags += ["-include", d + "/fv_alloc.h"]
    srcs = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/private/*.c") + glob.glob(REPO + "/src/3rd_party/kiss_fft/*.c"))
    hk = hashlib.sha256(repr([f for f in flags if not f.startswith(("-I", "/"))]).encode() + ALLOC_H.encode())
    for h in sorted(glob.glob(REPO + "/include/**/*.h*", recursive=True) + glob.glob(REPO + "/src/private/*.inc")):
        hk.update(open(h, "rb").read())
    hk.update(b'2'); hk = hk.hexdigest()
    def one(s):
        stem = os.path.basename(s)[:-2]
        o = d + "/" + stem + ".o"
        c = cache_path(hk + hashlib.sha256(open(s, "rb").read()).hexdigest() + stem)
        if c and os.path.exists(c):
            shutil.copyfile(c, o); return o
        r = compile_one(s, stem, o)
        if c:
            t = c + ".%d" % os.getpid()
            shutil.copyfile(o, t); os.replace(t, c)
        return o
    def compile_one(s, stem, o):
        r = subprocess.run(["gcc"] + flags + (["-O1"] if "manakov_fscatter" in s else []) + (["-fkeep-inline-functions"] if stem == "fnft__misc" else []) + ["-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("gcc failed on %s: %s" % (s, r.stderr[-2000:]))
        nm = subprocess.run(["nm", o], capture_output=True, text=True).stdout
        loc = [l.split()[-1] for l in nm.splitlines() if re.search(r' t [A-Za-z_]\w*$', l)]
        if loc:
            a = []
            for n in loc:
                a += ["--redefine-sym", "%s=%s__%s" % (n, stem, n), "--globalize-symbol", "%s__%s" % (stem, n)]
            # redefine first, then globalise
            subprocess.run(["objcopy"] + [x for n in loc for x in ("--redefine-sym", "%s=%s__%s" % (n, stem, n))] + [o], check=True)
            subprocess.run(["objcopy"] + ["--globalize-symbol=%s__%s" % (stem, n) for n in loc] + [o], check=True)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    if variant == 'track':
        r = subprocess.run(["gcc", "-O2", "-fPIC", "-c", d + "/fv_alloc.c", "-o", d + "/fv_alloc.o"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr)
        objs.append(d + "/fv_alloc.o")
    r = subprocess.run(["gcc", "-shared", "-o", so] + objs + eiscor_objs() + ["-lgfortran", "-lm"], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("link failed: " + r.stderr[-3000:])
    return so


_libs = {}


def lib(variant="real"):
    if variant not in _libs:
        L = ct.CDLL(build(variant))
        if variant == 'track':
            L.fv_reset()
        _libs[variant] = L
    return _libs[variant]


CB = ct.CFUNCTYPE(ct.c_int, ct.c_char_p)


def quiet(L):
    L.fnft_errwarn_setprintf(ct.cast(ct.CDLL(None).printf, ct.c_void_p) if os.environ.get('FV_PRINT') else ct.c_void_p(0))


def carr(x):
    return np.ascontiguousarray(np.array(x, dtype=np.complex128))


def p(a):
    if a is None:
        return ct.c_void_p(0)
    if isinstance(a, np.ndarray):
        return a.ctypes.data_as(ct.c_void_p)
    return ct.byref(a)


def enum_values(header, enum):
    """name -> value of an enum typedef, read from the headers of the tree under test by the C compiler"""
    src = '#include "%s"\n' % header
    r = subprocess.run(["gcc", "-E", "-P", "-std=c99", "-x", "c"] + incs() + ["-"], input=src, capture_output=True, text=True)
    m = re.search(r'typedef enum\s*\{([^}]*)\}\s*%s\s*;' % enum, r.stdout)
    out = {}; v = -1
    for it in m.group(1).split(','):
        it = it.strip()
        if not it:
            continue
        if '=' in it:
            n, x = it.split('='); v = int(x.strip(), 0); n = n.strip()
        else:
            n = it; v += 1
        out[n] = v
    return out


def track_reset(fail_at=0):
    L = lib('track')
    L.fv_reset()
    ct.c_long.in_dll(L, 'fv_fail_at').value = fail_at


def track_count():
    return ct.c_long.in_dll(lib('track'), 'fv_count').value


def track_errors(leaks=True):
    """message about heap misuse since the last reset ('' when clean)"""
    L = lib('track')
    n = L.fv_check()
    k = L.fv_leaks() if leaks else 0
    m = (ct.c_char * 2000).in_dll(L, 'fv_msg').value.decode(errors='replace')
    return m if n or k else ''
