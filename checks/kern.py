"""Kernel harness for grade inference: reads spec/kernels.py, compiles one wrapper per kernel to IR and analyses it."""
import json, os, re, subprocess, importlib.util
import common
from common import Broken, run, pmap, BASEFLAGS
import grade
from grade import Interp, Obj, G, unit, ustr, pstr, gstr, U0, P0, W0, BOT, TOP

AX = {2: (0, 1), 3: (0, 1, 2)}


class Ty:
    """index kinds and unit of a (possibly multi-dimensional) argument

    tokens: n<k> plain index, v<k> polar vector index, a3 axial vector index, p<k> position index (moves with the
    coordinates), q4 quaternion index (x,y,z axial, w even), h4/g4 homogeneous row/column index, y<k> symmetric tensor in Voigt order (xx,yy,zz,yz? see voigt),
    x pseudo factor in 2 or 3 dimensions (x2, x3), b2 the in-plane components of an axial vector; a capital letter is an index
    whose components are listed in the kernel's mix: (axes in which it is odd, unit)
    """
    def __init__(self, s, mix=None):
        s = s.strip()
        kind, _, u = s.partition(" ")
        self.mix = mix or {}
        self.toks = [(m.group(1), len(self.mix[m.group(1)]) if m.group(1) in self.mix else int(m.group(2) or 0)) for m in re.finditer(r"([a-zA-Z])(\d*)", kind)]
        self.u = None if u.strip() == "?" else unit(u)
        self.shape = [k for t, k in self.toks if t not in "xs"]
        self.n = 1
        for k in self.shape:
            self.n *= k

    def grade(self, idx):
        par, w, u = [0, 0, 0], [0.0, 0.0, 0.0], list(self.u) if self.u is not None else None
        i = 0
        for t, k in self.toks:
            if t == "s":
                continue
            if t == "x":
                for a in range(k):
                    par[a] ^= 1
                continue
            c = idx[i]; i += 1
            if t in self.mix:
                ax, mu = self.mix[t][c]
                for a in ax:
                    par["xyz".index(a)] ^= 1
                if u is not None:
                    u = [p + q for p, q in zip(u, unit(mu))]
            elif t == "b":                # in-plane components of an axial vector
                par[1 - c] ^= 1
            elif t in "vp" and c < 3:
                par[c] ^= 1
                if t == "p":
                    w[c] = 1.0
            elif t == "a" or (t == "q" and c < 3):
                for a in range(3):
                    if a != c:
                        par[a] ^= 1
            elif t in "hg":
                if c < 3:
                    par[c] ^= 1
                    if u is not None:
                        u[0] += 1 if t == "h" else -1
            elif t == "y":  # 2D (xx,yy,xy) or 3D (xx,yy,zz,xy,yz,zx)
                pr = {3: [(0, 0), (1, 1), (0, 1)], 6: [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)]}[k][c]
                for a in pr:
                    par[a] ^= 1
        return ("g", tuple(u) if u is not None else None, tuple(par), tuple(w))

    def cells(self, es=8):
        out = {}
        idx = [0] * len(self.shape)
        for n in range(self.n):
            out[n * es] = self.grade(idx)
            for d in range(len(idx) - 1, -1, -1):
                idx[d] += 1
                if idx[d] < self.shape[d]:
                    break
                idx[d] = 0
        return out


class Kernel:
    def __init__(self, name, params, body, ret=None, inc=(), note="", skip=(), mix=None, null=(), laws=(), again=0):
        self.name, self.body, self.inc, self.note, self.skip = name, body, tuple(inc), note, set(skip)
        self.params = []
        self.mix = mix
        self.null = set(null)          # inputs that are zero (their variation is not)
        self.laws = list(laws)
        self.vary = set()
        self.again = again             # further rounds of the optimiser over the generated code
        for p in [x.strip() for x in params.split(",") if x.strip()]:
            m = re.fullmatch(r"(<>|>\+|>|)(\w+):(.*)", p)
            d, n, t = m.group(1), m.group(2), m.group(3).strip()
            self.params.append((d or "<", n, t))
        self.ret = Ty(ret, mix) if ret and ret not in ("bool", "int", "void") else None
        self.rettype = "double" if self.ret else (ret or "void")

    def wrapper(self, sym):
        ps = []
        for d, n, t in self.params:
            if t == "int":
                ps.append("int " + n)
            elif t == "u":
                ps.append("const unsigned int *" + n)
            elif d == "<" and not Ty(t, self.mix).shape:
                ps.append("double " + n)
            else:
                ps.append(("const double *" if d == "<" else "double *") + n)
        return 'extern "C" %s %s(%s) {\n  using namespace delfem2;\n%s\n}\n' % (self.rettype, sym, ", ".join(ps), self.body)


# messages on the console are taken as having no effect on the numbers (an opaque stream call would hide the memory state)
QUIET = """
#include <cstring>
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <complex>
namespace std { struct dfm2_quiet { template<class T> const dfm2_quiet &operator<<(const T &) const { return *this; } const dfm2_quiet &operator<<(ostream &(*)(ostream &)) const { return *this; } };
static const dfm2_quiet dfm2_quiet_out{};
// the contract of the library's sort, as a loop that the compiler unrolls over constant indices
inline void sort(unsigned int *a, unsigned int *b) { const int n = int(b - a); for (int i = 0; i < n; ++i) { for (int j = 0; j + 1 < n; ++j) { const unsigned int x = a[j], y = a[j + 1]; a[j] = x < y ? x : y; a[j + 1] = x < y ? y : x; } } } }
void operator delete(void *) noexcept {}
void operator delete(void *, std::size_t) noexcept {}
void operator delete[](void *) noexcept {}
void operator delete[](void *, std::size_t) noexcept {}
#define cout dfm2_quiet_out
#define cerr dfm2_quiet_out
"""

PRE = """
#include <cmath>
#include <vector>
#include <array>
#include <complex>
#include <tuple>
namespace delfem2 {}
template<typename T> using P1 = T;
#define V3(p) (delfem2::CVec3d((p)[0],(p)[1],(p)[2]))
#define V2(p) (delfem2::CVec2d((p)[0],(p)[1]))
#define M3(p) (delfem2::CMat3d(p))
#define M4(p) (delfem2::CMat4d(p))
#define Q4(p) (delfem2::CQuatd(p))
#define CA(p,a) ((const double(*)[a])(p))
#define CB(p,a,b) ((const double(*)[a][b])(p))
#define CC(p,a,b,c) ((const double(*)[a][b][c])(p))
#define OA(p,a) ((double(*)[a])(p))
#define OB(p,a,b) ((double(*)[a][b])(p))
#define OC(p,a,b,c) ((double(*)[a][b][c])(p))
template<typename V> static inline void put2(double *o, const V &v) { o[0]=v[0]; o[1]=v[1]; }
template<typename V> static inline void put3(double *o, const V &v) { o[0]=v[0]; o[1]=v[1]; o[2]=v[2]; }
template<typename V> static inline void put4(double *o, const V &v) { for(int i=0;i<4;++i){ o[i]=v[i]; } }
template<typename V> static inline void put9(double *o, const V &v) { for(int i=0;i<9;++i){ o[i]=v[i]; } }
static inline double rdot(const double *a, const double *b, int n=3) { double s=0; for(int i=0;i<n;++i){ s+=a[i]*b[i]; } return s; }
static inline void rcross(double *o, const double *a, const double *b) { o[0]=a[1]*b[2]-a[2]*b[1]; o[1]=a[2]*b[0]-a[0]*b[2]; o[2]=a[0]*b[1]-a[1]*b[0]; }
static inline void rsub(double *o, const double *a, const double *b, int n=3) { for(int i=0;i<n;++i){ o[i]=a[i]-b[i]; } }
static inline void rmm(double *o, const double *a, const double *b, int n) { for(int i=0;i<n;++i){ for(int j=0;j<n;++j){ double s=0; for(int k=0;k<n;++k){ s+=a[i*n+k]*b[k*n+j]; } o[i*n+j]=s; } } }
static inline void rmv(double *o, const double *m, const double *a, int n) { for(int i=0;i<n;++i){ double s=0; for(int k=0;k<n;++k){ s+=m[i*n+k]*a[k]; } o[i]=s; } }
static inline void rtr(double *o, const double *m, int n) { for(int i=0;i<n;++i){ for(int j=0;j<n;++j){ o[i*n+j]=m[j*n+i]; } } }
static inline double rdet3(const double *m) { double c[3]; rcross(c,m+3,m+6); return rdot(m,c); }
static inline double rvol(const double *a, const double *b, const double *c, const double *d) { double m[9]; rsub(m,b,a); rsub(m+3,c,a); rsub(m+6,d,a); return rdet3(m)/6; }
static inline void rid(double *z, const double *m, int n) { for(int i=0;i<n;++i){ for(int j=0;j<n;++j){ z[i*n+j]=m[i*n+j]-(i==j?1:0); } } }
static inline void rnormal(double *o, const double *a, const double *b, const double *c) { double u[3],v[3]; rsub(u,b,a); rsub(v,c,a); rcross(o,u,v); }
static inline double rarea2(const double *a, const double *b, const double *c) { return ((b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0]))/2; }
static inline double rtri(double g[3][2], const double *c) { double A=rarea2(c,c+2,c+4); for(int i=0;i<3;++i){ const double *q=c+2*((i+1)%3),*r=c+2*((i+2)%3); g[i][0]=(q[1]-r[1])/(2*A); g[i][1]=(r[0]-q[0])/(2*A); } return A; }
static inline double rtet(double g[4][3], const double *c) { double V=rvol(c,c+3,c+6,c+9); for(int i=0;i<4;++i){ double n[3],e[3]; rnormal(n,c+3*((i+1)%4),c+3*((i+2)%4),c+3*((i+3)%4)); rsub(e,c+3*i,c+3*((i+1)%4)); double s=rdot(n,e); for(int j=0;j<3;++j){ g[i][j]=n[j]/s; } } return V; }
static inline double relas(const double *gi, const double *gj, int a, int b, int D, double la, double mu) { double r=la*gi[a]*gj[b]+mu*gj[a]*gi[b]; if(a==b){ r+=mu*rdot(gi,gj,D); } return r; }
static inline void rbez(double *o, double t, const double *p, int n, int D) { double q[64]; for(int i=0;i<n*D;++i){ q[i]=p[i]; } for(int m=n-1;m>0;--m){ for(int i=0;i<m;++i){ for(int d=0;d<D;++d){ q[i*D+d]=(1-t)*q[i*D+d]+t*q[(i+1)*D+d]; } } } for(int d=0;d<D;++d){ o[d]=q[d]; } }
// values at t of the p+1 B-splines of degree p that do not vanish on the interval [k[p],k[p+1]] of the knots k[0..2p+1]
static inline void rbsp(double *N, int p, const int *k, double t) { for(int i=0;i<=p;++i){ N[i]=0; } N[p]=1; for(int q=1;q<=p;++q){ for(int i=p-q;i<=p;++i){ double a=(i>=p-q+1)?(t-k[i])/double(k[i+q]-k[i])*N[i]:0; double b=(i+1<=p)?(k[i+q+1]-t)/double(k[i+q+1]-k[i+1])*N[i+1]:0; N[i]=a+b; } } }
static inline void raff(double *o, const double *m, const double *a) { for(int i=0;i<3;++i){ o[i]=m[4*i]*a[0]+m[4*i+1]*a[1]+m[4*i+2]*a[2]+m[4*i+3]; } }
static inline void rhom(double *o, const double *m, const double *a) { double w=m[12]*a[0]+m[13]*a[1]+m[14]*a[2]+m[15]; for(int i=0;i<3;++i){ o[i]=(m[4*i]*a[0]+m[4*i+1]*a[1]+m[4*i+2]*a[2]+m[4*i+3])/w; } }
template<typename V> static inline void put16(double *o, const V &v) { for(int i=0;i<16;++i){ o[i]=v[i]; } }
// dense stand-in of the sparse matrix, entries indexed by (row block, column block, row, column)
namespace delfem2 { template<typename T,int NB,int B> struct DenseM { T v[NB*NB*B*B]; void setZero(){ for(auto &x:v){x=T(0);} } }; template<int nr,int nc,int d0,int d1,typename T,int NB,int B> bool Merge(DenseM<T,NB,B> &A,const unsigned *ip,const unsigned *jp,const T e[nr][nc][d0][d1],std::vector<unsigned> &){ for(int i=0;i<nr;++i){for(int j=0;j<nc;++j){for(int a=0;a<d0;++a){for(int b=0;b<d1;++b){ A.v[((ip[i]*NB+jp[j])*B+a)*B+b]+=e[i][j][a][b]; }}}} return true; } template<int nr,int nc,typename T,int NB> bool Merge(DenseM<T,NB,1> &A,const unsigned *ip,const unsigned *jp,const T e[nr][nc],std::vector<unsigned> &){ for(int i=0;i<nr;++i){for(int j=0;j<nc;++j){ A.v[ip[i]*NB+jp[j]]+=e[i][j]; }} return true; } }
namespace delfem2 { template<int NB,int B> struct DenseS { double v[NB*NB*B*B]; double vec_r[NB*B]; template<int nr,int nc,int d0,int d1> void Merge(const unsigned *ip,const unsigned *jp,const double e[nr][nc][d0][d1]){ for(int i=0;i<nr;++i){for(int j=0;j<nc;++j){for(int a=0;a<d0;++a){for(int b=0;b<d1;++b){ v[((ip[i]*NB+jp[j])*B+a)*B+b]+=e[i][j][a][b]; }}}} } }; }
// inverse of a small block by cofactors, b has row stride s
template<int d> inline void rinv(double *o, const double *b, int s) {
  if (d == 1) { o[0] = 1 / b[0]; }
  if (d == 2) { double q = b[0] * b[s + 1] - b[1] * b[s]; o[0] = b[s + 1] / q; o[1] = -b[1] / q; o[2] = -b[s] / q; o[3] = b[0] / q; }
  if (d == 3) { for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { int p = (j + 1) % 3, q = (j + 2) % 3, u = (i + 1) % 3, v = (i + 2) % 3; o[3 * i + j] = b[p * s + u] * b[q * s + v] - b[p * s + v] * b[q * s + u]; } } double q = b[0] * o[0] + b[1] * o[3] + b[2] * o[6]; for (int i = 0; i < 9; ++i) { o[i] /= q; } }
}
// dense matrix and preconditioner with the interface the Krylov solvers ask for
template<typename T, int n> struct KryM {
  T a[n][n]; unsigned int nrowblk_ = n, nrowdim_ = 1, ncolblk_ = n, ncoldim_ = 1; bool val_dia_ = true;
  void MatVec(T *y, T al, const T *x, T be) const { for (int i = 0; i < n; ++i) { T s = T(0); for (int j = 0; j < n; ++j) { s += a[i][j] * x[j]; } y[i] = al * s + be * y[i]; } }
  void SolvePrecond(T *v) const { T w[n]; for (int i = 0; i < n; ++i) { w[i] = T(0); for (int j = 0; j < n; ++j) { w[i] += a[i][j] * v[j]; } } for (int i = 0; i < n; ++i) { v[i] = w[i]; } }
};
inline void rput(double *z, double v) { z[0] = v; }
inline void rput(double *z, const std::complex<double> &v) { z[0] = v.real(); z[1] = v.imag(); }
inline double rnrm(double v) { return v * v; }
inline double rnrm(const std::complex<double> &v) { return v.real() * v.real() + v.imag() * v.imag(); }
inline double rcj(double v) { return v; }
inline std::complex<double> rcj(const std::complex<double> &v) { return std::conj(v); }
// stabilised biconjugate gradients as published (van der Vorst)
template<typename T, int n> inline void rstab(const T (*A)[n], const T *b, T *x, int its) {
  T r[n], p[n], rho = T(0); for (int i = 0; i < n; ++i) { x[i] = T(0); r[i] = p[i] = b[i]; rho += b[i] * rcj(b[i]); }
  for (int k = 0; k < its; ++k) {
    T v[n], s[n], t[n], d = T(0), e = T(0), f = T(0), g = T(0);
    for (int i = 0; i < n; ++i) { v[i] = T(0); for (int j = 0; j < n; ++j) { v[i] += A[i][j] * p[j]; } d += v[i] * rcj(b[i]); }
    T al = rho / d;
    for (int i = 0; i < n; ++i) { s[i] = r[i] - al * v[i]; }
    for (int i = 0; i < n; ++i) { t[i] = T(0); for (int j = 0; j < n; ++j) { t[i] += A[i][j] * s[j]; } e += s[i] * rcj(t[i]); f += t[i] * rcj(t[i]); }
    T om = e / f;
    for (int i = 0; i < n; ++i) { x[i] += al * p[i] + om * s[i]; r[i] = s[i] - om * t[i]; g += r[i] * rcj(b[i]); }
    T be = g / rho * al / om; rho = g;
    for (int i = 0; i < n; ++i) { p[i] = r[i] + be * (p[i] - om * v[i]); }
  }
}
"""
OPTF = ["-O3", "-mllvm", "-disable-loop-idiom-memcpy", "-mllvm", "-memdep-block-scan-limit=100000", "-mllvm", "-memssa-check-limit=10000", "-mllvm", "-available-load-scan-limit=10000", "-mllvm", "-memdep-block-number-limit=2000", "-DNDEBUG", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno", "-fno-unwind-tables",
        "-gline-tables-only", "-mllvm", "-inline-threshold=1000000", "-fcx-limited-range",
        "-mllvm", "-locally-hot-callsite-threshold=1000000", "-mllvm", "-hot-callsite-threshold=1000000", "-mllvm", "-inlinehint-threshold=1000000", "-mllvm", "-inlinecold-threshold=1000000", "-mllvm", "-inline-cold-callsite-threshold=1000000", 
        "-mllvm", "-unroll-threshold=1000000", "-mllvm", "-unroll-runtime=false",
        "-mllvm", "-sink-common-insts=false", "-mllvm", "-unroll-max-count=600", "-mllvm", "-unroll-full-max-count=600",
        "-mllvm", "-unroll-max-iteration-count-to-analyze=600"]


def load_kernels():
    p = common.VERIF + "/spec/kernels.py"
    spec = importlib.util.spec_from_file_location("kernels", p)
    m = importlib.util.module_from_spec(spec)
    m.Kernel = Kernel
    spec.loader.exec_module(m)
    return m.GROUPS


def compile_group(ctx, gi, headers, kernels):
    src = ctx.tmp + "/k%s.cpp" % gi
    ll = src[:-4] + ".ll"
    dropped = []
    live = list(range(len(kernels)))
    head = "".join(QUIET if h == "!quiet" else h[5:] + "\n" if h.startswith("!raw ") else '#include "delfem2/%s"\n' % h for h in headers) + PRE
    for attempt in range(4):
        with open(src, "w") as f:
            f.write(head)
            base = head.count("\n")
            line = base
            span = {}
            for k in live:
                t = kernels[k].wrapper("k_%d" % k)
                span[k] = (line + 1, line + t.count("\n") + 1)
                f.write(t); line += t.count("\n")
        r = run(["clang++"] + BASEFLAGS + OPTF + ["-ferror-limit=0", "-emit-llvm", "-S", "-o", ll, src])
        if r.returncode == 0:
            break
        # a wrapper that no longer matches the library is set aside (and counted), the rest still decides
        bad = set()
        for blk in re.split(r"(?m)^(?=\S+:\d+:\d+: (?:fatal )?error: |In file included)", r.stderr):
            for m in re.findall(r"(?m)^%s:(\d+):" % re.escape(src), blk):
                for k, (a, b) in span.items():
                    if a <= int(m) < b:
                        bad.add(k)
        if not bad:
            # the headers themselves do not compile together: nothing of this group can be judged here
            err = [l for l in r.stderr.splitlines() if "error:" in l][:1]
            return [], dropped + [(kernels[k].name, (err or ["does not compile"])[0][:200]) for k in live]
        dropped += [(kernels[k].name, r.stderr.strip().splitlines()[0][:200]) for k in bad]
        live = [k for k in live if k not in bad]
    else:
        return [], dropped + [(kernels[k].name, "does not compile") for k in live]
    for _ in range(max([k.again for k in kernels] + [0])):
        r = run(["clang++"] + [x for x in OPTF if not x.startswith("-D")] + ["-w", "-emit-llvm", "-S", "-o", ll + ".ll", ll])
        if r.returncode:
            raise Broken("optimiser failed: " + r.stderr[-500:])
        os.replace(ll + ".ll", ll)
    d = run([common.tool("irdump"), ll, "k_"])
    try:
        d = json.loads(d.stdout)
    except Exception:
        raise Broken("irdump failed: " + d.stderr[-800:])
    fns = {f["name"]: f for f in d["functions"]}
    return [(kernels[k], fns.get("k_%d" % k), d["globals"]) for k in live], dropped


def analyse(kernel, fn, globs):
    """-> dict(findings=[(cls, where, text)], stats, outputs, ...)"""
    finds = []

    def where(loc):
        for l in loc:
            if l.startswith(common.REPO + "/"):
                return l[len(common.REPO) + 1:]
            if "/include/delfem2/" in l:
                return "include/delfem2/" + l.split("/include/delfem2/", 1)[1]
        return loc[0] if loc else "?"

    def report(cls, loc, text):
        if cls + "!" in kernel.skip:
            return
        finds.append((cls, where(loc), text))

    args, outs = [], []
    for (d, n, t), at in zip(kernel.params, fn["args"]):
        if t == "int":
            args.append(("top",)); continue
        if t == "u":
            o = Obj(n, None, "in"); o.cells = {}; args.append(o); continue
        ty = Ty(t, kernel.mix)
        if d == "<" and not ty.shape:
            args.append(ty.grade([])); continue
        o = Obj(n, 8 * ty.n, "in" if d == "<" else "out")
        o.cells = ty.cells() if d in ("<", "<>", ">+") else {}
        o.ty = ty
        args.append(o)
        if d != "<":
            outs.append((n, o, ty, d))
    it = Interp(fn, globs, args, report)
    it.rootok = "root" in kernel.skip
    it.run()
    res = {"finds": finds, "stats": it.stats, "unknown_calls": it.unknown_calls, "out_total": 0, "out_unit": 0, "out_parity": 0, "out_weight": 0, "out_set": 0}

    def check_out(label, v, want):
        """v: derived grade, want: declared grade"""
        res["out_total"] += 1
        if v[0] == "zero" or v[0] == "bot":
            for k in ("out_unit", "out_parity", "out_weight"):
                res[k] += 1
            return
        if v[0] == "c":
            if v[1] is None or want[1] == U0 or want[1] is None:
                pass
            v = G()
            if want[1] is not None and want[1] != U0:
                finds.append(("unit", label, "is a plain number, not a value in %s" % ustr(want[1])))
                return
        if v[0] != "g":
            return
        if v[1] is not None and want[1] is not None:
            res["out_unit"] += 1
            if v[1] != want[1]:
                finds.append(("unit", label, "is in %s instead of %s" % (ustr(v[1]), ustr(want[1]))))
        if None not in v[2]:
            res["out_parity"] += 1
        if any(a is not None and a != b for a, b in zip(v[2], want[2])):
            finds.append(("parity", label, "is %s instead of %s" % (pstr(v[2]), pstr(want[2]))))
        if None not in v[3]:
            res["out_weight"] += 1
        if any(a is not None and (b == 0 if a == "M" else abs(a - b) > 1e-6) for a, b in zip(v[3], want[3])):
            finds.append(("weight", label, "moves with the coordinates by %s instead of %s" % (it.ws(v), it.ws(want))))

    final = None
    for st, ins in it.exit_states:
        final = it.joinst(final, st, True)
    if final is None:
        return res
    for n, o, ty, d in outs:
        for off, want in ty.cells().items():
            idx = off // 8
            label = "%s[%d]" % (n, idx) if ty.n > 1 else n
            c = final.get((o, off))
            if c is None or (c[1] and d == ">"):
                if o not in it.varstore:
                    finds.append(("unset", label, "is not assigned on every path" if c is not None else "is never assigned"))
                if c is None:
                    continue
            else:
                res["out_set"] += 1
            check_out(label, c[0], want)
    if kernel.ret is not None:
        v = BOT
        for r, ins in it.rets:
            v = it.merge(v, r, False)
        check_out("result", v, kernel.ret.grade([]))
    return res


def all_results(ctx):
    groups = load_kernels()
    jobs = list(enumerate(groups))
    comp = pmap(lambda j: compile_group(ctx, j[0], j[1][0], j[1][1]), jobs)
    items, dropped = [], []
    for L, dr in comp:
        items += L; dropped += dr
    miss = [k.name for k, f, g in items if f is None]
    items = [x for x in items if x[1] is not None]
    res = _fork_map(items)
    return [(k, r) for (k, f, g), r in zip(items, res)], dropped + [(m, "no code generated") for m in miss]


_ITEMS = None


def _an(i):
    k, f, g = _ITEMS[i]
    return analyse(k, f, g)


def _fork_map(items):
    global _ITEMS
    import multiprocessing
    _ITEMS = items
    with multiprocessing.get_context("fork").Pool(common.JOBS) as pool:
        return pool.map(_an, range(len(items)), chunksize=2)
