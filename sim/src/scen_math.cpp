// Mathematical functions in transactions: C21
#include "io.h"
#include <fenv.h>
#include <cmath>
#include <math.h>
extern "C" {
#define template template_
#define restrict
#include "picotm/errno.h"
#include "picotm/math.h"
#include "picotm/picotm-libm.h"
#undef template
#undef restrict
}
using namespace sim;

// complex functions
typedef __complex__ double cd;
typedef __complex__ float cf;
typedef __complex__ long double cl;
#define CPLX_FUNCS(X) X(cacos) X(cacosh) X(casin) X(casinh) X(catan) X(catanh) X(ccos) X(ccosh) X(cexp) X(clog) X(conj) X(cproj) X(csin) X(csinh) X(csqrt) X(ctan) X(ctanh)
#define CREAL_FUNCS(X) X(cabs) X(carg) X(cimag) X(creal)
extern "C" {
#define X(n) cd n(cd); cf n##f(cf); cl n##l(cl); cd n##_tx(cd); cf n##f_tx(cf); cl n##l_tx(cl);
CPLX_FUNCS(X)
#undef X
#define X(n) double n(cd); float n##f(cf); long double n##l(cl); double n##_tx(cd); float n##f_tx(cf); long double n##l_tx(cl);
CREAL_FUNCS(X)
#undef X
cd cpow(cd, cd); cf cpowf(cf, cf); cl cpowl(cl, cl); cd cpow_tx(cd, cd); cf cpowf_tx(cf, cf); cl cpowl_tx(cl, cl);
}

namespace {
enum { CALL, ERRNO_SET, FE_ROUND, FE_RAISE, NOPS };
const int rounds[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
const int FLAGS = FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW;

struct Arg {
    double x[3];
    long double lx[3];
    int n;
    void* out;       // memory of the thread for results behind pointers
    char* tag;
};
struct Ret {
    std::string b;
    std::string text;
    void val(float v) { put(v, &v, sizeof v); }
    void val(double v) { put(v, &v, sizeof v); }
    void val(long double v) { put(v, &v, 10); }
    void val(long v) { num(v); }
    void val(long long v) { num(v); }
    void val(int v) { num(v); }
    void val(cd v) { val(__real__ v), val(__imag__ v); }
    void val(cf v) { val(__real__ v), val(__imag__ v); }
    void val(cl v) { val(__real__ v), val(__imag__ v); }
    void put(long double v, const void* p, size_t n)
    {
        char t[64];
        snprintf(t, sizeof t, "%.20Lg ", v);
        text += t;
        if (v != v) b += "nan";
        else b.append((const char*)p, n);
    }
    void num(long long v)
    {
        b.append((const char*)&v, 8);
        text += std::to_string(v) + " ";
    }
};
struct Fn {
    const char* name;
    bool real;                 // reports errors
    bool exact;                // the C function cannot fail
    void (*call)(bool tx, const Arg& a, Ret& r);
};
template <class T> T arg(const Arg& a, int i) { return (T)a.x[i]; }
template <> long double arg<long double>(const Arg& a, int i) { return a.lx[i]; }
template <class C, class T> C carg_(const Arg& a, int i)
{
    C c;
    __real__ c = arg<T>(a, i);
    __imag__ c = arg<T>(a, i + 1);
    return c;
}
// the functions are called through pointers so that the compiler cannot evaluate or move them
template <class F> struct Id { typedef F type; };
template <class R, class... A> R vcall(bool tx, typename Id<R (*)(A...)>::type f_tx, typename Id<R (*)(A...)>::type f, typename Id<A>::type... a)
{
    R (*volatile p)(A...) = tx ? f_tx : f;
    return p(a...);
}
#define PICK(f) tx, f##_tx, f
#define F1(f, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<T, T>(PICK(f), arg<T>(a, 0))); }},
// lgamma() also sets the global variable signgam
#define FG(f, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { \
    int g = signgam; \
    if (tx) { r.val(vcall<T, T>(true, f##_tx, nullptr, arg<T>(a, 0))); load_tx(&signgam, &g, sizeof g); r.val(g); } \
    else { r.val(vcall<T, T>(false, nullptr, f, arg<T>(a, 0))); r.val(signgam); signgam = g; } }},
#define F2(f, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<T, T, T>(PICK(f), arg<T>(a, 0), arg<T>(a, 1))); }},
#define F3(f, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<T, T, T, T>(PICK(f), arg<T>(a, 0), arg<T>(a, 1), arg<T>(a, 2))); }},
#define FI(f, R, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<R, T>(PICK(f), arg<T>(a, 0))); }},
#define FN(f, T, N) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<T, T, N>(PICK(f), arg<T>(a, 0), (N)a.n)); }},
#define NF(f, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<T, int, T>(PICK(f), a.n % 20, arg<T>(a, 0))); }},
#define FT(f, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<T, T, long double>(PICK(f), arg<T>(a, 0), arg<long double>(a, 1))); }},
// ilogb_tx() returns a floating-point number
#define FL(f, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { \
    if (tx) r.val((long)vcall<T, T>(true, f##_tx, nullptr, arg<T>(a, 0))); else r.val((long)(T)vcall<int, T>(false, nullptr, f, arg<T>(a, 0))); }},
#define FP(f, T, P) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { \
    P v; \
    if (tx) { r.val(vcall<T, T, P*>(true, f##_tx, nullptr, arg<T>(a, 0), (P*)a.out)); load_tx(a.out, &v, sizeof v); } \
    else r.val(vcall<T, T, P*>(false, nullptr, f, arg<T>(a, 0), &v)); \
    r.val(v); }},
#define FQ(f, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { \
    int v; \
    if (tx) { r.val(vcall<T, T, T, int*>(true, f##_tx, nullptr, arg<T>(a, 0), arg<T>(a, 1), (int*)a.out)); load_tx(a.out, &v, sizeof v); } \
    else r.val(vcall<T, T, T, int*>(false, nullptr, f, arg<T>(a, 0), arg<T>(a, 1), &v)); \
    if (r.b != "nan") r.val(v); }},
#define FS(f, T) {#f, true, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<T, const char*>(PICK(f), a.tag)); }},
#define C1(n) {#n, false, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<cd, cd>(PICK(n), carg_<cd, double>(a, 0))); }}, \
              {#n "f", false, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<cf, cf>(PICK(n##f), carg_<cf, float>(a, 0))); }}, \
              {#n "l", false, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<cl, cl>(PICK(n##l), carg_<cl, long double>(a, 0))); }},
#define CR(n) {#n, false, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<double, cd>(PICK(n), carg_<cd, double>(a, 0))); }}, \
              {#n "f", false, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<float, cf>(PICK(n##f), carg_<cf, float>(a, 0))); }}, \
              {#n "l", false, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<long double, cl>(PICK(n##l), carg_<cl, long double>(a, 0))); }},
#define ALL1(X, n) X(n, double) X(n##f, float) X(n##l, long double)

const Fn fns[] = {
    ALL1(F1, acos) ALL1(F1, acosh) ALL1(F1, asin) ALL1(F1, asinh) ALL1(F1, atan) ALL1(F1, atanh) ALL1(F1, cbrt) ALL1(F1, ceil) ALL1(F1, cos)
    ALL1(F1, cosh) ALL1(F1, erf) ALL1(F1, erfc) ALL1(F1, exp) ALL1(F1, exp2) ALL1(F1, expm1) ALL1(F1, fabs) ALL1(F1, floor) ALL1(FL, ilogb)
    F1(j0, double) F1(j1, double) ALL1(FG, lgamma) ALL1(F1, log) ALL1(F1, log10) ALL1(F1, log1p) ALL1(F1, log2) ALL1(F1, logb)
    ALL1(F1, nearbyint) ALL1(F1, rint) ALL1(F1, round) F1(sin, double) F1(sinf, float) F1(sinl, long double) ALL1(F1, sinh) ALL1(F1, sqrt)
    ALL1(F1, tan) ALL1(F1, tanh) ALL1(F1, tgamma) ALL1(F1, trunc) F1(y0, double) F1(y1, double)
    ALL1(F2, atan2) ALL1(F2, copysign) ALL1(F2, fdim) ALL1(F2, fmax) ALL1(F2, fmin) ALL1(F2, fmod) ALL1(F2, hypot) ALL1(F2, nextafter)
    ALL1(F2, pow) ALL1(F2, remainder) FT(nexttoward, double) FT(nexttowardf, float) FT(nexttowardl, long double)
    ALL1(F3, fma)
    FN(ldexp, double, int) FN(ldexpf, float, int) FN(ldexpl, long double, int) FN(scalbn, double, int) FN(scalbnf, float, int)
    FN(scalbnl, long double, int) FN(scalbln, double, long) FN(scalblnf, float, long) FN(scalblnl, long double, long)
    NF(jn, double) NF(yn, double)
    FI(llrint, long long, double) FI(llrintf, long long, float) FI(llrintl, long long, long double)
    FI(llround, long long, double) FI(llroundf, long long, float) FI(llroundl, long long, long double)
    FI(lrint, long, double) FI(lrintf, long, float) FI(lrintl, long, long double)
    FI(lround, long, double) FI(lroundf, long, float) FI(lroundl, long, long double)
    FP(frexp, double, int) FP(frexpf, float, int) FP(frexpl, long double, int)
    FP(modf, double, double) FP(modff, float, float) FP(modfl, long double, long double)
    FQ(remquo, double) FQ(remquof, float) FQ(remquol, long double)
    FS(nan, double) FS(nanf, float) FS(nanl, long double)
    CPLX_FUNCS(C1) CREAL_FUNCS(CR)
    {"cpow", false, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<cd, cd, cd>(PICK(cpow), carg_<cd, double>(a, 0), carg_<cd, double>(a, 1))); }},
    {"cpowf", false, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<cf, cf, cf>(PICK(cpowf), carg_<cf, float>(a, 0), carg_<cf, float>(a, 1))); }},
    {"cpowl", false, false, [](bool tx, const Arg& a, Ret& r) { r.val(vcall<cl, cl, cl>(PICK(cpowl), carg_<cl, long double>(a, 0), carg_<cl, long double>(a, 1))); }},
};
const int NF_ = sizeof fns / sizeof *fns;

double special(uint64_t k)
{
    static const double s[] = {0.0, -0.0, 1, -1, INFINITY, -INFINITY, NAN, 4.9e-324, -4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
        -1.7976931348623157e308, 0.5, -0.5, 1.5, 2.5, -2.5, 2, -2, 3, -3, 10, 100, -100, 170.6, 172, 709.7, 710, -745.2, -746, 88.7, 89, -104,
        3.4028234663852886e38, 1.401298464324817e-45, 1.1754943508222875e-38, 1e300, 1e-300, 1e-160, 1e20, 9.3e18, -9.3e18, 2147483648.0,
        -2147483649.0, 1024, 1023.5, -1074.5, 127.5, 128, 3.141592653589793, 1.5707963267948966, 0.7853981633974483, 0.1, 1e5, 11400, -11400};
    return s[k % (sizeof s / sizeof *s)];
}
double value(int64_t code)
{
    uint64_t c = (uint64_t)code;
    Rng r(c);
    switch (c % 4) {
    case 0: case 1: return special(c / 4);
    case 2: {
        uint64_t b = r.next();
        double d;
        memcpy(&d, &b, 8);
        return d != d ? 0.25 : d;
    }
    default: {
        double d = (double)(int64_t)(r.next() % 2000001) / 1000.0 - 1000.0;
        return r.chance(0.5) ? d : d / 512;
    }
    }
}
struct TState {
    int err = 0, round = FE_TONEAREST, flags = 0;
    bool err_known = true;
};
struct NullModel : Model {
    Model* clone() const override { return new NullModel; }
    bool apply(const Op&, const std::string*) override { return true; }
    uint64_t hash() const override { return 1; }
};

struct MathScenario : IoScenario {
    TState com[16], cur[16];
    std::vector<char*> out;
    std::string before[16];
    char* tag = nullptr;
    bool may_fail[16] = {0};
    int want_flags[16] = {0}, want_errno[16] = {0};

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = r.range(1, 3);
        if (r.chance(0.15)) swarm_faults(r, s.par, {F_OOM}, 0.03);
        for (int t = 0; t < nt; ++t) {
            Thread T;
            int nx = r.range(2, 8);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 6);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    o.code = r.chance(0.7) ? CALL : r.range(1, 3);
                    o.a[0] = r.below(NF_);
                    for (int k = 1; k < 4; ++k) o.a[k] = r.below(1u << 30);
                    // arguments near each other exercise the two-argument functions
                    if (r.chance(0.1)) o.a[2] = o.a[1];
                    static const int n[] = {0, 1, -1, 5, -5, 127, 128, -149, 1023, 1024, -1074, 2000, -3000, 20000, -40000, 2147483647, -2147483647};
                    o.a[4] = n[r.below(sizeof n / sizeof *n)];
                    tx.ops.push_back(o);
                }
                if (r.chance(0.3)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(4)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                T.txs.push_back(tx);
            }
            s.prog.th.push_back(T);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[160];
        switch (op.code) {
        case CALL:
            snprintf(b, sizeof b, "%s(%.17g, %.17g, %.17g; %lld)", fns[op.a[0]].name, value(op.a[1]), value(op.a[2]), value(op.a[3]), (long long)op.a[4]);
            return b;
        case ERRNO_SET: snprintf(b, sizeof b, "errno = %lld", (long long)op.a[1] % 100); return b;
        case FE_ROUND: snprintf(b, sizeof b, "fesetround(%x)", rounds[op.a[1] % 4]); return b;
        case FE_RAISE: snprintf(b, sizeof b, "feraiseexcept(%x)", (int)op.a[1] % 64 & FE_ALL_EXCEPT); return b;
        }
        return "?";
    }
    void setup() override
    {
        check_errno = false;     // has a model of its own
        for (size_t i = 0; i < sp->prog.th.size(); ++i) {
            out.push_back((char*)heap_alloc(32));
            memset(out[i], 0x11, 32);
        }
        signgam = 0;
        tag = (char*)heap_alloc(16);
        strcpy(tag, "1234567");
    }
    Model* initial() override { return new NullModel; }

    void compare(const TState& s, const char* when)
    {
        int f = fetestexcept(FLAGS), m = fegetround(), e = fiber_errno();
        if (m != s.round) fail("rounding-mode", "%s the rounding mode is %x instead of %x", when, m, s.round);
        if (f != s.flags) fail("exception-flags", "%s the floating-point exception flags are %x instead of %x", when, f, s.flags);
        if (s.err_known && e != s.err) fail("errno", "%s errno is %d instead of %d", when, e, s.err);
    }
    void on_begin(TxRun* r) override
    {
        IoScenario::on_begin(r);
        int me = self();
        may_fail[me] = false;
        if (faults_of_thread(me)) com[me].err_known = false;
        compare(com[me], "at the begin of an attempt");
        std::string b(out[r->thread], 32);
        if (sp->prog.th.size() == 1) b += (char)signgam;
        if (before[me].size() && b != before[me]) fail("rollback", "the result that a rolled-back function stored is still in memory");
        before[me] = b;
        cur[me] = com[me];
    }
    void on_committed(TxRun*) override
    {
        int me = self();
        if (faults_of_thread(me)) cur[me].err_known = false;
        com[me] = cur[me];
        before[me].clear();
        compare(com[me], "after the commit");
    }
    bool expected_error(TxRun* r) override
    {
        int me = self();
        if (!may_fail[me] || picotm_error_status() != PICOTM_ERRNO) return false;
        int e = picotm_error_as_errno();
        return (e == EDOM && (want_flags[me] & FE_INVALID)) || (e == ERANGE && (want_flags[me] & (FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW))) ||
               (want_errno[me] && e == want_errno[me]);
    }
    void on_recovery(TxRun* r) override
    {
        int me = self();
        if (faults_of_thread(me)) com[me].err_known = false;
        if (!picotm_error_is_non_recoverable()) compare(com[me], "in the recovery phase");
        if (expected_error(r)) return;
        IoScenario::on_recovery(r);
    }
    void thread_end(int) override { fesetenv(FE_DFL_ENV); }

    void exec(TxRun* r, const Op& op) override
    {
        int me = self();
        TState& c = cur[me];
        switch (op.code) {
        case ERRNO_SET:
            errno_tx = (int)(op.a[1] % 100);
            c.err = op.a[1] % 100;
            c.err_known = true;
            return;
        case FE_ROUND:
            picotm_libm_save_fenv();
            fesetround(rounds[op.a[1] % 4]);
            c.round = rounds[op.a[1] % 4];
            return;
        case FE_RAISE: {
            int f = (int)(op.a[1] % 64) & FE_ALL_EXCEPT;
            picotm_libm_save_fexcept();
            feraiseexcept(f);
            c.flags |= f & FLAGS;
            return;
        }
        case CALL: {
            const Fn& f = fns[op.a[0]];
            Arg a;
            fenv_t env;
            feholdexcept(&env);
            for (int i = 0; i < 3; ++i) {
                a.x[i] = value(op.a[1 + i]);
                a.lx[i] = a.x[i];
                if ((op.a[1 + i] >> 20) % 3 == 1) a.lx[i] = ldexpl(a.lx[i], (int)((op.a[1 + i] >> 12) % 30000) - 15000);
            }
            a.n = (int)op.a[4];
            a.out = out[r->thread];
            a.tag = tag;
            // the C function
            Ret want, got;
            // converting the arguments may raise exceptions of its own
            Ret dummy;
            f.call(false, a, dummy);
            float z[3];
            for (int i = 0; i < 3; ++i) z[i] = (float)a.x[i];
            for (int i = 0; i < 3; ++i) a.x[i] = strchr("f", f.name[strlen(f.name) - 1]) && strcmp(f.name, "erf") && strcmp(f.name, "modf") ? z[i] : a.x[i];
            int e0 = errno;
            errno = 0;
            feclearexcept(FE_ALL_EXCEPT);
            f.call(false, a, want);
            int wf = fetestexcept(FE_ALL_EXCEPT), we = errno;
            errno = e0;
            fesetenv(&env);
            want_flags[me] = wf;
            want_errno[me] = we;
            may_fail[me] = f.real;
            f.call(true, a, got);
            may_fail[me] = false;
            int fl = fetestexcept(FLAGS), e = fiber_errno();
            if (f.real && (we || (wf & FLAGS)))
                fail("no-error", "%s returned %s although the C function reports an error (errno %d, exception flags %x)", op_name(op).c_str(),
                     got.text.c_str(), we, wf);
            if (got.b != want.b)
                fail("wrong-result", "%s returned %s instead of %s", op_name(op).c_str(), got.text.c_str(), want.text.c_str());
            if (f.real) {
                if (fl & ~c.flags) fail("exception-flags", "%s succeeded, but left the exception flags %x", op_name(op).c_str(), fl);
                if (e && c.err_known && e != c.err) fail("errno", "%s succeeded, but set errno to %d", op_name(op).c_str(), e);
            }
            c.flags = fl;
            c.err = e;
            observe(std::hash<std::string>()(got.b));
            return;
        }
        }
    }
};
Reg r1("math", [](const RunSpec&) -> Scenario* { return new MathScenario; });
}  // namespace
