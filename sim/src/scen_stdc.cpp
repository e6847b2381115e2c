// Formatting, scanning, sorting, dates and random numbers: C25
#include "tx.h"
#include "kern.h"
#include <cerrno>
#include <cstddef>
#include <ctime>
extern "C" {
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#define template template_
#include "picotm/stdlib.h"
#undef template
#define restrict
#include "picotm/stdio.h"
#include "picotm/time.h"
#undef restrict
size_t strftime_l_tx(char*, size_t, const char*, const struct tm*, locale_t);
}
#pragma clang diagnostic ignored "-Wformat-security"
#pragma clang diagnostic ignored "-Wformat-nonliteral"
using namespace sim;

namespace {
enum { PRINT, SCAN, SORT, RAND, STRFTIME, STRFTIME_L, STRPTIME, TEXT, LD, ST, TMSET, FMTSET, NOPS };
const char* const names[NOPS] = {"snprintf", "sscanf", "qsort", "rand_r", "strftime", "strftime_l", "strptime", "text", "load", "store", "set tm", "set format"};

const char* const pfmt[] = {
    "plain", "%d,%s", "%s-%s", "[%5d|%-6u|%x]", "%.3s", "%c%c%s", "%ld %llu %hhd %hd %s", "%.1f %e %g %s", "%Lf %s", "%s%n",
    "%*d %.*s", "%p %s", "%zu %jd %td %s", "%d%%%s", "%5.2f%% %i", "%X %o %i %s", "%E %G %a %A %s", "%hhn%s%hn", "%ld%ln", "%+05d% d%s",
    "%#x %#o '%-5s'", "%.*d:%.0s:%s", "%ls", "%F", "%jn%d%zn%s", "%5.3s|%-4.2s|", "%lc%s", "%9.9s|%-19d",
    "%d-%s", "%1$d", "%y", "%"};
const char* const sfmt[] = {
    "%d", "%d %n", "%u,%x", "%ld", "%lf", "%f %f", "%zu %jd", "%Lf", "%5s", "%4[0-9]", "%c%3c", "%*d %d", "%hhd %hd", "%lld", "%o %i %X", "%p",
    "%i,%n", "%2d%3d", "%*s%d", "%3[^,],%d", "%e %g", "%G %E", "%%%d", "x%dy", "%td", "%*[0-9]%n%c", "%hhn%d%ln", "%5[]a-c]", "%4[^]]", "%a %F", "%llu",
    "%3[]%d1]%d", "%3[^%d]%d", "%9d",
    "%d,%d", "%s", "%[0-9]", "%y", "%1$d"};
const char* const texts[] = {"12 34", "-7,ff", "3.25 1e2", "abc 5", "0x1f,077", "", "   ", "5", "x42y", "%13", "999 88 7", "]ab", "1,2", "12abc", "1.5"};
const char* const tfmt[] = {"%Y-%m-%d", "%H:%M:%S", "%d.%m.%y %H", "%j %u", "%a %b %d", "%d"};
// formats that transactions change; each with the same arguments
const char* const pvar[] = {"%d-%s", "%5d%s", "%x:%.2s", "plain", "%d"};
const char* const svar[] = {"%d,%d", "%d %d", "%x %i", "%2d%3d", "%d"};
const char* const tvar[] = {"%d", "%H:%M", "plain", "%Y", "%m.%d"};
const char* const ttext[] = {"2001-02-03", "12:34:56", "04.05.06 07", "130 3", "Mon Jan 02", "xx", ""};
const int NPF = sizeof pfmt / sizeof *pfmt, NSF = sizeof sfmt / sizeof *sfmt, NTX = sizeof texts / sizeof *texts;
const int NTF = sizeof tfmt / sizeof *tfmt, NTT = sizeof ttext / sizeof *ttext;

// arena: text buffers, formats, number slots, dates, a text without terminator at the end of the heap block
const int BUF = 64, NB = 3, FW = 32;
const int FMT = BUF * NB, NUM = FMT + FW * (NPF + NSF + NTF), NN = 4, DATE = NUM + 16 * NN, ND = 2;
const int WIDE = DATE + ND * 56, EDGE = 16, END = WIDE + 16, ARENA = END + EDGE;
static_assert(sizeof(struct tm) == 56, "layout");

template <int W> int cmpw(const void* a, const void* b) { return memcmp(a, b, W); }
int cmp_desc(const void* a, const void* b) { return -memcmp(a, b, 3); }

struct Host {
    static void ldn(const char* p, char* b, size_t n) { memcpy(b, p, n); }
    static void stn(char* p, const char* b, size_t n) { memcpy(p, b, n); }
    template <class... T> static int print(char* s, size_t n, const char* f, T... t) { return snprintf(s, n, f, t...); }
    template <class... T> static int scan(const char* s, const char* f, T... t) { return sscanf(s, f, t...); }
    static void sort(void* p, size_t n, size_t w, int (*c)(const void*, const void*)) { qsort(p, n, w, c); }
    static int rand(unsigned* p) { return rand_r(p); }
    static size_t ftime(char* s, size_t n, const char* f, struct tm* t) { return strftime(s, n, f, t); }
    static size_t ftime_l(char* s, size_t n, const char* f, struct tm* t) { return strftime(s, n, f, t); }
    static char* ptime(char* s, const char* f, struct tm* t) { return strptime(s, f, t); }
};
locale_t sim_locale;
struct Txn {
    static void ldn(const char* p, char* b, size_t n) { load_tx(p, b, n); }
    static void stn(char* p, const char* b, size_t n) { store_tx(p, b, n); }
    template <class... T> static int print(char* s, size_t n, const char* f, T... t) { return snprintf_tx(s, n, f, t...); }
    template <class... T> static int scan(const char* s, const char* f, T... t) { return sscanf_tx(s, f, t...); }
    static void sort(void* p, size_t n, size_t w, int (*c)(const void*, const void*)) { qsort_tx(p, n, w, c); }
    static int rand(unsigned* p) { return rand_r_tx(p); }
    static size_t ftime(char* s, size_t n, const char* f, struct tm* t) { return strftime_tx(s, n, f, t); }
    static size_t ftime_l(char* s, size_t n, const char* f, struct tm* t) { return strftime_l_tx(s, n, f, t, sim_locale); }
    static char* ptime(char* s, const char* f, struct tm* t) { return strptime_tx(s, f, t); }
};

struct tm make_tm(int64_t v)
{
    Rng r(v);
    struct tm t = {};
    t.tm_sec = r.below(60), t.tm_min = r.below(60), t.tm_hour = r.below(24), t.tm_mday = 1 + r.below(28), t.tm_mon = r.below(12);
    t.tm_year = 70 + r.below(100), t.tm_wday = r.below(7), t.tm_yday = r.below(365);
    return t;
}

// is the conversion one that picotm refuses with EINVAL instead of executing it?
bool may_refuse(const Op& op)
{
    if (op.code == PRINT) return op.a[4] >= NPF - 3;
    if (op.code == SCAN) return op.a[4] >= NSF - 4;
    return false;
}

template <class A> int print_to(char* m, const Op& op)
{
    char *d = m + op.a[0], *s = m + op.a[1];
    size_t n = op.a[2];
    int64_t v = op.a[3];
    const char* f = m + FMT + FW * op.a[4];
    char* num = m + NUM + 16 * (v & 3);
    char* num2 = m + NUM + 16 * ((v + 1) & 3);
    int i = (int)v;
    double x = v / 16.0;
    if (v % 13 == 0) {
        d = nullptr;
        n = 0;
    }
    switch (op.a[4]) {
    case 0: return A::print(d, n, f);
    case 1: return A::print(d, n, f, i, s);
    case 2: return A::print(d, n, f, s, s + 2);
    case 3: return A::print(d, n, f, i, (unsigned)i, (unsigned)i);
    case 4: return A::print(d, n, f, s);
    case 5: return A::print(d, n, f, 'a' + (i & 7), 'k', s);
    case 6: return A::print(d, n, f, (long)v * 1000003, (unsigned long long)v, i, i, s);
    case 7: return A::print(d, n, f, x, x, x, s);
    case 8: return A::print(d, n, f, (long double)x, s);
    case 9: return A::print(d, n, f, s, (int*)num);
    case 10: return A::print(d, n, f, 6, i, (int)(v & 3), s);
    case 11: return A::print(d, n, f, (void*)0x1234, s);
    case 12: return A::print(d, n, f, (size_t)v, (intmax_t)v, (ptrdiff_t)v, s);
    case 13: return A::print(d, n, f, i, s);
    case 14: return A::print(d, n, f, x, i);
    case 15: return A::print(d, n, f, (unsigned)i, (unsigned)i, i, s);
    case 16: return A::print(d, n, f, x, x, x, x, s);
    case 17: return A::print(d, n, f, (signed char*)num, s, (short*)num2);
    case 18: return A::print(d, n, f, (long)v, (long*)num);
    case 19: return A::print(d, n, f, i, i, s);
    case 20: return A::print(d, n, f, (unsigned)i, (unsigned)i, s);
    case 21: return A::print(d, n, f, 3, i, s, s + 1);
    case 22: return A::print(d, n, f, (wchar_t*)(m + WIDE));
    case 23: return A::print(d, n, f, x);
    case 24: return A::print(d, n, f, (intmax_t*)num, i, (size_t*)num2, s);
    case 25: return A::print(d, n, f, s, s + 1);
    case 26: return A::print(d, n, f, (wint_t)('a' + (i & 7)), s);
    case 27: return A::print(d, n, f, s, i);
    case 28: return A::print(d, n, f, i, s);   // changing
    default: return A::print(d, n, f, i, i);
    }
}

template <class A> int scan_from(char* m, const Op& op)
{
    char* s = m + op.a[1];
    int64_t v = op.a[3];
    const char* f = m + FMT + FW * (NPF + op.a[4]);
    char *p = m + NUM + 16 * (v & 3), *q = m + NUM + 16 * ((v + 1) & 3), *t = m + NUM + 16 * ((v + 2) & 3);
    switch (op.a[4]) {
    case 0: return A::scan(s, f, (int*)p);
    case 1: case 16: return A::scan(s, f, (int*)p, (int*)q);
    case 2: return A::scan(s, f, (unsigned*)p, (unsigned*)q);
    case 3: return A::scan(s, f, (long*)p);
    case 4: return A::scan(s, f, (double*)p);
    case 5: case 20: case 21: case 29: return A::scan(s, f, (float*)p, (float*)q);
    case 6: return A::scan(s, f, (size_t*)p, (intmax_t*)q);
    case 7: return A::scan(s, f, (long double*)p);
    case 10: return A::scan(s, f, p, q);
    case 12: return A::scan(s, f, (signed char*)p, (short*)q);
    case 13: case 24: case 30: return A::scan(s, f, (long long*)p);
    case 14: return A::scan(s, f, (unsigned*)p, (int*)q, (unsigned*)t);
    case 15: return A::scan(s, f, (void**)p);
    case 17: case 34: return A::scan(s, f, (int*)p, (int*)q);
    case 19: return A::scan(s, f, p, (int*)q);
    case 31: case 32: return A::scan(s, f, p, (int*)q, (int*)16);   // the last one is not part of the format
    case 25: return A::scan(s, f, (int*)p, q);
    case 26: return A::scan(s, f, (signed char*)p, (int*)q, (long*)t);
    default: return A::scan(s, f, p);
    }
}

template <class A> void perform(char* m, const Op& op, int64_t* res, int& nres, char* txt, int& ntxt)
{
    char *d = m + op.a[0], *s = m + op.a[1];
    size_t n = op.a[2];
    nres = ntxt = 0;
    switch (op.code) {
    case PRINT: res[nres++] = print_to<A>(m, op); break;
    case SCAN: res[nres++] = scan_from<A>(m, op); break;
    case SORT:
        switch (op.a[3] % 6) {
        case 0: A::sort(d, n, 1, cmpw<1>); break;
        case 1: A::sort(d, n / 2, 2, cmpw<2>); break;
        case 2: A::sort(d, n / 4, 4, cmpw<4>); break;
        case 3: A::sort(d, n / 8, 8, cmpw<8>); break;
        case 4: A::sort(d, n / 3, 3, cmp_desc); break;
        case 5: A::sort(d, n / 12, 12, cmpw<12>); break;
        }
        break;
    case RAND: res[nres++] = A::rand((unsigned*)(m + NUM + 16 * (op.a[3] & 3))); break;
    case STRFTIME: case STRFTIME_L: {
        const char* f = m + FMT + FW * (NPF + NSF + op.a[4]);
        struct tm* t = (struct tm*)(m + DATE + 56 * (op.a[3] & 1));
        res[nres++] = op.code == STRFTIME ? A::ftime(d, n, f, t) : A::ftime_l(d, n, f, t);
        break;
    }
    case STRPTIME: {
        const char* f = m + FMT + FW * (NPF + NSF + op.a[4]);
        struct tm* t = (struct tm*)(m + DATE + 56 * (op.a[3] & 1));
        char* e = A::ptime(s, f, t);
        res[nres++] = e ? e - m : -1;
        break;
    }
    case TEXT: {
        const char* x = op.a[4] < NTX ? texts[op.a[4]] : ttext[op.a[4] - NTX];
        A::stn(s, x, strlen(x) + 1);
        break;
    }
    case LD:
        A::ldn(s, txt, n);
        ntxt = n;
        break;
    case ST: {
        char b[BUF];
        Rng r(op.a[3]);
        for (size_t i = 0; i < n; ++i) b[i] = "ab12 ,c7"[r.below(8)];
        A::stn(d, b, n);
        break;
    }
    case FMTSET: {
        static const int slot[] = {NPF - 4, NPF + NSF - 5, NPF + NSF + NTF - 1};
        int w = op.a[3] % 3;
        const char* x = w == 0 ? pvar[op.a[2] % 5] : w == 1 ? svar[op.a[2] % 5] : tvar[op.a[2] % 5];
        A::stn(m + FMT + FW * slot[w], x, strlen(x) + 1);
        break;
    }
    case TMSET: {
        struct tm t = make_tm(op.a[3]);
        A::stn(m + DATE + 56 * (op.a[3] & 1), (char*)&t, sizeof t);
        break;
    }
    }
}

struct CModel : Model {
    std::vector<int64_t> mem;   // aligned
    char* m() { return (char*)mem.data(); }
    Model* clone() const override { return new CModel(*this); }
    uint64_t hash() const override { return std::hash<std::string>()(std::string((const char*)mem.data(), ARENA)); }
    bool apply(const Op& op, const std::string* v) override
    {
        int64_t res[4];
        char txt[BUF * 2];
        int n, k;
        if (may_refuse(op) && !v) return true;   // had no effect
        perform<Host>(m(), op, res, n, txt, k);
        if (!v) return true;
        std::string w((char*)res, n * sizeof *res);
        w.append(txt, k);
        return *v == w;
    }
};

struct StdcScenario : TxScenario {
    char* mem = nullptr;

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        s.prog.cfg = {(int64_t)r.below(100000)};
        int nt = r.chance(0.15) ? 1 : r.range(2, 4);
        if (r.chance(0.2)) swarm_faults(r, s.par, {F_OOM, F_ERR}, 0.03);
        std::vector<int> focus;
        int nf = r.range(2, 6);
        for (int i = 0; i < nf; ++i) focus.push_back(r.chance(0.5) ? (int)r.below(2) : (int)r.below(NOPS));
        bool with_fmt = r.chance(0.25);
        switch (r.below(8)) {
        case 0: case 1: focus = {STRFTIME, STRFTIME_L, STRPTIME, TMSET, LD}; break;
        case 2: focus = {SCAN, LD, ST}; break;
        case 3: focus = {SORT, RAND, LD, ST}; break;
        }
        if (with_fmt) focus.push_back(FMTSET);
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 3);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 5);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    o.code = r.chance(0.75) ? r.pick(focus) : (int)r.below(NOPS);
                    int b1 = r.below(NB), b2 = (b1 + 1 + r.below(NB - 1)) % NB;
                    o.a[0] = b1 * BUF + r.range(0, 20);
                    o.a[1] = b2 * BUF + r.range(0, 8);
                    o.a[2] = r.range(0, 40);
                    o.a[3] = r.range(0, 300);
                    switch (o.code) {
                    case PRINT:
                        o.a[4] = with_fmt && r.chance(0.4) ? NPF - 4 : r.chance(0.97) ? r.below(NPF - 3) : NPF - 3 + r.below(3);
                        if (r.chance(0.2)) {   // a buffer that ends at the end of the heap block
                            int k = r.below(EDGE);
                            o.a[0] = END + k;
                            o.a[2] = r.range(0, EDGE - k);
                        }
                        if ((o.a[4] == 4 || o.a[4] == 10) && r.chance(0.3) && o.a[0] < END) o.a[1] = ARENA - 3;   // limited by the precision
                        break;
                    case SCAN: o.a[4] = with_fmt && r.chance(0.4) ? NSF - 5 : r.chance(0.97) ? r.below(NSF - 4) : NSF - 4 + r.below(4); break;
                    case STRFTIME: case STRFTIME_L: case STRPTIME:
                        o.a[4] = with_fmt && r.chance(0.4) ? NTF - 1 : r.below(NTF);
                        if (o.code != STRPTIME && r.chance(0.2)) {
                            int k = r.below(EDGE);
                            o.a[0] = END + k;
                            o.a[2] = r.range(0, EDGE - k);
                        }
                        break;
                    case TEXT: o.a[4] = r.below(NTX + NTT); break;
                    case FMTSET: o.a[2] = r.below(5); break;
                    case LD:
                        o.a[2] = r.range(1, 40);
                        if (r.chance(0.4)) o.a[1] = NUM + r.below(NN) * 16, o.a[2] = 16;
                        break;
                    case ST:
                        o.a[2] = r.range(1, 30);
                        if (r.chance(0.3)) o.a[0] = NUM + r.below(16 * NN - 8), o.a[2] = r.range(1, 8);
                        break;
                    case SORT:
                        if (r.chance(0.2)) o.a[0] = NUM, o.a[2] = 16 * NN;
                        break;
                    }
                    if (o.code == STRPTIME || o.code == SCAN) {
                        if (r.chance(0.6)) {   // give it something to read
                            Op p = o;
                            p.code = TEXT;
                            p.a[4] = o.code == STRPTIME ? (r.chance(0.7) ? NTX + o.a[4] : NTX + r.below(NTT)) : r.below(NTX);
                            tx.ops.push_back(p);
                        }
                        if (o.code == SCAN && r.chance(0.25)) {   // neighbours of the result have been changed by the same transaction
                            Op p = o;
                            p.code = ST;
                            p.a[0] = NUM + 16 * (o.a[3] & 3);
                            p.a[2] = 16;
                            tx.ops.push_back(p);
                        }
                    }
                    tx.ops.push_back(o);
                }
                if (r.chance(0.25)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(4)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.1)) {
                    Op o;
                    o.code = OP_DELAY;
                    o.a[0] = r.range(1, 300);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[160];
        const char* f = op.code == PRINT ? pfmt[op.a[4]] : op.code == SCAN ? sfmt[op.a[4]] : op.code == TEXT ? (op.a[4] < NTX ? texts[op.a[4]] : ttext[op.a[4] - NTX])
                        : op.code >= STRFTIME && op.code <= STRPTIME ? tfmt[op.a[4]] : "";
        snprintf(b, sizeof b, "%s('%s', d +%lld, s +%lld, n %lld, v %lld)", op.code < NOPS ? names[op.code] : "?", f, (long long)op.a[0],
                 (long long)op.a[1], (long long)op.a[2], (long long)op.a[3]);
        return b;
    }
    void setup() override
    {
        mem = (char*)heap_alloc(ARENA);
        sim_locale = (locale_t)k_newlocale("C");
        Rng r(sp->prog.cfg[0]);
        for (int i = 0; i < ARENA; ++i) mem[i] = "ab12 ,c7"[r.below(8)];
        for (int i = 1; i <= NB; ++i) mem[i * BUF - 1] = 0;
        for (int i = 0; i < NPF + NSF + NTF; ++i)
            strcpy(mem + FMT + FW * i, i < NPF ? pfmt[i] : i < NPF + NSF ? sfmt[i - NPF] : tfmt[i - NPF - NSF]);
        for (int i = 0; i < ND; ++i) {
            struct tm t = make_tm(r.below(1000));
            memcpy(mem + DATE + 56 * i, &t, sizeof t);
        }
        wchar_t w[4] = {L'w', L'x', L'y', 0};
        memcpy(mem + WIDE, w, sizeof w);
        init.resize(ARENA / 8 + 1);
        memcpy(init.data(), mem, ARENA);
    }
    std::vector<int64_t> init;
    Model* initial() override
    {
        auto* m = new CModel;
        m->mem = init;
        return m;
    }
    bool matches_final(Model* m, std::string& why) override
    {
        char* t = ((CModel*)m)->m();
        for (int i = 0; i < ARENA; ++i)
            if (t[i] != mem[i]) {
                char b[100];
                snprintf(b, sizeof b, "byte +%d is %02x instead of %02x", i, (unsigned char)mem[i], (unsigned char)t[i]);
                why = b;
                return false;
            }
        return true;
    }
    bool expected_error(TxRun* r) override
    {
        auto& ops = sp->prog.th[r->thread].txs[r->tx].ops;
        return r->op_index < (int)ops.size() && may_refuse(ops[r->op_index]) && picotm_error_status() == PICOTM_ERRNO &&
               picotm_error_as_errno() == EINVAL;
    }
    void exec(TxRun* r, const Op& op) override
    {
        int64_t res[4];
        char txt[BUF * 2];
        int n, k;
        perform<Txn>(mem, op, res, n, txt, k);
        std::string w((char*)res, n * sizeof *res);
        w.append(txt, k);
        rec(r, w.data(), w.size());
    }
};
Reg r1("stdc", [](const RunSpec&) -> Scenario* { return new StdcScenario; });
}  // namespace
