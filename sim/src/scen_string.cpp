// String and memory functions: C20
#include "tx.h"
#include "kern.h"
#include <cerrno>
#include <clocale>
extern "C" {
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#define template template_
#include "picotm/stdlib.h"
#undef template
#define restrict
#include "picotm/string.h"
#include "picotm/string-tm.h"
#undef restrict
char* strcat_tm(char*, const char*);
char* strcpy_tm(char*, const char*);
char* strcat_tx(char*, const char*);   // the header hides it
char* strcpy_tx(char*, const char*);
}
using namespace sim;

namespace {
enum {
    MEMCCPY, MEMCHR, MEMCMP, MEMCPY, MEMMOVE, MEMSET, MEMRCHR, RAWMEMCHR, STPCPY, STPNCPY, STRCAT, STRCHR, STRCMP, STRCOLL,
    STRCPY, STRCSPN, STRDUP, STRERROR_GNU, STRERROR_POSIX, STRLEN, STRNCAT, STRNCMP, STRNCPY, STRNDUP, STRNLEN, STRPBRK,
    STRRCHR, STRSPN, STRSTR, STRTOK, LD, ST, PRIVRW, QSORT, NOPS
};
const char* const names[NOPS] = {
    "memccpy", "memchr", "memcmp", "memcpy", "memmove", "memset", "memrchr", "rawmemchr", "stpcpy", "stpncpy", "strcat",
    "strchr", "strcmp", "strcoll_l", "strcpy", "strcspn", "strdup", "strerror_r(gnu)", "strerror_r(posix)", "strlen", "strncat",
    "strncmp", "strncpy", "strndup", "strnlen", "strpbrk", "strrchr", "strspn", "strstr", "strtok_r", "load", "store",
    "privatize", "qsort"};
const int TM = 100;     // added to the code of an operation that uses the variant for privatised memory
// the arena ends in a string without terminator, right at the end of its heap block
const int MAXBUF = 400, NB = 4, EDGE = 16;
int BUF = 64, ARENA = BUF * NB + EDGE;   // of this run

int cmp_byte(const void* a, const void* b) { return (int)*(const unsigned char*)a - (int)*(const unsigned char*)b; }

locale_t c_locale()
{
    static locale_t l = newlocale(LC_ALL_MASK, "C", nullptr);
    return l;
}
locale_t sim_locale;

// the C library on plain memory
struct Host {
    static void st(char* p, char c) { *p = c; }
    static void ldn(const char* p, char* b, size_t n) { memcpy(b, p, n); }
    static void stn(char* p, const char* b, size_t n) { memcpy(p, b, n); }
    static void privw(char* p, const char* b, size_t n) { memcpy(p, b, n); }
    static void* memccpy_(char* d, char* s, int c, size_t n) { return memccpy(d, s, c, n); }
    static void* memchr_(char* s, int c, size_t n) { return memchr(s, c, n); }
    static int memcmp_(char* d, char* s, size_t n) { return memcmp(d, s, n); }
    static void* memcpy_(char* d, char* s, size_t n) { return memcpy(d, s, n); }
    static void* memmove_(char* d, char* s, size_t n) { return memmove(d, s, n); }
    static void* memset_(char* d, int c, size_t n) { return memset(d, c, n); }
    static void* memrchr_(char* s, int c, size_t n) { return memrchr(s, c, n); }
    static void* rawmemchr_(char* s, int c) { return rawmemchr(s, c); }
    static char* stpcpy_(char* d, char* s) { return stpcpy(d, s); }
    static char* stpncpy_(char* d, char* s, size_t n) { return stpncpy(d, s, n); }
    static char* strcat_(char* d, char* s) { return strcat(d, s); }
    static char* strchr_(char* s, int c) { return strchr(s, c); }
    static int strcmp_(char* d, char* s) { return strcmp(d, s); }
    static int strcoll_(char* d, char* s) { return strcoll_l(d, s, c_locale()); }
    static char* strcpy_(char* d, char* s) { return strcpy(d, s); }
    static size_t strcspn_(char* d, char* s) { return strcspn(d, s); }
    static std::string strdup_(char* s) { return std::string(s, strlen(s) + 1); }
    static std::string strndup_(char* s, size_t n)
    {
        std::string r(s, strnlen(s, n));
        r.push_back(0);
        return r;
    }
    static std::string strerror_gnu_(int e, char* d, size_t n) { return strerror_r(e, d, n); }   // uses the buffer only for unknown numbers
    static int strerror_posix_(int e, char* d, size_t n)
    {
        snprintf(d, n, "%s", strerror(e));
        return 0;
    }
    static size_t strlen_(char* s) { return strlen(s); }
    static char* strncat_(char* d, char* s, size_t n) { return strncat(d, s, n); }
    static int strncmp_(char* d, char* s, size_t n) { return strncmp(d, s, n); }
    static char* strncpy_(char* d, char* s, size_t n) { return strncpy(d, s, n); }
    static size_t strnlen_(char* s, size_t n) { return strnlen(s, n); }
    static char* strpbrk_(char* d, char* s) { return strpbrk(d, s); }
    static char* strrchr_(char* s, int c) { return strrchr(s, c); }
    static size_t strspn_(char* d, char* s) { return strspn(d, s); }
    static char* strstr_(char* d, char* s) { return strstr(d, s); }
    static void qsort_(char* s, size_t n) { qsort(s, n, 1, cmp_byte); }
    struct Tok {
        char* save = nullptr;
        char* next(char* s, char* d) { return strtok_r(s, d, &save); }
    };
};
char** tok_cell[40];
struct Txn {
    static void st(char* p, char c) { store_char_tx(p, c); }
    static void ldn(const char* p, char* b, size_t n) { load_tx(p, b, n); }
    static void stn(char* p, const char* b, size_t n) { store_tx(p, b, n); }
    static void privw(char* p, const char* b, size_t n)
    {
        privatize_tx(p, n, PICOTM_TM_PRIVATIZE_STORE);
        for (size_t i = 0; i < n; ++i) {
            step();
            p[i] = b[i];
        }
    }
    static void* memccpy_(char* d, char* s, int c, size_t n) { return memccpy_tx(d, s, c, n); }
    static void* memchr_(char* s, int c, size_t n) { return memchr_tx(s, c, n); }
    static int memcmp_(char* d, char* s, size_t n) { return memcmp_tx(d, s, n); }
    static void* memcpy_(char* d, char* s, size_t n) { return memcpy_tx(d, s, n); }
    static void* memmove_(char* d, char* s, size_t n) { return memmove_tx(d, s, n); }
    static void* memset_(char* d, int c, size_t n) { return memset_tx(d, c, n); }
    static void* memrchr_(char* s, int c, size_t n) { return memrchr_tx(s, c, n); }
    static void* rawmemchr_(char* s, int c) { return rawmemchr_tx(s, c); }
    static char* stpcpy_(char* d, char* s) { return stpcpy_tx(d, s); }
    static char* stpncpy_(char* d, char* s, size_t n) { return stpncpy_tx(d, s, n); }
    static char* strcat_(char* d, char* s) { return strcat_tx(d, s); }
    static char* strchr_(char* s, int c) { return strchr_tx(s, c); }
    static int strcmp_(char* d, char* s) { return strcmp_tx(d, s); }
    static int strcoll_(char* d, char* s) { return strcoll_l_tx(d, s, sim_locale); }
    static char* strcpy_(char* d, char* s) { return strcpy_tx(d, s); }
    static size_t strcspn_(char* d, char* s) { return strcspn_tx(d, s); }
    static std::string take(char* q)
    {
        if (!q || !heap_is_live(q)) fail("wrong-result", "strdup returned %p", q);
        size_t n = heap_size_of(q);
        char b[MAXBUF * 2];
        if (n > sizeof b) n = sizeof b;
        load_tx(q, b, n);
        size_t k = 0;
        while (k < n && b[k]) ++k;
        if (k == n) fail("wrong-result", "the duplicated string is not terminated within its block of %zu bytes", n);
        free_tx(q);
        // built after the last point at which the transaction can be rolled back
        return std::string(b, k + 1);
    }
    static std::string strdup_(char* s) { return take(strdup_tx(s)); }
    static std::string strndup_(char* s, size_t n) { return take(strndup_tx(s, n)); }
    static std::string strerror_gnu_(int e, char* d, size_t n) { return __strerror_r_gnu_tx(e, d, n); }
    static int strerror_posix_(int e, char* d, size_t n) { return __strerror_r_posix_tx(e, d, n); }
    static size_t strlen_(char* s) { return strlen_tx(s); }
    static char* strncat_(char* d, char* s, size_t n) { return strncat_tx(d, s, n); }
    static int strncmp_(char* d, char* s, size_t n) { return strncmp_tx(d, s, n); }
    static char* strncpy_(char* d, char* s, size_t n) { return strncpy_tx(d, s, n); }
    static size_t strnlen_(char* s, size_t n) { return strnlen_tx(s, n); }
    static char* strpbrk_(char* d, char* s) { return strpbrk_tx(d, s); }
    static char* strrchr_(char* s, int c) { return strrchr_tx(s, c); }
    static size_t strspn_(char* d, char* s) { return strspn_tx(d, s); }
    static char* strstr_(char* d, char* s) { return strstr_tx(d, s); }
    static void qsort_(char* s, size_t n) { qsort_tx(s, n, 1, cmp_byte); }
    struct Tok {
        char* next(char* s, char* d) { return strtok_r_tx(s, d, tok_cell[self()]); }
    };
};

// the functions for memory that the transaction has privatised
struct Tm : Host {
    static void* memccpy_(char* d, char* s, int c, size_t n) { return memccpy_tm(d, s, c, n); }
    static void* memchr_(char* s, int c, size_t n) { return memchr_tm(s, c, n); }
    static int memcmp_(char* d, char* s, size_t n) { return memcmp_tm(d, s, n); }
    static void* memcpy_(char* d, char* s, size_t n) { return memcpy_tm(d, s, n); }
    static void* memmove_(char* d, char* s, size_t n) { return memmove_tm(d, s, n); }
    static void* memset_(char* d, int c, size_t n) { return memset_tm(d, c, n); }
    static void* memrchr_(char* s, int c, size_t n) { return memrchr_tm(s, c, n); }
    static void* rawmemchr_(char* s, int c) { return rawmemchr_tm(s, c); }
    static char* stpcpy_(char* d, char* s) { return stpcpy_tm(d, s); }
    static char* stpncpy_(char* d, char* s, size_t n) { return stpncpy_tm(d, s, n); }
    static char* strcat_(char* d, char* s) { return strcat_tm(d, s); }
    static char* strchr_(char* s, int c) { return strchr_tm(s, c); }
    static int strcmp_(char* d, char* s) { return strcmp_tm(d, s); }
    static int strcoll_(char* d, char* s) { return strcoll_l_tm(d, s, sim_locale); }
    static char* strcpy_(char* d, char* s) { return strcpy_tm(d, s); }
    static size_t strcspn_(char* d, char* s) { return strcspn_tm(d, s); }
    static int strerror_posix_(int e, char* d, size_t n) { return __strerror_r_posix_tm(e, d, n); }
    static size_t strlen_(char* s) { return strlen_tm(s); }
    static char* strncat_(char* d, char* s, size_t n) { return strncat_tm(d, s, n); }
    static int strncmp_(char* d, char* s, size_t n) { return strncmp_tm(d, s, n); }
    static char* strncpy_(char* d, char* s, size_t n) { return strncpy_tm(d, s, n); }
    static size_t strnlen_(char* s, size_t n) { return strnlen_tm(s, n); }
    static char* strpbrk_(char* d, char* s) { return strpbrk_tm(d, s); }
    static char* strrchr_(char* s, int c) { return strrchr_tm(s, c); }
    static size_t strspn_(char* d, char* s) { return strspn_tm(d, s); }
    static char* strstr_(char* d, char* s) { return strstr_tm(d, s); }
    static std::string take(char* q)
    {
        if (!q || !heap_is_live(q)) fail("wrong-result", "strdup returned %p", q);
        size_t n = heap_size_of(q);
        size_t k = strnlen(q, n);
        if (k == n) fail("wrong-result", "the duplicated string is not terminated within its block of %zu bytes", n);
        char b[MAXBUF * 2];
        if (k > sizeof b) k = sizeof b;
        memcpy(b, q, k);
        free_tx(q);
        return std::string(b, k);
    }
    static std::string strdup_(char* s) { return take(strdup_tm(s)) + std::string(1, 0); }
    static std::string strndup_(char* s, size_t n) { return take(strndup_tm(s, n)) + std::string(1, 0); }
    static std::string strerror_gnu_(int e, char* d, size_t n) { return __strerror_r_gnu_tm(e, d, n); }
    struct Tok {
        char* save = nullptr;
        char* next(char* s, char* d) { return strtok_r_tm(s, d, &save); }
    };
};
void pat(char* b, size_t n, int64_t seed)
{
    static const char al[] = "abca,b;\0d\xff" "ab";
    Rng r(seed);
    if (BUF > 64) {   // long strings
        for (size_t i = 0; i < n; ++i) b[i] = al[r.chance(0.01) ? 7 : r.below(7)];
        return;
    }
    for (size_t i = 0; i < n; ++i) b[i] = al[r.below(12)];
}

// Executes 'op' on the arena 'm' and returns the observable result. No C++ object with a destructor lives across a call
// into 'A', as the calls can leave by way of longjmp().
template <class A> void perform(char* m, const Op& op, int64_t* res, int& nres, char* txt, int& ntxt)
{
    char *d = m + op.a[0], *s = m + op.a[1];
    size_t n = op.a[2];
    int c = (int)op.a[3];
    nres = ntxt = 0;
    auto P = [&](void* p) { res[nres++] = p ? (char*)p - m : -1; };
    auto I = [&](int64_t v) { res[nres++] = v; };
    auto SG = [&](int v) { res[nres++] = (v > 0) - (v < 0); };
    auto cap = [&](char* p, int k) { A::st(p + k, 0); };
    switch (op.code % TM) {
    case MEMCCPY: P(A::memccpy_(d, s, c, n)); break;
    case MEMCHR: P(A::memchr_(s, c, n)); break;
    case MEMCMP: SG(A::memcmp_(d, s, n)); break;
    case MEMCPY: P(A::memcpy_(d, s, n)); break;
    case MEMMOVE: P(A::memmove_(d, s, n)); break;
    case MEMSET: P(A::memset_(d, c, n)); break;
    case MEMRCHR: P(A::memrchr_(s, c, n)); break;
    case RAWMEMCHR:
        A::st(s + n, (char)c);
        P(A::rawmemchr_(s, c));
        break;
    case STPCPY: cap(s, n); P(A::stpcpy_(d, s)); break;
    case STPNCPY: if (op.a[4]) cap(s, op.a[4]); P(A::stpncpy_(d, s, n)); break;
    case STRCAT: cap(s, 10); cap(d, 12); P(A::strcat_(d, s)); break;
    case STRCHR: P(A::strchr_(s, c)); break;
    case STRCMP: SG(A::strcmp_(d, s)); break;
    case STRCOLL: SG(A::strcoll_(d, s)); break;
    case STRCPY: cap(s, n); P(A::strcpy_(d, s)); break;
    case STRCSPN: if (op.a[4]) cap(s, op.a[4] % 7); I(A::strcspn_(d, s)); break;
    case STRDUP: {
        std::string t = A::strdup_(s);
        ntxt = t.size();
        memcpy(txt, t.data(), ntxt);
        break;
    }
    case STRNDUP: {
        std::string t = A::strndup_(s, n);
        ntxt = t.size();
        memcpy(txt, t.data(), ntxt);
        break;
    }
    case STRERROR_GNU: {
        std::string t = A::strerror_gnu_(c, d, n);
        ntxt = t.size();
        memcpy(txt, t.data(), ntxt);
        break;
    }
    case STRERROR_POSIX: I(A::strerror_posix_(c, d, n)); break;
    case STRLEN: I(A::strlen_(s)); break;
    case STRNCAT: if (n > 1000) cap(s, 10); cap(d, 12); P(A::strncat_(d, s, n)); break;
    case STRNCMP: SG(A::strncmp_(d, s, n)); break;
    case STRNCPY: if (op.a[4]) cap(s, op.a[4]); P(A::strncpy_(d, s, n)); break;
    case STRNLEN: I(A::strnlen_(s, n)); break;
    case STRPBRK: if (op.a[4]) cap(s, op.a[4] % 7); P(A::strpbrk_(d, s)); break;
    case STRRCHR: P(A::strrchr_(s, c)); break;
    case STRSPN: if (op.a[4]) cap(s, op.a[4] % 7); I(A::strspn_(d, s)); break;
    case STRSTR: cap(s, op.a[4]); P(A::strstr_(d, s)); break;
    case STRTOK: {
        typename A::Tok t;
        A::st(s, ',');
        A::st(s + 1, ';');
        cap(s, 2);
        char* x = d;
        for (int i = 0; i < 5; ++i) {
            char* q = t.next(x, s);
            P(q);
            if (!q) break;
            x = nullptr;
        }
        break;
    }
    case LD:
        A::ldn(s, txt, n);
        ntxt = n;
        break;
    case ST: case PRIVRW: {
        char b[MAXBUF];
        pat(b, n, c);
        if (op.code % TM == ST) A::stn(d, b, n);
        else A::privw(d, b, n);
        break;
    }
    case QSORT: A::qsort_(d, n); break;
    }
}

struct StrModel : Model {
    std::string m;
    Model* clone() const override { return new StrModel(*this); }
    uint64_t hash() const override { return std::hash<std::string>()(m); }
    bool apply(const Op& op, const std::string* v) override
    {
        int64_t res[16];
        char txt[MAXBUF * 2];
        int n, k;
        perform<Host>(&m[0], op, res, n, txt, k);
        if (!v) return true;
        std::string w((char*)res, n * sizeof *res);
        w.append(txt, k);
        return *v == w;
    }
};

struct StrScenario : TxScenario {
    char* mem = nullptr;
    std::string init;

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        bool wide = r.chance(0.07);
        BUF = wide ? r.range(100, MAXBUF) / 4 * 4 : 64;
        ARENA = BUF * NB + EDGE;
        s.prog.cfg = {(int64_t)r.below(100000)};
        if (wide) s.prog.cfg.push_back(BUF);
        int nt = r.chance(0.15) ? 1 : r.range(2, 4), nb = r.range(2, NB);
        if (r.chance(0.2)) swarm_faults(r, s.par, {F_OOM}, 0.03);
        bool tm = !wide && r.chance(0.3);
        // concentrate on a few functions
        std::vector<int> focus;
        int nf = r.range(2, 8);
        for (int i = 0; i < nf; ++i) focus.push_back(r.below(NOPS));
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 3);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 5);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    o.code = r.chance(0.8) ? r.pick(focus) : (int)r.below(NOPS);
                    int b1 = r.below(nb), b2 = (b1 + 1 + r.below(nb - 1)) % nb;
                    int d0 = r.range(0, 20), s0 = r.range(0, 20), n = wide && r.chance(0.6) ? r.range(0, BUF - 26) : r.chance(0.4) ? r.range(0, 38) : r.range(0, 12);
                    static const int cs[] = {'a', 'b', 'c', 'd', ',', 0, 0xff, -1, 'z', 'a' + 256, 'b' - 512};
                    o.a[3] = cs[r.below(11)];
                    o.a[4] = r.chance(0.6) ? r.range(1, 7) : 0;
                    switch (o.code) {
                    case MEMMOVE:
                        if (r.chance(0.7)) b2 = b1;
                        break;
                    case QSORT: n = r.range(0, 20); break;
                    case STRERROR_GNU: case STRERROR_POSIX:
                        o.a[3] = r.range(1, 6);
                        n = r.chance(0.5) ? 42 : (int)strlen(strerror(o.a[3])) + 1;
                        if (o.code == STRERROR_GNU && r.chance(0.5)) {
                            o.a[3] = 900 + r.below(3000);
                            n = r.range(1, 30);
                        }
                        break;
                    case STRSTR: o.a[4] = r.range(0, 3); break;
                    case STPCPY: case STRCPY: n = r.range(0, wide ? BUF - 26 : 20); break;
                    case STRNCAT: n = r.range(0, 12); break;
                    case RAWMEMCHR: n = r.range(0, 20); break;
                    case ST: case PRIVRW: n = r.range(1, wide ? BUF - 26 : 30); o.a[3] = r.below(10000); break;
                    case LD: n = r.range(1, wide ? BUF - 26 : 40); break;
                    }
                    o.a[0] = b1 * BUF + d0;
                    o.a[1] = b2 * BUF + s0;
                    o.a[2] = n;
                    if ((o.code == MEMCCPY || o.code == MEMCHR) && r.chance(0.2)) {   // found before the limit and the end of memory
                        int k = r.below(EDGE);
                        o.a[1] = BUF * NB + k;
                        o.a[2] = r.range(EDGE - k, EDGE + 4);
                        if (o.code == MEMCHR && r.chance(0.3)) o.a[2] = -1;
                        o.a[3] = "abcd,b"[r.range(k, EDGE - 1) % 6];
                    }
                    if ((o.code == STRNCMP || o.code == STRNLEN || o.code == STRNDUP || o.code == STRNCAT) && r.chance(0.15)) {
                        static const int64_t huge[] = {-1, -2, INT32_MAX, (int64_t)1 << 32, ((int64_t)1 << 32) - 1, INT64_MAX};
                        o.a[2] = huge[r.below(6)];
                    } else
                    switch (o.code) {
                    case STPNCPY: case STRNCAT: case STRNCMP: case STRNCPY: case STRNDUP: case STRNLEN: case MEMCPY: case LD:
                        if (r.chance(0.25)) {   // no terminator within the limit
                            int k = r.below(EDGE);
                            o.a[1] = BUF * NB + k;
                            o.a[2] = r.range(0, EDGE - k);
                            o.a[4] = 0;
                        }
                    }
                    if (tm && o.code != LD && o.code != ST && o.code != PRIVRW && o.code != QSORT && r.chance(0.6)) o.code += TM;
                    tx.ops.push_back(o);
                }
                if (r.chance(0.25)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(4)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.1)) {
                    Op o;
                    o.code = OP_DELAY;
                    o.a[0] = r.range(1, 300);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[128];
        snprintf(b, sizeof b, "%s%s(d +%lld, s +%lld, n %lld, c %lld, cap %lld)", op.code % TM < NOPS ? names[op.code % TM] : "?", op.code >= TM ? "_tm" : "",
                 (long long)op.a[0], (long long)op.a[1], (long long)op.a[2], (long long)op.a[3], (long long)op.a[4]);
        return b;
    }
    void setup() override
    {
        BUF = sp->prog.cfg.size() > 1 ? (int)sp->prog.cfg[1] : 64;
        ARENA = BUF * NB + EDGE;
        mem = (char*)heap_alloc(ARENA);
        sim_locale = (locale_t)k_newlocale("C");
        for (int i = 0; i < 40; ++i) tok_cell[i] = nullptr;
        pat(mem, ARENA, sp->prog.cfg[0]);
        for (int i = 1; i <= NB; ++i) mem[i * BUF - 1] = 0;
        for (int i = 0; i < EDGE; ++i) mem[BUF * NB + i] = "abcd,b"[i % 6];
        init.assign(mem, ARENA);
    }
    void thread_begin(int) override { tok_cell[self()] = (char**)heap_alloc(sizeof(char*)); }
    Model* initial() override
    {
        auto* m = new StrModel;
        m->m = init;
        return m;
    }
    bool matches_final(Model* m, std::string& why) override
    {
        auto* t = (StrModel*)m;
        for (int i = 0; i < ARENA; ++i)
            if (t->m[i] != mem[i]) {
                char b[100];
                snprintf(b, sizeof b, "byte +%d is %02x instead of %02x", i, (unsigned char)mem[i], (unsigned char)t->m[i]);
                why = b;
                return false;
            }
        return true;
    }
    void exec(TxRun* r, const Op& op) override
    {
        int64_t res[16];
        char txt[MAXBUF * 2];
        int n, k;
        if (op.code >= TM) {
            privatize_tx(mem, ARENA, PICOTM_TM_PRIVATIZE_LOADSTORE);
            perform<Tm>(mem, op, res, n, txt, k);
        } else
            perform<Txn>(mem, op, res, n, txt, k);
        std::string w((char*)res, n * sizeof *res);
        w.append(txt, k);
        rec(r, w.data(), w.size());
    }
};
Reg r1("string", [](const RunSpec&) -> Scenario* { return new StrScenario; });
}  // namespace
