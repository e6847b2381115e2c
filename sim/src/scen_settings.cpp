// Settings of the process and of the thread: working directory, locale, errno, floating-point environment: C17
#include "io.h"
#include <clocale>
#include <fenv.h>
#include <cmath>
extern "C" {
#define template template_
#define restrict
#include "picotm/errno.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include "picotm/math.h"
#include "picotm/picotm-libm.h"
#undef template
#undef restrict
int sim_chdir(const char*);
char* sim_setlocale(int, const char*);
locale_t sim_uselocale(locale_t);
void sim_freelocale(locale_t);
}
using namespace sim;

namespace {
enum {
    CHDIR, FCHDIR, GETCWD, GETCWD_BUF, BUF_READ, OPENREL, CHDIR_BAD, GETCWD_SMALL,
    SETLOC, GETLOC, CONV, SETLOC_BAD, L_NEW, L_NEWBASE, L_DUP, L_DUPGLOBAL, L_FREE, L_QUERY, L_BAD,
    USE, USE_GLOBAL, USE_QUERY, USE_TMP,
    P_FREE, P_NEWBASE, P_DUP, P_USE,
    ERRNO_SET, ERRNO_GET, FE_ROUND, FE_RAISE, FE_CLEAR, FE_GET, MATH, MATH_BAD, NOPS
};
const char* const names[] = {"chdir", "fchdir", "getcwd", "getcwd_buf", "buf_read", "open_relative", "chdir_bad", "getcwd_small",
    "setlocale", "setlocale_query", "localeconv", "setlocale_bad", "newlocale", "newlocale_base", "duplocale", "duplocale_global",
    "freelocale", "locale_query", "newlocale_bad", "uselocale", "uselocale_global", "uselocale_query", "uselocale_temporarily",
    "freelocale_shared", "newlocale_base_shared", "duplocale_shared", "uselocale_shared",
    "errno_set", "errno_get", "fe_round", "fe_raise", "fe_clear", "fe_get", "math", "math_error"};
const char* const locs[] = {"C", "en_US", "de_DE", "fr_FR"};
const int cats[] = {LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES, LC_PAPER, LC_ALL};
const int lcats[12] = {LC_CTYPE, LC_NUMERIC, LC_TIME, LC_COLLATE, LC_MONETARY, LC_MESSAGES, LC_PAPER, LC_NAME, LC_ADDRESS,
                       LC_TELEPHONE, LC_MEASUREMENT, LC_IDENTIFICATION};
const int NC = 13;   // categories of the simulated kernel
const char* const dirs[] = {"/", "/a", "/b", "/a/x", "/a/y", "/b/x"};
const int rounds[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
const int FLAGS = FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW;

std::string resolve(const std::string& cwd, const std::string& p)
{
    std::string s = p[0] == '/' ? p : cwd + "/" + p;
    std::vector<std::string> c;
    size_t i = 0;
    while (i <= s.size()) {
        size_t j = s.find('/', i);
        if (j == std::string::npos) j = s.size();
        std::string e = s.substr(i, j - i);
        if (e == "..") { if (c.size()) c.pop_back(); }
        else if (e.size() && e != ".") c.push_back(e);
        i = j + 1;
    }
    std::string o;
    for (auto& e : c) o += "/" + e;
    return o.empty() ? "/" : o;
}
// paths of chdir(); every directory resolves at least the absolute ones
const char* const paths[] = {"/", "/a", "/b", "/a/x", "/a/y", "/b/x", ".", "..", "x", "../b", "../a", "./x/.."};
bool is_dir(const std::string& p)
{
    for (auto d : dirs)
        if (p == d) return true;
    return false;
}

struct SettingsModel : Model {
    std::string cwd, buf;
    std::vector<std::string> g;                       // global locale
    std::vector<std::vector<std::string>> slot;       // locale objects; empty: none
    std::vector<std::vector<std::string>> tl;         // locale of the thread; empty: global
    std::vector<int> from;                            // slot that the locale of the thread came from
    Model* clone() const override { return new SettingsModel(*this); }
    uint64_t hash() const override
    {
        std::hash<std::string> H;
        uint64_t h = mix(H(cwd), H(buf));
        for (auto& s : g) h = mix(h, H(s));
        for (auto& v : slot) {
            h = mix(h, v.size());
            for (auto& s : v) h = mix(h, H(s));
        }
        for (auto& v : tl) {
            h = mix(h, v.size());
            for (auto& s : v) h = mix(h, H(s));
        }
        return h;
    }
    static std::string desc(const std::vector<std::string>& v)
    {
        std::string s;
        for (auto& x : v) s += x + ";";
        return s;
    }
    static std::string all(const std::vector<std::string>& v)
    {
        static const char* const nm[] = {"LC_CTYPE", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LC_MONETARY", "LC_MESSAGES", "LC_PAPER", "LC_NAME",
                                         "LC_ADDRESS", "LC_TELEPHONE", "LC_MEASUREMENT", "LC_IDENTIFICATION"};
        bool same = true;
        for (int c : lcats) same = same && v[c] == v[lcats[0]];
        if (same) return v[lcats[0]];
        std::string s;
        for (int i = 0; i < 12; ++i) s += std::string(i ? ";" : "") + nm[i] + "=" + v[lcats[i]];
        return s;
    }
    bool is(const std::string* v, const std::string& s) { return !v || *v == s; }
    bool apply(const Op& op, const std::string* v) override
    {
        int s = op.a[0], t = op.a[4];
        switch (op.code) {
        case CHDIR: {
            std::string p = resolve(cwd, paths[op.a[1]]);
            if (!is_dir(p)) return is(v, "ENOENT");
            cwd = p;
            return is(v, "0");
        }
        case FCHDIR: cwd = dirs[op.a[1]]; return is(v, "0");
        case GETCWD: return is(v, cwd);
        case GETCWD_BUF: buf = cwd; return is(v, "");
        case BUF_READ: return is(v, buf);
        case OPENREL: return is(v, "file in " + cwd);
        case SETLOC: {
            int c = cats[op.a[1]];
            if (c == LC_ALL) for (int k : lcats) g[k] = locs[op.a[2]];
            else g[c] = locs[op.a[2]];
            return is(v, c == LC_ALL ? all(g) : g[c]);
        }
        case GETLOC: {
            int c = cats[op.a[1]];
            return is(v, c == LC_ALL ? all(g) : g[c]);
        }
        case CONV: return is(v, g[LC_NUMERIC] == "de_DE" || g[LC_NUMERIC] == "fr_FR" ? "," : ".");
        case L_NEW: case L_NEWBASE: {
            std::vector<std::string> n(NC, "C");
            if (op.code == L_NEWBASE && slot[s].size()) n = slot[s];
            for (int i = 0; i < NC; ++i)
                if (i != LC_ALL && (op.a[1] & (1 << i))) n[i] = locs[op.a[2]];
            if (from[t] == s) from[t] = -1, tl[t].clear();
            slot[s] = n;
            return is(v, desc(n));
        }
        case L_DUP: case L_DUPGLOBAL: {
            std::vector<std::string> n = op.code == L_DUP ? slot[op.a[1]] : g;
            if (n.empty()) return is(v, "");
            if (from[t] == s) from[t] = -1, tl[t].clear();
            slot[s] = n;
            return is(v, desc(n));
        }
        case L_FREE:
            if (from[t] == s) from[t] = -1, tl[t].clear();
            slot[s].clear();
            return true;
        case L_QUERY: return is(v, slot[s].empty() ? "" : desc(slot[s]));
        case USE: {
            std::string old = tl[t].empty() ? "global" : desc(tl[t]);
            if (slot[s].empty()) return is(v, "");
            tl[t] = slot[s];
            from[t] = s;
            return is(v, old);
        }
        case USE_GLOBAL: {
            std::string old = tl[t].empty() ? "global" : desc(tl[t]);
            tl[t].clear();
            from[t] = -1;
            return is(v, old);
        }
        case USE_QUERY: return is(v, tl[t].empty() ? "global" : desc(tl[t]));
        case USE_TMP: return is(v, slot[s].empty() ? "" : desc(slot[s]));
        }
        return true;
    }
};

struct TState {
    int err = 0, round = FE_TONEAREST, flags = 0;
    bool err_known = true;
};

struct SettingsScenario : IoScenario {
    int variant;
    explicit SettingsScenario(int v) : variant(v) {}
    int nt = 1, ns = 1;
    locale_t* slot = nullptr;
    char* buf = nullptr;
    char* nm[4] = {};
    std::vector<char*> priv, names_buf;
    locale_t perm[2];
    std::vector<int> dfd;
    TState com[32], cur[32];
    int want_err[32] = {0}, want_code[32] = {0};   // want_code: plus one
    bool use_cwd = true, use_loc = true, use_thr = true;

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        s.par.heap_reuse = r.chance(0.5);
        nt = r.range(1, 4);
        ns = r.range(1, 3);
        s.prog.cfg = {ns};
        if (variant == 1) {
            swarm_faults(r, s.par, {F_OOM, F_ERR}, 0.05);
            if (r.chance(0.6)) s.par.oom_exact = r.range(1, 80);
        }
        int groups = r.below(100);
        bool c = groups < 70, l = groups >= 20, th = r.chance(0.6);
        if (groups < 30) l = false;
        if (r.chance(0.1)) c = l = false, th = true;
        bool bad = r.chance(0.3);
        for (int t = 0; t < nt; ++t) {
            Thread T;
            int nx = r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 6);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    std::vector<int> w;
                    if (c) for (int k : {CHDIR, CHDIR, CHDIR, FCHDIR, GETCWD, GETCWD, GETCWD_BUF, BUF_READ, OPENREL}) w.push_back(k);
                    if (l) for (int k : {SETLOC, SETLOC, SETLOC, GETLOC, GETLOC, CONV, L_NEW, L_NEW, L_NEWBASE, L_DUP, L_DUPGLOBAL, L_FREE, L_QUERY, USE, USE, USE_GLOBAL, USE_QUERY, USE_TMP}) w.push_back(k);
                    if (th) for (int k : {ERRNO_SET, ERRNO_SET, ERRNO_GET, FE_ROUND, FE_RAISE, FE_RAISE, FE_CLEAR, FE_GET, MATH, MATH}) w.push_back(k);
                    o.code = w[r.below(w.size())];
                    if (bad && r.chance(0.08)) {
                        std::vector<int> b;
                        if (c) b.push_back(CHDIR_BAD), b.push_back(GETCWD_SMALL);
                        if (l) b.push_back(SETLOC_BAD), b.push_back(L_BAD);
                        if (th) b.push_back(MATH_BAD);
                        o.code = b[r.below(b.size())];
                    }
                    o.a[0] = r.below(ns);
                    o.a[1] = r.below(1000);
                    o.a[2] = r.below(4);
                    o.a[3] = r.below(6);
                    o.a[4] = t;
                    switch (o.code) {
                    case CHDIR: o.a[1] = r.below(sizeof paths / sizeof *paths); break;
                    case FCHDIR: o.a[1] = r.below(6); break;
                    case SETLOC: case GETLOC: o.a[1] = r.below(8); break;
                    case L_NEW: case L_NEWBASE: {
                        static const int m[] = {LC_ALL_MASK, LC_NUMERIC_MASK, LC_COLLATE_MASK | LC_CTYPE_MASK, LC_TIME_MASK};
                        o.a[1] = m[r.below(4)];
                        break;
                    }
                    case L_DUP: o.a[1] = r.chance(0.7) ? r.below(ns) : ns + t; break;
                    }
                    // the thread may use only its own locale object beyond the end of a transaction
                    if (o.code == USE || ((o.code >= L_NEW && o.code <= L_QUERY) && r.chance(0.4))) o.a[0] = ns + t;
                    tx.ops.push_back(o);
                }
                if (l && r.chance(0.3)) {
                    // locale objects that are not reached through transactional memory
                    int k = r.range(1, 3);
                    bool fr = false;
                    for (int i = 0; i < k; ++i) {
                        Op o;
                        static const int w[] = {P_FREE, P_NEWBASE, P_DUP, P_DUP, P_USE, P_USE};
                        o.code = w[r.below(6)];
                        if (fr && o.code < P_DUP) o.code = P_DUP;
                        if (o.code < P_DUP) fr = true;
                        o.a[0] = r.below(2);
                        o.a[1] = r.below(2);
                        o.a[2] = r.below(4);
                        o.a[4] = t;
                        // an object must not be used after it has been freed
                        if (fr && o.code >= P_DUP) continue;
                        tx.ops.insert(tx.ops.begin() + (fr ? tx.ops.size() : r.below(tx.ops.size() + 1)), o);
                    }
                    if (fr) {
                        // such a transaction never commits, so that the object remains
                        Op o;
                        o.code = OP_DELAY;
                        o.a[0] = r.range(1, 200);
                        tx.ops.push_back(o);
                        o.code = OP_ERR_CODE;
                        o.a[0] = 1000000;
                        o.a[1] = 2;
                        tx.ops.push_back(o);
                        T.txs.push_back(tx);
                        continue;
                    }
                }
                if (r.chance(0.4)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(4)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.15)) {
                    Op o;
                    o.code = OP_DELAY;
                    o.a[0] = r.range(1, 400);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                T.txs.push_back(tx);
            }
            s.prog.th.push_back(T);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[128];
        snprintf(b, sizeof b, "%s(%lld, %lld, %lld, %lld)", op.code < NOPS ? names[op.code] : "?", (long long)op.a[0],
                 (long long)op.a[1], (long long)op.a[2], (long long)op.a[3]);
        return b;
    }
    void setup() override
    {
        check_errno = false;     // has a model of its own
        nt = sp->prog.th.size();
        ns = sp->prog.cfg[0];
        for (auto d : dirs)
            if (strcmp(d, "/")) k_mkdir(d);
        for (auto d : dirs) {
            k_mkfile(resolve(d, "file"), std::string("file in ") + d);
            dfd.push_back(k_open(d, O_RDONLY));
        }
        slot = (locale_t*)heap_alloc(sizeof(locale_t) * (ns + nt));
        memset(slot, 0, sizeof(locale_t) * (ns + nt));
        buf = (char*)heap_alloc(64);
        memset(buf, 0, 64);
        for (int i = 0; i < 4; ++i) {
            nm[i] = (char*)heap_alloc(8);
            strcpy(nm[i], locs[i]);
        }
        for (int i = 0; i < nt; ++i) {
            priv.push_back((char*)heap_alloc(64));
            memset(priv[i], 0, 64);
            names_buf.push_back((char*)heap_alloc(32));
            memset(names_buf[i], 'x', 32);
        }
        for (int i = 0; i < 2; ++i) perm[i] = (locale_t)k_newlocale(locs[i + 1]);
        fds_before = k_fds();
    }
    Model* initial() override
    {
        auto* m = new SettingsModel;
        m->cwd = "/";
        m->g.assign(NC, "C");
        m->slot.resize(ns + nt);
        m->tl.resize(nt);
        m->from.assign(nt, -1);
        return m;
    }
    bool matches_final(Model* m, std::string& why) override
    {
        auto* h = (SettingsModel*)m;
        if (k_cwd() != h->cwd) {
            why = "the working directory is " + k_cwd() + " instead of " + h->cwd;
            return false;
        }
        if (h->buf != buf) {
            why = std::string("the buffer of getcwd() contains ") + buf + " instead of " + h->buf;
            return false;
        }
        for (int c : lcats)
            if (k_locale(c) != h->g[c]) {
                why = "category " + std::to_string(c) + " of the global locale is " + k_locale(c) + " instead of " + h->g[c];
                return false;
            }
        for (int i = 0; i < ns + nt; ++i) {
            std::string d = slot[i] ? k_locale_desc((void*)slot[i]) : "";
            std::string e = h->slot[i].empty() ? "" : SettingsModel::desc(h->slot[i]);
            if (d != e) {
                why = "locale object " + std::to_string(i) + " is " + d + " instead of " + e;
                return false;
            }
        }
        return true;
    }
    void final_checks() override
    {
        if (k_fds() != fds_before) fail("fd-leak", "the set of open file descriptors has changed");
        size_t n = 2;
        for (int i = 0; i < ns + nt; ++i) n += slot[i] != nullptr;
        if (k_live_locales() != n)
            fail("locale-leak", "%zu locale objects exist, but committed transactions have left only %zu", k_live_locales(), n);
    }
    void teardown() override
    {
        for (int f : dfd) k_close(f);
        for (int i = 0; i < ns + nt; ++i)
            if (slot[i]) sim_freelocale(slot[i]);
        for (auto l : perm) sim_freelocale(l);
    }

    // --- settings of the thread
    void compare(const TState& s, const char* when)
    {
        int f = fetestexcept(FLAGS), m = fegetround(), e = fiber_errno();
        if (m != s.round) fail("rounding-mode", "%s the rounding mode is %x instead of %x", when, m, s.round);
        if (f != s.flags) fail("exception-flags", "%s the floating-point exception flags are %x instead of %x", when, f, s.flags);
        if (s.err_known && e != s.err) fail("errno", "%s errno is %d instead of %d", when, e, s.err);
    }
    void on_begin(TxRun* r) override
    {
        IoScenario::on_begin(r);
        want_err[self()] = want_code[self()] = 0;
        if (faults_of_thread(self())) com[self()].err_known = false;
        compare(com[self()], "at the begin of an attempt");
        cur[self()] = com[self()];
    }
    void on_committed(TxRun*) override
    {
        if (faults_of_thread(self())) cur[self()].err_known = false;
        com[self()] = cur[self()];
        compare(com[self()], "after the commit");
    }
    bool expected_error(TxRun* r) override
    {
        if (want_err[self()] && picotm_error_status() == PICOTM_ERRNO) return picotm_error_as_errno() == want_err[self()];
        if (want_code[self()] && picotm_error_status() == PICOTM_ERROR_CODE) return (int)picotm_error_as_error_code() + 1 == want_code[self()];
        return false;
    }
    void on_recovery(TxRun* r) override
    {
        if (faults_of_thread(self())) com[self()].err_known = false;
        if (!picotm_error_is_non_recoverable()) compare(com[self()], "in the recovery phase");
        if (expected_error(r)) return;
        if (picotm_error_status() == PICOTM_ERROR_CODE && picotm_error_as_error_code() == PICOTM_GENERAL_ERROR && oom_happened(r)) return;
        IoScenario::on_recovery(r);
    }
    void thread_end(int t) override
    {
        // the thread's locale before it ends
        sim_uselocale(LC_GLOBAL_LOCALE);
        fesetenv(FE_DFL_ENV);
    }

    // argument that the transaction itself has written
    const char* stored(TxRun* r, const char* s)
    {
        store_tx(names_buf[r->thread], s, strlen(s) + 1);
        return names_buf[r->thread];
    }
    void recs(TxRun* r, const std::string& s) { rec(r, s.data(), s.size()); }
    locale_t get(int s)
    {
        locale_t l;
        load_tx(&slot[s], &l, sizeof l);
        return l;
    }
    void put(int s, locale_t l) { store_tx(&slot[s], &l, sizeof l); }
    void unuse(locale_t l)
    {
        if (uselocale_tx((locale_t)0) == l) uselocale_tx(LC_GLOBAL_LOCALE);
    }
    std::string ldesc(locale_t l)
    {
        std::string d = k_locale_desc((void*)l);
        if (d == "invalid") fail("bad-locale", "a locale object that a transaction uses does not exist");
        return d;
    }
    void exec(TxRun* r, const Op& op) override
    {
        int me = self(), s = op.a[0];
        TState& c = cur[me];
        switch (op.code) {
        case CHDIR: {
            want_err[me] = ENOENT;
            int k = (op.a[2] & 1) ? chdir_tx(op.a[2] & 2 ? stored(r, paths[op.a[1]]) : paths[op.a[1]]) : chdir_tm(paths[op.a[1]]);
            want_err[me] = 0;
            if (k) fail("wrong-result", "chdir() returned %d", k);
            recs(r, "0");
            return;
        }
        case FCHDIR: {
            int k = fchdir_tx(dfd[op.a[1]]);
            if (k) fail("wrong-result", "fchdir() returned %d", k);
            recs(r, "0");
            return;
        }
        case CHDIR_BAD: {
            want_err[me] = ENOENT;
            int k = chdir_tx("/nowhere");
            fail("no-error", "chdir() to a directory that does not exist returned %d", k);
        }
        case GETCWD: {
            char* p;
            char* loc = priv[r->thread];
            if (op.a[2] == 0) p = getcwd_tx(loc, 64);
            else if (op.a[2] == 1) {
                privatize_tx(loc, 64, PICOTM_TM_PRIVATIZE_STORE);
                p = getcwd_tm(loc, 64);
            }
            else p = getcwd_tm(nullptr, 0);
            if (!p) fail("wrong-result", "getcwd() returned NULL");
            if (op.a[2] == 0) {
                char b[64];
                for (size_t i = 0; i < sizeof b; ++i) {
                    load_tx(p + i, b + i, 1);
                    if (!b[i]) break;
                }
                recs(r, b);
            } else
                recs(r, p);
            if (op.a[2] >= 2) free_tx(p);
            return;
        }
        case GETCWD_SMALL: {
            char b[4];
            want_err[me] = ERANGE;
            getcwd_tm(b, 1);
            fail("no-error", "getcwd() with a buffer of one byte succeeded");
        }
        case GETCWD_BUF: {
            char* p = getcwd_tx(buf, 64);
            if (p != buf) fail("wrong-result", "getcwd() returned %p", p);
            recs(r, "");
            return;
        }
        case BUF_READ: {
            char b[65] = {0};
            load_tx(buf, b, 64);
            recs(r, b);
            return;
        }
        case OPENREL: {
            int f = (op.a[2] & 1) ? open_tx(op.a[2] & 2 ? stored(r, "file") : "file", O_RDONLY) : open_tm("file", O_RDONLY);
            if (f < 0) fail("wrong-result", "open() returned %d", f);
            char b[65] = {0};
            ssize_t k = read_tm(f, b, 64);
            if (k < 0) fail("wrong-result", "read() returned %zd", k);
            close_tx(f);
            recs(r, b);
            return;
        }
        case SETLOC: case GETLOC: {
            const char* n = op.code == SETLOC ? nm[op.a[2]] : nullptr;
            if (n && op.a[3] == 1) n = stored(r, n);
            char* p = (op.a[3] & 1) ? setlocale_tx(cats[op.a[1]], n) : setlocale_tm(cats[op.a[1]], n);
            if (!p) fail("wrong-result", "setlocale() returned NULL");
            recs(r, p);
            return;
        }
        case SETLOC_BAD:
            want_code[me] = PICOTM_GENERAL_ERROR + 1;
            setlocale_tm(cats[op.a[1] % 8], "nowhere");
            fail("no-error", "setlocale() to a locale that does not exist succeeded");
        case CONV: {
            struct lconv* v = localeconv_tx();
            recs(r, v->decimal_point);
            return;
        }
        case L_NEW: case L_NEWBASE: {
            locale_t old = get(s), base = (locale_t)0;
            if (old) {
                unuse(old);
                if (op.code == L_NEWBASE) base = old;
                else freelocale_tx(old);
            }
            const char* n = nm[op.a[2]];
            if (op.a[3] == 1) n = stored(r, n);
            locale_t l = (op.a[3] & 1) ? newlocale_tx(op.a[1], n, base) : newlocale_tm(op.a[1], nm[op.a[2]], base);
            if (!l) fail("wrong-result", "newlocale() returned NULL");
            put(s, l);
            recs(r, ldesc(l));
            return;
        }
        case L_BAD: {
            want_err[me] = ENOENT;
            newlocale_tm(LC_ALL_MASK, "nowhere", (locale_t)0);
            fail("no-error", "newlocale() of a locale that does not exist succeeded");
        }
        case L_DUP: case L_DUPGLOBAL: {
            locale_t from = op.code == L_DUP ? get(op.a[1]) : LC_GLOBAL_LOCALE;
            if (!from) {
                recs(r, "");
                return;
            }
            locale_t old = get(s);
            locale_t l = duplocale_tx(from);
            if (!l) fail("wrong-result", "duplocale() returned NULL");
            if (old) {
                unuse(old);
                freelocale_tx(old);
            }
            put(s, l);
            recs(r, ldesc(l));
            return;
        }
        case L_FREE: {
            locale_t l = get(s);
            if (!l) return;
            unuse(l);
            freelocale_tx(l);
            put(s, nullptr);
            return;
        }
        case L_QUERY: {
            locale_t l = get(s);
            recs(r, l ? ldesc(l) : "");
            return;
        }
        case USE: case USE_TMP: {
            locale_t l = get(s);
            if (!l) {
                recs(r, "");
                return;
            }
            locale_t old = uselocale_tx(l);
            std::string d = ldesc(op.code == USE ? old : l);
            if (op.code == USE_TMP) {
                if (k_thread_locale() != (void*)l) fail("wrong-locale", "uselocale() has not set the thread's locale");
                uselocale_tx(old);
            }
            recs(r, d);
            return;
        }
        case USE_GLOBAL: recs(r, ldesc(uselocale_tx(LC_GLOBAL_LOCALE))); return;
        case USE_QUERY: recs(r, ldesc(uselocale_tx((locale_t)0))); return;
        case P_FREE: freelocale_tx(perm[s]); return;
        case P_NEWBASE: {
            locale_t l = newlocale_tm(LC_ALL_MASK, nm[op.a[2]], perm[s]);
            if (ldesc(l).compare(0, strlen(nm[op.a[2]]), nm[op.a[2]])) fail("wrong-locale", "newlocale() returned the wrong locale");
            return;
        }
        case P_DUP: {
            locale_t l = duplocale_tx(perm[s]);
            if (ldesc(l) != k_locale_desc((void*)perm[s])) fail("wrong-locale", "duplocale() returned the wrong locale");
            freelocale_tx(l);
            return;
        }
        case P_USE: {
            locale_t old = uselocale_tx(perm[s]);
            for (int i = 0; i < op.a[1] * 50; ++i) step();
            if (k_thread_locale() != (void*)perm[s]) fail("wrong-locale", "uselocale() has not set the thread's locale");
            uselocale_tx(old);
            return;
        }
        case ERRNO_SET: errno_tx = (int)op.a[1]; c.err = op.a[1]; c.err_known = true; return;
        case ERRNO_GET: {
            int e = errno_tx;
            if (c.err_known && !faults_of_thread(me) && e != c.err) fail("errno", "errno is %d instead of %d", e, c.err);
            return;
        }
        case FE_ROUND:
            picotm_libm_save_fenv();
            fesetround(rounds[op.a[2]]);
            c.round = rounds[op.a[2]];
            return;
        case FE_RAISE: case FE_CLEAR: {
            static const int fl[] = {FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_INVALID | FE_DIVBYZERO, FE_OVERFLOW | FE_INEXACT | FE_DIVBYZERO, FE_ALL_EXCEPT};
            int f = fl[op.a[3]];
            if (op.a[2] & 1) picotm_libm_save_fenv();
            else picotm_libm_save_fexcept();
            if (op.code == FE_RAISE) {
                feraiseexcept(f);
                c.flags |= f & FLAGS;
            } else {
                feclearexcept(f);
                c.flags &= ~f;
            }
            return;
        }
        case FE_GET: {
            int e = fiber_errno();
            bool k = c.err_known;
            c.err_known = false;
            compare(c, "in an attempt");
            c.err = e;
            c.err_known = k;
            return;
        }
        case MATH: {
            double x = 0.25 * (1 + op.a[1] % 16), y = 0, z = 0;
            fenv_t env;
            feholdexcept(&env);
            switch (op.a[3]) {
            case 0: z = sqrt(x); break;
            case 1: z = exp(x); break;
            case 2: z = log(x); break;
            case 3: z = cos(x); break;
            case 4: z = pow(x, 3.5); break;
            case 5: z = fmod(x, 0.75); break;
            }
            fesetenv(&env);
            switch (op.a[3]) {
            case 0: y = sqrt_tx(x); break;
            case 1: y = exp_tx(x); break;
            case 2: y = log_tx(x); break;
            case 3: y = cos_tx(x); break;
            case 4: y = pow_tx(x, 3.5); break;
            case 5: y = fmod_tx(x, 0.75); break;
            }
            if (memcmp(&y, &z, sizeof y)) fail("wrong-result", "mathematical function %lld of %g returned %g instead of %g", (long long)op.a[3], x, y, z);
            // the call may clear errno and exception flags, but not set them
            int f = fetestexcept(FLAGS);
            if (f & ~c.flags) fail("exception-flags", "a mathematical function that succeeded left the exception flags %x", f);
            c.flags = f;
            int e = fiber_errno();
            if (e && e != c.err && c.err_known) fail("errno", "a mathematical function that succeeded set errno to %d", e);
            c.err = e;
            return;
        }
        case MATH_BAD: {
            double y = 0;
            want_err[me] = op.a[3] % 3 == 0 ? EDOM : ERANGE;
            switch (op.a[3] % 3) {
            case 0: y = sqrt_tx(-1); break;
            case 1: y = exp_tx(1e6); break;
            case 2: y = log_tx(0); break;
            }
            fail("no-error", "mathematical function %lld returned %g although it cannot be computed", (long long)op.a[3], y);
        }
        }
    }
};
Reg r1("settings", [](const RunSpec&) -> Scenario* { return new SettingsScenario(0); });
Reg r2("settings_faults", [](const RunSpec&) -> Scenario* { return new SettingsScenario(1); });
}  // namespace
