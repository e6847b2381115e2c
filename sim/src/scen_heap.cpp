// Transactional heap memory: C16
#include "tx.h"
#include <cerrno>
extern "C" {
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#define template template_
#include "picotm/stdlib.h"
#include "picotm/stdlib-tm.h"
#undef template
void sim_free(void*);
}
using namespace sim;

namespace {
enum { ALLOC, FREE, READ, WRITE, PWRITE, PREAD, REALLOC, TEMP, BIG, SWAP, NOPS };
enum { K_MALLOC, K_CALLOC, K_MEMALIGN, K_MEMALIGN_TM, K_REALLOC };

struct Slot {
    void* p;
    uint64_t n;
};
char fillb(int64_t seed, size_t i) { return (char)(seed * 31 + i * 7 + 3); }
std::string filled(int64_t seed, size_t n)
{
    std::string s(n, 0);
    for (size_t i = 0; i < n; ++i) s[i] = fillb(seed, i);
    return s;
}

struct HeapModel : Model {
    std::vector<int> has;
    std::vector<std::string> c;
    Model* clone() const override { return new HeapModel(*this); }
    uint64_t hash() const override
    {
        uint64_t h = 3;
        for (size_t i = 0; i < has.size(); ++i) h = mix(h, has[i] ? std::hash<std::string>()(c[i]) : 1);
        return h;
    }
    bool is(const std::string* v, const std::string& s) { return !v || *v == s; }
    bool apply(const Op& op, const std::string* v) override
    {
        int s = op.a[0];
        switch (op.code) {
        case ALLOC: {
            std::string x = op.a[3] == K_CALLOC ? std::string(op.a[1], 0) : filled(op.a[2], op.a[1]);
            has[s] = 1;
            c[s] = x;
            return is(v, op.a[3] == K_CALLOC ? x : "");
        }
        case FREE: {
            std::string x = has[s] ? "1" : "0";
            has[s] = 0;
            c[s].clear();
            return is(v, x);
        }
        case READ: case PREAD: return is(v, has[s] ? "1" + c[s] : "0");
        case WRITE: case PWRITE:
            if (has[s] && c[s].size()) {
                size_t o = op.a[1] % c[s].size(), k = std::min<size_t>(op.a[4], c[s].size() - o);
                for (size_t i = 0; i < k; ++i) c[s][o + i] = fillb(op.a[2], i);
            }
            return true;
        case REALLOC: {
            size_t n = op.a[1], old = has[s] ? c[s].size() : 0;
            std::string x = filled(op.a[2], n);
            if (n < old) old = n;
            for (size_t i = 0; i < old; ++i) x[i] = c[s][i];
            c[s] = x;
            has[s] = n != 0;
            return is(v, x.substr(0, old));
        }
        case SWAP: {
            int t = op.a[1];
            std::swap(has[s], has[t]);
            std::swap(c[s], c[t]);
            return true;
        }
        }
        return true;
    }
};

struct HeapScenario : TxScenario {
    Slot* tab = nullptr;
    int ns = 4;
    int want_err[32] = {0};

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        s.par.heap_reuse = r.chance(0.5);
        int nt = r.range(1, 4), n = r.range(1, 4);
        s.prog.cfg = {n};
        if (r.chance(0.4)) {
            swarm_faults(r, s.par, {F_OOM}, 0.04);
            if (r.chance(0.5)) s.par.oom_exact = r.range(1, 80);
        }
        bool tm_only = r.chance(0.2);
        int big = r.chance(0.3) ? 12 : 0;
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 6);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    static const int w[] = {ALLOC, ALLOC, ALLOC, FREE, FREE, READ, READ, WRITE, WRITE, PWRITE, PREAD, REALLOC, REALLOC, TEMP, SWAP};
                    o.code = w[r.below(sizeof w / sizeof *w)];
                    if ((int)r.below(100) < big) o.code = BIG;
                    o.a[0] = r.below(n);
                    o.a[1] = r.chance(0.1) ? 0 : r.chance(0.5) ? r.range(1, 40) : r.range(1, 12) * 8;
                    o.a[2] = r.below(200) + 1;
                    o.a[3] = r.below(4);
                    if (tm_only && o.a[3] == K_MEMALIGN) o.a[3] = K_MEMALIGN_TM;
                    o.a[4] = r.range(1, 24);
                    if (o.code == BIG) {
                        o.a[3] = r.below(6);
                        o.a[1] = r.below(8);
                    }
                    if (o.code == SWAP) o.a[1] = r.below(n);
                    if (o.code == ALLOC && o.a[3] == K_MEMALIGN && r.chance(0.3)) o.a[4] = r.range(16, 24);
                    tx.ops.push_back(o);
                }
                if (r.chance(0.4)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_IRREVOCABLE};
                    o.code = codes[r.below(4)];
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.1)) {
                    Op o;
                    o.code = OP_DELAY;
                    o.a[0] = r.range(1, 300);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        static const char* n[] = {"alloc", "free", "read", "write", "pwrite", "pread", "realloc", "temp", "big", "swap"};
        char b[128];
        snprintf(b, sizeof b, "%s(slot %lld, %lld, %lld, kind %lld, %lld)", op.code < NOPS ? n[op.code] : "?",
                 (long long)op.a[0], (long long)op.a[1], (long long)op.a[2], (long long)op.a[3], (long long)op.a[4]);
        return b;
    }
    void setup() override
    {
        ns = sp->prog.cfg[0];
        tab = (Slot*)heap_alloc(sizeof(Slot) * ns);
    }
    Model* initial() override
    {
        auto* m = new HeapModel;
        m->has.assign(ns, 0);
        m->c.resize(ns);
        return m;
    }
    bool matches_final(Model* m, std::string& why) override
    {
        auto* h = (HeapModel*)m;
        for (int i = 0; i < ns; ++i) {
            char b[200];
            if (h->has[i] != (tab[i].p != nullptr)) {
                snprintf(b, sizeof b, "slot %d is %s instead of %s", i, tab[i].p ? "used" : "empty", h->has[i] ? "used" : "empty");
                why = b;
                return false;
            }
            if (!tab[i].p) continue;
            if (tab[i].n != h->c[i].size()) {
                why = "slot " + std::to_string(i) + " has the wrong size";
                return false;
            }
            if (memcmp(tab[i].p, h->c[i].data(), tab[i].n)) {
                why = "block of slot " + std::to_string(i) + " has the wrong content";
                return false;
            }
        }
        return true;
    }
    void check_history_blocks()
    {
        for (int i = 0; i < ns; ++i)
            if (tab[i].p && (!heap_is_live(tab[i].p) || heap_size_of(tab[i].p) < tab[i].n))
                fail("early-free", "the block of slot %d, which committed transactions left allocated, is %s", i,
                     heap_is_live(tab[i].p) ? "too short" : "free");
    }
    void after_threads() override { check_history_blocks(); }
    void teardown() override
    {
        for (int i = 0; i < ns; ++i)
            if (tab[i].p) sim_free(tab[i].p);
    }
    bool expected_error(TxRun* r) override
    {
        int e = want_err[self()];
        want_err[self()] = 0;
        return e && picotm_error_status() == PICOTM_ERRNO && picotm_error_as_errno() == e;
    }
    void on_begin(TxRun*) override { want_err[self()] = 0; }

    // checks of a new block
    void* fresh(void* p, size_t n, size_t align, const char* f)
    {
        if (!p) fail("null-block", "%s returned no block for %zu bytes and reported no error", f, n);
        if (!heap_is_live(p)) fail("early-free", "%s returned a block that is not allocated", f);
        if (heap_size_of(p) < n) fail("short-block", "%s returned a block of %zu bytes instead of %zu", f, heap_size_of(p), n);
        if ((uintptr_t)p & (align - 1)) fail("misaligned", "%s returned a block at %p, not aligned to %zu bytes", f, p, align);
        return p;
    }
    void* load_slot(int s, size_t& n)
    {
        Slot t;
        load_tx(&tab[s], &t, sizeof t);
        n = t.n;
        if (t.p && (!heap_is_live(t.p) || heap_size_of(t.p) < n))
            fail("early-free", "a block visible to a transaction is %s", heap_is_live(t.p) ? "too short" : "free");
        return t.p;
    }
    void store_slot(int s, void* p, size_t n)
    {
        Slot t = {p, n};
        store_tx(&tab[s], &t, sizeof t);
    }
    void put(void* p, const std::string& s)
    {
        if (s.size()) store_tx(p, s.data(), s.size());
    }
    void* get_block(size_t n, int kind, int64_t x)
    {
        void* p = nullptr;
        switch (kind) {
        case K_MALLOC: return fresh(malloc_tx(n), n, 16, "malloc_tx");
        case K_CALLOC: {
            size_t k = 1;
            for (size_t d : {3, 2, 5})
                if (n && n % d == 0) k = d;
            return fresh(calloc_tx(x & 1 ? k : n / k, x & 1 ? n / k : k), n, 16, "calloc_tx");
        }
        case K_MEMALIGN: case K_MEMALIGN_TM: {
            size_t al = 8u << (x % 6);
            // not on the stack: the transaction still writes to it during its commit or roll-back
            void*& priv = scratch()[1].p;
            priv = (void*)0x5a5a;
            int rc;
            if (kind == K_MEMALIGN && x >= 16) {
                // the result is stored to shared memory
                rc = posix_memalign_tx(&scratch()->p, al, n);
                load_tx(&scratch()->p, &p, sizeof p);
            } else {
                rc = kind == K_MEMALIGN ? posix_memalign_tx(&priv, al, n) : posix_memalign_tm(&priv, al, n);
                p = priv;
            }
            if (rc) fail("wrong-result", "posix_memalign returned %d", rc);
            return fresh(p, n, al, "posix_memalign_tx");
        }
        }
        return nullptr;
    }
    Slot* scratch_[40] = {};
    Slot* scratch()
    {
        Slot*& s = scratch_[self()];
        if (!s) s = (Slot*)heap_alloc(2 * sizeof(Slot));
        return s;
    }
    void exec(TxRun* r, const Op& op) override
    {
        int s = op.a[0];
        size_t n = 0;
        char buf[256];
        switch (op.code) {
        case ALLOC: {
            void* old = load_slot(s, n);
            if (old) r->op_index & 1 ? free_tm(old) : free_tx(old);
            n = op.a[1];
            void* p = get_block(n, op.a[3], op.a[4]);
            if (op.a[3] == K_CALLOC) {
                if (n) load_tx(p, buf, n);
                rec(r, buf, n);
            } else {
                put(p, filled(op.a[2], n));
                rec(r, buf, 0);
            }
            store_slot(s, p, n);
            break;
        }
        case TEMP: {
            n = op.a[1];
            void* p = get_block(n, op.a[3], op.a[4]);
            if (op.a[2] & 1) put(p, filled(op.a[2], n));
            if ((op.a[2] & 2) && n) {
                privatize_tx(p, n, PICOTM_TM_PRIVATIZE_STORE);
                step();
                memset(p, 1, n);
            }
            r->op_index & 1 ? free_tm(p) : free_tx(p);
            break;
        }
        case FREE: {
            void* p = load_slot(s, n);
            if (p) r->op_index & 1 ? free_tm(p) : free_tx(p);
            store_slot(s, nullptr, 0);
            rec(r, p ? "1" : "0", 1);
            break;
        }
        case READ: case PREAD: {
            void* p = load_slot(s, n);
            buf[0] = p ? '1' : '0';
            if (p && n) {
                if (op.code == READ) load_tx(p, buf + 1, n);
                else {
                    privatize_tx(p, n, PICOTM_TM_PRIVATIZE_LOAD);
                    for (size_t i = 0; i < n; ++i) {
                        step();
                        buf[1 + i] = ((char*)p)[i];
                    }
                }
            }
            rec(r, buf, p ? n + 1 : 1);
            break;
        }
        case WRITE: case PWRITE: {
            void* p = load_slot(s, n);
            if (!p || !n) break;
            size_t o = op.a[1] % n, k = std::min<size_t>(op.a[4], n - o);
            std::string x = filled(op.a[2], k);
            if (op.code == WRITE) store_tx((char*)p + o, x.data(), k);
            else {
                privatize_tx((char*)p + o, k, PICOTM_TM_PRIVATIZE_STORE);
                for (size_t i = 0; i < k; ++i) {
                    step();
                    ((char*)p)[o + i] = x[i];
                }
            }
            break;
        }
        case REALLOC: {
            void* p = load_slot(s, n);
            size_t m = op.a[1], keep = p ? std::min(n, m) : 0;
            if (p && n && (op.a[2] & 1)) privatize_tx(p, n, PICOTM_TM_PRIVATIZE_LOADSTORE);
            void* q = p && n && (op.a[2] & 1) ? realloc_tm(p, m) : realloc_tx(p, m);
            if (m) {
                fresh(q, m, 16, "realloc_tx");
                if (keep) load_tx(q, buf, keep);
                std::string x = filled(op.a[2], m);
                if (m > keep) store_tx((char*)q + keep, x.data() + keep, m - keep);
            } else if (q)
                fail("wrong-result", "realloc_tx to zero bytes returned %p", q);
            rec(r, buf, keep);
            store_slot(s, q, m);
            break;
        }
        case SWAP: {
            size_t m;
            void *p = load_slot(s, n), *q = load_slot(op.a[1], m);
            store_slot(s, q, m);
            store_slot(op.a[1], p, n);
            break;
        }
        case BIG: {
            static const size_t sizes[] = {1ull << 32, (1ull << 32) + 16, (1ull << 40) + 5, SIZE_MAX, SIZE_MAX - 3, SIZE_MAX / 2,
                                           1ull << 28, SIZE_MAX - 15};
            size_t big = sizes[op.a[1]];
            void* p = nullptr;
            want_err[self()] = op.a[3] == 5 ? EINVAL : ENOMEM;
            switch (op.a[3]) {
            case 0: p = malloc_tx(big); break;
            case 1: {
                // products that overflow, or that do not
                static const size_t fac[] = {1ull << 32, 1ull << 33, 16, 3, 2, (1ull << 32) + 1, 1ull << 40, 1};
                size_t f = fac[op.a[1]], g = big / f + (f > 16 ? 1ull << 32 : 1);
                size_t prod;
                if (!__builtin_mul_overflow(f, g, &prod)) big = prod;
                else big = SIZE_MAX;
                p = calloc_tx(op.a[2] & 1 ? f : g, op.a[2] & 1 ? g : f);
                break;
            }
            case 2: posix_memalign_tm(&p, 32, big); break;
            case 3: {
                void* o = load_slot(s, n);
                p = realloc_tx(o, big);
                break;
            }
            case 4: p = realloc_tx(nullptr, big); break;
            case 5: posix_memalign_tm(&p, 24, 16); big = SIZE_MAX; break;
            }
            if (p && heap_size_of(p) < big)
                fail("short-block", "an allocation of %zu bytes returned a block of %zu bytes", big, heap_size_of(p));
            fail("no-error", "an allocation of %zu bytes that cannot be satisfied reported no error", big);
            break;
        }
        }
    }
};
Reg r1("heap", [](const RunSpec&) -> Scenario* { return new HeapScenario; });
}  // namespace
