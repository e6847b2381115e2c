// Transactional memory: C01, C02, C03
#include "tx.h"
#include <sys/mman.h>
extern "C" {
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
}
using namespace sim;

namespace {
enum { LD, ST, LDST, PRIV_RD, PRIV_WR, PRIV_RW, PRIV_C, TYPED_LD, TYPED_ST, DISCARD, DISCARD_C, REUSE, NOPS };
const int MAXARENA = 1600;
int ARENA = 64;   // of this run

// direct access to privatised memory, one byte per scheduling point
static void raw_read(void* d, const char* s, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        step();
        ((char*)d)[i] = s[i];
    }
}
static void raw_write(char* d, const char* s, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        step();
        d[i] = s[i];
    }
}
static void fillbytes(char* b, size_t n, int64_t seed)
{
    for (size_t i = 0; i < n; ++i) b[i] = (char)(seed * 17 + i * 29 + 1);
}

struct TmModel : Model {
    std::string m, unk;     // content; bytes that have been discarded
    Model* clone() const override { return new TmModel(*this); }
    uint64_t hash() const override { return mix(std::hash<std::string>()(m), std::hash<std::string>()(unk)); }
    bool eq(size_t o, size_t n, const std::string* v)
    {
        if (v)
            for (size_t i = 0; i < n; ++i)
                if (!unk[o + i] && m[o + i] != (*v)[i]) return false;
        return true;
    }
    void put(size_t o, const char* b, size_t n)
    {
        m.replace(o, n, b, n);
        unk.replace(o, n, n, 0);
    }
    bool apply(const Op& op, const std::string* v) override
    {
        size_t o = op.a[0], n = op.a[1];
        char b[MAXARENA];
        switch (op.code) {
        case LD: case TYPED_LD: case PRIV_RD: return eq(o, n, v);
        case ST: case TYPED_ST:
            fillbytes(b, n, op.a[2]);
            put(o, b, n);
            return true;
        case LDST: {
            std::string t = m.substr(o, n);
            m.replace(op.a[2], n, t);
            unk.replace(op.a[2], n, std::string(unk.substr(o, n)));
            return true;
        }
        case PRIV_WR: {  // write k bytes at offset d within the range
            size_t d = op.a[3], k = op.a[4];
            fillbytes(b, k, op.a[2]);
            put(o + d, b, k);
            return true;
        }
        case PRIV_RW: {
            if (!eq(o, n, v)) return false;
            size_t d = op.a[3], k = op.a[4];
            fillbytes(b, k, op.a[2]);
            put(o + d, b, k);
            return true;
        }
        case DISCARD:
            unk.replace(o, n, n, 1);
            return true;
        case DISCARD_C:
            if (v) {
                if (!eq(o, v->size(), v)) return false;
                unk.replace(o, v->size(), v->size(), 1);
            }
            return true;
        case PRIV_C: {
            size_t e = m.find((char)op.a[1], o);
            if (e == std::string::npos) return false;
            std::string t = m.substr(o, e - o + 1);
            if (v && t != *v) return false;
            if (op.a[2] & 2)
                for (size_t i = o; i < e; ++i) m[i] = (char)(op.a[3] * 7 + i + 100) | (char)0x80;
            return true;
        }
        }
        return true;
    }
};

struct TmScenario : TxScenario {
    int kind;  // 1: C01, 2: C02 rollback, 3: C03 privatisation
    char* mem = nullptr;
    std::string init;
    std::vector<std::string> gone;      // bytes that were discarded by the threads' transactions
    explicit TmScenario(int k) : kind(k) {}

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = kind == 2 ? r.range(1, 3) : r.range(2, 4);
        bool crowd = r.chance(0.03);   // more threads than a lock has room for readers
        if (crowd) nt = r.range(12, 18);
        int hot = r.range(1, 6) * 8;   // size of the contended area
        bool wide = !crowd && r.chance(0.06);    // accesses of many blocks
        ARENA = 64;
        if (wide) {
            hot = r.range(7, 190) * 8;
            ARENA = hot + r.range(2, 8) * 8;
        }
        int base = r.range(0, 1) * 8;
        if (base + hot > ARENA - 8) base = 0;
        // the arena lies on the heap or spans a table of the module's map of memory
        s.prog.cfg = {(int64_t)r.below(1000), r.chance(0.4) ? 0 : r.range(1, 4), r.range(1, ARENA / 8 - 1) * 8};
        if (wide) s.prog.cfg.push_back(ARENA);
        bool disc = kind != 1 && r.chance(0.3);
        bool priv = kind == 3;
        if (kind == 2 && r.chance(0.5)) {
            swarm_faults(r, s.par, {F_OOM}, 0.05);
            if (r.chance(0.5)) s.par.oom_exact = r.range(1, 60);
        }
        if (kind == 3 && r.chance(0.2)) swarm_faults(r, s.par, {F_OOM}, 0.03);
        int rollback = kind == 2 ? 60 : kind == 3 ? 30 : 10;
        static const int widths[] = {1, 2, 4, 8};
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = crowd ? 1 : r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = crowd ? r.range(1, 3) : r.range(1, 6);
                std::string gone(ARENA, 0);     // discarded by this transaction
                auto used = [&](const Op& o) {
                    return memchr(&gone[o.a[0]], 1, o.a[1]) || (o.code == LDST && memchr(&gone[o.a[2]], 1, o.a[1]));
                };
                for (int i = 0; i < no; ++i) {
                    Op o;
                    int c = r.below(100);
                    int n = r.chance(wide ? 0.3 : 0.6) ? widths[r.below(4)] : r.range(1, wide && r.chance(0.7) ? hot : std::min(hot, 20));
                    int off = base + (int)r.below(hot - n + 1);
                    if (r.chance(0.4)) off = off / 8 * 8;
                    if (off + n > base + hot) off = base + hot - n;
                    o.a[0] = off;
                    o.a[1] = n;
                    o.a[2] = r.below(120) + 1;
                    if (priv && c < 55) {
                        int k = r.below(4);
                        if (k == 3) {
                            o.code = PRIV_C;
                            o.a[0] = wide ? ARENA - 1 - (int)r.below(64) : base + (int)r.below(hot);  // long searches are slow
                            o.a[1] = 0;
                            o.a[2] = r.below(2) ? 1 : 3;   // LOAD or LOAD|STORE
                            if (r.chance(0.3)) o.a[2] = 2 | 1;
                            o.a[3] = r.below(50);
                            if (disc) o.code = LD, o.a[0] = base, o.a[1] = n;
                        } else {
                            o.code = PRIV_RD + k;
                            o.a[3] = r.below(n);
                            o.a[4] = r.range(1, n - o.a[3]);
                        }
                    } else if (c < 45 || (kind == 2 && c < 20)) {
                        o.code = r.chance(0.3) ? TYPED_LD : LD;
                        if (o.code == TYPED_LD) o.a[1] = n = widths[r.below(4)];
                    } else if (c < 90) {
                        o.code = r.chance(0.3) ? TYPED_ST : ST;
                        if (o.code == TYPED_ST) o.a[1] = n = widths[r.below(4)];
                    } else {
                        o.code = LDST;
                        int d = base + (int)r.below(hot - n + 1);
                        // the ranges must not overlap
                        if (d < off + n && off < d + n) o.code = LD;
                        o.a[2] = d;
                        if (o.code == LD) o.a[2] = 0;
                    }
                    if (o.a[0] + o.a[1] > ARENA && o.code != PRIV_C) o.a[0] = ARENA - o.a[1];
                    if (disc && r.chance(0.3)) o.code = DISCARD;
                    if (disc && used(o)) {
                        if (o.code == LDST) continue;
                        o.code = REUSE;
                        o.a[2] = r.below(4);
                        if (r.chance(0.8)) continue;
                    }
                    if ((o.code == LD || o.code == ST || o.code == LDST || o.code == PRIV_RD || o.code == DISCARD) && r.chance(0.03)) {
                        o.a[1] = 0;   // nothing
                        if (r.chance(0.3)) o.a[0] = ARENA;
                    }
                    if (o.code == DISCARD) memset(&gone[o.a[0]], 1, o.a[1]);
                    tx.ops.push_back(o);
                }
                if (disc && r.chance(0.2)) {
                    Op o;
                    o.code = DISCARD_C;
                    o.a[0] = wide ? ARENA - 1 - (int)r.below(64) : base + (int)r.below(hot);
                    if (gone.find(1, o.a[0]) == std::string::npos) tx.ops.push_back(o);
                }
                if ((int)r.below(100) < rollback) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_ERR_ERRNO, OP_ERR_SIGINFO, OP_IRREVOCABLE};
                    o.code = codes[r.below(6)];
                    o.a[0] = r.range(1, 3);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.15)) {
                    Op o;
                    o.code = r.chance(0.7) ? OP_DELAY : OP_SLEEP;
                    o.a[0] = o.code == OP_DELAY ? r.range(1, 300) : r.range(1, 1500);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        static const char* n[] = {"load", "store", "loadstore", "privatize_rd", "privatize_wr", "privatize_rw", "privatize_c",
                                  "load_typed", "store_typed", "discard", "discard_c", "use discarded"};
        char b[128];
        snprintf(b, sizeof b, "%s(+%lld,%lld,%lld,%lld,%lld)", op.code < NOPS ? n[op.code] : "?", (long long)op.a[0],
                 (long long)op.a[1], (long long)op.a[2], (long long)op.a[3], (long long)op.a[4]);
        return b;
    }
    void setup() override
    {
        static const int bits[] = {0, 13, 23, 33, 43};
        ARENA = sp->prog.cfg.size() > 3 ? (int)sp->prog.cfg[3] : 64;
        if (int k = sp->prog.cfg[1]) {
            // tables of the map cover powers of two
            char* map = (char*)(0x1ull << 45) + (1ull << bits[k]) - 4096;
            static bool mapped[5];
            if (!mapped[k] && mmap(map, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != map) abort();
            mapped[k] = true;
            mem = map + 4096 - sp->prog.cfg[2];
        } else
            mem = (char*)heap_alloc(ARENA + 8);
        for (int i = 0; i < ARENA + 8; ++i) mem[i] = (char)(((i * 37 + sp->prog.cfg[0]) % 255) + 1);
        if (kind == 3) {
            // terminators
            Rng r(sp->prog.cfg[0]);
            for (int i = 0; i < 8; ++i) mem[r.below(ARENA)] = 0;
        }
        mem[ARENA - 1] = 0;
        init.assign(mem, ARENA);
        gone.resize(sp->prog.th.size());
    }
    Model* initial() override
    {
        auto* m = new TmModel;
        m->m = init;
        m->unk.assign(ARENA, 0);
        return m;
    }
    bool matches_final(Model* m, std::string& why) override
    {
        auto* t = (TmModel*)m;
        for (int i = 0; i < ARENA; ++i)
            if (!t->unk[i] && t->m[i] != mem[i]) {
                char b[100];
                snprintf(b, sizeof b, "byte +%d is %02x instead of %02x", i, (unsigned char)mem[i], (unsigned char)t->m[i]);
                why = b;
                return false;
            }
        return true;
    }
    void on_begin(TxRun* r) override { gone[r->thread].assign(ARENA, 0); }
    bool expected_error(TxRun* r) override
    {
        auto& ops = sp->prog.th[r->thread].txs[r->tx].ops;
        return r->op_index < (int)ops.size() && ops[r->op_index].code == REUSE && picotm_error_status() == PICOTM_ERROR_CODE &&
               picotm_error_as_error_code() == PICOTM_OUT_OF_BOUNDS;
    }
    void exec(TxRun* r, const Op& op) override
    {
        char b[MAXARENA + 8];
        char* p = mem + op.a[0];
        size_t n = op.a[1];
        switch (op.code) {
        case LD:
            load_tx(p, b, n);
            rec(r, b, n);
            break;
        case TYPED_LD:
            switch (n) {
            case 1: { uint8_t v = load_uint8_t_(p); memcpy(b, &v, 1); break; }
            case 2: { uint16_t v = load_uint16_t_(p); memcpy(b, &v, 2); break; }
            case 4: { uint32_t v = load_uint32_t_(p); memcpy(b, &v, 4); break; }
            case 8: { uint64_t v = load_uint64_t_(p); memcpy(b, &v, 8); break; }
            }
            rec(r, b, n);
            break;
        case ST:
            fillbytes(b, n, op.a[2]);
            store_tx(p, b, n);
            break;
        case TYPED_ST:
            fillbytes(b, n, op.a[2]);
            switch (n) {
            case 1: store_char_tx(p, b[0]); break;
            case 2: { short v; memcpy(&v, b, 2); store_short_tx((short*)p, v); break; }
            case 4: { int v; memcpy(&v, b, 4); store_int_tx((int*)p, v); break; }
            case 8: { long v; memcpy(&v, b, 8); store_long_tx((long*)p, v); break; }
            }
            break;
        case LDST:
            loadstore_tx(p, mem + op.a[2], n);
            break;
        case PRIV_RD:
            privatize_tx(p, n, PICOTM_TM_PRIVATIZE_LOAD);
            raw_read(b, p, n);
            rec(r, b, n);
            break;
        case PRIV_WR:
            privatize_tx(p, n, PICOTM_TM_PRIVATIZE_STORE);
            fillbytes(b, op.a[4], op.a[2]);
            raw_write(p + op.a[3], b, op.a[4]);
            break;
        case PRIV_RW:
            privatize_tx(p, n, PICOTM_TM_PRIVATIZE_LOADSTORE);
            raw_read(b, p, n);
            rec(r, b, n);
            fillbytes(b, op.a[4], op.a[2]);
            raw_write(p + op.a[3], b, op.a[4]);
            break;
        case DISCARD:
            privatize_tx(p, n, 0);
            memset(&gone[r->thread][op.a[0]], 1, n);
            break;
        case DISCARD_C: {
            size_t k = 0;
            do
                load_tx(p + k, b + k, 1);
            while (b[k++] && op.a[0] + k < ARENA);
            privatize_c_tx(p, 0, 0);
            rec(r, b, k);
            break;
        }
        case REUSE:
            // reported as an error, in which case we don't return
            if (!memchr(&gone[r->thread][op.a[0]], 1, n)) break;
            switch (op.a[2]) {
            case 0: load_tx(p, b, n); break;
            case 1: store_tx(p, b, n); break;
            case 2: privatize_tx(p, n, PICOTM_TM_PRIVATIZE_LOAD); break;
            case 3: privatize_tx(p, n, PICOTM_TM_PRIVATIZE_STORE); break;
            }
            fail("use-after-discard", "discarded memory can still be used");
        case PRIV_C: {
            privatize_c_tx(p, (int)op.a[1], op.a[2]);
            size_t k = 0;
            while (true) {
                step();
                b[k] = p[k];
                if (b[k] == (char)op.a[1] || op.a[0] + k >= ARENA - 1) break;
                ++k;
            }
            rec(r, b, k + 1);
            if (op.a[2] & 2)
                for (size_t i = 0; i < k; ++i) {
                    step();
                    p[i] = (char)(op.a[3] * 7 + (op.a[0] + i) + 100) | (char)0x80;
                }
            break;
        }
        }
    }
    static uint8_t load_uint8_t_(const char* p) { return (uint8_t)load_char_tx(p); }
    static uint16_t load_uint16_t_(const char* p) { return (uint16_t)load_short_tx((const short*)p); }
    static uint32_t load_uint32_t_(const char* p) { return (uint32_t)load_int_tx((const int*)p); }
    static uint64_t load_uint64_t_(const char* p) { return (uint64_t)load_long_tx((const long*)p); }
};
Reg r1("tm", [](const RunSpec&) -> Scenario* { return new TmScenario(1); });
Reg r2("tm_rollback", [](const RunSpec&) -> Scenario* { return new TmScenario(2); });
Reg r3("tm_privatize", [](const RunSpec&) -> Scenario* { return new TmScenario(3); });
}  // namespace
