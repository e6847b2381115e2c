// The same transactions over and over again: state that must not pile up: C18
#include "io.h"
#include <clocale>
#include <cmath>
#include <math.h>
extern "C" {
#define template template_
#define restrict
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txlist-state.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-txmultiset-state.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
#include "picotm/picotm-ptrdata.h"
#include "picotm/math.h"
#include "picotm/errno.h"
#include "picotm/locale.h"
#include "picotm/locale-tm.h"
#include "picotm/string.h"
#undef template
#undef restrict
}
using namespace sim;

namespace {
enum { CELLS, PRIV, OPENCLOSE, FREAD, FWRITE, SEEKREAD, PIPE, PIPEW, PIPER, SOCKET, PAIR, DUP, CHDIR, SETLOC, NEWLOC, USELOC, MALLOC, REALLOC, SWAP, LIST, MSET, QUEUE, STACK, PTR, SPTR, MATH, ERRNO_SET,
    STAT, FSTAT, FCHMOD, FCNTL, FSYNC, DIR, MKSTEMP, STRDUP, OPENKEEP, NOPS };
const char* const names[] = {"cells", "privatize", "open_close", "file_read", "file_write", "seek_read", "pipe", "pipe_write", "pipe_read", "socket", "socket_io", "dup", "chdir", "setlocale", "newlocale", "uselocale",
    "malloc", "realloc", "swap_blocks", "list", "multiset", "queue", "stack", "ptrdata", "shared_ptrdata", "math", "errno",
    "stat", "fstat", "fchmod", "fcntl", "fsync", "directory", "mkstemp", "strdup", "open_next"};
const int NI = 4;
struct Item {
    struct txlist_entry le;
    struct txmultiset_entry me;
    struct txqueue_entry qe;
    struct txstack_entry se;
    int64_t key;
};
struct Shared {
    int64_t cell[512];
    char text[64];
    struct txlist_state l;
    struct txmultiset_state m;
    struct txqueue_state q;
    struct txstack_state s;
    void* blk[4];
    int kept;
};
struct NullModel : Model {
    Model* clone() const override { return new NullModel; }
    uint64_t hash() const override { return 1; }
    bool apply(const Op&, const std::string*) override { return true; }
};
const void* key_of(struct txmultiset_entry* e) { return (char*)e - offsetof(Item, me) + offsetof(Item, key); }
int cmp(const void* a, const void* b)
{
    int64_t x = *(const int64_t*)a, y = *(const int64_t*)b;
    return x < y ? -1 : x > y;
}

struct SteadyScenario : IoScenario {
    Shared* sh = nullptr;
    Item* item[4][NI];
    char* b = nullptr;
    int f0 = -1, pw[2], pr[2], sp_[2], dfd = -1, ino = -1;
    int period = 1, rounds = 1, round = 0;
    struct Snap { size_t bytes, blocks, fds, locales; int syncs; };
    std::vector<Snap> snap;
    std::map<int, std::vector<uint64_t>> last;     // results of each transaction
    uint64_t dig = 0;
    int64_t val = 0;

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        s.par.heap_reuse = 1;
        s.par.max_steps = 40000000;
        period = r.range(1, 3);
        rounds = r.range(24, 60);
        s.prog.cfg = {rounds};
        std::vector<Tx> tmpl;
        std::vector<int> pool;
        int np = r.range(1, 4);
        for (int i = 0; i < np; ++i) pool.push_back(r.below(NOPS));
        for (int k = 0; k < period; ++k) {
            Tx tx;
            int no = r.range(1, 4);
            for (int i = 0; i < no; ++i) {
                Op o;
                o.code = r.chance(0.9) ? pool[r.below(np)] : r.below(NOPS);
                o.a[0] = r.below(4);
                o.a[1] = r.below(16);
                tx.ops.push_back(o);
            }
            if (r.chance(0.5)) {
                Op o;
                static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_ERR_ERRNO, OP_IRREVOCABLE};
                o.code = codes[r.below(5)];
                o.a[0] = r.range(1, 3);
                o.a[1] = r.range(1, 5);
                for (auto& q : tx.ops)
                    if ((q.code == PIPER || q.code == PAIR) && (o.code == OP_ERR_CODE || o.code == OP_ERR_ERRNO)) o.code = OP_CONFLICT;
                tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
            }
            tmpl.push_back(tx);
        }
        Thread th;
        th.txs = tmpl;
        s.prog.th.push_back(th);
    }
    std::string op_name(const Op& op) override
    {
        char t[96];
        snprintf(t, sizeof t, "%s(%lld, %lld)", op.code < NOPS ? names[op.code] : "?", (long long)op.a[0], (long long)op.a[1]);
        return t;
    }
    void setup() override
    {
        period = std::max<size_t>(sp->prog.th[0].txs.size(), 1);
        sh = (Shared*)heap_alloc(sizeof *sh);
        memset(sh, 0, sizeof *sh);
        strcpy(sh->text, "some text");
        b = (char*)heap_alloc(128);
        txlist_state_init(&sh->l);
        txmultiset_state_init(&sh->m, key_of, cmp);
        txqueue_state_init(&sh->q);
        txstack_state_init(&sh->s);
        for (auto& v : item)
            for (int i = 0; i < NI; ++i) {
                v[i] = (Item*)heap_alloc(sizeof(Item));
                txlist_entry_init(&v[i]->le);
                txmultiset_entry_init(&v[i]->me);
                txqueue_entry_init(&v[i]->qe);
                txstack_entry_init(&v[i]->se);
                v[i]->key = i % 3;
            }
        for (auto& p : sh->blk) p = nullptr;
        for (int i = 0; i < 4; ++i) k_mkfile("/f" + std::to_string(i), filltext(i, 64));
        k_mkdir("/a");
        k_mkdir("/b");
        k_chdir("/a");
        ino = k_ino_of("/f0");
        f0 = k_open("/f0", O_RDWR);
        dfd = k_open("/b", O_RDONLY);
        k_pipe(pw);
        k_pipe(pr);
        k_socketpair(sp_);
        sh->kept = -1;
    }
    int repeats() override { return rounds = sp->prog.cfg[0]; }
    Model* initial() override { return new NullModel; }
    void on_begin(TxRun* r) override
    {
        IoScenario::on_begin(r);
        dig = 0;
    }
    void note(int64_t v)
    {
        dig = mix(dig, v);
        if (logging()) logf("  -> %lld", (long long)v);
    }
    void measure()
    {
        HeapStat h = heap_stat();
        snap.push_back({h.live_bytes, h.live_blocks, k_fds().size(), k_live_locales(), sync_objects()});
        if (logging()) logf("round %zu: %zu bytes in %zu blocks, %zu descriptors, %d locks", snap.size(), h.live_bytes, h.live_blocks, k_fds().size(), sync_objects());
    }
    void before_tx(int t, int x) override
    {
        if (x == 0 && round++) measure();
        k_pull(pw[0], 1000);
        k_pull(sp_[1], 1000);
        k_push(k_fd_ino(pr[0]), "abcdefghij");
    }
    void on_committed(TxRun* r) override
    {
        // some operations alternate
        auto& l = last[r->tx];
        l.push_back(dig);
        size_t n = l.size();
        if (n > 6 && l[n - 1] != l[n - 3]) fail("changing-result", "repetition %d of the same transaction has other results than the repetitions before", round);
    }
    void thread_end(int) override
    {
        measure();
        // the first half warms up
        size_t n = snap.size(), w = n / 2;
        if (n < 24) return;
        Snap m = snap[2];
        for (size_t i = 2; i < w; ++i) {
            m.bytes = std::max(m.bytes, snap[i].bytes);
            m.blocks = std::max(m.blocks, snap[i].blocks);
            m.fds = std::max(m.fds, snap[i].fds);
            m.locales = std::max(m.locales, snap[i].locales);
            m.syncs = std::max(m.syncs, snap[i].syncs);
        }
        for (size_t i = w; i < n; ++i) {
            auto& s = snap[i];
            if (s.bytes > m.bytes || s.blocks > m.blocks)
                fail("growth", "after %zu repetitions of the same transactions, %zu bytes in %zu blocks are allocated; after %zu repetitions, it's %zu bytes in %zu blocks", w, m.bytes, m.blocks,
                     i + 1, s.bytes, s.blocks);
            if (s.fds > m.fds) fail("growth", "after %zu repetitions of the same transactions, %zu descriptors are open; after %zu repetitions, it's %zu", w, m.fds, i + 1, s.fds);
            if (s.locales > m.locales) fail("growth", "after %zu repetitions of the same transactions, %zu locales exist; after %zu repetitions, it's %zu", w, m.locales, i + 1, s.locales);
            if (s.syncs > m.syncs) fail("growth", "after %zu repetitions of the same transactions, %d locks exist; after %zu repetitions, it's %d", w, m.syncs, i + 1, s.syncs);
        }
    }
    void want(const char* call, int64_t k, int64_t v)
    {
        if (k != v) fail("wrong-result", "%s() returned %lld instead of %lld", call, (long long)k, (long long)v);
    }
    void teardown() override
    {
        for (int f : k_fds()) k_close(f);
        txlist_state_clear_and_uninit_entries(&sh->l, [](struct txlist_entry*, void*) {}, nullptr);
        txmultiset_state_clear_and_uninit_entries(&sh->m, [](struct txmultiset_entry*, void*) {}, nullptr);
        txqueue_state_clear_and_uninit_entries(&sh->q, [](struct txqueue_entry*, void*) {}, nullptr);
        txstack_state_clear_and_uninit_entries(&sh->s, [](struct txstack_entry*, void*) {}, nullptr);
        txlist_state_uninit(&sh->l);
        txmultiset_state_uninit(&sh->m);
        txqueue_state_uninit(&sh->q);
        txstack_state_uninit(&sh->s);
        drop();
    }
    void drop();
    void exec(TxRun* r, const Op& op) override
    {
        int64_t k = op.a[0], v = op.a[1], x = 0;
        struct picotm_error e;
        memset(&e, 0, sizeof e);
        switch (op.code) {
        case CELLS:
            for (int i = 0; i <= v; ++i) {
                load_tx(&sh->cell[(k * 37 + i * 13) % 512], &x, 8);
                note(x);
                x = k + i;
                store_tx(&sh->cell[(k * 37 + i * 13) % 512], &x, 8);
            }
            return;
        case PRIV:
            privatize_tx(&sh->cell[k * 16], 8 * (v + 1), k & 1 ? PICOTM_TM_PRIVATIZE_STORE : PICOTM_TM_PRIVATIZE_LOADSTORE);
            for (int i = 0; i <= v; ++i) sh->cell[k * 16 + i] = i;
            return;
        case OPENCLOSE: {
            char p[4] = "/f2";
            p[2] += k & 1;
            int f = open_tm(p, v & 1 ? O_RDWR : O_RDONLY);
            note(f);
            if (k && v & 2) want("pread", pread_tx(f, b, 8, v), 8);
            if (k && (v & 5) == 5) want("pwrite", pwrite_tx(f, b + 64, 8, v), 8);
            want("close", close_tx(f), 0);
            return;
        }
        case OPENKEEP: {   // closes the descriptor of the repetition before
            int old = -1, f;
            load_tx(&sh->kept, &old, sizeof old);
            if (old >= 0) want("close", close_tx(old), 0);
            note((f = open_tm("/f1", O_RDWR)) >= 0);
            store_tx(&sh->kept, &f, sizeof f);
            return;
        }
        case FREAD: want("pread", pread_tx(f0, b, 8, v), 8); return;
        case FWRITE: want("pwrite", pwrite_tx(f0, b + 64, 8, k * 8), 8); return;
        case SEEKREAD:
            want("lseek", lseek_tx(f0, v, SEEK_SET), v);
            want("read", read_tx(f0, b, 8), 8);
            return;
        case PIPE: {
            int p[2];
            want("pipe", pipe_tm(p), 0);
            note(p[0]);
            note(p[1]);
            want("close", close_tx(p[k & 1]), 0);
            want("close", close_tx(p[!(k & 1)]), 0);
            return;
        }
        case PIPEW: want("write", write_tx(pw[1], b + 64, k + 1), k + 1); return;
        case PIPER: want("read", read_tx(pr[0], b, 1 + (k & 1)), 1 + (k & 1)); return;
        case SOCKET: {
            int f = socket_tx(AF_UNIX, SOCK_STREAM, 0);
            note(f);
            want("close", close_tx(f), 0);
            return;
        }
        case PAIR: want("send", send_tx(sp_[0], b + 64, k + 1, 0), k + 1); return;
        case DUP: {
            int f = v & 1 ? dup_tx(pw[1]) : fcntl_tx(pw[1], F_DUPFD, 0);
            note(f);
            want("close", close_tx(f), 0);
            return;
        }
        case CHDIR: {
            char c[16];
            want("chdir", chdir_tm(k & 1 ? "/b" : "/a"), 0);
            char* p = getcwd_tm(b + 32, 16);
            if (p != b + 32) fail("wrong-result", "getcwd() returned %p", p);
            memcpy(c, b + 32, 3);
            if (c[1] != (k & 1 ? 'b' : 'a')) fail("wrong-result", "getcwd() returned '%.2s'", c);
            return;
        }
        case SETLOC:
            note(setlocale_tm(LC_NUMERIC, k & 1 ? "de_DE" : "en_US") != nullptr);
            if (v & 1) note(setlocale_tm(LC_NUMERIC, "C") != nullptr);
            return;
        case NEWLOC: {
            locale_t l = newlocale_tm(LC_ALL_MASK, "de_DE", (locale_t)0);
            if (!l) fail("wrong-result", "newlocale() returned 0");
            if (v & 1) {
                locale_t d = duplocale_tx(l);
                freelocale_tx(d);
            }
            freelocale_tx(l);
            return;
        }
        case USELOC: {
            locale_t l = newlocale_tm(LC_ALL_MASK, "fr_FR", (locale_t)0);
            locale_t o = uselocale_tx(l);
            uselocale_tx(o);
            freelocale_tx(l);
            return;
        }
        case MALLOC:
            for (int i = 0; i <= k; ++i) free_tx(v & 1 ? malloc_tx(16 + v) : calloc_tx(2, 8 + v));
            return;
        case REALLOC: {
            void* p = malloc_tx(16);
            p = realloc_tx(p, 16 + 8 * v);
            free_tx(p);
            return;
        }
        case SWAP: {
            void *o = nullptr, *p = malloc_tx(24);
            load_tx(&sh->blk[k], &o, sizeof o);
            free_tx(o);
            store_tx(&sh->blk[k], &p, sizeof p);
            return;
        }
        case STRDUP: {
            char* p = strdup_tx(sh->text);
            if (!p) fail("wrong-result", "strdup() returned NULL");
            free_tx(p);
            return;
        }
        case LIST: {
            struct txlist* l = txlist_of_state_tx(&sh->l);
            note(txlist_size_tx(l));
            if (txlist_empty_tx(l)) txlist_push_front_tx(l, &item[0][k]->le);
            else txlist_pop_back_tx(l);
            if (v & 1) {
                if (txlist_empty_tx(l)) txlist_push_back_tx(l, &item[0][k]->le);
                else txlist_clear_tx(l);
            }
            return;
        }
        case MSET: {
            struct txmultiset* m = txmultiset_of_state_tx(&sh->m);
            size_t n = txmultiset_size_tx(m);
            note(n);
            if (n) txmultiset_erase_tx(m, txmultiset_begin_tx(m));
            else txmultiset_insert_tx(m, &item[1][k]->me);
            if (v & 1) {
                if (n) txmultiset_insert_tx(m, &item[1][k]->me);
                else txmultiset_clear_tx(m);
            }
            return;
        }
        case QUEUE: {
            struct txqueue* q = txqueue_of_state_tx(&sh->q);
            note(txqueue_size_tx(q));
            if (txqueue_empty_tx(q)) txqueue_push_tx(q, &item[2][k]->qe);
            else txqueue_pop_tx(q);
            if (v & 1) {
                if (txqueue_empty_tx(q)) txqueue_push_tx(q, &item[2][k]->qe);
                else txqueue_pop_tx(q);
            }
            return;
        }
        case STACK: {
            struct txstack* s = txstack_of_state_tx(&sh->s);
            note(txstack_size_tx(s));
            if (txstack_empty_tx(s)) txstack_push_tx(s, &item[3][k]->se);
            else txstack_pop_tx(s);
            if (v & 1) {
                if (txstack_empty_tx(s)) txstack_push_tx(s, &item[3][k]->se);
                else txstack_pop_tx(s);
            }
            return;
        }
        case PTR:
            ptr_set_data((void*)(0x1000 + 64 * k), (void*)(v + 1), &e);
            if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
            note((int64_t)ptr_get_data((void*)(0x1000 + 64 * k), &e));
            if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
            if (v & 1) ptr_clear_data((void*)(0x1000 + 64 * k), &e);
            if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
            return;
        case SPTR:
            ptr_set_shared_data((void*)(0x2000 + 64 * k), (void*)(v + 1), &e);
            if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
            note((int64_t)ptr_get_shared_data((void*)(0x2000 + 64 * k), &e));
            if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
            if (v & 1) ptr_clear_shared_data((void*)(0x2000 + 64 * k), &e);
            if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
            return;
        case MATH: note((int64_t)(1000 * sqrt_tx((double)v))); return;
        case ERRNO_SET: errno_tx = (int)v; return;
        case STAT: {
            struct stat st;
            want("stat", v & 1 ? stat_tm("/f0", &st) : lstat_tm("/f0", &st), 0);
            return;
        }
        case FSTAT: {
            struct stat st;
            want("fstat", fstat_tm(f0, &st), 0);
            note(st.st_ino);
            return;
        }
        case FCHMOD: want("fchmod", fchmod_tx(f0, 0600 + (v & 7)), 0); return;
        case FCNTL:
            if (k & 1) note(fcntl_tx(f0, F_GETFD));
            else want("fcntl", fcntl_tx(pw[1], F_GETFL) & O_ACCMODE, O_WRONLY);
            return;
        case FSYNC: fsync_tx(f0); return;
        case DIR: {
            struct stat st;
            want("fstat", fstat_tm(dfd, &st), 0);
            if (v & 1) want("fchdir", fchdir_tx(dfd), 0);
            return;
        }
        case MKSTEMP: {
            char n[16] = "/tXXXXXX";
            int f = mkstemp_tm(n);
            note(f);
            want("close", close_tx(f), 0);
            return;
        }
        }
    }
};
extern "C" void sim_free(void*);
void SteadyScenario::drop()
{
    for (auto p : sh->blk) sim_free(p);
}
Reg r1("steady", [](const RunSpec&) -> Scenario* { return new SteadyScenario; });
}  // namespace
