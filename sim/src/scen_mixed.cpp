// One transaction over many subsystems: C23; with threads that release and reuse their state: C18
#include "io.h"
#include <climits>
#include <cmath>
#include <math.h>
extern "C" {
#define template template_
#define restrict
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txlist-state.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-txmultiset-state.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
#include "picotm/picotm-ptrdata.h"
#include "picotm/picotm-arithmetic-ctypes.h"
#include "picotm/math.h"
#include "picotm/errno.h"
#undef template
#undef restrict
void sim_free(void*);
}
using namespace sim;

namespace {
enum { CLOAD, CSTORE, CADD, PUSH, POP, SIZE, FREAD, FWRITE, LOGW, PIPEW, INREAD, HALLOC, HFREE, HREAD, CHDIR, GETCWD, PRIVW, MATH, PTR, BADSUM, TOUCH, NOPS };
const char* const names[] = {"load", "store", "add", "push", "pop", "size", "file_read", "file_write", "log_write", "pipe_write", "input_read", "heap_alloc",
    "heap_free", "heap_read", "chdir", "getcwd", "private_file", "math", "ptrdata", "overflow", "errno"};
enum { LIST, MSET, QUEUE, STACK };
const int NC = 4, NI = 24, NS = 3, NREC = 4, NIN = 40;
int key_of_id(int id) { return id % 5; }
int64_t input(int i) { return 1000 + i * 7; }

struct Item {
    struct txlist_entry le;
    struct txmultiset_entry me;
    struct txqueue_entry qe;
    struct txstack_entry se;
    int id, key;
};
template <class E> Item* item_of(E Item::*m, E* e) { return (Item*)((char*)e - (size_t) & (((Item*)nullptr)->*m)); }
struct Shared {
    int64_t cell[NC];
    struct { int64_t* p; char pad[120]; } slot[NS];
    struct txlist_state l;
    struct txmultiset_state m;
    struct txqueue_state q;
    struct txstack_state s;
};

struct JModel : Model {
    int64_t cell[NC], rec[NREC], slot[NS];   // slot: -1 is empty
    std::vector<int> box[4];
    std::vector<std::vector<int>> own;
    std::vector<int64_t> log, pipe, priv;
    int in = 0, cwd = 0;
    Model* clone() const override { return new JModel(*this); }
    uint64_t hash() const override
    {
        uint64_t h = 5;
        for (auto x : cell) h = mix(h, x);
        for (auto x : rec) h = mix(h, x);
        for (auto x : slot) h = mix(h, x);
        for (int k = 0; k < 4; ++k) {
            std::vector<int> v = box[k];
            if (k == MSET) std::sort(v.begin(), v.end());
            for (int x : v) h = mix(h, x);
            h = mix(h, 99);
        }
        for (auto& v : own) {
            for (int x : v) h = mix(h, x);
            h = mix(h, 98);
        }
        for (auto x : log) h = mix(h, x);
        h = mix(h, 97);
        for (auto x : pipe) h = mix(h, x);
        for (auto x : priv) h = mix(h, x);
        return mix(mix(h, in), cwd);
    }
    bool apply(const Op& op, const std::string* v) override
    {
        int64_t x = 0;
        if (v && v->size() == 8) memcpy(&x, v->data(), 8);
        auto is = [&](int64_t e) { return !v || x == e; };
        int t = (int)op.a[4], k = (int)op.a[0];
        int64_t val = op.a[1];
        switch (op.code) {
        case CLOAD: return is(cell[k]);
        case CSTORE: cell[k] = val; return true;
        case CADD: {
            bool r = is(cell[k]);
            cell[k] += val;
            return r;
        }
        case PUSH: {
            if (own[t].empty()) return is(-1);
            size_t i = val % own[t].size();
            int id = own[t][i];
            own[t].erase(own[t].begin() + i);
            box[k].push_back(id);
            return is(id);
        }
        case POP: {
            auto& b = box[k];
            if (b.empty()) return is(-1);
            size_t i = k == STACK ? b.size() - 1 : 0;
            if (k == MSET) {
                int mk = 1000;
                for (int y : b) mk = std::min(mk, key_of_id(y));
                if (!v) return true;   // cannot happen: every attempt records a result
                auto it = std::find(b.begin(), b.end(), (int)x);
                if (it == b.end() || key_of_id(*it) != mk) return false;
                i = it - b.begin();
            }
            int id = b[i];
            b.erase(b.begin() + i);
            own[t].push_back(id);
            return is(id);
        }
        case SIZE: return is(box[k].size());
        case FREAD: return is(rec[k]);
        case FWRITE: rec[k] = val; return is(8);
        case LOGW: log.push_back(val); return is(8);
        case PIPEW: pipe.push_back(val); return is(8);
        case INREAD: return is(input(in++));
        case HALLOC: slot[k] = val; return true;
        case HFREE: {
            bool r = is(slot[k]);
            slot[k] = -1;
            return r;
        }
        case HREAD: return is(slot[k]);
        case CHDIR: cwd = k; return true;
        case GETCWD: return is(cwd);
        case PRIVW: {
            bool r = is(priv[t]);
            priv[t] = val;
            return r;
        }
        }
        return true;
    }
};

struct MixedScenario : IoScenario {
    int variant;    // 0 plain, 1 with failing calls, 2 life cycle
    explicit MixedScenario(int v) : variant(v) {}
    Shared* sh = nullptr;
    Item* item[NI];
    std::vector<std::vector<int>> own0, init_own;
    std::map<TxRun*, std::vector<int>> own;
    std::vector<char*> buf;
    int fd = -1, logfd = -1, pfd[2], ifd[2], ino = 0, logino = 0;
    std::vector<int> fin[4];
    bool have_fin = false;
    std::vector<int> pdata;     // per thread: value attached to an address, -1 none
    int nt = 0, gen1 = 0;       // threads of the first generation that have not released their state
    int want[64] = {0};
    const char* fail_of = nullptr;

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int n = variant == 2 ? r.range(1, 6) : r.range(1, 4);
        bool faults = false;
        if (variant == 1) {
            swarm_faults(r, s.par, {F_EINTR, F_SHORT, F_ERR, F_ERR, F_OOM}, 0.05);
            if (r.chance(0.1)) swarm_faults(r, s.par, {F_PTHREAD, F_ERR}, 0.1);
            faults = true;
        } else if (r.chance(0.4)) {
            swarm_faults(r, s.par, {F_OOM, F_EINTR, F_SHORT}, 0.05);
            if (r.chance(0.4)) s.par.oom_exact = r.range(1, 120);
            faults = true;
        }
        if (variant == 2 && r.chance(0.3)) {
            swarm_faults(r, s.par, {F_PTHREAD, F_PTHREAD, F_OOM}, 0.3);
            faults = true;
        }
        int ngen2 = variant == 2 && n > 1 && r.chance(0.5) ? r.range(1, n - 1) : 0;
        s.prog.cfg = {(int64_t)r.below(4), ngen2, variant == 2 ? r.range(0, 80) : 0};
        // subsystems in use
        std::vector<int> w;
        static const int groups[][4] = {{CLOAD, CSTORE, CADD, CADD}, {PUSH, POP, PUSH, SIZE}, {FREAD, FWRITE, FREAD, FWRITE}, {LOGW, LOGW, LOGW, LOGW},
            {PIPEW, PIPEW, PIPEW, PIPEW}, {INREAD, INREAD, INREAD, INREAD}, {HALLOC, HFREE, HREAD, HALLOC}, {CHDIR, GETCWD, GETCWD, CHDIR},
            {PRIVW, PRIVW, PRIVW, PRIVW}, {MATH, PTR, TOUCH, PTR}, {BADSUM, CADD, CADD, CADD}};
        const int NG = sizeof groups / sizeof *groups;
        int ng = r.range(2, 6);
        for (int i = 0; i < ng; ++i) {
            int g = r.below(NG);
            if (faults && groups[g][0] == INREAD) continue;
            for (int c : groups[g]) w.push_back(c);
        }
        if (w.empty()) w = {CADD, PUSH, POP};
        for (int t = 0; t < n; ++t) {
            Thread T;
            int nx = r.range(1, variant == 2 ? 3 : 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, variant == 2 ? 4 : 8);
                bool priv = false, irrev = false;
                for (int i = 0; i < no; ++i) {
                    Op o;
                    o.code = r.pick(w);
                    if (o.code == PRIVW) {   // one descriptor per file and transaction
                        if (priv) o.code = CADD;
                        priv = true;
                    }
                    o.a[1] = 1 + (int64_t)r.below(1000);
                    o.a[2] = r.below(4);
                    o.a[4] = t;
                    switch (o.code) {
                    case PUSH: case POP: case SIZE: o.a[0] = r.below(4); break;
                    case HALLOC: case HFREE: case HREAD: case CHDIR: o.a[0] = r.below(NS); break;
                    default: o.a[0] = r.below(4);
                    }
                    irrev |= o.code == INREAD;
                    tx.ops.push_back(o);
                }
                if (irrev)
                    for (auto& o : tx.ops)
                        if (o.code == BADSUM) o.code = CADD;
                if (r.chance(0.4)) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_ERR_ERRNO, OP_IRREVOCABLE};
                    o.code = codes[r.below(5)];
                    bool bad = false;
                    for (auto& p : tx.ops) bad |= p.code == BADSUM;
                    if (o.code == OP_IRREVOCABLE && (faults || bad)) o.code = OP_CONFLICT;
                    if (irrev && (o.code == OP_ERR_CODE || o.code == OP_ERR_ERRNO)) o.code = OP_CONFLICT;
                    o.a[0] = r.range(1, 2);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.15)) {
                    Op o;
                    o.code = OP_DELAY;
                    o.a[0] = r.range(1, 300);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                T.txs.push_back(tx);
            }
            s.prog.th.push_back(T);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[120];
        snprintf(b, sizeof b, "%s(%lld, %lld)", op.code < NOPS ? names[op.code] : "?", (long long)op.a[0], (long long)op.a[1]);
        return b;
    }
    static const void* key_cb(struct txmultiset_entry* e) { return &item_of(&Item::me, e)->key; }
    static int cmp_cb(const void* a, const void* b)
    {
        int x = *(const int*)a, y = *(const int*)b;
        return x < y ? -1 : x > y;
    }
    void setup() override
    {
        nt = sp->prog.th.size();
        int per = (int)sp->prog.cfg[0];
        sh = (Shared*)heap_alloc(sizeof(Shared), 64);
        memset((void*)sh, 0, sizeof *sh);
        for (int i = 0; i < NC; ++i) sh->cell[i] = 10 * i;
        txlist_state_init(&sh->l);
        txmultiset_state_init(&sh->m, key_cb, cmp_cb);
        txqueue_state_init(&sh->q);
        txstack_state_init(&sh->s);
        own0.resize(nt);
        for (int i = 0; i < NI; ++i) {
            Item* it = item[i] = (Item*)heap_alloc(sizeof(Item));
            txlist_entry_init(&it->le);
            txmultiset_entry_init(&it->me);
            txqueue_entry_init(&it->qe);
            txstack_entry_init(&it->se);
            it->id = i;
            it->key = key_of_id(i);
            if (i < nt * per) own0[i % nt].push_back(i);
        }
        init_own = own0;
        std::string f(8 * NREC, 0);
        ino = k_mkfile("/f", f);
        fd = k_open("/f", O_RDWR);
        logino = k_mkfile("/log", "");
        logfd = k_open("/log", O_RDWR);
        k_pipe(pfd);
        k_pipe(ifd);
        k_capacity(k_fd_ino(pfd[1]), 1 << 16);
        k_capacity(k_fd_ino(ifd[1]), 1 << 16);
        std::string in;
        for (int i = 0; i < 500; ++i) {
            int64_t x = input(i);
            in.append((char*)&x, 8);
        }
        k_push(k_fd_ino(ifd[0]), in);
        for (int i = 0; i < 4; ++i) k_mkdir("/d" + std::to_string(i));
        k_chdir("/d0");
        for (int t = 0; t < nt; ++t) {
            k_mkfile("/p" + std::to_string(t), std::string(8, 0));
            buf.push_back((char*)heap_alloc(128));
        }
        pdata.assign(nt, -1);
        fds_before = k_fds();
        gen1 = nt - (int)sp->prog.cfg[1];
    }
    Model* initial() override
    {
        auto* m = new JModel;
        for (int i = 0; i < NC; ++i) m->cell[i] = 10 * i;
        for (auto& x : m->rec) x = 0;
        for (auto& x : m->slot) x = -1;
        m->own = init_own;
        m->priv.assign(nt, 0);
        return m;
    }
    // ------------------------------------------------------------ end of run
    std::vector<int>* sink = nullptr;
    static MixedScenario* cur;
    static void got(Item* it)
    {
        cur->check_item(it);
        if (cur->sink->size() > NI) fail("bad-iteration", "a data structure contains a cycle");
        cur->sink->push_back(it->id);
    }
    void check_item(Item* it)
    {
        for (auto* i : item)
            if (i == it) return;
        fail("bad-entry", "a data structure returned an entry that was never inserted");
    }
    void collect()
    {
        have_fin = true;
        cur = this;
        sink = &fin[LIST];
        txlist_state_clear_and_uninit_entries(&sh->l, [](struct txlist_entry* e, void*) { got(item_of(&Item::le, e)); }, nullptr);
        sink = &fin[MSET];
        txmultiset_state_clear_and_uninit_entries(&sh->m, [](struct txmultiset_entry* e, void*) { got(item_of(&Item::me, e)); }, nullptr);
        sink = &fin[QUEUE];
        txqueue_state_clear_and_uninit_entries(&sh->q, [](struct txqueue_entry* e, void*) { got(item_of(&Item::qe, e)); }, nullptr);
        sink = &fin[STACK];
        txstack_state_clear_and_uninit_entries(&sh->s, [](struct txstack_entry* e, void*) { got(item_of(&Item::se, e)); }, nullptr);
        std::reverse(fin[STACK].begin(), fin[STACK].end());
        txlist_state_uninit(&sh->l);
        txmultiset_state_uninit(&sh->m);
        txqueue_state_uninit(&sh->q);
        txstack_state_uninit(&sh->s);
    }
    static std::string words(const std::vector<int64_t>& v) { return std::string((const char*)v.data(), v.size() * 8); }
    static std::string text(const std::string& s)
    {
        std::string t;
        for (size_t i = 0; i + 8 <= s.size(); i += 8) {
            int64_t x;
            memcpy(&x, &s[i], 8);
            t += std::to_string(x) + " ";
        }
        return t + "(" + std::to_string(s.size()) + " bytes)";
    }
    bool matches_final(Model* m_, std::string& why) override
    {
        if (!have_fin) collect();
        auto* m = (JModel*)m_;
        auto cmp = [&](const char* what, const std::string& is, const std::string& should) {
            if (is == should) return true;
            why = std::string(what) + " contains " + text(is) + " instead of " + text(should);
            return false;
        };
        if (!cmp("shared memory", std::string((char*)sh->cell, sizeof sh->cell), std::string((char*)m->cell, sizeof m->cell))) return false;
        if (!cmp("the file", k_content(ino), std::string((char*)m->rec, sizeof m->rec))) return false;
        if (!cmp("the log file", k_content(logino), words(m->log))) return false;
        if (!cmp("the pipe", pipe_content(), words(m->pipe))) return false;
        if (k_offset(logfd) != (off_t)m->log.size() * 8) {
            why = "the log file's offset is " + std::to_string(k_offset(logfd));
            return false;
        }
        if (k_consumed(k_fd_ino(ifd[0])).size() != (size_t)m->in * 8) {
            why = "the transactions have read " + std::to_string(k_consumed(k_fd_ino(ifd[0])).size()) + " bytes of input";
            return false;
        }
        if (k_cwd() != "/d" + std::to_string(m->cwd)) {
            why = "the working directory is " + k_cwd() + " instead of /d" + std::to_string(m->cwd);
            return false;
        }
        for (int t = 0; t < nt; ++t)
            if (!cmp("a thread's file", k_file("/p" + std::to_string(t)), std::string((char*)&m->priv[t], 8))) return false;
        for (int i = 0; i < NS; ++i)
            if ((sh->slot[i].p ? *sh->slot[i].p : -1) != m->slot[i]) {
                why = "heap slot " + std::to_string(i) + " differs";
                return false;
            }
        for (int k = 0; k < 4; ++k) {
            std::vector<int> a = fin[k], b = m->box[k];
            if (k == MSET) {
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
            }
            if (a != b) {
                why = "data structure " + std::to_string(k) + " has " + std::to_string(a.size()) + " entries, expected " + std::to_string(b.size());
                for (int x : a) why += " " + std::to_string(x);
                why += " /";
                for (int x : b) why += " " + std::to_string(x);
                return false;
            }
        }
        return true;
    }
    void after_threads() override
    {
        for (auto& s : sh->slot)
            if (s.p && !heap_is_live(s.p)) fail("early-free", "a block that committed transactions left allocated is free");
    }
    void final_checks() override
    {
        if (k_fds() != fds_before) fail("fd-leak", "the set of open file descriptors has changed");
    }
    void teardown() override
    {
        for (auto& s : sh->slot)
            if (s.p) sim_free(s.p);
        for (int f : {fd, logfd, pfd[0], pfd[1], ifd[0], ifd[1]}) k_close(f);
        k_chdir("/");
    }
    // ------------------------------------------------------------ life cycle
    void thread_begin(int t) override
    {
        if (t < nt - sp->prog.cfg[1]) return;
        // second generation: starts after everything has been released
        while (gen1) block_on(&gen1);
        HeapStat h = heap_stat();
        size_t n = 0;
        for (auto& s : sh->slot) n += s.p != nullptr;
        if (first2 && h.live_blocks != n) {
            std::string l;
            heap_report_leaks(l, 8);
            fail("leak", "%zu heap blocks (%zu bytes) are still allocated after all threads have released their state:%s", h.live_blocks - n, h.live_bytes,
                 l.c_str());
        }
        if (first2 && locks_held()) fail("leak", "%d locks are held although all threads have released their state", locks_held());
        first2 = false;
    }
    bool first2 = true;
    void thread_released(int t) override
    {
        if (t < nt - sp->prog.cfg[1] && --gen1 == 0) wake(&gen1);
    }
    void before_tx(int t, int x) override
    {
        if (!x || (int64_t)(mix(spec().seed, t * 100 + x) % 100) >= sp->prog.cfg[2]) return;
        if (logging()) logf("T%d releases its state", t + 1);
        picotm_release();
        pdata[t] = -1;
    }
    // ------------------------------------------------------------ execution
    void on_begin(TxRun* r) override
    {
        IoScenario::on_begin(r);
        own[r] = own0[r->thread];
        want[self()] = 0;
        x0[self()] = k_xfers(k_fd_ino(pfd[1])).size();
    }
    // an irrevocable transaction that fails leaves its effects behind
    std::vector<std::pair<size_t, size_t>> lost;
    std::map<int, size_t> x0;
    void on_attempt_end(TxRun* r) override
    {
        auto& a = r->cur();
        if (!a.irrevocable || a.outcome == OUT_COMMITTED) return;
        auto& xf = k_xfers(k_fd_ino(pfd[1]));
        bool any = false;
        for (size_t k = x0[self()]; k < xf.size(); ++k)
            if (xf[k].fiber == self()) {
                any = true;
                lost.push_back({xf[k].pos, xf[k].len});
            }
        if (any && a.outcome == OUT_ABORTED) fail("effects-rolled-back", "an irrevocable transaction that has used a stream was rolled back");
    }
    std::string pipe_content()
    {
        std::string t = k_total(k_fd_ino(pfd[1]));
        auto l = lost;
        std::sort(l.begin(), l.end());
        for (auto it = l.rbegin(); it != l.rend(); ++it) t.erase(it->first, it->second);
        return t;
    }
    void on_committed(TxRun* r) override { own0[r->thread] = own[r]; }
    bool expected_error(TxRun* r) override
    {
        if (want[self()] && picotm_error_status() == PICOTM_ERRNO && picotm_error_as_errno() == want[self()]) return true;
        return IoScenario::expected_error(r);
    }
    void on_recovery(TxRun* r) override
    {
        if (!expected_error(r)) IoScenario::on_recovery(r);
        // effects of a failing irrevocable transaction remain
        if (variant == 1 && r->cur().irrevocable) end_run("irrevocable transaction failed");
    }
    // a failed call after a short one gives a partial result; the application gives up
    void complete(ssize_t n, const char* call)
    {
        if (n == 8) return;
        int e = 0;
        auto& v = k_errors(self());
        for (size_t i = err_mark[self()]; i < v.size(); ++i) e = v[i].err;
        if (!e || n <= 0) fail("wrong-result", "%s() returned %zd", call, n);
        want[self()] = e;
        picotm_recover_from_errno(e);
    }
    void exec(TxRun* r, const Op& op) override
    {
        int t = r->thread, k = (int)op.a[0];
        int64_t val = op.a[1], x = 0;
        char* b = buf[t];
        switch (op.code) {
        case CLOAD:
            load_tx(&sh->cell[k], &x, 8);
            rec_i(r, x);
            return;
        case CSTORE:
            store_tx(&sh->cell[k], &val, 8);
            return;
        case CADD:
            load_tx(&sh->cell[k], &x, 8);
            rec_i(r, x);
            x += val;
            store_tx(&sh->cell[k], &x, 8);
            return;
        case PUSH: {
            auto& o = own[r];
            if (o.empty()) {
                rec_i(r, -1);
                return;
            }
            size_t i = val % o.size();
            Item* it = item[o[i]];
            switch (k) {
            case LIST: txlist_push_back_tx(txlist_of_state_tx(&sh->l), &it->le); break;
            case MSET: txmultiset_insert_tx(txmultiset_of_state_tx(&sh->m), &it->me); break;
            case QUEUE: txqueue_push_tx(txqueue_of_state_tx(&sh->q), &it->qe); break;
            case STACK: txstack_push_tx(txstack_of_state_tx(&sh->s), &it->se); break;
            }
            o.erase(o.begin() + i);
            rec_i(r, it->id);
            return;
        }
        case POP: {
            Item* it = nullptr;
            switch (k) {
            case LIST: {
                struct txlist* l = txlist_of_state_tx(&sh->l);
                if (txlist_empty_tx(l)) break;
                it = item_of(&Item::le, txlist_front_tx(l));
                txlist_pop_front_tx(l);
                break;
            }
            case MSET: {
                struct txmultiset* m = txmultiset_of_state_tx(&sh->m);
                struct txmultiset_entry* e = txmultiset_begin_tx(m);
                if (e == txmultiset_end_tx(m)) break;
                it = item_of(&Item::me, e);
                txmultiset_erase_tx(m, e);
                break;
            }
            case QUEUE: {
                struct txqueue* q = txqueue_of_state_tx(&sh->q);
                if (txqueue_empty_tx(q)) break;
                it = item_of(&Item::qe, txqueue_front_tx(q));
                txqueue_pop_tx(q);
                break;
            }
            case STACK: {
                struct txstack* s = txstack_of_state_tx(&sh->s);
                if (txstack_empty_tx(s)) break;
                it = item_of(&Item::se, txstack_top_tx(s));
                txstack_pop_tx(s);
                break;
            }
            }
            if (it) {
                check_item(it);
                own[r].push_back(it->id);
            }
            rec_i(r, it ? it->id : -1);
            return;
        }
        case SIZE: {
            size_t n = 0;
            switch (k) {
            case LIST: n = txlist_size_tx(txlist_of_state_tx(&sh->l)); break;
            case MSET: n = txmultiset_size_tx(txmultiset_of_state_tx(&sh->m)); break;
            case QUEUE: n = txqueue_size_tx(txqueue_of_state_tx(&sh->q)); break;
            case STACK: n = txstack_size_tx(txstack_of_state_tx(&sh->s)); break;
            }
            rec_i(r, n);
            return;
        }
        case FREAD: {
            ssize_t n = pread_tx(fd, b, 8, 8 * k);
            complete(n, "pread");
            load_tx(b, &x, 8);
            rec_i(r, x);
            return;
        }
        case FWRITE: case LOGW: case PIPEW: {
            store_tx(b + 16, &val, 8);
            ssize_t n = op.code == FWRITE ? pwrite_tx(fd, b + 16, 8, 8 * k) : write_tx(op.code == LOGW ? logfd : pfd[1], b + 16, 8);
            complete(n, "write");
            rec_i(r, n);
            return;
        }
        case INREAD: {
            ssize_t n = read_tx(ifd[0], b + 32, 8);
            complete(n, "read");
            load_tx(b + 32, &x, 8);
            rec_i(r, x);
            return;
        }
        case HALLOC: case HFREE: case HREAD: {
            int64_t* p = nullptr;
            load_tx(&sh->slot[k].p, &p, sizeof p);
            if (p && !heap_is_live(p)) fail("early-free", "a block visible to a transaction is free");
            x = -1;
            if (p && op.code != HALLOC) load_tx(p, &x, 8);
            if (p && op.code != HREAD) free_tx(p);
            if (op.code != HREAD) {
                p = nullptr;
                if (op.code == HALLOC) {
                    p = (int64_t*)malloc_tx(8);
                    if (!p || !heap_is_live(p)) fail("null-block", "malloc() returned no block");
                    store_tx(p, &val, 8);
                }
                store_tx(&sh->slot[k].p, &p, sizeof p);
            }
            if (op.code != HALLOC) rec_i(r, x);
            return;
        }
        case CHDIR: {
            static const char* const d[] = {"/d0", "/d1", "/d2", "/d3"};
            if (chdir_tm(d[k])) fail("wrong-result", "chdir() failed");
            return;
        }
        case GETCWD: {
            privatize_tx(b + 64, 32, PICOTM_TM_PRIVATIZE_STORE);
            char* p = getcwd_tm(b + 64, 32);
            if (!p) fail("wrong-result", "getcwd() returned NULL");
            rec_i(r, p[2] - '0');
            return;
        }
        case PRIVW: {
            char p[8];
            snprintf(p, sizeof p, "/p%d", t);
            int f = open_tm(p, O_RDWR);
            if (f < 0) fail("wrong-result", "open() returned %d", f);
            ssize_t n = pread_tx(f, b + 40, 8, 0);
            complete(n, "pread");
            load_tx(b + 40, &x, 8);
            rec_i(r, x);
            store_tx(b + 48, &val, 8);
            complete(pwrite_tx(f, b + 48, 8, 0), "pwrite");
            close_tx(f);
            return;
        }
        case MATH: {
            double v = sqrt_tx((double)val);
            if (v != __builtin_sqrt((double)val)) fail("wrong-result", "sqrt() returned %g", v);
            return;
        }
        case PTR: {
            struct picotm_error e;
            memset(&e, 0, sizeof e);
            void* key = (void*)(0x1000 + 0x100ul * t);
            if (op.a[2]) {
                ptr_set_data(key, (void*)val, &e);
                if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
                pdata[t] = (int)val;
            } else {
                void* p = ptr_get_data(key, &e);
                if (picotm_error_is_set(&e)) picotm_recover_from_error(&e);
                if (p != (void*)(pdata[t] < 0 ? 0l : (long)pdata[t])) fail("local-data", "data of an address is %p instead of %d", p, pdata[t]);
            }
            return;
        }
        case TOUCH:
            errno_tx = (int)val;
            if (fiber_errno() != val) fail("wrong-result", "errno is %d", fiber_errno());
            return;
        case BADSUM: {
            want[self()] = ERANGE;
            int s = add_int_tx(INT_MAX - 3, (int)val + 3);
            fail("no-error", "the sum that does not fit its type is %d", s);
        }
        }
    }
};
MixedScenario* MixedScenario::cur;
Reg r1("mixed", [](const RunSpec&) -> Scenario* { return new MixedScenario(0); });
Reg r2("mixed_faults", [](const RunSpec&) -> Scenario* { return new MixedScenario(1); });
Reg r3("lifecycle", [](const RunSpec&) -> Scenario* { return new MixedScenario(2); });
}  // namespace
