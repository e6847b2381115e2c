// Containers of entries whose memory comes from and goes back to the transactional heap: C23, C16.
// The node is allocated, initialised and inserted by one transaction, and changed, moved, removed and released by others,
// often several of these in the same transaction.
#include "io.h"
extern "C" {
#define template template_
#define restrict
#include "picotm/stdlib.h"
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txlist-state.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-txmultiset-state.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
#undef template
#undef restrict
void sim_free(void*);
}
using namespace sim;

namespace {
enum { LIST, MSET, QUEUE, STACK };
enum { NEW, DEL, MOVE, PEEK, CHANGE, SUM, SIZE, FIND, NOPS };
const char* const names[] = {"new", "delete", "move", "peek", "change", "sum", "size", "find"};
const char* const kinds[] = {"list", "multiset", "queue", "stack"};

struct Node {
    int64_t val;
    struct txlist_entry le;
    struct txmultiset_entry me;
    struct txqueue_entry qe;
    struct txstack_entry se;
    int64_t id;      // never changes
    int64_t key;     // never changes
};
template <class E> Node* node_of(E Node::*m, E* e) { return (Node*)((char*)e - (size_t) & (((Node*)nullptr)->*m)); }
struct Box {
    struct txlist_state l;
    struct txmultiset_state m;
    struct txqueue_state q;
    struct txstack_state s;
};
int64_t key_of_id(int64_t id) { return id % 3; }
struct NV {
    int64_t id, val;
    bool operator==(const NV& o) const { return id == o.id && val == o.val; }
    bool operator<(const NV& o) const { return id < o.id; }
};

struct NodeModel : Model {
    std::vector<int> kind;
    std::vector<std::vector<NV>> c;   // list and queue: front first; stack: top last
    Model* clone() const override { return new NodeModel(*this); }
    uint64_t hash() const override
    {
        uint64_t h = 3;
        for (size_t i = 0; i < c.size(); ++i) {
            auto v = c[i];
            if (kind[i] == MSET) std::sort(v.begin(), v.end());
            h = mix(h, v.size());
            for (auto& x : v) h = mix(mix(h, (uint64_t)x.id), (uint64_t)x.val);
        }
        return h;
    }
    // index of the node that the operation refers to; -1: none; -2: not the observed one
    int pick(int b, bool back, const NV* seen)
    {
        auto& v = c[b];
        if (v.empty()) return -1;
        if (kind[b] == MSET) {
            int64_t mk = 1000;
            for (auto& x : v) mk = std::min(mk, key_of_id(x.id));
            for (size_t i = 0; i < v.size(); ++i)
                if (seen ? v[i] == *seen && key_of_id(v[i].id) == mk : key_of_id(v[i].id) == mk) return (int)i;
            return -2;
        }
        return kind[b] == STACK || (kind[b] == LIST && back) ? (int)v.size() - 1 : 0;
    }
    bool apply(const Op& op, const std::string* r) override
    {
        int b = (int)op.a[0];
        auto& v = c[b];
        NV seen{-1, 0};
        if (r && r->size() == sizeof(NV)) memcpy(&seen, r->data(), sizeof seen);
        bool any = !r;
        switch (op.code) {
        case NEW: {
            NV n{op.a[1], op.a[1] * 100};
            if (kind[b] == LIST && op.a[2]) v.insert(v.begin(), n);
            else v.push_back(n);
            return true;
        }
        case DEL: case MOVE: case PEEK: case CHANGE: {
            int i = pick(b, op.a[2], any ? nullptr : &seen);
            if (i == -2) return false;
            if (i == -1) return any || seen.id == -1;
            if (!any && !(v[i] == seen)) return false;
            NV n = v[i];
            if (op.code == CHANGE) v[i].val += op.a[1];
            if (op.code == DEL || op.code == MOVE) v.erase(v.begin() + i);
            if (op.code == MOVE) c[op.a[3]].push_back(n);
            return true;
        }
        case SUM: {
            NV s{(int64_t)v.size(), 0};
            for (auto& x : v) s.val += x.val;
            return any || seen == s;
        }
        case SIZE: return any || seen.id == (int64_t)v.size();
        case FIND: {
            if (any) return true;
            for (auto& x : v)
                if (key_of_id(x.id) == op.a[1] && x == seen) return true;
            if (seen.id != -1) return false;
            for (auto& x : v)
                if (key_of_id(x.id) == op.a[1]) return false;
            return true;
        }
        }
        return true;
    }
    std::string dump() const override
    {
        std::string o;
        for (auto& v : c) {
            o += "[";
            for (auto& x : v) o += std::to_string(x.id) + "=" + std::to_string(x.val) + " ";
            o += "]";
        }
        return o;
    }
};

struct NodeScenario : TxScenario {
    std::vector<int> kind;
    std::vector<Box*> box;
    std::vector<std::vector<NV>> init, fin;

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = r.range(2, 4), nb = r.range(1, 3), n0 = r.below(5);
        s.prog.cfg = {nb, n0};
        std::vector<int> kd;
        int all = r.chance(0.5) ? (int)r.below(4) : -1;
        for (int i = 0; i < nb; ++i) kd.push_back(all >= 0 ? all : (int)r.below(4));
        for (int k : kd) s.prog.cfg.push_back(k);
        s.par.heap_reuse = r.chance(0.6);
        if (r.chance(0.3)) {
            swarm_faults(r, s.par, {F_OOM}, 0.05);
            if (r.chance(0.6)) s.par.oom_exact = r.range(1, 60);
        }
        int id = n0;
        int rollback = r.range(5, 50), wnew = r.range(15, 40), wdel = r.range(15, 40);
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 6);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    o.a[0] = r.below(nb);
                    o.a[1] = r.range(1, 9);
                    o.a[2] = r.below(2);
                    o.a[3] = r.below(nb);
                    o.a[4] = r.below(3);
                    int c = r.below(100);
                    if (c < wnew) {
                        o.code = NEW;
                        o.a[1] = id++;
                    } else if (c < wnew + wdel) o.code = DEL;
                    else {
                        static const int codes[] = {MOVE, MOVE, PEEK, CHANGE, CHANGE, SUM, SIZE, FIND};
                        o.code = codes[r.below(8)];
                    }
                    int k = kd[o.a[0]];
                    if (o.code == SUM && k != LIST && k != MSET) o.code = CHANGE;
                    if (o.code == FIND) {
                        if (k != MSET) o.code = PEEK;
                        else o.a[1] = r.below(3);
                    }
                    tx.ops.push_back(o);
                }
                if ((int)r.below(100) < rollback) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_ERR_ERRNO, OP_IRREVOCABLE};
                    o.code = codes[r.below(6)];
                    o.a[0] = r.range(1, 3);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.15)) {
                    Op o;
                    o.code = r.chance(0.7) ? OP_DELAY : OP_SLEEP;
                    o.a[0] = o.code == OP_DELAY ? r.range(1, 300) : r.range(1, 1500);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        char b[128];
        snprintf(b, sizeof b, "%s(%s%lld,%lld,%lld,->%lld)", op.code < NOPS ? names[op.code] : "?", kind.empty() ? "" : kinds[kind[op.a[0]]],
                 (long long)op.a[0], (long long)op.a[1], (long long)op.a[2], (long long)op.a[3]);
        return b;
    }

    // --- within transactions
    void link(int b, Node* n, bool front)
    {
        Box* x = box[b];
        switch (kind[b]) {
        case LIST:
            if (front) txlist_push_front_tx(txlist_of_state_tx(&x->l), &n->le);
            else txlist_push_back_tx(txlist_of_state_tx(&x->l), &n->le);
            break;
        case MSET: txmultiset_insert_tx(txmultiset_of_state_tx(&x->m), &n->me); break;
        case QUEUE: txqueue_push_tx(txqueue_of_state_tx(&x->q), &n->qe); break;
        case STACK: txstack_push_tx(txstack_of_state_tx(&x->s), &n->se); break;
        }
    }
    Node* look(int b, bool back, bool remove)
    {
        Box* x = box[b];
        Node* n = nullptr;
        switch (kind[b]) {
        case LIST: {
            struct txlist* l = txlist_of_state_tx(&x->l);
            if (txlist_empty_tx(l)) return nullptr;
            n = node_of(&Node::le, back ? txlist_back_tx(l) : txlist_front_tx(l));
            live(n);
            if (remove && back) txlist_pop_back_tx(l);
            else if (remove) txlist_pop_front_tx(l);
            return n;
        }
        case MSET: {
            struct txmultiset* m = txmultiset_of_state_tx(&x->m);
            struct txmultiset_entry* e = txmultiset_begin_tx(m);
            if (e == txmultiset_end_tx(m)) return nullptr;
            n = node_of(&Node::me, e);
            live(n);
            if (remove) txmultiset_erase_tx(m, e);
            return n;
        }
        case QUEUE: {
            struct txqueue* q = txqueue_of_state_tx(&x->q);
            if (txqueue_empty_tx(q)) return nullptr;
            n = node_of(&Node::qe, txqueue_front_tx(q));
            live(n);
            if (remove) txqueue_pop_tx(q);
            return n;
        }
        default: {
            struct txstack* s = txstack_of_state_tx(&x->s);
            if (txstack_empty_tx(s)) return nullptr;
            n = node_of(&Node::se, txstack_top_tx(s));
            live(n);
            if (remove) txstack_pop_tx(s);
            return n;
        }
        }
    }
    void live(Node* n)
    {
        if (!heap_is_live(n)) fail("dangling-node", "the data structure contains a node whose memory has been released");
    }
    Node* make(int64_t id)
    {
        Node* n = (Node*)malloc_tx(sizeof(Node));
        live(n);
        n->id = id;
        n->key = key_of_id(id);
        n->val = id * 100;
        txlist_entry_init_tm(&n->le);
        txmultiset_entry_init_tm(&n->me);
        txqueue_entry_init_tm(&n->qe);
        txstack_entry_init_tm(&n->se);
        return n;
    }
    NV load(Node* n)
    {
        if (!n) return {-1, 0};
        NV v{load_llong_tx((const long long*)&n->id), load_llong_tx((const long long*)&n->val)};
        return v;
    }
    void recv(TxRun* r, NV v) { rec(r, &v, sizeof v); }

    void exec(TxRun* r, const Op& op) override
    {
        int b = (int)op.a[0];
        Box* x = box[b];
        switch (op.code) {
        case NEW: {
            Node* n = make(op.a[1]);
            link(b, n, op.a[2]);
            break;
        }
        case DEL: {
            Node* n = look(b, op.a[2], true);
            NV v = load(n);
            if (n) {
                if (op.a[4] && (kind[b] == LIST || kind[b] == MSET)) {
                    // the removed entry belongs to this transaction
                    if (op.a[4] == 1) privatize_tx(n, sizeof *n, PICOTM_TM_PRIVATIZE_LOADSTORE);
                    if (op.a[4] == 1) {
                        txlist_entry_uninit_tm(&n->le);
                        txmultiset_entry_uninit_tm(&n->me);
                    }
                }
                free_tx(n);
            }
            recv(r, v);
            break;
        }
        case MOVE: {
            Node* n = look(b, op.a[2], true);
            NV v = load(n);
            if (n) link((int)op.a[3], n, false);
            recv(r, v);
            break;
        }
        case PEEK: recv(r, load(look(b, op.a[2], false))); break;
        case CHANGE: {
            Node* n = look(b, op.a[2], false);
            NV v = load(n);
            if (n) store_llong_tx((long long*)&n->val, v.val + op.a[1]);
            recv(r, v);
            break;
        }
        case SUM: {
            NV s{0, 0};
            if (kind[b] == LIST) {
                struct txlist* l = txlist_of_state_tx(&x->l);
                struct txlist_entry* end = txlist_end_tx(l);
                for (struct txlist_entry* e = txlist_begin_tx(l); e != end; e = txlist_entry_next_tx(e)) add(s, node_of(&Node::le, e));
            } else {
                struct txmultiset* m = txmultiset_of_state_tx(&x->m);
                struct txmultiset_entry* end = txmultiset_end_tx(m);
                for (struct txmultiset_entry* e = txmultiset_begin_tx(m); e != end; e = txmultiset_entry_next_tx(e)) add(s, node_of(&Node::me, e));
            }
            recv(r, s);
            break;
        }
        case SIZE: {
            size_t n = 0;
            switch (kind[b]) {
            case LIST: n = txlist_size_tx(txlist_of_state_tx(&x->l)); break;
            case MSET: n = txmultiset_size_tx(txmultiset_of_state_tx(&x->m)); break;
            case QUEUE: n = txqueue_size_tx(txqueue_of_state_tx(&x->q)); break;
            case STACK: n = txstack_size_tx(txstack_of_state_tx(&x->s)); break;
            }
            recv(r, {(int64_t)n, 0});
            break;
        }
        case FIND: {
            struct txmultiset* m = txmultiset_of_state_tx(&x->m);
            int64_t key = op.a[1];
            struct txmultiset_entry* e = txmultiset_find_tx(m, &key);
            Node* n = e == txmultiset_end_tx(m) ? nullptr : node_of(&Node::me, e);
            if (n) live(n);
            recv(r, load(n));
            break;
        }
        }
    }
    void add(NV& s, Node* n)
    {
        step();
        live(n);
        if (++s.id > 1000) fail("bad-iteration", "iteration over the data structure does not end");
        s.val += load_llong_tx((const long long*)&n->val);
    }

    static const void* key_cb(struct txmultiset_entry* e) { return &node_of(&Node::me, e)->key; }
    static int cmp_cb(const void* a, const void* b)
    {
        int64_t x = *(const int64_t*)a, y = *(const int64_t*)b;
        return x < y ? -1 : x > y;
    }
    void setup() override
    {
        const auto& cfg = sp->prog.cfg;
        int nb = (int)cfg[0];
        for (int i = 0; i < nb; ++i) {
            kind.push_back((int)cfg[2 + i]);
            Box* b = (Box*)heap_alloc(sizeof(Box));
            txlist_state_init(&b->l);
            txmultiset_state_init(&b->m, key_cb, cmp_cb);
            txqueue_state_init(&b->q);
            txstack_state_init(&b->s);
            box.push_back(b);
        }
        init.resize(nb);
        for (int i = 0; i < (int)cfg[1]; ++i) init[i % nb].push_back({i, i * 100});
        faults_enabled(false);
        fill();
        faults_enabled(true);
    }
    __attribute__((noinline)) void fill()
    {
        NodeScenario* volatile me = this;
        picotm_begin
            for (size_t b = 0; b < me->init.size(); ++b)
                for (size_t i = 0; i < me->init[b].size(); ++i) me->link((int)b, me->make(me->init[b][i].id), false);
        picotm_commit
            fail("unexplained-error", "filling the data structures failed");
        picotm_end
        picotm_release();
    }
    Model* initial() override
    {
        auto* m = new NodeModel;
        m->kind = kind;
        m->c = init;
        return m;
    }
    static NodeScenario* cur;
    static size_t cur_box;
    static void got(Node* n)
    {
        cur->live(n);
        cur->fin[cur_box].push_back({n->id, n->val});
        sim_free(n);
    }
    void after_threads() override
    {
        cur = this;
        fin.resize(box.size());
        for (size_t i = 0; i < box.size(); ++i) {
            cur_box = i;
            Box* x = box[i];
            txlist_state_clear_and_uninit_entries(&x->l, [](struct txlist_entry* e, void*) { got(node_of(&Node::le, e)); }, nullptr);
            txmultiset_state_clear_and_uninit_entries(&x->m, [](struct txmultiset_entry* e, void*) { got(node_of(&Node::me, e)); }, nullptr);
            txqueue_state_clear_and_uninit_entries(&x->q, [](struct txqueue_entry* e, void*) { got(node_of(&Node::qe, e)); }, nullptr);
            txstack_state_clear_and_uninit_entries(&x->s, [](struct txstack_entry* e, void*) { got(node_of(&Node::se, e)); }, nullptr);
            if (kind[i] == STACK) std::reverse(fin[i].begin(), fin[i].end());
            txlist_state_uninit(&x->l);
            txmultiset_state_uninit(&x->m);
            txqueue_state_uninit(&x->q);
            txstack_state_uninit(&x->s);
        }
    }
    bool matches_final(Model* m, std::string& why) override
    {
        auto* n = (NodeModel*)m;
        for (size_t i = 0; i < fin.size(); ++i) {
            auto a = fin[i], b = n->c[i];
            if (kind[i] == MSET) {
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
            }
            if (!(a == b)) {
                why = "container " + std::to_string(i) + " contains [";
                for (auto& v : fin[i]) why += std::to_string(v.id) + "=" + std::to_string(v.val) + " ";
                why += "] instead of " + m->dump();
                return false;
            }
        }
        return true;
    }
};
NodeScenario* NodeScenario::cur;
size_t NodeScenario::cur_box;
Reg r1("nodes", [](const RunSpec&) -> Scenario* { return new NodeScenario; });
}  // namespace
