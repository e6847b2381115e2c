// Transactional data structures: C09 (list), C10 (multiset), C11 (queue), C12 (stack), all of them mixed
#include "tx.h"
extern "C" {
#include "picotm/picotm-txlist.h"
#include "picotm/picotm-txlist-state.h"
#include "picotm/picotm-txmultiset.h"
#include "picotm/picotm-txmultiset-state.h"
#include "picotm/picotm-txqueue.h"
#include "picotm/picotm-txqueue-state.h"
#include "picotm/picotm-txstack.h"
#include "picotm/picotm-txstack-state.h"
}
using namespace sim;

namespace {
enum { LIST, MSET, QUEUE, STACK };
enum { PUSH, POP, PEEK, SIZE, EMPTY, SCAN, INSERT, ERASE, CLEAR, MOVE, FIND, RANGE, COUNT, DROP, NOPS };
const int MAXITEMS = 64;

struct Item {
    struct txlist_entry le;
    struct txmultiset_entry me;
    struct txqueue_entry qe;
    struct txstack_entry se;
    int id;
    int key;
};
template <class E> Item* item_of(E Item::*m, E* e)
{
    return (Item*)((char*)e - (size_t) & (((Item*)nullptr)->*m));
}
struct Box {
    struct txlist_state l;
    struct txmultiset_state m;
    struct txqueue_state q;
    struct txstack_state s;
};
int key_of_id(int id) { return id % 5; }
typedef std::vector<int32_t> Ids;
std::string pack(const Ids& v) { return std::string((const char*)v.data(), v.size() * sizeof(int32_t)); }
Ids unpack(const std::string& s)
{
    Ids v(s.size() / sizeof(int32_t));
    memcpy(v.data(), s.data(), s.size());
    return v;
}

struct BoxModel : Model {
    std::vector<int> kind;
    std::vector<Ids> c;     // contents; list and queue front first, stack top last, multiset in arbitrary order
    std::vector<Ids> own;   // per thread: items outside of any container
    int thread = 0;
    Model* clone() const override { return new BoxModel(*this); }
    uint64_t hash() const override
    {
        uint64_t h = 7;
        for (size_t i = 0; i < c.size(); ++i) {
            Ids v = c[i];
            if (kind[i] == MSET) std::sort(v.begin(), v.end());
            h = mix(h, std::hash<std::string>()(pack(v)));
        }
        for (auto& v : own) h = mix(h, std::hash<std::string>()(pack(v)));
        return h;
    }
    static bool same_set(Ids a, Ids b)
    {
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        return a == b;
    }
    static bool sorted_by_key(const Ids& v)
    {
        for (size_t i = 1; i < v.size(); ++i)
            if (key_of_id(v[i - 1]) > key_of_id(v[i])) return false;
        return true;
    }
    bool take(int t, int k, int& id)
    {
        if (own[t].empty()) return false;
        size_t i = k % own[t].size();
        id = own[t][i];
        own[t].erase(own[t].begin() + i);
        return true;
    }
    bool apply(const Op& op, const std::string* v) override
    {
        int t = (int)op.a[4];
        Ids& b = c[op.a[0]];
        int kd = kind[op.a[0]];
        Ids r;
        if (v) r = unpack(*v);
        bool multi = kd == MSET;
        Ids e;   // expected result
        switch (op.code) {
        case PUSH: {
            int id;
            if (!take(t, op.a[1], id)) return !v || r == Ids{-1};
            if (kd == LIST && op.a[2]) b.insert(b.begin(), id);
            else b.push_back(id);
            return !v || r == Ids{id};
        }
        case INSERT: {
            int id;
            if (!take(t, op.a[1], id)) return !v || r == Ids{-1};
            b.insert(b.begin() + op.a[2] % (b.size() + 1), id);
            return !v || r == Ids{id};
        }
        case POP: case MOVE: {
            int id = -1;
            if (!b.empty()) {
                if (multi) {   // the smallest, which one among equals is open
                    int mk = 1000;
                    for (int x : b) mk = std::min(mk, key_of_id(x));
                    if (r.size() != 1) return !v;
                    auto it = std::find(b.begin(), b.end(), r[0]);
                    if (it == b.end() || key_of_id(*it) != mk) return false;
                    id = *it;
                    b.erase(it);
                } else if (kd == STACK || (kd == LIST && op.a[2])) {
                    id = b.back();
                    b.pop_back();
                } else {
                    id = b.front();
                    b.erase(b.begin());
                }
                if (op.code == POP) own[t].push_back(id);
                else c[op.a[3]].push_back(id);
            }
            return !v || r == Ids{id};
        }
        case DROP:
            if (b.empty()) return !v || r == Ids{0};
            if (kd == STACK || (kd == LIST && op.a[2])) b.pop_back();
            else b.erase(b.begin());
            return !v || r == Ids{1};
        case ERASE: {
            int id = -1;
            if (multi) {
                bool has = false;
                for (int x : b) has |= key_of_id(x) == op.a[1];
                if (has) {
                    if (r.size() != 1) return !v;
                    auto it = std::find(b.begin(), b.end(), r[0]);
                    if (it == b.end() || key_of_id(*it) != op.a[1]) return false;
                    id = *it;
                    b.erase(it);
                    own[t].push_back(id);
                }
            } else if (!b.empty()) {
                size_t i = op.a[1] % b.size();
                id = b[i];
                b.erase(b.begin() + i);
                own[t].push_back(id);
            }
            return !v || r == Ids{id};
        }
        case PEEK:
            if (b.empty()) e = {-1};
            else if (kd == STACK) e = {b.back()};
            else e = {op.a[2] ? b.back() : b.front()};
            return !v || r == e;
        case SIZE: return !v || r == Ids{(int)b.size()};
        case EMPTY: return !v || r == Ids{b.empty()};
        case SCAN: case CLEAR: {
            bool ok = true;
            if (v) {
                if (multi) {
                    Ids x = r;
                    if (op.code == SCAN && op.a[2]) std::reverse(x.begin(), x.end());
                    ok = same_set(x, b) && sorted_by_key(x);
                } else {
                    e = b;
                    if (op.code == SCAN && op.a[2]) std::reverse(e.begin(), e.end());
                    ok = r == e;
                }
            }
            if (ok && op.code == CLEAR) {
                const Ids& x = v ? r : b;
                own[t].insert(own[t].end(), x.begin(), x.end());
                b.clear();
            }
            return ok;
        }
        case FIND: {
            if (!v) return true;
            bool has = false;
            for (int x : b) has |= key_of_id(x) == op.a[1];
            if (!has) return r == Ids{-1};
            return r.size() == 1 && std::find(b.begin(), b.end(), r[0]) != b.end() && key_of_id(r[0]) == op.a[1];
        }
        case COUNT: {
            int n = 0;
            for (int x : b) n += key_of_id(x) == op.a[1];
            return !v || r == Ids{n};
        }
        case RANGE: {   // ids from lower to upper bound, then the key of the upper bound (-1: end)
            if (!v) return true;
            int nk = -1;
            for (int x : b) {
                int k = key_of_id(x);
                if (k == op.a[1]) e.push_back(x);
                if (k > op.a[1] && (nk == -1 || k < nk)) nk = k;
            }
            if (r.empty()) return false;
            int up = r.back();
            r.pop_back();
            // without an entry of that key, both bounds may also be the terminator
            if (e.empty()) return r.empty() && (up == nk || up == -1);
            return up == nk && same_set(r, e);
        }
        }
        return true;
    }
};

struct TxlibScenario : TxScenario {
    int only;       // kind, or -1 for a mixture
    std::vector<int> kind;
    std::vector<Box*> box;
    Item* item[MAXITEMS];
    int nitems = 0;
    std::vector<Ids> own0;          // committed ownership per thread
    std::map<TxRun*, Ids> own;      // ownership in the current attempt
    std::vector<Ids> init;
    std::vector<Ids> fin;
    bool have_fin = false;
    explicit TxlibScenario(int k) : only(k) {}

    void gen(Rng& r, RunSpec& s) override
    {
        swarm(r, s.par);
        int nt = r.range(2, 4), nb = r.range(1, 3);
        int own_per = r.range(1, 4), shared = r.below(6);
        std::vector<int> kd;
        for (int i = 0; i < nb; ++i) kd.push_back(only >= 0 ? only : (int)r.below(4));
        s.prog.cfg = {nb, own_per, shared};
        for (int k : kd) s.prog.cfg.push_back(k);
        if (r.chance(0.35)) {
            swarm_faults(r, s.par, {F_OOM}, 0.05);
            if (r.chance(0.6)) s.par.oom_exact = r.range(1, 50);
        }
        int rollback = r.range(5, 50);
        for (int t = 0; t < nt; ++t) {
            Thread th;
            int nx = r.range(1, 4);
            for (int x = 0; x < nx; ++x) {
                Tx tx;
                int no = r.range(1, 7);
                for (int i = 0; i < no; ++i) {
                    Op o;
                    int b = r.below(nb);
                    o.a[0] = b;
                    o.a[1] = r.below(6);
                    o.a[2] = r.below(2);
                    o.a[3] = r.below(nb);
                    o.a[4] = t;
                    int c = r.below(100);
                    bool it = kd[b] == LIST || kd[b] == MSET;
                    if (c < 32) o.code = PUSH;
                    else if (c < 55) o.code = POP;
                    else if (c < 63) o.code = kd[b] == MSET ? FIND : PEEK;
                    else if (c < 70) o.code = SIZE;
                    else if (c < 72) o.code = EMPTY;
                    else if (c < 75) o.code = kd[b] == MSET ? EMPTY : DROP;
                    else if (c < 80) o.code = MOVE;
                    else if (!it) o.code = r.chance(0.5) ? PUSH : POP;
                    else if (c < 86) o.code = SCAN;
                    else if (c < 88) o.code = CLEAR;
                    else if (c < 94) o.code = ERASE;
                    else if (kd[b] == LIST) {
                        o.code = INSERT;
                        o.a[2] = r.below(6);
                    } else o.code = r.chance(0.6) ? RANGE : COUNT;
                    if (kd[b] == MSET && (o.code == ERASE || o.code == FIND || o.code == RANGE || o.code == COUNT)) o.a[1] = r.below(5);
                    tx.ops.push_back(o);
                }
                if ((int)r.below(100) < rollback) {
                    Op o;
                    static const int codes[] = {OP_CONFLICT, OP_CONFLICT, OP_CONFLICT, OP_ERR_CODE, OP_ERR_ERRNO, OP_IRREVOCABLE};
                    o.code = codes[r.below(6)];
                    o.a[0] = r.range(1, 3);
                    o.a[1] = r.range(1, 5);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                if (r.chance(0.15)) {
                    Op o;
                    o.code = r.chance(0.7) ? OP_DELAY : OP_SLEEP;
                    o.a[0] = o.code == OP_DELAY ? r.range(1, 300) : r.range(1, 1500);
                    tx.ops.insert(tx.ops.begin() + r.below(tx.ops.size() + 1), o);
                }
                th.txs.push_back(tx);
            }
            s.prog.th.push_back(th);
        }
    }
    std::string op_name(const Op& op) override
    {
        static const char* n[] = {"push", "pop", "peek", "size", "empty", "scan", "insert", "erase", "clear", "move", "find",
                                  "range", "count", "drop"};
        static const char* kn[] = {"list", "multiset", "queue", "stack"};
        char b[128];
        snprintf(b, sizeof b, "%s(%s%lld,%lld,%lld,->%lld)", op.code < NOPS ? n[op.code] : "?",
                 kind.empty() ? "" : kn[kind[op.a[0]]], (long long)op.a[0], (long long)op.a[1], (long long)op.a[2], (long long)op.a[3]);
        return b;
    }

    // --- container access within a transaction
    void put(int b, Item* it, bool front)
    {
        Box* x = box[b];
        switch (kind[b]) {
        case LIST:
            if (front) txlist_push_front_tx(txlist_of_state_tx(&x->l), &it->le);
            else txlist_push_back_tx(txlist_of_state_tx(&x->l), &it->le);
            break;
        case MSET: txmultiset_insert_tx(txmultiset_of_state_tx(&x->m), &it->me); break;
        case QUEUE: txqueue_push_tx(txqueue_of_state_tx(&x->q), &it->qe); break;
        case STACK: txstack_push_tx(txstack_of_state_tx(&x->s), &it->se); break;
        }
    }
    Item* get(int b, bool back)
    {
        Box* x = box[b];
        Item* it = nullptr;
        switch (kind[b]) {
        case LIST: {
            struct txlist* l = txlist_of_state_tx(&x->l);
            if (txlist_empty_tx(l)) return nullptr;
            it = item_of(&Item::le, back ? txlist_back_tx(l) : txlist_front_tx(l));
            if (back) txlist_pop_back_tx(l);
            else txlist_pop_front_tx(l);
            break;
        }
        case MSET: {
            struct txmultiset* m = txmultiset_of_state_tx(&x->m);
            struct txmultiset_entry* e = txmultiset_begin_tx(m);
            if (e == txmultiset_end_tx(m)) return nullptr;
            it = item_of(&Item::me, e);
            txmultiset_erase_tx(m, e);
            break;
        }
        case QUEUE: {
            struct txqueue* q = txqueue_of_state_tx(&x->q);
            if (txqueue_empty_tx(q)) return nullptr;
            it = item_of(&Item::qe, txqueue_front_tx(q));
            txqueue_pop_tx(q);
            break;
        }
        case STACK: {
            struct txstack* s = txstack_of_state_tx(&x->s);
            if (txstack_empty_tx(s)) return nullptr;
            it = item_of(&Item::se, txstack_top_tx(s));
            txstack_pop_tx(s);
            break;
        }
        }
        check_item(it);
        return it;
    }
    void check_item(Item* it)
    {
        for (int i = 0; i < nitems; ++i)
            if (item[i] == it) return;
        fail("bad-entry", "the data structure returned an entry that was never inserted");
    }
    void recv(TxRun* r, const Ids& v) { rec(r, v.data(), v.size() * sizeof(int32_t)); }
    Item* take(TxRun* r, int k)
    {
        Ids& o = own[r];
        if (o.empty()) return nullptr;
        size_t i = k % o.size();
        Item* it = item[o[i]];
        o.erase(o.begin() + i);
        return it;
    }
    Ids scan(int b, bool rev)
    {
        Ids v;
        Box* x = box[b];
        if (kind[b] == LIST) {
            struct txlist* l = txlist_of_state_tx(&x->l);
            struct txlist_entry *e = txlist_begin_tx(l), *end = txlist_end_tx(l);
            if (!rev)
                for (; e != end; e = txlist_entry_next_tx(e)) add(v, item_of(&Item::le, e));
            else if (e != end)
                for (struct txlist_entry* p = end; p != e;) {
                    p = txlist_entry_prev_tx(p);
                    add(v, item_of(&Item::le, p));
                }
        } else {
            struct txmultiset* m = txmultiset_of_state_tx(&x->m);
            struct txmultiset_entry *e = txmultiset_begin_tx(m), *end = txmultiset_end_tx(m);
            if (!rev)
                for (; e != end; e = txmultiset_entry_next_tx(e)) add(v, item_of(&Item::me, e));
            else if (e != end)
                for (struct txmultiset_entry* p = end; p != e;) {
                    p = txmultiset_entry_prev_tx(p);
                    add(v, item_of(&Item::me, p));
                }
        }
        return v;
    }
    void add(Ids& v, Item* it)
    {
        step();
        check_item(it);
        if ((int)v.size() > nitems) fail("bad-iteration", "iteration over the data structure does not end");
        v.push_back(it->id);
    }
    void on_begin(TxRun* r) override
    {
        own[r] = own0[r->thread];
    }
    void on_committed(TxRun* r) override { own0[r->thread] = own[r]; }

    void exec(TxRun* r, const Op& op) override
    {
        int b = (int)op.a[0];
        Box* x = box[b];
        switch (op.code) {
        case PUSH: {
            Item* it = take(r, op.a[1]);
            if (it) put(b, it, op.a[2]);
            recv(r, {it ? it->id : -1});
            break;
        }
        case INSERT: {
            Item* it = take(r, op.a[1]);
            if (it) {
                struct txlist* l = txlist_of_state_tx(&x->l);
                int n = (int)(op.a[2] % (txlist_size_tx(l) + 1));
                struct txlist_entry* e = txlist_begin_tx(l);
                while (n--) e = txlist_entry_next_tx(e);
                txlist_insert_tx(l, &it->le, e);
            }
            recv(r, {it ? it->id : -1});
            break;
        }
        case POP: {
            Item* it = get(b, op.a[2]);
            if (it) own[r].push_back(it->id);
            recv(r, {it ? it->id : -1});
            break;
        }
        case DROP: {   // removes an entry without looking at it
            bool empty = true;
            switch (kind[b]) {
            case LIST: {
                struct txlist* l = txlist_of_state_tx(&x->l);
                if (!(empty = txlist_empty_tx(l))) {
                    if (op.a[2]) txlist_pop_back_tx(l);
                    else txlist_pop_front_tx(l);
                }
                break;
            }
            case QUEUE: {
                struct txqueue* q = txqueue_of_state_tx(&x->q);
                if (!(empty = txqueue_empty_tx(q))) txqueue_pop_tx(q);
                break;
            }
            case STACK: {
                struct txstack* s = txstack_of_state_tx(&x->s);
                if (!(empty = txstack_empty_tx(s))) txstack_pop_tx(s);
                break;
            }
            }
            recv(r, {!empty});
            break;
        }
        case MOVE: {
            Item* it = get(b, op.a[2]);
            if (it) put((int)op.a[3], it, false);
            recv(r, {it ? it->id : -1});
            break;
        }
        case PEEK: {
            Item* it = nullptr;
            if (kind[b] == LIST) {
                struct txlist* l = txlist_of_state_tx(&x->l);
                if (!txlist_empty_tx(l)) it = item_of(&Item::le, op.a[2] ? txlist_back_tx(l) : txlist_front_tx(l));
            } else if (kind[b] == QUEUE) {
                struct txqueue* q = txqueue_of_state_tx(&x->q);
                if (!txqueue_empty_tx(q)) it = item_of(&Item::qe, op.a[2] ? txqueue_back_tx(q) : txqueue_front_tx(q));
            } else {
                struct txstack* s = txstack_of_state_tx(&x->s);
                if (!txstack_empty_tx(s)) it = item_of(&Item::se, txstack_top_tx(s));
            }
            if (it) check_item(it);
            recv(r, {it ? it->id : -1});
            break;
        }
        case SIZE: {
            size_t n = 0;
            switch (kind[b]) {
            case LIST: n = txlist_size_tx(txlist_of_state_tx(&x->l)); break;
            case MSET: n = txmultiset_size_tx(txmultiset_of_state_tx(&x->m)); break;
            case QUEUE: n = txqueue_size_tx(txqueue_of_state_tx(&x->q)); break;
            case STACK: n = txstack_size_tx(txstack_of_state_tx(&x->s)); break;
            }
            recv(r, {(int)n});
            break;
        }
        case EMPTY: {
            bool n = false;
            switch (kind[b]) {
            case LIST: n = txlist_empty_tx(txlist_of_state_tx(&x->l)); break;
            case MSET: n = txmultiset_empty_tx(txmultiset_of_state_tx(&x->m)); break;
            case QUEUE: n = txqueue_empty_tx(txqueue_of_state_tx(&x->q)); break;
            case STACK: n = txstack_empty_tx(txstack_of_state_tx(&x->s)); break;
            }
            recv(r, {n});
            break;
        }
        case SCAN: recv(r, scan(b, op.a[2])); break;
        case CLEAR: {
            Ids v = scan(b, false);
            if (kind[b] == LIST) txlist_clear_tx(txlist_of_state_tx(&x->l));
            else txmultiset_clear_tx(txmultiset_of_state_tx(&x->m));
            own[r].insert(own[r].end(), v.begin(), v.end());
            recv(r, v);
            break;
        }
        case ERASE: {
            Item* it = nullptr;
            if (kind[b] == LIST) {
                struct txlist* l = txlist_of_state_tx(&x->l);
                size_t n = txlist_size_tx(l);
                if (n) {
                    size_t i = op.a[1] % n;
                    struct txlist_entry* e = txlist_begin_tx(l);
                    while (i--) e = txlist_entry_next_tx(e);
                    it = item_of(&Item::le, e);
                    txlist_erase_tx(l, e);
                }
            } else {
                struct txmultiset* m = txmultiset_of_state_tx(&x->m);
                int key = (int)op.a[1];
                struct txmultiset_entry* e = txmultiset_find_tx(m, &key);
                if (e != txmultiset_end_tx(m)) {
                    it = item_of(&Item::me, e);
                    txmultiset_erase_tx(m, e);
                }
            }
            if (it) {
                check_item(it);
                own[r].push_back(it->id);
            }
            recv(r, {it ? it->id : -1});
            break;
        }
        case FIND: {
            struct txmultiset* m = txmultiset_of_state_tx(&x->m);
            int key = (int)op.a[1];
            struct txmultiset_entry* e = txmultiset_find_tx(m, &key);
            Item* it = e == txmultiset_end_tx(m) ? nullptr : item_of(&Item::me, e);
            if (it) check_item(it);
            recv(r, {it ? it->id : -1});
            break;
        }
        case COUNT: {
            int key = (int)op.a[1];
            recv(r, {(int)txmultiset_count_tx(txmultiset_of_state_tx(&x->m), &key)});
            break;
        }
        case RANGE: {
            struct txmultiset* m = txmultiset_of_state_tx(&x->m);
            int key = (int)op.a[1];
            struct txmultiset_entry* e = txmultiset_lower_bound_tx(m, &key);
            struct txmultiset_entry* u = txmultiset_upper_bound_tx(m, &key);
            struct txmultiset_entry* end = txmultiset_end_tx(m);
            Ids v;
            if (e != end || u == end)
                for (; e != u && e != end; e = txmultiset_entry_next_tx(e)) add(v, item_of(&Item::me, e));
            if (e != u && e == end && !v.empty()) v.push_back(-9);   // the upper bound lies before the lower bound
            v.push_back(u == end ? -1 : item_of(&Item::me, u)->key);
            recv(r, v);
            break;
        }
        }
    }
    static const void* key_cb(struct txmultiset_entry* e) { return &item_of(&Item::me, e)->key; }
    static int cmp_cb(const void* a, const void* b)
    {
        int x = *(const int*)a, y = *(const int*)b;
        return x < y ? -1 : x > y;
    }
    void setup() override
    {
        const auto& cfg = sp->prog.cfg;
        int nb = (int)cfg[0];
        for (int i = 0; i < nb; ++i) {
            kind.push_back((int)cfg[3 + i]);
            Box* b = (Box*)heap_alloc(sizeof(Box));
            txlist_state_init(&b->l);
            txmultiset_state_init(&b->m, key_cb, cmp_cb);
            txqueue_state_init(&b->q);
            txstack_state_init(&b->s);
            box.push_back(b);
        }
        size_t nt = sp->prog.th.size();
        nitems = std::min<int>(MAXITEMS, (int)(nt * cfg[1] + cfg[2]));
        own0.resize(nt);
        init.resize(nb);
        for (int i = 0; i < nitems; ++i) {
            Item* it = (Item*)heap_alloc(sizeof(Item));
            txlist_entry_init(&it->le);
            txmultiset_entry_init(&it->me);
            txqueue_entry_init(&it->qe);
            txstack_entry_init(&it->se);
            it->id = i;
            it->key = key_of_id(i);
            item[i] = it;
            if (i < (int)(nt * cfg[1])) own0[i % nt].push_back(i);
            else init[i % nb].push_back(i);
        }
        faults_enabled(false);
        fill();
        faults_enabled(true);
    }
    __attribute__((noinline)) void fill()
    {
        TxlibScenario* volatile me = this;
        picotm_begin
            for (size_t b = 0; b < me->init.size(); ++b)
                for (int id : me->init[b]) me->put((int)b, me->item[id], false);
        picotm_commit
            fail("unexplained-error", "filling the data structures failed");
        picotm_end
        picotm_release();
    }
    Model* initial() override
    {
        auto* m = new BoxModel;
        m->kind = kind;
        m->c = init;
        m->own = own0_at_start();
        return m;
    }
    std::vector<Ids> own0_at_start()
    {
        std::vector<Ids> o(sp->prog.th.size());
        for (int i = 0; i < (int)(sp->prog.th.size() * sp->prog.cfg[1]) && i < nitems; ++i) o[i % o.size()].push_back(i);
        return o;
    }
    Ids* sink = nullptr;
    static TxlibScenario* cur;
    static void got(Item* it)
    {
        cur->check_item(it);
        if ((int)cur->sink->size() > cur->nitems) fail("bad-iteration", "the data structure contains a cycle");
        cur->sink->push_back(it->id);
    }
    // takes everything out of the containers
    void collect()
    {
        have_fin = true;
        cur = this;
        fin.resize(box.size());
        for (size_t i = 0; i < box.size(); ++i) {
            sink = &fin[i];
            Box* x = box[i];
            txlist_state_clear_and_uninit_entries(&x->l, [](struct txlist_entry* e, void*) { got(item_of(&Item::le, e)); }, nullptr);
            txmultiset_state_clear_and_uninit_entries(&x->m, [](struct txmultiset_entry* e, void*) { got(item_of(&Item::me, e)); }, nullptr);
            txqueue_state_clear_and_uninit_entries(&x->q, [](struct txqueue_entry* e, void*) { got(item_of(&Item::qe, e)); }, nullptr);
            txstack_state_clear_and_uninit_entries(&x->s, [](struct txstack_entry* e, void*) { got(item_of(&Item::se, e)); }, nullptr);
            if (kind[i] == STACK) std::reverse(fin[i].begin(), fin[i].end());
            txlist_state_uninit(&x->l);
            txmultiset_state_uninit(&x->m);
            txqueue_state_uninit(&x->q);
            txstack_state_uninit(&x->s);
        }
        std::vector<int> seen(nitems);
        for (auto& v : fin)
            for (int id : v) seen[id]++;
        for (int i = 0; i < nitems; ++i) {
            if (seen[i] > 1) fail("duplicated-entry", "entry %d is contained %d times", i, seen[i]);
            // entries outside of the containers must be unlinked
            txlist_entry_uninit(&item[i]->le);
            txmultiset_entry_uninit(&item[i]->me);
            txqueue_entry_uninit(&item[i]->qe);
            txstack_entry_uninit(&item[i]->se);
        }
    }
    bool matches_final(Model* m, std::string& why) override
    {
        if (!have_fin) collect();
        auto* b = (BoxModel*)m;
        for (size_t i = 0; i < fin.size(); ++i) {
            bool ok = kind[i] == MSET ? BoxModel::same_set(fin[i], b->c[i]) && BoxModel::sorted_by_key(fin[i]) : fin[i] == b->c[i];
            if (!ok) {
                why = "container " + std::to_string(i) + " contains [";
                for (int x : fin[i]) why += std::to_string(x) + " ";
                why += "] instead of [";
                for (int x : b->c[i]) why += std::to_string(x) + " ";
                why += "]";
                return false;
            }
        }
        return true;
    }
};
TxlibScenario* TxlibScenario::cur;
Reg r1("txlist", [](const RunSpec&) -> Scenario* { return new TxlibScenario(LIST); });
Reg r2("txmultiset", [](const RunSpec&) -> Scenario* { return new TxlibScenario(MSET); });
Reg r3("txqueue", [](const RunSpec&) -> Scenario* { return new TxlibScenario(QUEUE); });
Reg r4("txstack", [](const RunSpec&) -> Scenario* { return new TxlibScenario(STACK); });
Reg r5("txlib_mixed", [](const RunSpec&) -> Scenario* { return new TxlibScenario(-1); });
}  // namespace
