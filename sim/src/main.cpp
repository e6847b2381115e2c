// Driver: search, replay, minimisation.
#include "sim.h"
#include <chrono>
#include <cmath>
#include <csignal>
using namespace sim;

static double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- replay files
static void write_spec(const char* path, const RunSpec& s, const RunResult* r, bool log)
{
    FILE* f = fopen(path, "w");
    if (!f) {
        perror(path);
        exit(2);
    }
    fprintf(f, "picotm-sim-replay 1\nscenario %s\nseed %llu\n", s.scenario.c_str(), (unsigned long long)s.seed);
    fprintf(f, "par %a %d %d %d %llu %llu %llu %u\n", s.par.mean_burst, s.par.policy, s.par.ns_per_step,
            s.par.heap_reuse, (unsigned long long)s.par.fault_stop, (unsigned long long)s.par.fair_from,
            (unsigned long long)s.par.max_steps, s.par.oom_exact);
    fprintf(f, "cfg %zu", s.prog.cfg.size());
    for (auto c : s.prog.cfg) fprintf(f, " %lld", (long long)c);
    fprintf(f, "\n");
    Scenario* sc = log ? make_scenario(s) : nullptr;
    for (size_t t = 0; t < s.prog.th.size(); ++t) {
        fprintf(f, "thread\n");
        for (size_t x = 0; x < s.prog.th[t].txs.size(); ++x) {
            fprintf(f, "tx\n");
            for (auto& o : s.prog.th[t].txs[x].ops) {
                fprintf(f, "op %d %lld %lld %lld %lld %lld", o.code, (long long)o.a[0], (long long)o.a[1],
                        (long long)o.a[2], (long long)o.a[3], (long long)o.a[4]);
                if (sc) fprintf(f, " # %s", sc->describe(s.prog, t, x, o).c_str());
                fprintf(f, "\n");
            }
        }
    }
    delete sc;
    for (auto& x : s.faults) {
        fprintf(f, "fault %d %d %u %lld", x.fiber, x.kind, x.idx, (long long)x.val);
        if (log) fprintf(f, " # T%d: %s", x.fiber, fault_names[x.kind]);
        fprintf(f, "\n");
    }
    for (auto& x : s.sw) fprintf(f, "sw %d %llu %d\n", x.fiber, (unsigned long long)x.lstep, x.to);
    if (r) {
        fprintf(f, "expect %d %s %llx\n", r->violated, r->violated ? r->cls.c_str() : "-",
                (unsigned long long)r->hash);
        if (r->violated) fprintf(f, "what %s\n", r->what.c_str());
        for (auto& l : r->log) fprintf(f, "log %s\n", l.c_str());
    }
    fclose(f);
}
struct Expect {
    bool have = false, violated = false;
    std::string cls;
    unsigned long long hash = 0;
};
static RunSpec read_spec(const char* path, Expect* e)
{
    RunSpec s;
    FILE* f = fopen(path, "r");
    if (!f) {
        perror(path);
        exit(2);
    }
    static char line[1 << 20];
    while (fgets(line, sizeof line, f)) {
        char w[256];
        int n = 0;
        if (sscanf(line, "%255s%n", w, &n) != 1) continue;
        char* p = line + n;
        std::string k = w;
        if (k == "scenario") {
            sscanf(p, "%255s", w);
            s.scenario = w;
        } else if (k == "seed") {
            s.seed = strtoull(p, nullptr, 10);
        } else if (k == "par") {
            unsigned long long a, b, c;
            sscanf(p, "%la %d %d %d %llu %llu %llu %u", &s.par.mean_burst, &s.par.policy, &s.par.ns_per_step,
                   &s.par.heap_reuse, &a, &b, &c, &s.par.oom_exact);
            s.par.fault_stop = a;
            s.par.fair_from = b;
            s.par.max_steps = c;
        } else if (k == "cfg") {
            int cnt = strtol(p, &p, 10);
            for (int i = 0; i < cnt; ++i) s.prog.cfg.push_back(strtoll(p, &p, 10));
        } else if (k == "thread") {
            s.prog.th.emplace_back();
        } else if (k == "tx") {
            s.prog.th.back().txs.emplace_back();
        } else if (k == "op") {
            Op o;
            o.code = strtol(p, &p, 10);
            for (int i = 0; i < 5; ++i) o.a[i] = strtoll(p, &p, 10);
            s.prog.th.back().txs.back().ops.push_back(o);
        } else if (k == "fault") {
            Fault x;
            long long v;
            sscanf(p, "%d %d %u %lld", &x.fiber, &x.kind, &x.idx, &v);
            x.val = v;
            s.faults.push_back(x);
        } else if (k == "sw") {
            Switch x;
            unsigned long long l;
            sscanf(p, "%d %llu %d", &x.fiber, &l, &x.to);
            x.lstep = l;
            s.sw.push_back(x);
        } else if (k == "expect" && e) {
            int v;
            sscanf(p, "%d %255s %llx", &v, w, &e->hash);
            e->have = true;
            e->violated = v;
            e->cls = w;
        }
    }
    fclose(f);
    s.is_explicit = true;
    return s;
}

static RunSpec gen_spec(const std::string& scen, uint64_t seed)
{
    RunSpec s;
    s.scenario = scen;
    s.seed = seed;
    Scenario* sc = make_scenario(s);
    Rng r(mix(seed, 0x9e4));
    sc->gen(r, s);
    delete sc;
    return s;
}

// ---------------------------------------------------------------- minimisation
static bool try_spec(const RunSpec& s, const std::string& cls, RunResult& out)
{
    RunResult r;
    run(s, r, false);
    if (r.violated && r.cls == cls) {
        out = r;
        return true;
    }
    return false;
}

template <class T, class F> static bool ddmin(std::vector<T>& v, F test, double deadline)
{
    bool any = false;
    size_t chunk = (v.size() + 1) / 2;
    while (chunk >= 1 && !v.empty()) {
        bool removed = false;
        for (size_t i = 0; i < v.size();) {
            if (now() > deadline) return any;
            std::vector<T> w;
            w.reserve(v.size());
            for (size_t k = 0; k < v.size(); ++k)
                if (k < i || k >= i + chunk) w.push_back(v[k]);
            if (test(w)) {
                v = w;
                removed = any = true;
            } else {
                i += chunk;
            }
        }
        if (chunk == 1 && !removed) break;
        if (!removed || chunk > v.size()) chunk = chunk == 1 ? 1 : chunk / 2;
        if (chunk == 0) break;
    }
    return any;
}

static RunSpec minimise(RunSpec s, const std::string& cls, double budget, RunResult& res)
{
    double end = now() + budget;
    RunResult r;
    if (!try_spec(s, cls, r)) return s;
    res = r;
    for (int round = 0; round < 4 && now() < end; ++round) {
        bool any = false;
        // transactions
        for (size_t t = 0; t < s.prog.th.size(); ++t) {
            any |= ddmin(s.prog.th[t].txs, [&](std::vector<Tx>& w) {
                RunSpec c = s;
                c.prog.th[t].txs = w;
                return try_spec(c, cls, res);
            }, end);
        }
        for (size_t t = 0; t < s.prog.th.size(); ++t)
            for (size_t x = 0; x < s.prog.th[t].txs.size(); ++x)
                any |= ddmin(s.prog.th[t].txs[x].ops, [&](std::vector<Op>& w) {
                    RunSpec c = s;
                    c.prog.th[t].txs[x].ops = w;
                    return try_spec(c, cls, res);
                }, end);
        any |= ddmin(s.faults, [&](std::vector<Fault>& w) {
            RunSpec c = s;
            c.faults = w;
            return try_spec(c, cls, res);
        }, end);
        any |= ddmin(s.sw, [&](std::vector<Switch>& w) {
            RunSpec c = s;
            c.sw = w;
            return try_spec(c, cls, res);
        }, end);
        if (!any) break;
    }
    // drop empty threads at the end only (thread numbers are part of the schedule)
    while (!s.prog.th.empty() && s.prog.th.back().txs.empty()) {
        RunSpec c = s;
        c.prog.th.pop_back();
        if (!try_spec(c, cls, res)) break;
        s = c;
    }
    try_spec(s, cls, res);
    return s;
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

static std::string spec_text(const RunSpec& s)
{
    Scenario* sc = make_scenario(s);
    std::string o;
    for (size_t t = 0; t < s.prog.th.size(); ++t) {
        o += (t ? " || T" : "T") + std::to_string(t + 1) + ":";
        for (size_t x = 0; x < s.prog.th[t].txs.size(); ++x) {
            o += " {";
            for (auto& op : s.prog.th[t].txs[x].ops) o += " " + sc->describe(s.prog, t, x, op) + ";";
            o += " }";
        }
    }
    delete sc;
    return o;
}

int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    std::map<std::string, std::string> opt;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i) {
        if (!strncmp(argv[i], "--", 2) && i + 1 < argc) {
            opt[argv[i] + 2] = argv[i + 1];
            ++i;
        } else
            pos.push_back(argv[i]);
    }
    auto num = [&](const char* k, double d) { return opt.count(k) ? strtod(opt[k].c_str(), nullptr) : d; };

    if (cmd == "search") {
        // several scenarios, weighted: name=weight,name=weight
        std::vector<std::pair<std::string, double>> sc;
        {
            std::string l = opt["scenarios"];
            size_t p = 0;
            while (p < l.size()) {
                size_t c = l.find(',', p);
                if (c == std::string::npos) c = l.size();
                std::string e = l.substr(p, c - p);
                size_t q = e.find('=');
                sc.push_back({e.substr(0, q), q == std::string::npos ? 1.0 : atof(e.c_str() + q + 1)});
                p = c + 1;
            }
        }
        uint64_t base = strtoull(opt["seed"].c_str(), nullptr, 10);
        uint64_t first = (uint64_t)num("first", 0), stride = (uint64_t)num("stride", 1);
        uint64_t maxruns = (uint64_t)num("runs", 1e18);
        double limit = num("time", 10), t0 = now();
        std::string out = opt["out"];
        double wsum = 0;
        for (auto& s : sc) wsum += s.second;
        uint64_t runs = 0, steps = 0, sws = 0, nontriv = 0, aborted = 0, committed = 0, attempts = 0, recov = 0,
                 irrev = 0, susp = 0, rechecked = 0, fault_runs = 0;
        double simns = 0;
        uint64_t fired[F_NKINDS] = {0};
        std::unordered_set<uint64_t> sigs;
        std::map<std::string, uint64_t> per;
        std::vector<std::string> samples;
        bool violated = false;
        std::string vcls, vwhat, verr;
        for (uint64_t i = first; runs < maxruns; i += stride) {
            if (now() - t0 > limit) break;
            uint64_t seed = mix(mix(base, 0xabcdef), i);
            double u = (mix(seed, 77) >> 11) * 0x1.0p-53 * wsum;
            size_t k = 0;
            while (k + 1 < sc.size() && u >= sc[k].second) u -= sc[k++].second;
            if (opt.count("trace")) fprintf(stderr, "run %llu seed %llu %s\n", (unsigned long long)i, (unsigned long long)seed, sc[k].first.c_str());
            RunSpec s = gen_spec(sc[k].first, seed);
            RunResult r;
            run(s, r, false);
            ++runs;
            ++per[sc[k].first];
            steps += r.steps;
            sws += r.nsw;
            simns += r.sim_ns;
            aborted += r.aborted;
            committed += r.committed;
            attempts += r.attempts;
            recov += r.recoveries;
            irrev += r.irrevocables;
            susp += r.suspended;
            bool fr = false;
            for (int f = 0; f < F_NKINDS; ++f) {
                fired[f] += r.fired[f];
                fr |= r.fired[f] > 0;
            }
            fault_runs += fr;
            if (r.nontrivial) {
                ++nontriv;
                if (sigs.size() < 3000000) sigs.insert(mix(r.sig, std::hash<std::string>()(sc[k].first)));
                if (samples.size() < 3 && runs > 3) {
                    char b[200];
                    snprintf(b, sizeof b, "%s seed=%llu steps=%llu switches=%llu commits=%llu attempts=%llu: ",
                             sc[k].first.c_str(), (unsigned long long)seed, (unsigned long long)r.steps,
                             (unsigned long long)r.nsw, (unsigned long long)r.committed,
                             (unsigned long long)r.attempts);
                    samples.push_back((b + spec_text(s)).substr(0, 1500));
                }
            }
            if (!r.violated && (runs % 97) == 5) {
                // determinism self-check: replay from the explicit record
                RunSpec e = s;
                e.is_explicit = true;
                e.faults = r.faults;
                e.sw = r.sw;
                RunResult r2;
                run(e, r2, false);
                ++rechecked;
                if (r2.hash != r.hash) {
                    verr = "explicit replay of seed " + std::to_string(seed) + " (" + sc[k].first + ") diverged";
                    write_spec((out + ".diverged").c_str(), e, &r, true);
                    break;
                }
            }
            if (r.violated) {
                RunSpec e = s;
                e.is_explicit = true;
                e.faults = r.faults;
                e.sw = r.sw;
                RunResult r2;
                run(e, r2, false);
                if (r.cls == "hang" && !r2.violated) continue;  // the watchdog measures CPU time: not a property of the run
                if (!(r2.violated && r2.cls == r.cls && r2.hash == r.hash)) {
                    verr = "violation of seed " + std::to_string(seed) + " (" + r.cls + ": " + r.what +
                           ") not reproduced by its explicit record (" + (r2.violated ? r2.cls : "none") + ")";
                    write_spec((out + ".diverged").c_str(), e, &r, true);
                    break;
                }
                violated = true;
                vcls = r.cls;
                vwhat = r.what;
                write_spec((out + ".replay").c_str(), e, &r, true);
                break;
            }
        }
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"nontrivial\":%llu,\"aborted\":%llu,\"committed\":%llu,"
                   "\"attempts\":%llu,\"recoveries\":%llu,\"irrevocable\":%llu,\"suspensions\":%llu,\"sim_s\":%.6f,"
                   "\"rechecked\":%llu,\"fault_runs\":%llu,\"wall_s\":%.3f,",
                (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sws,
                (unsigned long long)nontriv, (unsigned long long)aborted, (unsigned long long)committed,
                (unsigned long long)attempts, (unsigned long long)recov, (unsigned long long)irrev,
                (unsigned long long)susp, simns / 1e9, (unsigned long long)rechecked,
                (unsigned long long)fault_runs, now() - t0);
        fprintf(f, "\"faults\":{");
        for (int k = 0; k < F_NKINDS; ++k)
            fprintf(f, "%s\"%s\":%llu", k ? "," : "", fault_names[k], (unsigned long long)fired[k]);
        fprintf(f, "},\"scenarios\":{");
        bool firstp = true;
        for (auto& p : per) {
            fprintf(f, "%s%s:%llu", firstp ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second);
            firstp = false;
        }
        fprintf(f, "},\"samples\":[");
        for (size_t k = 0; k < samples.size(); ++k) fprintf(f, "%s%s", k ? "," : "", jstr(samples[k]).c_str());
        fprintf(f, "],\"violated\":%s,\"cls\":%s,\"what\":%s,\"error\":%s}\n", violated ? "true" : "false",
                jstr(vcls).c_str(), jstr(vwhat).c_str(), jstr(verr).c_str());
        fclose(f);
        FILE* g = fopen((out + ".sigs").c_str(), "wb");
        std::vector<uint64_t> v(sigs.begin(), sigs.end());
        fwrite(v.data(), 8, v.size(), g);
        fclose(g);
        return 0;
    }
    if (cmd == "gen") {
        RunSpec s = gen_spec(pos[0], strtoull(pos[1].c_str(), nullptr, 10));
        RunResult r;
        run(s, r, true);
        s.faults = r.faults;
        s.sw = r.sw;
        write_spec(pos[2].c_str(), s, &r, true);
        printf("violated=%d cls=%s what=%s hash=%llx steps=%llu\n", r.violated, r.cls.c_str(), r.what.c_str(),
               (unsigned long long)r.hash, (unsigned long long)r.steps);
        return 0;
    }
    if (cmd == "replay") {
        Expect e;
        RunSpec s = read_spec(pos[0].c_str(), &e);
        RunResult r;
        run(s, r, true);
        if (opt.count("log"))
            for (auto& l : r.log) printf("%s\n", l.c_str());
        printf("violated=%d cls=%s hash=%llx steps=%llu\nwhat=%s\n", r.violated, r.violated ? r.cls.c_str() : "-",
               (unsigned long long)r.hash, (unsigned long long)r.steps, r.what.c_str());
        if (e.have && (e.violated != r.violated || (e.violated && (e.cls != r.cls || e.hash != r.hash)))) {
            printf("differs from the recorded outcome: %s %llx\n", e.cls.c_str(), e.hash);
            return 3;
        }
        return r.violated ? 1 : 0;
    }
    if (cmd == "minimise") {
        Expect e;
        RunSpec s = read_spec(pos[0].c_str(), &e);
        RunResult r;
        RunSpec m = minimise(s, e.cls, num("time", 20), r);
        if (!r.violated) {
            fprintf(stderr, "not reproduced\n");
            return 3;
        }
        RunResult r2;
        run(m, r2, true);
        write_spec(pos[1].c_str(), m, &r2, true);
        size_t ops = 0, txs = 0;
        for (auto& t : m.prog.th)
            for (auto& x : t.txs) {
                ++txs;
                ops += x.ops.size();
            }
        printf("minimised: %zu transactions, %zu operations, %zu faults, %zu switches\n", txs, ops, m.faults.size(),
               m.sw.size());
        return r2.violated && r2.cls == e.cls && r2.hash == r.hash ? 0 : 3;
    }
    return 2;
}
