// Driver: batches of simulated runs (one fork each), minimiser, replay.
#include "rt.h"
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <unistd.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace rt;
using std::string; using std::vector;

struct Spec {
    const sim::Scenario *sc; uint64_t wseed, sseed; bool replay;
    vector<Decision> dec; vector<unsigned char> skip;
    Spec() : sc(0), wseed(0), sseed(0), replay(false) {}
};
struct Out { int status; string cls, msg; uint64_t hash, il, steps, switches, simns, nops; vector<Decision> dec; };

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static bool quick = true;
bool sim::quick_tier() { return quick; }

static Out run(const Spec& s, FILE *trace = 0, bool wantdec = false) {
    R->status = 0; R->cls[0] = R->msg[0] = 0; R->ndec = 0; R->hash = 0;
    fflush(stdout); fflush(stderr); if (trace) fflush(trace);
    pid_t p = fork();
    if (p == 0) {
        RunCfg c; memset((void *)&c, 0, sizeof c);
        c.sc = s.sc; c.wseed = s.wseed; c.sseed = s.sseed; c.replay = s.replay;
        c.dec = s.dec.data(); c.ndec = s.dec.size(); c.skip = s.skip.data(); c.nskip = s.skip.size();
        c.trace = trace;
        run_child(c);
    }
    int st = 0; waitpid(p, &st, 0);
    Out o;
    o.status = R->status;
    if (o.status == 0) {       // died without a verdict (kill, exit in library code)
        o.status = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? 3 : 2;
        snprintf(R->cls, sizeof R->cls, "%s", WIFSIGNALED(st) ? "killed" : "unexpected-exit");
        snprintf(R->msg, sizeof R->msg, "process ended with status %x", st);
    }
    o.cls = R->cls; o.msg = R->msg; o.hash = R->hash; o.il = R->ilhash; o.steps = R->steps; o.switches = R->switches; o.simns = R->simns; o.nops = R->nops;
    if (wantdec || o.status == 2) o.dec.assign(R->dec, R->dec + R->ndec);
    return o;
}
static const sim::Scenario *find(const string& n) {
    for (sim::Scenario *s = sim::Scenario::head; s; s = s->next) if (n == s->name) return s;
    fprintf(stderr, "unknown scenario %s\n", n.c_str()); exit(3);
}
static uint64_t hstr(const string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return h; }
static void seeds(Spec& s, uint64_t base, uint64_t i) {
    s.wseed = sim::mix(sim::mix(base, hstr(s.sc->name)), i);
    s.sseed = sim::mix(s.wseed, 0x5eed);
}
static string jesc(const string& s) {
    string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static void save(const Spec& s, const Out& o, const string& file, const string& prop) {
    std::ofstream f(file.c_str());
    f << "simreplay 1\nproperty " << prop << "\nscenario " << s.sc->name << "\nseed " << s.wseed << "\nsseed " << s.sseed << "\nclass " << o.cls << "\nhash " << o.hash << "\nops " << o.nops << "\n";
    f << "skip"; for (size_t i = 0; i < s.skip.size(); i++) if (s.skip[i]) f << " " << i; f << "\n";
    for (auto& d : s.dec) f << "dec " << d.step << " " << (char)d.kind << " " << d.val << "\n";
    f << "# kinds: P preempt to fiber, S stall, B next fiber after a block, T late wakeup, F injected fault\n";
    f << "# violation: "; for (char c : o.msg) { f << c; if (c == '\n') f << "# "; } f << "\n";
    f.close();
    // append the trace as comments
    string tn = file + ".trace";
    FILE *t = fopen(tn.c_str(), "w");
    if (t) {
        run(s, t); fclose(t);
        std::ifstream in(tn.c_str()); std::ofstream ap(file.c_str(), std::ios::app); string l; int n = 0;
        while (std::getline(in, l) && n++ < 400) ap << "# " << l << "\n";
        in.close(); unlink(tn.c_str());
    }
}
static bool load(const string& file, Spec& s, string& cls, uint64_t& hash) {
    std::ifstream f(file.c_str()); string l;
    if (!std::getline(f, l) || l != "simreplay 1") return false;
    s.replay = true;
    vector<size_t> sk;
    while (std::getline(f, l)) {
        std::istringstream is(l); string k; is >> k;
        if (k == "scenario") { string n; is >> n; s.sc = find(n); }
        else if (k == "seed") is >> s.wseed; else if (k == "sseed") is >> s.sseed;
        else if (k == "class") is >> cls; else if (k == "hash") is >> hash;
        else if (k == "skip") { size_t i; while (is >> i) sk.push_back(i); }
        else if (k == "dec") { Decision d; char c; is >> d.step >> c >> d.val; d.kind = c; s.dec.push_back(d); }
    }
    for (size_t i : sk) { if (s.skip.size() <= i) s.skip.resize(i + 1, 0); s.skip[i] = 1; }
    return s.sc != 0;
}
// ------------------------------------------------------------------ minimise
static double g_deadline;
static bool same(const Out& o, const string& cls) { return o.status == 2 && o.cls == cls; }
static void minimise(Spec& s, Out& best, const string& cls) {
    // s is a replay spec that reproduces
    auto try_spec = [&](Spec& c) -> bool {
        Out o = run(c);
        if (same(o, cls)) { Spec n = c; n.dec = o.dec; n.replay = true; // normalise decisions to those that had an effect
            Out o2 = run(n); if (same(o2, cls)) { s = n; best = o2; return true; } }
        return false;
    };
    size_t nops = best.nops;
    if (s.skip.size() < nops) s.skip.resize(nops, 0);
    // 1. operations (ddmin over kept ops); schedules are re-searched when the recorded one no longer fits
    size_t chunk = std::max<size_t>(1, nops / 2);
    while (now() < g_deadline && nops) {
        bool progress = false;
        vector<size_t> kept; for (size_t i = 0; i < s.skip.size(); i++) if (!s.skip[i]) kept.push_back(i);
        for (size_t a = 0; a < kept.size() && now() < g_deadline; a += chunk) {
            Spec c = s; bool any = false;
            for (size_t k = a; k < std::min(a + chunk, kept.size()); k++) if (!c.skip[kept[k]]) { c.skip[kept[k]] = 1; any = true; }
            if (!any) continue;
            bool ok = try_spec(c);
            if (!ok) { Spec d = c; d.dec.clear(); ok = try_spec(d); }
            for (int r = 0; !ok && r < 24 && now() < g_deadline; r++) { Spec d = c; d.dec.clear(); d.replay = false; d.sseed = sim::mix(c.sseed, 1000 + r); ok = try_spec(d); }
            if (ok) progress = true;
        }
        if (chunk == 1) { if (!progress) break; } else chunk = std::max<size_t>(1, chunk / 2);
    }
    // 2. schedule and fault decisions
    { Spec c = s; c.dec.clear(); if (!s.dec.empty()) try_spec(c); }
    size_t ch = std::max<size_t>(1, s.dec.size() / 2);
    while (now() < g_deadline && !s.dec.empty()) {
        bool progress = false;
        for (size_t a = 0; a < s.dec.size() && now() < g_deadline;) {
            Spec c = s; size_t e = std::min(a + ch, c.dec.size());
            c.dec.erase(c.dec.begin() + a, c.dec.begin() + e);
            if (try_spec(c)) progress = true; else a += ch;
        }
        if (ch == 1) { if (!progress) break; } else ch = std::max<size_t>(1, ch / 2);
    }
}
static int usage() { fprintf(stderr, "usage\n"); return 3; }
int main(int argc, char **argv) {
    // identical address space layout in every process
    if (!getenv("PVSIM_NOASLR")) {
        int p = personality(0xffffffff);
        setenv("PVSIM_NOASLR", "1", 1);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    setenv("TZ", "UTC", 1);
    if (const char *t = getenv("VERIF_TIER")) quick = strcmp(t, "thorough") != 0;
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    init();
    if (argc < 2) return usage();
    string cmd = argv[1];
    if (cmd == "list") { for (sim::Scenario *s = sim::Scenario::head; s; s = s->next) printf("%s\n", s->name); return 0; }
    if (cmd == "batch" && argc >= 9) {
        // batch <scenario> <seedbase> <start> <stride> <count> <maxsec> <outprefix>
        Spec s; s.sc = find(argv[2]);
        uint64_t base = strtoull(argv[3], 0, 0), start = strtoull(argv[4], 0, 0), stride = strtoull(argv[5], 0, 0), count = strtoull(argv[6], 0, 0);
        double maxs = atof(argv[7]), t0 = now();
        string pre = argv[8];
        std::set<uint64_t> il, sts; std::map<string, uint64_t> faults, probes; uint64_t runs = 0, steps = 0, sw = 0, nontriv = 0, nops = 0, frun = 0, preempts = 0; double simt = 0;
        std::set<uint64_t> ntset; vector<string> samples; vector<string> viol;
        uint64_t errs = 0; string errmsg;
        for (uint64_t i = start; i < count && now() - t0 < maxs; i += stride) {
            seeds(s, base, i);
            Out o = run(s);
            runs++; steps += o.steps; sw += o.switches; simt += o.simns / 1e9; nops += o.nops; preempts += R->ndec;
            il.insert(sim::mix(o.il, o.hash));
            for (uint32_t k = 0; k < R->nstates; k++) sts.insert(R->states[k]);
            bool anyf = false;
            for (uint32_t k = 0; k < R->nfault; k++) { faults[R->fault[k].name] += R->fault[k].n; anyf = true; }
            if (anyf) frun++;
            for (uint32_t k = 0; k < R->nprobe; k++) probes[R->probe[k].name] += R->probe[k].n;
            if (R->nontriv) { nontriv++; ntset.insert(sim::mix(o.il, o.hash)); }
            if (R->smp[0] && samples.size() < 3) samples.push_back(string("run ") + std::to_string(i) + ": " + R->smp);
            if (o.status == 2) {
                std::ostringstream v; v << "{\"index\":" << i << ",\"cls\":\"" << jesc(o.cls) << "\",\"msg\":\"" << jesc(o.msg) << "\"}";
                viol.push_back(v.str());
                if (viol.size() >= (getenv("PVSIM_KEEPGOING") ? 50 : 1)) break;
            } else if (o.status == 3) { errs++; errmsg = o.msg; break; }
        }
        std::ofstream f((pre + ".json").c_str());
        f << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"switches\":" << sw << ",\"decisions\":" << preempts << ",\"simtime\":" << simt << ",\"ops\":" << nops << ",\"faulty_runs\":" << frun << ",\"nontriv\":" << nontriv << ",\"errs\":" << errs << ",\"errmsg\":\"" << jesc(errmsg) << "\",\"wall\":" << now() - t0;
        auto dump = [&](const char *n, std::map<string, uint64_t>& m) { f << ",\"" << n << "\":{"; bool c = false; for (auto& x : m) { if (c) f << ","; c = true; f << "\"" << jesc(x.first) << "\":" << x.second; } f << "}"; };
        dump("faults", faults); dump("probes", probes);
        f << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << "\"" << jesc(samples[i]) << "\""; f << "]";
        f << ",\"violations\":["; for (size_t i = 0; i < viol.size(); i++) f << (i ? "," : "") << viol[i]; f << "]}\n";
        f.close();
        auto bin = [&](const char *suf, std::set<uint64_t>& h) { std::ofstream b((pre + suf).c_str(), std::ios::binary); vector<uint64_t> v(h.begin(), h.end()); b.write((const char *)v.data(), v.size() * 8); };
        bin(".il", il); bin(".st", sts); bin(".nt", ntset);
        return 0;
    }
    if (cmd == "one" && argc >= 5) {
        Spec s; s.sc = find(argv[2]); seeds(s, strtoull(argv[3], 0, 0), strtoull(argv[4], 0, 0));
        Out o = run(s, argc > 5 ? stdout : 0);
        printf("status %d class %s hash %016llx il %016llx steps %llu switches %llu ops %llu simtime %.3f ndec %u\n%s\n%s\n", o.status, o.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)o.il, (unsigned long long)o.steps, (unsigned long long)o.switches, (unsigned long long)o.nops, o.simns / 1e9, R->ndec, o.msg.c_str(), R->smp);
        for (uint32_t k = 0; k < R->nfault; k++) printf("fault %s %llu\n", R->fault[k].name, (unsigned long long)R->fault[k].n);
        for (uint32_t k = 0; k < R->nprobe; k++) printf("probe %s %llu\n", R->probe[k].name, (unsigned long long)R->probe[k].n);
        return o.status == 1 ? 0 : 1;
    }
    if (cmd == "hashes" && argc >= 6) {       // hashes <scenario> <seedbase> <from> <to>: determinism evidence
        Spec s; s.sc = find(argv[2]);
        for (uint64_t i = strtoull(argv[4], 0, 0); i < strtoull(argv[5], 0, 0); i++) { seeds(s, strtoull(argv[3], 0, 0), i); Out o = run(s); printf("%llu %d %s %016llx %llu\n", (unsigned long long)i, o.status, o.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)o.steps); }
        return 0;
    }
    if (cmd == "min" && argc >= 8) {
        // min <property> <scenario> <seedbase> <index> <maxsec> <outfile>
        Spec s; string prop = argv[2]; s.sc = find(argv[3]); seeds(s, strtoull(argv[4], 0, 0), strtoull(argv[5], 0, 0));
        g_deadline = now() + atof(argv[6]);
        Out a = run(s), b = run(s);
        if (a.status != 2) { printf("NOTREPRODUCED\n"); return 4; }
        if (a.cls != b.cls || a.hash != b.hash) { printf("NONDETERMINISTIC %s %s\n", a.cls.c_str(), b.cls.c_str()); return 4; }
        Spec r = s; r.replay = true; r.dec = a.dec;
        Out c = run(r);
        if (!same(c, a.cls) || (c.hash != a.hash)) { printf("REPLAY-DIVERGED %s/%016llx vs %s/%016llx\n", a.cls.c_str(), (unsigned long long)a.hash, c.cls.c_str(), (unsigned long long)c.hash); return 4; }
        Out best = c;
        size_t d0 = r.dec.size();
        minimise(r, best, a.cls);
        best = run(r);
        if (!same(best, a.cls)) { printf("MINIMISED-DIVERGED\n"); return 4; }
        r.dec = best.dec; best = run(r);
        size_t kept = 0; for (size_t i = 0; i < best.nops; i++) if (i >= r.skip.size() || !r.skip[i]) kept++;
        save(r, best, argv[7], prop);
        printf("MINIMISED class %s ops %llu -> %zu decisions %zu -> %zu\n", best.cls.c_str(), (unsigned long long)a.nops, kept, d0, r.dec.size());
        return 0;
    }
    if (cmd == "replay" && argc >= 3) {
        Spec s; string cls; uint64_t hash = 0;
        if (!load(argv[2], s, cls, hash)) return usage();
        Out o = run(s, argc > 3 ? stdout : 0);
        bool ok = o.status == 2 && o.cls == cls && o.hash == hash;
        printf("%s class %s hash %llu (expected %s %llu)\n%s\n", ok ? "REPRODUCED" : "DIFFERENT", o.cls.c_str(), (unsigned long long)o.hash, cls.c_str(), (unsigned long long)hash, o.msg.c_str());
        return ok ? 1 : (o.status == 1 ? 0 : 4);
    }
    return usage();
}
