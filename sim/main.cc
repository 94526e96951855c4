#include <execinfo.h>
// The driver: seeded search, gates, minimiser, replay, evidence.
#include "eval.h"
#include "wx.h"
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <fstream>
#include <sstream>

void exec_warm(); void exec_actor(const Actor &, int);
static double now_s() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

struct Found { Case c; Viol v; u64 hash = 0; int phase = 0; };
struct Stats {
    u64 runs = 0, phases = 0, variants = 0, steps = 0, faultruns = 0, fired[S_N][F_NKINDS] = {{0}}, commits = 0, oks = 0, errs = 0, invalid = 0, kills = 0, powers = 0, switches = 0; double simtime = 0;
    std::set<u64> traces, states; std::map<std::string, u64> known, inv, reach;
};
static const Profile *prof_of(const std::string &id) { for (int i = 0; i < nprofiles; i++) if (id == profiles[i].prop) return &profiles[i]; return NULL; }

static u64 phash(const PhaseResult &pr) { u64 h = fnv(pr.log.data(), pr.log.size(), pr.thash); u32 x[3] = {pr.crashed, pr.steps, (u32)pr.fired}; h = fnv(x, sizeof x, h); for (int s : pr.status) h = fnv(&s, sizeof s, h); for (auto &f : sim_list("/sim/")) { std::string d; h = fnv(f.data(), f.size(), h); if (sim_get(f, d)) h = fnv(d.data(), d.size(), h); } return h; }
static u64 dbhash(const MDb &d) { u64 h = 1; for (auto &l : d.dump()) h = fnv(l.data(), l.size(), h); return h; }

// ---------------------------------------------------------------- one full case, as stored in replay files
struct RunOut { bool viol = false, invalid = false; Found f; u64 hash = 0; std::string text; };
static RunOut run_case(const Case &c, const Profile &p, bool verbose = false) {
    RunOut o; sim_reset(c.seed); sim_boot(); World w; u64 h = 7;
    for (size_t i = 0; i < c.phases.size(); i++) {
        Before b = look_before(w); PhaseResult pr = run_phase(c.phases[i], exec_actor, true);
        u64 ph = phash(pr); h = fnv(&ph, 8, h);
        if (verbose) {
            printf("---- phase %zu: %u calls, %u faults fired, crashed=%u\n", i, pr.steps, pr.fired, pr.crashed);
            std::string l = pr.log; for (auto &x : l) if (x == 1) x = '|'; printf("%s", l.c_str());
            if (getenv("TRACE")) for (auto &t : pr.trace) printf("   a%d op%d step%u %s ino%d len%u res%d\n", t.actor, t.op, t.step, sys_names[t.kind], (int)t.ino, t.len, t.res);
        }
        Eval e = eval_phase(w, c.phases[i], pr, b);
        if (e.invalid) { o.invalid = true; o.text = e.inv_why; return o; }
        for (auto &v : e.v) { if (verbose) printf("   >> %s: %s\n", v.sig().c_str(), v.text.c_str()); }
        for (auto &v : e.v) if (kind_counts(p, v.kind)) { o.viol = true; o.f.v = v; o.f.phase = (int)i; o.f.c = c; o.f.c.phases.resize(i + 1); o.hash = o.f.hash = h; return o; }
        w = e.w;
    }
    o.hash = h; return o;
}

// ---------------------------------------------------------------- one seed
static Phase inspection(const World &w) {
    Phase p; p.actors.resize(1); u32 id = 1; int n = 0;
    for (auto &k : w.pkg) { std::string h = "i" + std::to_string(n++); for (auto &l : {"open " + h + " " + k.first + " 1", "dump " + h, "gdump " + h, "close " + h}) { Op o; o.id = id++; o.t = split(l, ' '); p.actors[0].ops.push_back(o); } }
    return p;
}
struct Known { std::string prop, kind, opk, text; };
static std::vector<Known> knowns;
static const Known *is_known(const Profile &p, const Viol &v) { for (auto &k : knowns) if (k.prop == p.prop && k.kind == v.kind && (k.opk == "*" || k.opk == v.opk) && v.text.find(k.text) != std::string::npos) return &k; return NULL; }

static bool run_seed(const Profile &p, u64 seed, Stats &st, Found &found, int thorough) {
    Rng r(seed * 2654435761u + fnv(p.prop, strlen(p.prop)) % 1000003);
    sim_reset(seed); sim_boot(); World w; Case c; c.profile = p.prop; c.seed = seed;
    int nph = r.range(p.phases_min, p.phases_max); if (thorough && r.chance(30)) nph += r.range(1, 3);
    bool faultfree = p.fp == FP_NONE || (p.fp == FP_BENIGN && r.chance(40));
    u64 rh = 0; bool anyfault = false; st.runs++;
    std::vector<std::string> strpool; std::map<std::string, int> weight;
    // runs one phase; true when a violation was found
    auto step = [&](const Phase &P, World &W, PhaseResult &pr, bool &dead) -> bool {
        Before b = look_before(W); pr = run_phase(P, exec_actor, true); Eval e = eval_phase(W, P, pr, b);
        if (getenv("DST_LOG")) { fprintf(stderr, "-- phase %zu\n", c.phases.size()); for (auto &A : P.actors) for (auto &o : A.ops) { std::string l; for (auto &x : o.t) l += x + " "; fprintf(stderr, "%u %s\n", o.id, l.c_str()); } fprintf(stderr, "%s", pr.log.c_str()); }
        st.phases++; st.steps += pr.steps; st.commits += e.commits; st.oks += e.oks; st.errs += e.errs; for (int i = 0; i < S_N; i++) for (int k = 0; k < F_NKINDS; k++) st.fired[i][k] += pr.hit[i][k];
        if (pr.crashed == 1) st.kills++; if (pr.crashed == 2) st.powers++; for (size_t i = 1; i < pr.sched.size(); i++) st.switches += pr.sched[i] != pr.sched[i - 1];
        if (pr.fired) anyfault = true;
        rh = fnv(&pr.thash, 8, rh); st.traces.insert(fnv(pr.log.data(), pr.log.size(), pr.thash)); dead = false;
        if (e.invalid) { st.invalid++; st.inv[e.inv_why]++; dead = true; return false; }
        for (auto &n : e.notes) st.reach[n]++;
        Case c2 = c; c2.phases.push_back(P); if (P.actors.size() > 1) { c2.phases.back().use_sched = true; c2.phases.back().sched = pr.sched; }
        for (auto &v : e.v) if (kind_counts(p, v.kind)) {
            if (const Known *k = is_known(p, v)) { st.known[k->kind + " " + k->opk + " " + k->text]++; dead = true; return false; }
            found.c = c2; found.v = v; found.phase = (int)c2.phases.size() - 1; return true;
        }
        W = e.w; c = c2; for (auto &k : W.pkg) for (auto &d : k.second.cand) st.states.insert(dbhash(d));
        return false;
    };
    bool lost = false; // the machine ran something the model gave up on
    for (int ph = 0; ph < nph; ph++) {
        Gen g(r, w); g.prof = p.prop; g.thorough = thorough; g.strpool = strpool; g.weight = r.chance(50) ? weight : std::map<std::string, int>(); p.gen(g, ph, nph); strpool = g.strpool; weight = g.weight;
        Phase P = g.ph; P.power_seed = r.next() & 0xffffff; if (P.actors.size() > 1) { P.sched_seed = r.next(); static const int sp[] = {5, 20, 50, 90}; P.switch_pct = (u32)sp[r.below(4)]; }
        if (P.actors.empty() || P.actors[0].ops.empty()) continue;
        bool dead; PhaseResult pr;
        if (faultfree || p.fp == FP_BENIGN || (ph == 0 && p.phases_min > 1)) {
            if (!faultfree && p.fp == FP_BENIGN) { // harmless disturbances at random points
                int k = r.range(1, 8); for (int i = 0; i < k; i++) { Fault f; memset(&f, 0, sizeof f); f.actor = r.below((u32)P.actors.size()); if (P.actors[f.actor].ops.empty()) continue; f.op = r.pick(P.actors[f.actor].ops).id; f.step = r.below(r.chance(50) ? 6 : 40); u32 x = r.below(100); f.kind = x < 65 ? F_SHORT : x < 80 ? F_EINTR : F_CLOCK; f.param = f.kind == F_CLOCK ? (u32)r.range(-100000, 100000) : r.below(3000); f.count = f.kind != F_CLOCK && r.chance(40) ? (u16)r.range(2, 60) : 1; f.mask = (1u << S_READ) | (1u << S_WRITE); P.faults.push_back(f); }
            }
            if (step(P, w, pr, dead)) return true; if (dead) { lost = true; break; } continue;
        }
        SimSnap S = sim_snapshot(); World w0 = w; Case c0 = c;
        World wd = w; if (step(P, wd, pr, dead)) return true; if (dead) { lost = true; break; }
        Case cd = c; std::vector<std::vector<Fault>> plans; int nv = p.variants * (thorough ? 2 : 1); plan_faults(p, P, pr.trace, r, plans, nv);
        bool cont = false;
        for (auto &F : plans) {
            sim_restore(S); c = c0; World wv = w0; Phase PV = P; PV.faults = F; PV.power_seed = r.next() & 0xffffff; if (PV.actors.size() > 1) { if (r.chance(30)) { PV.use_sched = true; PV.sched = pr.sched; } else { PV.sched_seed = r.next(); static const int sp2[] = {5, 20, 50, 90}; PV.switch_pct = (u32)sp2[r.below(4)]; if (r.chance(35)) PV.faults.clear(); } }
            if (p.fp == FP_WRITE && r.chance(15)) { PV.faults.clear(); PV.capacity_left = 1 + r.below(r.chance(50) ? 4000 : 40000); }
            PhaseResult pv; st.variants++; if (step(PV, wv, pv, dead)) return true; if (dead) continue;
            Phase I = inspection(wv); PhaseResult pi; if (!I.actors[0].ops.empty()) { if (step(I, wv, pi, dead)) return true; if (dead) continue; }
            if (&F == &plans.back()) { w = wv; cont = true; }
        }
        if (!cont) { // go on without a fault
            if (plans.empty()) { w = wd; c = cd; } else { sim_restore(S); c = c0; w = w0; if (step(P, w, pr, dead)) return true; if (dead) { lost = true; break; } }
        }
    }
    if (!lost && !w.pkg.empty()) { PhaseResult pi; bool dead; Phase I = inspection(w); if (step(I, w, pi, dead)) return true; }
    if (anyfault) st.faultruns++;
    st.simtime += (double)(G->clock_us) / 1e6 - 1500000000.0 - (double)(seed % 100000000);
    return false;
}

// ---------------------------------------------------------------- minimising
static bool same_viol(const RunOut &o, const Viol &v) { return o.viol && o.f.v.sig() == v.sig(); }
static void minimise(Found &f, const Profile &p, double budget) {
    double t0 = now_s(); Viol v0 = f.v; int tries = 0;
    auto attempt = [&](const Case &c) -> bool {
        if (now_s() - t0 > budget || tries > 3000) return false; tries++;
        RunOut o = run_case(c, p); if (o.invalid || !same_viol(o, v0)) return false;
        f = o.f; f.c.opt = c.opt; return true;
    };
    bool progress = true;
    while (progress && now_s() - t0 < budget) {
        progress = false;
        for (int i = (int)f.c.phases.size() - 2; i >= 0; i--) { if (i >= (int)f.c.phases.size() - 1) continue; Case c = f.c; c.phases.erase(c.phases.begin() + i); if (attempt(c)) progress = true; }
        for (size_t ph = 0; ph < f.c.phases.size(); ph++) for (int i = (int)f.c.phases[ph].faults.size() - 1; i >= 0; i--) { if (ph >= f.c.phases.size() || i >= (int)f.c.phases[ph].faults.size()) continue; Case c = f.c; c.phases[ph].faults.erase(c.phases[ph].faults.begin() + i); if (attempt(c)) progress = true; }
        for (int ph = (int)f.c.phases.size() - 1; ph >= 0; ph--) for (size_t a = 0; ph < (int)f.c.phases.size() && a < f.c.phases[ph].actors.size(); a++) {
            size_t n = f.c.phases[ph].actors[a].ops.size();
            for (size_t chunk = std::max<size_t>(1, n / 2); chunk >= 1; chunk /= 2) {
                for (size_t i = 0; ph < (int)f.c.phases.size() && i < f.c.phases[ph].actors[a].ops.size();) {
                    Case c = f.c; auto &o = c.phases[ph].actors[a].ops; size_t e = std::min(o.size(), i + chunk); o.erase(o.begin() + (long)i, o.begin() + (long)e);
                    if (attempt(c)) progress = true; else i += chunk;
                }
                if (chunk == 1) break;
            }
        }
        for (size_t ph = 0; ph < f.c.phases.size(); ph++) { // simpler surroundings and columns
            Case c = f.c; Phase &P = c.phases[ph]; if (P.clock_jump || P.tz != "UTC") { P.clock_jump = 0; P.tz = "UTC"; if (attempt(c)) progress = true; }
            if (f.c.phases[ph].use_sched && f.c.phases[ph].sched.size() > 4) { for (size_t chunk = f.c.phases[ph].sched.size() / 2; chunk >= 1; chunk /= 2) { for (size_t i = 0; ph < f.c.phases.size() && i + chunk <= f.c.phases[ph].sched.size(); i += chunk) { Case c2 = f.c; auto &s = c2.phases[ph].sched; bool ch = false; for (size_t j = i; j < i + chunk; j++) if (j && s[j] != s[i - (i ? 1 : 0)]) { s[j] = s[i - (i ? 1 : 0)]; ch = true; } if (ch && attempt(c2)) progress = true; } if (chunk == 1) break; } }
            for (size_t a = 0; ph < f.c.phases.size() && a < f.c.phases[ph].actors.size(); a++) for (size_t i = 0; ph < f.c.phases.size() && i < f.c.phases[ph].actors[a].ops.size(); i++) {
                auto &o = f.c.phases[ph].actors[a].ops[i]; if (o.t[0] != "create" && o.t[0] != "ins" && o.t[0] != "upd") continue;
                for (size_t k = o.t.size() - 1; k >= 5 && ph < f.c.phases.size() && i < f.c.phases[ph].actors[a].ops.size(); k--) { Case c2 = f.c; auto &t = c2.phases[ph].actors[a].ops[i].t; if (k >= t.size()) continue; t.erase(t.begin() + (long)k); if (attempt(c2)) progress = true; }
            }
        }
    }
}

// ---------------------------------------------------------------- workers
static std::string g_found_dir, g_self;
static std::string replay_text(const Found &f, const Profile &p) {
    return "# property " + std::string(p.prop) + "\n# violation " + f.v.sig() + " in phase " + std::to_string(f.phase) + ": " + pct(f.v.text).substr(0, 1500) + "\n# hash " + std::to_string(f.hash) + "\n" + f.c.str();
}
static void write_stats(const Stats &s, const std::string &path) {
    std::ofstream o(path);
    o << "n " << s.runs << " " << s.phases << " " << s.variants << " " << s.steps << " " << s.faultruns << " " << s.commits << " " << s.oks << " " << s.errs << " " << s.invalid << " " << s.kills << " " << s.powers << " " << s.switches << " " << s.simtime << "\n";
    for (int i = 0; i < S_N; i++) for (int k = 0; k < F_NKINDS; k++) if (s.fired[i][k]) o << "f " << i << " " << k << " " << s.fired[i][k] << "\n";
    for (auto h : s.traces) o << "t " << h << "\n"; for (auto h : s.states) o << "s " << h << "\n";
    for (auto &k : s.known) o << "k " << k.second << " " << k.first << "\n"; for (auto &k : s.inv) o << "i " << k.second << " " << k.first << "\n"; for (auto &k : s.reach) o << "r " << k.second << " " << k.first << "\n";
}
static void read_stats(Stats &s, const std::string &path) {
    std::ifstream f(path); std::string l;
    while (std::getline(f, l)) {
        std::istringstream w(l); char k; w >> k;
        if (k == 'n') { Stats x; w >> x.runs >> x.phases >> x.variants >> x.steps >> x.faultruns >> x.commits >> x.oks >> x.errs >> x.invalid >> x.kills >> x.powers >> x.switches >> x.simtime; s.runs += x.runs; s.phases += x.phases; s.variants += x.variants; s.steps += x.steps; s.faultruns += x.faultruns; s.commits += x.commits; s.oks += x.oks; s.errs += x.errs; s.invalid += x.invalid; s.kills += x.kills; s.powers += x.powers; s.switches += x.switches; s.simtime += x.simtime; }
        else if (k == 'f') { int i, j; u64 n; w >> i >> j >> n; s.fired[i][j] += n; }
        else if (k == 't') { u64 h; w >> h; s.traces.insert(h); } else if (k == 's') { u64 h; w >> h; s.states.insert(h); }
        else { u64 n; std::string t; w >> n; std::getline(w, t); (k == 'k' ? s.known : k == 'i' ? s.inv : s.reach)[t.substr(t.empty() ? 0 : 1)] += n; }
    }
}
static std::string jesc(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r; }

static int sh_replay(const std::string &file, std::string &out) { // fresh process
    std::string cmd = g_self + " replay " + file + " 2>/dev/null"; FILE *f = popen(cmd.c_str(), "r"); if (!f) return -1; char b[4096]; size_t n; out.clear(); while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n); int r = pclose(f); return WIFEXITED(r) ? WEXITSTATUS(r) : -1;
}
static void on_segv(int sig) { void *b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); signal(sig, SIG_DFL); raise(sig); }
int main(int argc, char **argv) { if (getenv("DST_LOG")) { signal(SIGSEGV, on_segv); signal(SIGABRT, on_segv); }
    if (!getenv("DST_NOASLR")) { personality(ADDR_NO_RANDOMIZE); setenv("DST_NOASLR", "1", 1); setenv("G_SLICE", "always-malloc", 1); setenv("LC_ALL", "C.UTF-8", 1); setenv("GIO_USE_VFS", "local", 1); setenv("G_DEBUG", "", 1); unsetenv("GCAB_DEBUG"); unsetenv("TMPDIR"); setenv("HOME", "/sim/w", 1); setenv("TMPDIR", "/sim/tmp", 1); setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_abort=0:detect_stack_use_after_return=0", 1); execv("/proc/self/exe", argv); }
    char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); self[sl > 0 ? sl : 0] = 0; g_self = self;
    mallopt(M_PERTURB, 0x5a); setvbuf(stdout, NULL, _IOLBF, 0);
    std::string mode = argc > 1 ? argv[1] : ""; std::map<std::string, std::string> opt; for (int i = 2; i + 1 < argc; i++) if (!strncmp(argv[i], "--", 2)) opt[argv[i] + 2] = argv[i + 1];
    std::string base = opt.count("base") ? opt["base"] : g_self.substr(0, g_self.rfind('/')) + "/..";
    { std::ifstream f(base + "/known-findings.txt"); std::string l; while (std::getline(f, l)) { if (l.compare(0, 6, "known ") != 0) continue; auto w = split(l.substr(6), '\t'); if (w.size() >= 4) { Known k; k.prop = w[0]; k.kind = w[1]; k.opk = w[2]; k.text = w[3]; knowns.push_back(k); } } }
#ifdef WITH_TOOLS
    if (mode == "wxs" && argc > 4) { // writes a generated source tree to a directory
        const WxFacts &F = wx_facts("wx", (u32)atoi(argv[2]), atoi(argv[3])); std::string d = argv[4];
        for (auto &f : F.put) { std::string p = d + "/wx/" + f.first; if (system(("mkdir -p '" + p.substr(0, p.rfind('/')) + "'").c_str())) return 2; FILE *o = fopen(p.c_str(), "w"); if (o) { fwrite(f.second.data(), 1, f.second.size(), o); fclose(o); } }
        for (auto &a : F.args) printf("%s\n", a.c_str()); for (auto &r : F.rows) fprintf(stderr, "%s\n", r.c_str()); return 0;
    }
#endif
    if (mode == "replay" || mode == "show") {
        if (argc < 3) return 2; std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf(); Case c; if (!Case::parse(ss.str(), c)) { fprintf(stderr, "bad replay file\n"); return 3; }
        const Profile *p = prof_of(c.profile); if (!p) { fprintf(stderr, "unknown profile\n"); return 3; }
        sim_init(); exec_warm(); RunOut o = run_case(c, *p, mode == "show");
        if (o.invalid) { printf("INVALID %s\n", o.text.c_str()); return 3; }
        if (o.viol) { printf("VIOLATION property=%s replay=%s\n# %s in phase %d: %s\nhash %llu\n", p->prop, argv[2], o.f.v.sig().c_str(), o.f.phase, o.f.v.text.c_str(), (unsigned long long)o.hash); return 1; }
        printf("held hash %llu\n", (unsigned long long)o.hash); return 0;
    }
    if (mode == "one") { // one <prop> <seed> : a single seed, printing the violation
        const Profile *p = prof_of(argv[2]); sim_init(); exec_warm(); u64 s = strtoull(argv[3], NULL, 10); Stats st; Found f; bool v = run_seed(*p, s, st, f, opt.count("thorough") ? 1 : 0);
        printf("runs %llu phases %llu steps %llu oks %llu errs %llu invalid %llu\n", (unsigned long long)st.runs, (unsigned long long)st.phases, (unsigned long long)st.steps, (unsigned long long)st.oks, (unsigned long long)st.errs, (unsigned long long)st.invalid);
        for (auto &x : st.inv) printf("  invalid %s\n", x.first.c_str());
        if (v) { printf("%s: %s\n", f.v.sig().c_str(), f.v.text.c_str()); if (opt["min"] != "0") minimise(f, *p, 20); RunOut o = run_case(f.c, *p); f = o.viol ? o.f : f; printf("%s", replay_text(f, *p).c_str()); return 1; }
        return 0;
    }
    if (mode == "survey") { setvbuf(stdout, NULL, _IOLBF, 0); // survey <prop> <from> <n> [--filter text]
        const Profile *p = prof_of(argv[2]); sim_init(); exec_warm(); u64 s0 = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10); std::map<std::string, u64> inv; u64 nv = 0;
        for (u64 s = s0; s < s0 + n; s++) { Stats st; Found f; if (run_seed(*p, s, st, f, 0)) { nv++; printf("%llu %s: %s\n", (unsigned long long)s, f.v.sig().c_str(), f.v.text.substr(0, 400).c_str()); } for (auto &x : st.inv) inv[x.first] += x.second; }
        printf("# %llu of %llu violate;", (unsigned long long)nv, (unsigned long long)n); for (auto &x : inv) printf(" inv %s x%llu", x.first.c_str(), (unsigned long long)x.second); printf("\n"); return 0;
    }
    if (mode == "hash") { // hash <prop> <from> <n>: determinism check over many seeds
        const Profile *p = prof_of(argv[2]); sim_init(); exec_warm(); u64 s0 = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10);
        for (u64 s = s0; s < s0 + n; s++) { Stats st; Found f; bool v = run_seed(*p, s, st, f, 0); u64 h = 1; for (auto t : st.traces) h = fnv(&t, 8, h); printf("%llu %d %016llx\n", (unsigned long long)s, v, (unsigned long long)h); }
        return 0;
    }
    if (mode != "check") { fprintf(stderr, "usage: dst check PROP [--secs N --jobs N --seed N --tier T --evidence F --found DIR] | replay F | show F | one PROP SEED\n"); return 2; }
    const Profile *p = prof_of(argc > 2 ? argv[2] : ""); if (!p) { fprintf(stderr, "no such profile\n"); return 2; }
    std::string tier = opt.count("tier") ? opt["tier"] : "quick"; int thorough = tier == "thorough"; double secs = opt.count("secs") ? atof(opt["secs"].c_str()) : thorough ? 600 : 40; int jobs = opt.count("jobs") ? atoi(opt["jobs"].c_str()) : 8; u64 seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), NULL, 10) : 1;
    g_found_dir = opt.count("found") ? opt["found"] : base + "/found"; mkdir(g_found_dir.c_str(), 0777);
    std::string stdir = base + "/build/run-" + p->prop + (opt.count("tag") ? opt["tag"] : "") + "-" + std::to_string((long)syscall(SYS_getpid)); mkdir((base + "/build").c_str(), 0777); mkdir(stdir.c_str(), 0777);
    volatile u64 *ctl = (volatile u64 *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); // [0]=next seed offset [1]=stop
    double t0 = now_s(); u64 maxruns = opt.count("runs") ? strtoull(opt["runs"].c_str(), NULL, 10) : ~0ull;
    std::vector<pid_t> pids;
    for (int j = 0; j < jobs; j++) {
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); int dn = open("/dev/null", O_WRONLY); if (dn >= 0) dup2(dn, 2);
            sim_init(); exec_warm(); Stats st; int rc = 0;
            while (!ctl[1] && now_s() - t0 < secs) {
                u64 k = __atomic_fetch_add((u64 *)&ctl[0], 1, __ATOMIC_SEQ_CST); if (k >= maxruns) break; Found f; u64 s = seed * 10000000ull + k;
                if (!run_seed(*p, s, st, f, thorough)) continue;
                // gate: same case again, in this process, must give the same violation
                RunOut a = run_case(f.c, *p), b = run_case(f.c, *p);
                if (!a.viol || !b.viol || a.hash != b.hash) { st.reach["unreproducible " + f.v.sig()]++; std::ofstream o(stdir + "/unrepro-" + std::to_string(s)); o << replay_text(f, *p); continue; }
                f = a.f; std::string orig = replay_text(f, *p); Found small = f; minimise(small, *p, thorough ? 60 : 25);
                RunOut fin = run_case(small.c, *p); if (fin.viol) small = fin.f; else small = f;
                small.c.seed = f.c.seed;
                std::string path = g_found_dir + "/" + p->prop + "-" + std::to_string(s) + ".case"; { std::ofstream o(path); o << replay_text(small, *p); }
                if (ctl[1]) { unlink(path.c_str()); break; }
                std::string out; int r = sh_replay(path, out); std::string want = "hash " + std::to_string(small.hash);
                if (r != 1 || out.find(want) == std::string::npos) { { std::ofstream o(path); o << orig; } r = sh_replay(path, out); want = "hash " + std::to_string(f.hash); small = f; }
                if (r != 1 || out.find(want) == std::string::npos) { st.reach["unreproducible-fresh " + f.v.sig()]++; std::ofstream o(stdir + "/unrepro-" + std::to_string(s)); o << orig; unlink(path.c_str()); continue; }
                ctl[1] = 1;
                std::ofstream o(stdir + "/viol-" + std::to_string(j)); o << path << "\n" << small.v.sig() << "\n" << pct(small.v.text) << "\n"; rc = 1; break;
            }
            write_stats(st, stdir + "/stat-" + std::to_string(j)); _exit(rc);
        }
        pids.push_back(pid);
    }
    int bad = 0; std::string broken; for (auto q : pids) { int s; waitpid(q, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s) > 1) broken += " worker status " + std::to_string(s); else if (WEXITSTATUS(s) == 1) bad++; }
    double wall = now_s() - t0; Stats S; std::vector<std::array<std::string, 3>> V;
    for (int j = 0; j < jobs; j++) { read_stats(S, stdir + "/stat-" + std::to_string(j)); std::ifstream f(stdir + "/viol-" + std::to_string(j)); std::array<std::string, 3> a; if (std::getline(f, a[0]) && std::getline(f, a[1]) && std::getline(f, a[2])) V.push_back(a); }
    for (auto &k : S.known) printf("KNOWN-FINDING: property=%s %s (met %llu times)\n", p->prop, k.first.c_str(), (unsigned long long)k.second);
    for (auto &v : V) printf("VIOLATION property=%s replay=%s\n  %s: %s\n", p->prop, v[0].c_str(), v[1].c_str(), unpct(v[2]).c_str());
    printf("%s %s: %llu runs, %llu phases (%llu fault variants), %llu simulated calls, %zu distinct histories, %zu distinct package states, %.1f s\n", p->prop, tier.c_str(), (unsigned long long)S.runs, (unsigned long long)S.phases, (unsigned long long)S.variants, (unsigned long long)S.steps, S.traces.size(), S.states.size(), wall);
    for (auto &x : S.inv) printf("  outside the model: %s x%llu\n", x.first.c_str(), (unsigned long long)x.second);
    for (auto &x : S.reach) printf("  reached: %s x%llu\n", x.first.c_str(), (unsigned long long)x.second);
    if (opt.count("evidence")) {
        std::ofstream e(opt["evidence"] + ".new"); std::string cls; u64 tot = 0;
        for (int k = 1; k < F_NKINDS; k++) for (int i = 0; i < S_N; i++) if (S.fired[i][k]) { cls += std::string(cls.empty() ? "" : ", ") + "\"" + fault_names[k] + ":" + sys_names[i] + "\": " + std::to_string(S.fired[i][k]); tot += S.fired[i][k]; }
        std::string reach, inv; for (auto &x : S.reach) reach += (reach.empty() ? "\"" : ", \"") + jesc(x.first) + "\": " + std::to_string(x.second); for (auto &x : S.inv) inv += (inv.empty() ? "\"" : ", \"") + jesc(x.first) + "\": " + std::to_string(x.second);
        std::string kn; for (auto &x : S.known) kn += (kn.empty() ? "\"" : ", \"") + jesc(x.first) + "\": " + std::to_string(x.second);
        char b[512]; struct stat sb; (void)sb;
        e << "{\"property\": \"" << p->prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"" << (opt.count("level") ? opt["level"] : "exploration") << "\",\n \"coverage\": {\"evaluations\": " << S.phases << ", \"distinct_nontrivial\": " << S.traces.size() << ", \"rule\": \"one evaluation = one simulated phase (a process, or several scheduled processes, run to its end, crash or power loss) judged call by call against the reference model; two are distinct when the hash over their complete system-call trace and result log differs\",\n";
        e << "  \"runs\": " << S.runs << ", \"fault_variants\": " << S.variants << ", \"runs_with_faults\": " << S.faultruns << ", \"simulated_calls\": " << S.steps << ", \"commits\": " << S.commits << ", \"ops_ok\": " << S.oks << ", \"ops_failed\": " << S.errs << ", \"distinct_package_states\": " << S.states.size() << ", \"context_switches\": " << S.switches << ", \"process_kills\": " << S.kills << ", \"power_losses\": " << S.powers << ",\n";
        snprintf(b, sizeof b, "  \"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f, \"phases_per_hour\": %.0f, \"simulated_seconds\": %.3f,\n", S.runs / wall * 3600, S.runs / wall * 3600, S.phases / wall * 3600, S.simtime); e << b;
        e << "  \"seeds\": \"" << seed * 10000000ull << ".." << seed * 10000000ull + S.runs - 1 << "\", \"faults_fired_total\": " << tot << ", \"faults_fired\": {" << cls << "}, \"reach\": {" << reach << "}, \"dropped_outside_model\": {" << inv << "}, \"known_findings_met\": {" << kn << "},\n";
        e << "  \"workload\": \"" << jesc(p->desc) << "\",\n  \"real_components\": [\"libmsi (all C sources from /repo, unmodified)\", \"libgsf\", \"GLib/GObject/GIO\", \"libxml2\", \"glibc stdio\", \"process exit and crash (real fork and exit)\"],\n  \"stubbed_components\": [\"kernel file system, page cache and journal\", \"file descriptors\", \"clock\", \"randomness\", \"process scheduler (between system calls)\"],\n";
        e << "  \"samples\": [";
        { bool first = true; for (int i = 0; i < 3; i++) { Stats st; Found f; (void)st; (void)f; std::string smp = "seed " + std::to_string(seed * 10000000ull + (u64)i); e << (first ? "" : ", ") << "\"" << smp << " (dst one " << p->prop << " " << seed * 10000000ull + (u64)i << ")\""; first = false; } }
        e << "]},\n \"assumptions\": [\"the simulated kernel follows POSIX and an ordered-metadata journal; system calls are atomic and are the only scheduling points\", \"seeded search samples histories, it does not exhaust them\"],\n";
        snprintf(b, sizeof b, " \"wall_s\": %.2f, ", wall); e << b << "\"violations\": " << V.size() << "}\n"; e.close(); rename((opt["evidence"] + ".new").c_str(), opt["evidence"].c_str());
    }
    int un = 0; for (auto &x : S.reach) if (x.first.compare(0, 14, "unreproducible") == 0) un += (int)x.second;
    if (!opt.count("keep") && !un) { for (int j = 0; j < jobs; j++) { unlink((stdir + "/stat-" + std::to_string(j)).c_str()); unlink((stdir + "/viol-" + std::to_string(j)).c_str()); } rmdir(stdir.c_str()); }
    if (!V.empty()) return 1;
    if (!broken.empty()) { fprintf(stderr, "broken run:%s\n", broken.c_str()); return 3; }
    if (un) { fprintf(stderr, "broken run: a violation was met that a fresh process does not reproduce; cases in %s\n", stdir.c_str()); return 3; }
    if (S.phases == 0) { fprintf(stderr, "nothing explored\n"); return 3; }
    return 0;
}
