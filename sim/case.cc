#include "case.h"
#include <gsf/gsf.h>
#include <algorithm>
#include <set>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <signal.h>
#include <time.h>
#include <linux/futex.h>

std::string pct(const std::string &s) {
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (isalnum(c) || c == '_' || c == '.' || c == '-' || c == '/' || c == '{' || c == '}' || c == '!' || c == '[' || c == ']' || c == '*') r += (char)c;
        else { snprintf(b, sizeof b, "%%%02x", c); r += b; }
    }
    return r;
}
std::string unpct(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), NULL, 16); i += 2; }
        else r += s[i];
    return r;
}
std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> v; size_t i = 0;
    if (s.empty()) return v;
    for (;;) { size_t j = s.find(c, i); if (j == std::string::npos) { v.push_back(s.substr(i)); break; } v.push_back(s.substr(i, j - i)); i = j + 1; }
    return v;
}
std::string Op::str() const { std::string r = std::to_string(id); for (auto &x : t) { r += " "; r += x.empty() ? "''" : x; } return r; }
std::string gen_bytes(u32 len, u32 seed) {
    std::string r(len, 0); Rng g(seed + 77);
    for (u32 i = 0; i < len; i += 8) { u64 v = g.next(); memcpy(&r[i], &v, len - i < 8 ? len - i : 8); }
    return r;
}
static void ole_fill(GsfOutfile *o, Rng &r, int depth, const std::string &path, std::vector<std::string> *L) {
    static const char *nm[] = {"x", "data", "Stream", "caf\xc3\xa9", "\x05SummaryInformation", "a.b", "z9"}; int n = depth ? (int)r.below(4) : 1 + (int)r.below(4); std::set<std::string> used;
    for (int i = 0; i < n; i++) {
        std::string name = nm[r.below(7)]; if (!used.insert(name).second) continue;
        bool dir = depth < 2 && r.chance(25); GsfOutput *c = gsf_outfile_new_child(o, name.c_str(), dir);
        if (dir) { if (L) L->push_back(path + name + "/"); ole_fill(GSF_OUTFILE(c), r, depth + 1, path + name + "/", L); }
        else { u32 x = r.below(10), len = x < 1 ? 0 : x < 5 ? 1 + r.below(300) : x < 8 ? 4090 + r.below(20) : 1 + r.below(40000); std::string b = gen_bytes(len, r.below(100000)); gsf_output_write(c, len, (const guint8 *)b.data()); if (L) L->push_back(path + name + " " + canon_bin(b.data(), b.size())); }
        gsf_output_close(c); g_object_unref(c);
    }
}
std::string gen_ole(u32 seed, std::vector<std::string> *L) {
    Rng r(seed + 99); GsfOutput *m = gsf_output_memory_new(); GsfOutfile *o = gsf_outfile_msole_new(m);
    ole_fill(o, r, 0, "", L); if (L) std::sort(L->begin(), L->end());
    gsf_output_close(GSF_OUTPUT(o));
    std::string b((const char *)gsf_output_memory_get_bytes(GSF_OUTPUT_MEMORY(m)), (size_t)gsf_output_size(m)); g_object_unref(o); g_object_unref(m); return b;
}
static void ole_walk(GsfInfile *f, const std::string &path, std::vector<std::string> &L, bool &ok) {
    int n = gsf_infile_num_children(f);
    for (int i = 0; i < n; i++) {
        const char *name = gsf_infile_name_by_index(f, i); GsfInput *c = gsf_infile_child_by_index(f, i); if (!c || !name) { ok = false; continue; }
        if (GSF_IS_INFILE(c) && gsf_infile_num_children(GSF_INFILE(c)) >= 0) { L.push_back(path + name + "/"); ole_walk(GSF_INFILE(c), path + name + "/", L, ok); }
        else { size_t sz = (size_t)gsf_input_size(c); std::string b(sz, 0); if (sz && !gsf_input_read(c, sz, (guint8 *)&b[0])) ok = false; L.push_back(path + name + " " + canon_bin(b.data(), sz)); }
        g_object_unref(c);
    }
}
std::vector<std::string> ole_list(const std::string &bytes, const std::string &storage, bool &ok) {
    std::vector<std::string> L; ok = true; GsfInput *in = gsf_input_memory_new((const guint8 *)bytes.data(), (gsf_off_t)bytes.size(), FALSE); GsfInfile *f = gsf_infile_msole_new(in, NULL); g_object_unref(in);
    if (!f) { ok = false; return L; }
    GsfInput *c = gsf_infile_child_by_name(f, storage.c_str());
    if (!c || !GSF_IS_INFILE(c)) ok = false; else ole_walk(GSF_INFILE(c), "", L, ok);
    if (c) g_object_unref(c); g_object_unref(f); std::sort(L.begin(), L.end()); return L;
}
// ---- damage to a file: what broken disks, transfers and hostile tools leave
static void dmg_bytes(std::string &b, Rng &r, int n) {
    if (b.empty()) { if (r.chance(50)) b.assign(1 + r.below(12), (char)r.below(256)); return; }
    for (int i = 0; i < n && !b.empty(); i++) {
        size_t p = r.below((u32)b.size()); if (r.chance(40)) p = r.below((u32)std::min<size_t>(b.size(), 64)); u32 x = r.below(100);
        if (x < 20) b[p] ^= (char)(1 << r.below(8)); else if (x < 45) { static const u8 v[] = {0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x20, 4}; b[p] = (char)v[r.below(8)]; }
        else if (x < 55) b[p] = (char)(b[p] + (r.chance(50) ? 1 : -1)); else if (x < 65) { p &= ~(size_t)1; for (size_t k = p; k < p + 2 && k < b.size(); k++) b[k] = (char)(r.chance(50) ? 0xff : r.below(256)); }
        else if (x < 72) { p &= ~(size_t)3; for (size_t k = p; k < p + 4 && k < b.size(); k++) b[k] = (char)(r.chance(40) ? 0xff : r.chance(30) ? 0 : r.below(256)); }
        else if (x < 80) { size_t q = r.below((u32)b.size()), l = 1 + r.below(16); for (size_t k = 0; k < l && p + k < b.size() && q + k < b.size(); k++) b[p + k] = b[q + k]; }
        else if (x < 88) b.resize(r.below((u32)b.size())); else if (x < 94) b.insert(p, std::string(1 + r.below(8), (char)(r.chance(50) ? 0 : r.below(256)))); else b.erase(p, 1 + r.below(8));
    }
}
static void dmg_sectors(std::string &b, Rng &r) {
    if (b.empty()) return; u32 x = r.below(100); size_t n = b.size() / 512;
    if (x < 25) b.resize(r.below((u32)b.size() + 1));
    else if (x < 35) b.resize(n ? 512 * r.below((u32)n) : 0);
    else if (x < 45 && n) { size_t p = 512 * r.below((u32)n), q = 512 * r.below((u32)n); b.replace(p, 512, b.substr(q, 512)); } // a misdirected write
    else if (x < 55 && n) { size_t p = 512 * r.below((u32)n); b.replace(p, 512, std::string(512, (char)(r.chance(50) ? 0 : 0xff))); } // a lost one
    else if (x < 62 && n) { size_t p = 512 * r.below((u32)n), l = 1 + r.below(511); for (size_t k = p + l; k < p + 512; k++) b[k] = 0; } // a torn one
    else if (x < 75) { std::string h = b.substr(0, std::min<size_t>(b.size(), 512)); dmg_bytes(h, r, r.range(1, 4)); h.resize(std::min<size_t>(b.size(), 512)); b.replace(0, h.size(), h); }
    else { for (int i = r.range(1, 30); i > 0; i--) { size_t p = r.below((u32)b.size()); b[p] = (char)(r.chance(50) ? b[p] ^ (1 << r.below(8)) : r.below(256)); } }
}
static void dmg_copy(GsfInfile *f, GsfOutfile *o, Rng &r, int hurt, int drop, int n) {
    int c = gsf_infile_num_children(f);
    for (int i = 0; i < c; i++) {
        const char *name = gsf_infile_name_by_index(f, i); GsfInput *in = gsf_infile_child_by_index(f, i); if (!in || !name) continue;
        if (GSF_IS_INFILE(in) && gsf_infile_num_children(GSF_INFILE(in)) >= 0) { GsfOutput *d = gsf_outfile_new_child(o, name, TRUE); dmg_copy(GSF_INFILE(in), GSF_OUTFILE(d), r, -1, -1, 0); gsf_output_close(d); g_object_unref(d); }
        else if (i != drop) {
            size_t sz = (size_t)gsf_input_size(in); std::string b(sz, 0); if (sz) gsf_input_read(in, sz, (guint8 *)&b[0]);
            if (i == hurt) dmg_bytes(b, r, n);
            GsfOutput *d = gsf_outfile_new_child(o, name, FALSE); gsf_output_write(d, b.size(), (const guint8 *)b.data()); gsf_output_close(d); g_object_unref(d);
        }
        g_object_unref(in);
    }
}
std::string damage(const std::string &bytes, u32 seed) {
    Rng r(seed + 7); std::string b = bytes;
    for (int i = r.chance(80) ? 1 : r.range(2, 4); i > 0; i--) {
        if (r.chance(25)) { dmg_sectors(b, r); continue; }
        // inside a stream
        GsfInput *in = gsf_input_memory_new_clone((const guint8 *)b.data(), (gsf_off_t)b.size()); GsfInfile *f = gsf_infile_msole_new(in, NULL); g_object_unref(in);
        if (!f) { dmg_sectors(b, r); continue; }
        int c = gsf_infile_num_children(f); GsfOutput *m = gsf_output_memory_new(); GsfOutfile *o = gsf_outfile_msole_new(m);
        int hurt = c > 0 ? (int)r.below((u32)c) : -1, drop = r.chance(7) ? hurt : -1;
        if (r.chance(60)) for (int k = 0; k < c; k++) { const char *nm = gsf_infile_name_by_index(f, (hurt + k) % c); if (nm && !strncmp(nm, "\xe4\xa1\x80", 3)) { hurt = (hurt + k) % c; break; } } // tables and strings
        { guint8 id[16]; if (gsf_infile_msole_get_class_id(GSF_INFILE_MSOLE(f), id)) gsf_outfile_msole_set_class_id(GSF_OUTFILE_MSOLE(o), id); }
        dmg_copy(f, o, r, hurt, drop, r.chance(60) ? 1 : r.range(2, 12));
        gsf_output_close(GSF_OUTPUT(o)); b.assign((const char *)gsf_output_memory_get_bytes(GSF_OUTPUT_MEMORY(m)), (size_t)gsf_output_size(m)); g_object_unref(o); g_object_unref(m); g_object_unref(f);
    }
    return b;
}
std::string gen_text(u32 len, u32 seed) {
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.,;:()[]{}<>!?#%&*+=/|";
    std::string r(len, 0); Rng g(seed + 99);
    for (u32 i = 0; i < len; i++) r[i] = al[g.below(sizeof al - 1)];
    return r;
}
static std::map<std::string, std::string> tokcache; // generated content -> token
std::string val_tok(const Val &v) {
    switch (v.k) {
    case Val::NUL: return "n";
    case Val::INT: return "i" + std::to_string(v.i);
    default: {
        auto it = tokcache.find((v.k == Val::BIN ? "b" : "s") + v.s);
        if (it != tokcache.end()) return it->second;
        return (v.k == Val::BIN ? "x" : "s") + pct(v.s);
    }
    }
}
Val val_parse(const std::string &tok) {
    Val v; if (tok.empty()) return v;
    switch (tok[0]) {
    case 'i': v.k = Val::INT; v.i = atoll(tok.c_str() + 1); break;
    case 's': v.k = Val::STR; v.s = unpct(tok.substr(1)); break;
    case 'x': v.k = Val::BIN; v.s = unpct(tok.substr(1)); break;
    case 'L': case 'b': {
        unsigned l = 0, sd = 0; sscanf(tok.c_str() + 1, "%u.%u", &l, &sd);
        if (tok[0] == 'L') { v.k = Val::STR; v.s = gen_text(l, sd); } else { v.k = Val::BIN; v.s = gen_bytes(l, sd); }
        if (tokcache.size() > 2000) tokcache.clear();
        if (v.s.size() > 24) tokcache[(v.k == Val::BIN ? "b" : "s") + v.s] = tok;
        break;
    }
    }
    return v;
}
std::string canon_str(const char *s) {
    if (!s || !*s) return "n";
    size_t n = strlen(s); char b[64];
    if (n > 60) { snprintf(b, sizeof b, "S%zu:%016llx", n, (unsigned long long)fnv(s, n)); return b; }
    return "s" + pct(s);
}
std::string canon_bin(const void *p, size_t n) { char b[64]; snprintf(b, sizeof b, "b%zu:%016llx", n, (unsigned long long)fnv(p, n)); return b; }
std::string canon(const Val &v) {
    switch (v.k) {
    case Val::NUL: return "n";
    case Val::INT: return "i" + std::to_string(v.i);
    case Val::STR: return canon_str(v.s.c_str());
    default: return canon_bin(v.s.data(), v.s.size());
    }
}

// ---------------------------------------------------------------- replay text
std::string Case::str() const {
    std::string r = "profile " + profile + "\nseed " + std::to_string(seed) + "\n";
    for (auto &o : opt) r += "opt " + o.first + " " + pct(o.second) + "\n";
    char b[256];
    for (auto &p : phases) {
        snprintf(b, sizeof b, "phase tz=%s jump=%lld cap=%llu pseed=%llu sseed=%llu spct=%u\n", pct(p.tz).c_str(), (long long)p.clock_jump, (unsigned long long)p.capacity_left, (unsigned long long)p.power_seed, (unsigned long long)p.sched_seed, p.switch_pct);
        r += b;
        for (auto &f : p.faults) {
            snprintf(b, sizeof b, "fault actor=%u op=%u step=%u kind=%s count=%u param=%u mask=%x\n", f.actor, f.op, f.step, fault_names[f.kind], f.count, f.param, f.mask);
            r += b;
        }
        if (p.use_sched) { r += "sched "; u32 run = 0; for (size_t i = 0; i < p.sched.size(); i++) { run++; if (i + 1 == p.sched.size() || p.sched[i + 1] != p.sched[i]) { r += std::to_string(p.sched[i]) + "x" + std::to_string(run) + ","; run = 0; } } r += "\n"; }
        for (auto &a : p.actors) { r += "actor\n"; for (auto &o : a.ops) r += "op " + o.str() + "\n"; }
    }
    return r;
}
bool Case::parse(const std::string &text, Case &c) {
    c = Case();
    for (auto &l : split(text, '\n')) {
        if (l.empty() || l[0] == '#') continue;
        auto w = split(l, ' ');
        if (w[0] == "profile") c.profile = w[1];
        else if (w[0] == "seed") c.seed = strtoull(w[1].c_str(), NULL, 10);
        else if (w[0] == "opt") c.opt[w[1]] = w.size() > 2 ? unpct(w[2]) : "";
        else if (w[0] == "phase") {
            c.phases.emplace_back(); Phase &p = c.phases.back(); p.actors.clear();
            for (size_t i = 1; i < w.size(); i++) {
                size_t e = w[i].find('='); std::string k = w[i].substr(0, e), v = w[i].substr(e + 1);
                if (k == "tz") p.tz = unpct(v); else if (k == "jump") p.clock_jump = atoll(v.c_str()); else if (k == "cap") p.capacity_left = strtoull(v.c_str(), NULL, 10);
                else if (k == "pseed") p.power_seed = strtoull(v.c_str(), NULL, 10); else if (k == "sseed") p.sched_seed = strtoull(v.c_str(), NULL, 10); else if (k == "spct") p.switch_pct = (u32)atoi(v.c_str());
            }
        } else if (w[0] == "fault") {
            Fault f; memset(&f, 0, sizeof f);
            for (size_t i = 1; i < w.size(); i++) {
                size_t e = w[i].find('='); std::string k = w[i].substr(0, e), v = w[i].substr(e + 1);
                if (k == "actor") f.actor = (u32)atoi(v.c_str()); else if (k == "op") f.op = (u32)atoi(v.c_str()); else if (k == "step") f.step = (u32)atoi(v.c_str());
                else if (k == "kind") { for (int j = 0; j < F_NKINDS; j++) if (v == fault_names[j]) f.kind = (u8)j; }
                else if (k == "count") f.count = (u16)atoi(v.c_str()); else if (k == "param") f.param = (u32)strtoul(v.c_str(), NULL, 10); else if (k == "mask") f.mask = (u32)strtoul(v.c_str(), NULL, 16);
            }
            c.phases.back().faults.push_back(f);
        } else if (w[0] == "sched") {
            Phase &p = c.phases.back(); p.use_sched = true;
            if (w.size() > 1) for (auto &x : split(w[1], ',')) { unsigned a, n; if (sscanf(x.c_str(), "%ux%u", &a, &n) == 2) p.sched.insert(p.sched.end(), n, (u8)a); }
        } else if (w[0] == "actor") c.phases.back().actors.emplace_back();
        else if (w[0] == "op") { Op o; o.id = (u32)atoi(w[1].c_str()); for (size_t i = 2; i < w.size(); i++) o.t.push_back(w[i] == "''" ? "" : w[i]); c.phases.back().actors.back().ops.push_back(o); }
        else return false;
    }
    return true;
}

// ---------------------------------------------------------------- running a phase
static u64 now_ms() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return (u64)ts.tv_sec * 1000 + (u64)ts.tv_nsec / 1000000; }
PhaseResult run_phase(const Phase &p, Executor ex, bool trace) {
    PhaseResult r;
    sim_begin_proc(); u32 hit0[S_N][F_NKINDS]; memcpy(hit0, G->hit, sizeof hit0);
    G->trace_on = trace ? (getenv("BT") ? 2 : 1) : 0;
    G->clock_us += p.clock_jump * 1000000;
    G->nact = (u32)p.actors.size(); if (!G->nact) return r;
    u64 used = 0; for (u32 i = 0; i < G->nino; i++) if (G->ino[i].used && !G->ino[i].special && G->ino[i].nlink) used += G->ino[i].size;
    G->usedbytes = used; G->capacity = p.capacity_left ? used + p.capacity_left : 0;
    for (auto &f : p.faults) if (G->nfault < MAXFAULT) G->fault[G->nfault++] = f;
    if (p.use_sched) { G->sched_replay = 1; G->nsched = (u32)p.sched.size() < MAXSCHED ? (u32)p.sched.size() : MAXSCHED; memcpy(G->sched, p.sched.data(), G->nsched); G->sched_pos = 0; }
    G->sched_rng = p.sched_seed * 7919 + 13; G->switch_pct = p.switch_pct;
    std::vector<pid_t> pids;
    for (size_t a = 0; a < p.actors.size(); a++) {
        G->alive[a] = 1;
        pid_t pid = fork();
        if (pid == 0) {
            struct rlimit rl = {40, 42}; setrlimit(RLIMIT_CPU, &rl);
            struct rlimit c0 = {0, 0}; setrlimit(RLIMIT_CORE, &c0);
            setenv("TZ", p.tz.c_str(), 1); tzset();
            sim_enter_child((int)a);
            ex(p.actors[a], (int)a);
            sim_leave_child();
            syscall(SYS_exit_group, 0);
        }
        pids.push_back(pid);
    }
    if (p.actors.size() > 1) { G->cur = 0; __atomic_store_n(&G->sem[0], 1, __ATOMIC_RELEASE); syscall(SYS_futex, &G->sem[0], FUTEX_WAKE, 1, NULL, NULL, 0); }
    r.status.assign(pids.size(), 0);
    size_t left = pids.size(); u64 t0 = now_ms(); bool killed = false;
    while (left) {
        int st; pid_t w = p.actors.size() == 1 && !killed ? waitpid(pids[0], &st, 0) : waitpid(-1, &st, WNOHANG);
        if (w > 0) {
            for (size_t a = 0; a < pids.size(); a++) if (pids[a] == w) {
                r.status[a] = st; left--;
                bool alive = G->alive[a];
                if (alive && !(WIFEXITED(st) && WEXITSTATUS(st) == 77) && p.actors.size() > 1) { // died by signal while holding the baton
                    G->alive[a] = 0;
                    for (size_t b = 0; b < pids.size(); b++) if (G->alive[b]) { G->cur = (u32)b; __atomic_store_n(&G->sem[b], 1, __ATOMIC_RELEASE); syscall(SYS_futex, &G->sem[b], FUTEX_WAKE, 1, NULL, NULL, 0); break; }
                }
            }
            if (G->crashed == 2) { for (size_t a = 0; a < pids.size(); a++) kill(pids[a], SIGKILL); }
        } else if (now_ms() - t0 > 60000) { for (auto q : pids) kill(q, SIGKILL); killed = true; t0 = now_ms(); }
        else { struct timespec ts = {0, 200000}; nanosleep(&ts, NULL); }
    }
    r.crashed = G->crashed; r.runaway = G->runaway; r.escapes = G->escapes; r.overflow = G->overflow;
    memcpy(r.lastfault_op, G->lastfault_op, sizeof r.lastfault_op);
    for (u32 i = 0; i < G->nfault; i++) { r.fired += G->fired[i]; r.fired_each.push_back(G->fired[i]); }
    for (int i = 0; i < S_N; i++) for (int k = 0; k < F_NKINDS; k++) r.hit[i][k] = G->hit[i][k] - hit0[i][k];
    r.steps = G->total_steps; r.clock_us = G->clock_us; r.escape_path = G->escape_path;
    r.log.assign(G->log, G->loglen);
    r.trace.assign(G->trace, G->trace + G->ntrace); r.thash = G->thash;
    r.sched.assign(G->sched, G->sched + G->nsched);
    if (r.crashed == 2) { Rng pr(p.power_seed); sim_power_apply(pr); }
    return r;
}

// ---------------------------------------------------------------- SQL rendering
static std::string q(const std::string &id) { // [T.]c
    size_t d = id.find('.');
    if (d != std::string::npos) return "`" + id.substr(0, d) + "`.`" + id.substr(d + 1) + "`";
    return "`" + id + "`";
}
static std::string lit(const std::string &tok, std::vector<std::string> *params) {
    if (tok[0] == '?') { params->push_back(tok.substr(1)); return "?"; }
    Val v = val_parse(tok);
    if (v.k == Val::INT) return std::to_string(v.i);
    if (v.k == Val::NUL) return "''";
    return "'" + v.s + "'";
}
static std::string cond_sql(const std::vector<std::string> &w, size_t &i, std::vector<std::string> *params) {
    static const std::map<std::string, std::string> ops = {{"eq", "="}, {"ne", "<>"}, {"lt", "<"}, {"gt", ">"}, {"le", "<="}, {"ge", ">="}};
    std::string o = w[i++];
    if (o == "and" || o == "or") {
        std::string a = cond_sql(w, i, params), b = cond_sql(w, i, params);
        return "(" + a + ") " + (o == "and" ? "AND" : "OR") + " (" + b + ")";
    }
    if (o == "flatand" || o == "flator") { // no parentheses
        std::string a = cond_sql(w, i, params), b = cond_sql(w, i, params);
        return a + (o == "flatand" ? " AND " : " OR ") + b;
    }
    std::string c = q(w[i++]);
    if (o == "null") return c + " IS NULL";
    if (o == "nn") return c + " IS NOT NULL";
    std::string v = w[i++];
    return c + " " + ops.at(o) + " " + (v[0] == '@' ? q(v.substr(1)) : lit(v, params));
}
static std::string cond_of(const std::string &tok, std::vector<std::string> *params) {
    auto w = split(tok, ','); size_t i = 0; return cond_sql(w, i, params);
}
static std::string coldef_sql(const std::string &d) {
    auto w = split(d, ':'); std::string t = w[1], r = "`" + w[0] + "` ";
    if (t == "lc") r += "LONGCHAR"; else if (t == "i2") r += "SHORT"; else if (t == "int") r += "INT"; else if (t == "i4") r += "LONG"; else if (t == "ob") r += "OBJECT";
    else if (t == "c") r += "CHAR"; else r += "CHAR(" + t.substr(1) + ")";
    std::string f = w.size() > 2 ? w[2] : "";
    if (f.find('r') != std::string::npos) r += " NOT NULL";
    if (f.find('l') != std::string::npos) r += " LOCALIZABLE"; else if (f.find('t') != std::string::npos) r += " TEMPORARY";
    return r;
}
std::string sql_of(const Op &op, std::vector<std::string> *P) {
    const auto &t = op.t; const std::string &k = t[0]; std::string s;
    if (k == "create") {
        s = "CREATE TABLE `" + t[2] + "` (";
        std::string keys;
        for (size_t i = 4; i < t.size(); i++) {
            if (i > 4) s += ", ";
            s += coldef_sql(t[i]);
            auto w = split(t[i], ':');
            if (w.size() > 2 && w[2].find('k') != std::string::npos) keys += (keys.empty() ? "`" : ", `") + w[0] + "`";
        }
        s += " PRIMARY KEY " + keys + ")";
        if (t[3] == "1") s += " HOLD";
    } else if (k == "drop") s = "DROP TABLE `" + t[2] + "`";
    else if (k == "add") s = "ALTER TABLE `" + t[2] + "` ADD " + coldef_sql(t[3]) + (t[4] == "1" ? " HOLD" : "");
    else if (k == "hold") s = "ALTER TABLE `" + t[2] + "` HOLD";
    else if (k == "free") s = "ALTER TABLE `" + t[2] + "` FREE";
    else if (k == "ins") {
        s = "INSERT INTO `" + t[2] + "` ("; std::string v;
        for (size_t i = 4; i < t.size(); i++) {
            size_t e = t[i].find('=');
            if (i > 4) { s += ", "; v += ", "; }
            s += "`" + t[i].substr(0, e) + "`"; v += lit(t[i].substr(e + 1), P);
        }
        s += ") VALUES (" + v + ")"; if (t[3] == "1") s += " TEMPORARY";
    } else if (k == "upd") {
        s = "UPDATE `" + t[2] + "` SET ";
        for (size_t i = 4; i < t.size(); i++) { size_t e = t[i].find('='); if (i > 4) s += ", "; s += "`" + t[i].substr(0, e) + "` = " + lit(t[i].substr(e + 1), P); }
        if (t[3] != "-") s += " WHERE " + cond_of(t[3], P);
    } else if (k == "del") {
        s = "DELETE FROM `" + t[2] + "`"; if (t[3] != "-") s += " WHERE " + cond_of(t[3], P);
    } else if (k == "sel" || k == "qopen") {
        s = "SELECT "; if (t[2] == "1") s += "DISTINCT ";
        if (t[3] == "*") s += "*"; else { bool f = true; for (auto &c : split(t[3], ',')) { if (!f) s += ", "; f = false; s += q(c); } }
        s += " FROM "; bool f = true;
        for (auto &c : split(t[4], ',')) { if (!f) s += ", "; f = false; s += "`" + c + "`"; }
        if (t[5] != "-") s += " WHERE " + cond_of(t[5], P);
        if (t[6] != "-") { s += " ORDER BY "; f = true; for (auto &c : split(t[6], ',')) { if (!f) s += ", "; f = false; s += q(c); } }
    }
    return s;
}
