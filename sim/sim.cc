// The simulated machine and the libc seam.  See sim.h.
#include "sim.h"
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <algorithm>
#include <map>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <dirent.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include <limits.h>

const char *sys_names[S_N] = {"open", "create", "read", "write", "seek", "close", "stat", "rename", "unlink", "mkdir",
                              "fsync", "truncate", "chmod", "chown", "utime", "readlink", "access", "readdir", "link"};
const char *fault_names[F_NKINDS] = {"none", "err", "short", "eintr", "kill", "torn", "power", "clock"};

Shared *G;
int g_actor;
bool g_sim;
static bool g_std;          // 0/1/2 are simulated
static std::string *g_cwd;  // simulated working directory

u64 fnv(const void *p, size_t n, u64 h) {
    const u8 *b = (const u8 *)p;
    while (n--) { h ^= *b++; h *= 0x100000001b3ull; }
    return h;
}

// ---------------------------------------------------------------- machine
void sim_init() {
    G = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (G == MAP_FAILED) { perror("arena"); _exit(3); }
}
void sim_begin_proc() {
    memset(G->nsteps, 0, sizeof G->nsteps); memset(G->opstep, 0, sizeof G->opstep);
    memset(G->lastfault_op, 0, sizeof G->lastfault_op); G->runaway = 0;
    G->total_steps = 0;
    G->nfault = 0;
    memset(G->fired, 0, sizeof G->fired);
    G->ntrace = 0; G->thash = 0xcbf29ce484222325ull;
    G->crashed = 0;
    G->nact = 1; G->cur = 0;
    memset(G->alive, 0, sizeof G->alive);
    memset((void *)G->sem, 0, sizeof G->sem);
    G->nsched = G->sched_pos = 0; G->sched_replay = 0; G->switch_pct = 50;
    memset(G->opidx, 0, sizeof G->opidx);
    memset(G->openfds, 0, sizeof G->openfds);
    G->loglen = 0;
    if (!G->step_limit) G->step_limit = 4000000;
}
static s64 g_maxbump;
void sim_reset(u64 seed) {
    if (G->bump > (64u << 20)) madvise(G->data, (G->bump + 4095) & ~4095ull, MADV_REMOVE);
    (void)g_maxbump;
    G->rnd = seed ^ 0xabcdef12345ull;
    G->clock_us = 1500000000000000ll + (s64)(seed % 100000000) * 1000000;
    G->clock_step = 37;
    memset(G->hit, 0, sizeof G->hit);
    G->escapes = 0; G->overflow = 0;
    G->capacity = 0; G->usedbytes = 0;
    G->nino = 0; G->ndent = 0; G->nj = 0; G->ndurable = 0; G->tmpcount = 0; G->bump = 0;
    G->step_limit = 4000000;
    sim_begin_proc();
    G->trace_on = 1;
    sim_mkdir("/sim"); sim_mkdir("/sim/w"); sim_mkdir("/sim/tmp");
}
static int find(const char *p) {
    for (u32 i = 0; i < G->ndent; i++)
        if (G->dent[i].live && !strcmp(G->dent[i].path, p)) return (int)i;
    return -1;
}
static u64 balloc(u64 n) {
    n = (n + 63) & ~63ull;
    if (G->bump + n > DATASZ) { G->overflow = 1; return (u64)-1; }
    u64 r = G->bump; G->bump += n; return r;
}
static int ino_new(bool dir) {
    for (u32 i = 0; i < G->nino; i++)
        if (!G->ino[i].used) { memset(&G->ino[i], 0, sizeof(Inode)); G->ino[i].used = 1; G->ino[i].dir = dir; return (int)i; }
    if (G->nino >= MAXINO) { G->overflow = 1; return -1; }
    int i = (int)G->nino++;
    memset(&G->ino[i], 0, sizeof(Inode)); G->ino[i].used = 1; G->ino[i].dir = dir;
    return i;
}
static bool dent_set(const char *p, int ino) {
    int d = find(p);
    if (d < 0) {
        for (u32 i = 0; i < G->ndent && d < 0; i++) if (!G->dent[i].live) d = (int)i;
        if (d < 0) { if (G->ndent >= MAXDENT) { G->overflow = 1; return false; } d = (int)G->ndent++; }
        snprintf(G->dent[d].path, sizeof G->dent[d].path, "%s", p);
        G->dent[d].live = 1;
    }
    G->dent[d].ino = (u32)ino;
    return true;
}
static void journal(u8 op, u32 ino, const char *a, const char *b) {
    if (G->nj >= MAXJ) { G->overflow = 1; return; }
    Jent &j = G->j[G->nj++];
    j.op = op; j.ino = ino; snprintf(j.a, sizeof j.a, "%s", a); snprintf(j.b, sizeof j.b, "%s", b ? b : "");
}
static bool ino_reserve(Inode &n, u64 cap) {
    if (cap <= n.cap) return true;
    u64 c = n.cap ? n.cap * 2 : 8192; while (c < cap) c *= 2;
    u64 o = balloc(c); if (o == (u64)-1) return false;
    memcpy(G->data + o, G->data + n.off, n.size);
    n.off = o; n.cap = c; return true;
}
static bool ino_write(Inode &n, u64 pos, const void *p, u64 len) {
    if (!ino_reserve(n, pos + len)) return false;
    if (pos > n.size) memset(G->data + n.off + n.size, 0, pos - n.size);
    if (len) memcpy(G->data + n.off + pos, p, len);
    if (pos + len > n.size) n.size = pos + len;
    n.dirty = 1; n.mtime = G->clock_us;
    return true;
}
static void ino_sync(Inode &n) {
    if (n.dvalid && !n.dirty) return;
    u64 o = balloc(n.size ? n.size : 1); if (o == (u64)-1) return;
    memcpy(G->data + o, G->data + n.off, n.size);
    n.doff = o; n.dsize = n.size; n.dvalid = 1; n.dirty = 0;
}
void sim_boot() {
    for (u32 i = 0; i < G->nino; i++) if (G->ino[i].used && !G->ino[i].dir) ino_sync(G->ino[i]);
    memcpy(G->durable, G->dent, sizeof(Dent) * G->ndent); G->ndurable = G->ndent;
    G->nj = 0;
}
static void jcommit() { memcpy(G->durable, G->dent, sizeof(Dent) * G->ndent); G->ndurable = G->ndent; G->nj = 0; }
void sim_power_apply(Rng &r) {
    // metadata: an ordered prefix of the journal survives
    u32 keep = G->nj ? r.below(G->nj + 1) : 0;
    if (r.chance(40)) keep = G->nj;
    memcpy(G->dent, G->durable, sizeof(Dent) * G->ndurable); G->ndent = G->ndurable;
    for (u32 i = 0; i < keep; i++) {
        Jent &j = G->j[i];
        if (j.op == 0) dent_set(j.a, (int)j.ino);
        else if (j.op == 1) { int d = find(j.a); if (d >= 0) G->dent[d].live = 0; }
        else { int d = find(j.a); if (d >= 0) { u32 in = G->dent[d].ino; G->dent[d].live = 0; dent_set(j.b, (int)in); } }
    }
    // data: each dirty block kept or not
    for (u32 i = 0; i < G->nino; i++) {
        Inode &n = G->ino[i];
        if (!n.used || n.dir || n.special) continue;
        if (n.dvalid && !n.dirty) { continue; }
        u64 ds = n.dvalid ? n.dsize : 0;
        u32 mode = r.below(4); // 0 nothing new, 1 everything, 2/3 mix
        u64 nsz = mode == 0 ? ds : mode == 1 ? n.size : (r.chance(60) ? n.size : (r.chance(50) ? ds : (u64)r.below((u32)n.size + 1)));
        u64 o = balloc(nsz ? nsz : 1); if (o == (u64)-1) return;
        memset(G->data + o, 0, nsz);
        for (u64 b = 0; b < nsz; b += 512) {
            u64 l = nsz - b < 512 ? nsz - b : 512;
            bool fresh = mode == 1 || (mode >= 2 && r.chance(50));
            u64 srcsz = fresh ? n.size : ds; const u8 *src = G->data + (fresh ? n.off : n.doff);
            if (!fresh && mode == 0) {}
            if (b < srcsz) memcpy(G->data + o + b, src + b, srcsz - b < l ? srcsz - b : l);
        }
        n.off = o; n.size = nsz; n.cap = nsz; n.dirty = 0; n.dvalid = 0;
    }
    for (u32 i = 0; i < G->nino; i++) G->ino[i].nlink = 0;
    for (u32 i = 0; i < G->ndent; i++) if (G->dent[i].live) G->ino[G->dent[i].ino].nlink++;
    G->nj = 0;
    sim_boot();
}
void sim_mkdir(const std::string &p) { if (find(p.c_str()) < 0) { int i = ino_new(true); G->ino[i].mode = 040755; G->ino[i].nlink = 1; dent_set(p.c_str(), i); journal(0, (u32)i, p.c_str(), NULL); } }
void sim_put(const std::string &p, const std::string &d, int special) {
    int e = find(p.c_str()); int i;
    if (e >= 0) i = (int)G->dent[e].ino;
    else {
        for (size_t k = 5; k < p.size(); k++) if (p[k] == '/') sim_mkdir(p.substr(0, k));
        i = ino_new(false); G->ino[i].mode = 0100644; G->ino[i].nlink = 1; dent_set(p.c_str(), i); journal(0, (u32)i, p.c_str(), NULL);
    }
    G->ino[i].size = 0; G->ino[i].special = (u32)special;
    ino_write(G->ino[i], 0, d.data(), d.size());
    // what the host puts is on the disk for good
    ino_sync(G->ino[i]);
    for (size_t k = 5; k <= p.size(); k++) if (k == p.size() || p[k] == '/') {
        std::string q = p.substr(0, k); int f = find(q.c_str()); if (f < 0) continue; u32 x = 0;
        while (x < G->ndurable && !(G->durable[x].live && q == G->durable[x].path)) x++;
        if (x == G->ndurable) { if (x >= MAXDENT) continue; G->ndurable++; }
        G->durable[x] = G->dent[f];
    }
}
bool sim_get(const std::string &p, std::string &out) {
    int e = find(p.c_str()); if (e < 0) return false;
    Inode &n = G->ino[G->dent[e].ino]; if (n.dir) return false;
    out.assign((char *)G->data + n.off, n.size); return true;
}
bool sim_exists(const std::string &p) { return find(p.c_str()) >= 0; }
void sim_purge(const std::string &p) { int e = find(p.c_str()); if (e >= 0) { G->dent[e].live = 0; G->ino[G->dent[e].ino].used = 0; G->nj = 0; } } // the host removes a file and forgets it (no power loss in such runs)
bool sim_is_dir(const std::string &p) { int e = find(p.c_str()); return e >= 0 && G->ino[G->dent[e].ino].dir; }
void sim_del(const std::string &p) { int e = find(p.c_str()); if (e >= 0) { G->dent[e].live = 0; journal(1, 0, p.c_str(), NULL); } }
std::vector<std::string> sim_list(const std::string &prefix) {
    std::vector<std::string> v;
    for (u32 i = 0; i < G->ndent; i++) {
        std::string p = G->dent[i].path;
        if (G->dent[i].live && p.size() > prefix.size() && !p.compare(0, prefix.size(), prefix)) v.push_back(p);
    }
    std::sort(v.begin(), v.end());
    return v;
}
void sim_log(const std::string &s) {
    if (G->loglen + s.size() + 1 >= LOGSZ) { G->overflow = 1; return; }
    memcpy(G->log + G->loglen, s.data(), s.size()); G->loglen += s.size();
}
void sim_set_op(u32 i) { G->opidx[g_actor] = i; G->opstep[g_actor] = 0; }

// ---------------------------------------------------------------- snapshots of the machine between phases
SimSnap sim_snapshot() {
    SimSnap s; s.rnd = G->rnd; s.clock_us = G->clock_us; s.tmpcount = G->tmpcount; s.bump = G->bump;
    s.ino.assign(G->ino, G->ino + G->nino); s.dent.assign(G->dent, G->dent + G->ndent); s.j.assign(G->j, G->j + G->nj); s.durable.assign(G->durable, G->durable + G->ndurable);
    s.data.assign(G->data, G->data + G->bump); return s;
}
void sim_restore(const SimSnap &s) {
    G->rnd = s.rnd; G->clock_us = s.clock_us; G->tmpcount = s.tmpcount; G->bump = s.bump; G->escapes = 0; G->overflow = 0;
    G->nino = (u32)s.ino.size(); G->ndent = (u32)s.dent.size(); G->nj = (u32)s.j.size(); G->ndurable = (u32)s.durable.size();
    std::copy(s.ino.begin(), s.ino.end(), G->ino); std::copy(s.dent.begin(), s.dent.end(), G->dent); std::copy(s.j.begin(), s.j.end(), G->j); std::copy(s.durable.begin(), s.durable.end(), G->durable);
    memcpy(G->data, s.data.data(), s.data.size());
}
// ---------------------------------------------------------------- scheduling
static void fwait(volatile u32 *a) {
    while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) syscall(SYS_futex, a, FUTEX_WAIT, 0, NULL, NULL, 0);
    __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
static void fpost(volatile u32 *a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE, 1, NULL, NULL, 0); }
static int choose_next(bool self_alive) {
    int cand[MAXACT], n = 0;
    for (u32 i = 0; i < G->nact; i++) if (G->alive[i] && ((int)i != g_actor || self_alive)) cand[n++] = (int)i;
    if (!n) return -1;
    int c;
    if (G->sched_replay && G->sched_pos < G->nsched) {
        c = G->sched[G->sched_pos++];
        bool ok = false; for (int i = 0; i < n; i++) ok |= cand[i] == c;
        if (!ok) c = self_alive ? g_actor : cand[0];
    } else {
        Rng r(1); r.s = G->sched_rng;
        if (self_alive && !r.chance((int)G->switch_pct)) c = g_actor;
        else c = cand[r.below((u32)n)];
        G->sched_rng = r.s;
        if (!G->sched_replay && G->nsched < MAXSCHED) { G->sched[G->nsched++] = (u8)c; G->sched_pos = G->nsched; }
        else if (G->sched_replay) c = self_alive ? g_actor : cand[0];
    }
    return c;
}
static void yield_point() {
    if (G->nact < 2) return;
    int c = choose_next(true);
    if (c != g_actor && c >= 0) { G->cur = (u32)c; fpost(&G->sem[c]); fwait(&G->sem[g_actor]); }
}
void sim_leave_child() {
    g_sim = false;
    if (G->nact < 2) return;
    G->alive[g_actor] = 0;
    int c = choose_next(false);
    if (c >= 0) { G->cur = (u32)c; fpost(&G->sem[c]); }
}
static void die(int why) {
    G->crashed = (u32)why;
    if (G->nact > 1) { G->alive[g_actor] = 0; int c = choose_next(false); if (c >= 0 && why == 1) { G->cur = (u32)c; fpost(&G->sem[c]); } }
    syscall(SYS_exit_group, 77);
}

// ---------------------------------------------------------------- fault decision
struct Verdict { int err; bool shrt; u32 param; bool torn; };
static Verdict sys(Sys k, int ino, u64 len, bool eintr_ok = false) {
    yield_point();
    Verdict v = {0, false, 0, false};
    G->nsteps[g_actor]++;
    u32 op = G->opidx[g_actor], st = G->opstep[g_actor]++;
    G->total_steps++;
    G->clock_us += G->clock_step;
    if (G->total_steps > G->step_limit) { G->runaway = 1; syscall(SYS_exit_group, 78); }
    for (u32 i = 0; i < G->nfault; i++) {
        Fault &f = G->fault[i];
        if (f.actor != (u32)g_actor) continue;
        bool on = f.op == op && f.step == st;
        if (!on && f.count > 1 && (op > f.op || (op == f.op && st > f.step)) && (f.mask & (1u << k)) && (f.count == 0xffff || G->fired[i] < f.count)) on = true;
        if (!on) continue;
        if (!G->lastfault_op[g_actor] && f.kind != F_CLOCK && (f.kind != F_SHORT || f.param == 0xffffffff) && f.kind != F_EINTR) G->lastfault_op[g_actor] = op + 1;
        switch (f.kind) {
        case F_KILL: G->fired[i]++; G->hit[k][F_KILL]++; die(1); break;
        case F_POWER: G->fired[i]++; G->hit[k][F_POWER]++; die(2); break;
        case F_CLOCK: G->fired[i]++; G->hit[k][F_CLOCK]++; G->clock_us += (s64)(s32)f.param * 1000000; break;
        case F_ERR: v.err = (int)f.param; G->fired[i]++; G->hit[k][F_ERR]++; break;
        case F_SHORT: if (len > 1 && (k == S_READ || k == S_WRITE)) { v.shrt = true; v.param = f.param; G->fired[i]++; G->hit[k][F_SHORT]++; } break;
        case F_EINTR: if (eintr_ok) { v.err = EINTR; G->fired[i]++; G->hit[k][F_EINTR]++; } break;
        case F_TORN: if (k == S_WRITE && len) { v.torn = true; v.param = f.param; } G->fired[i]++; G->hit[k][v.torn ? F_TORN : F_KILL]++; if (!v.torn) die(1); break;
        }
    }
    return v;
}
static void rec(Sys k, int ino, u64 len, s64 res) {
    TraceRec t = {(u8)k, (u8)g_actor, (u16)G->opidx[g_actor], G->opstep[g_actor] - 1, (u32)ino, (u32)len, (s32)res};
    G->thash = fnv(&t, sizeof t, G->thash);
    if (G->trace_on && G->ntrace < MAXTRACE) G->trace[G->ntrace++] = t;
}

// ---------------------------------------------------------------- descriptors (per process)
struct Desc { bool open; int ino; u64 pos; int flags; };
static const int FDBASE = 5000, NFD = 4096;
static Desc *fds;
static std::map<FILE *, int> *filemap;
int sim_nact() { return (int)G->nact; }
int sim_open_fds() { int n = 0; for (int i = 3; i < NFD; i++) if (fds[i].open) n++; return n; }
int sim_open_files(std::string *names) {
    int n = 0;
    for (int i = 3; i < NFD; i++) if (fds[i].open) {
        n++;
        if (names) {
            std::string nm = "?";
            for (u32 d = 0; d < G->ndent; d++) if (G->dent[d].live && (int)G->dent[d].ino == fds[i].ino) nm = G->dent[d].path;
            *names += " " + nm;
        }
    }
    return n;
}
static Desc *getfd(int fd) {
    if (!g_sim) return NULL;
    if (g_std && fd >= 0 && fd < 3) return &fds[fd];
    if (fd < FDBASE || fd >= FDBASE + NFD) return NULL;
    return &fds[fd - FDBASE];
}
static int newfd(int ino, int flags) {
    for (int i = 3; i < NFD; i++) if (!fds[i].open) { fds[i] = {true, ino, 0, flags}; G->openfds[g_actor]++; return i + FDBASE; }
    return -1;
}
static void ino_put(int ino) { // free storage bookkeeping when no names and no fds: inode slots are not reused within a run
    (void)ino;
}
// path resolution: returns true when the path belongs to the simulation
static bool simpath(const char *p, char *out) {
    if (!g_sim || !p) return false;
    std::string s = p;
    if (s.empty()) { out[0] = 0; return true; }
    if (s[0] != '/') s = *g_cwd + "/" + s;
    std::vector<std::string> c; size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find('/', i); if (j == std::string::npos) j = s.size();
        std::string t = s.substr(i, j - i); i = j + 1;
        if (t.empty() || t == ".") continue;
        if (t == "..") { if (!c.empty()) c.pop_back(); continue; }
        c.push_back(t);
    }
    std::string r; for (auto &t : c) r += "/" + t;
    if (r.empty()) r = "/";
    if (!(r == "/sim" || !r.compare(0, 5, "/sim/"))) {
        if (p[0] != '/') { snprintf(out, 248, "/sim-outside"); }
        return false;
    }
    if (r.size() > 240) { out[0] = 1; out[1] = 0; return true; }
    strcpy(out, r.c_str());
    return true;
}
static int parent_ok(const char *p) {
    char b[256]; snprintf(b, sizeof b, "%s", p);
    char *s = strrchr(b, '/'); if (!s || s == b) return ENOENT; *s = 0;
    int d = find(b); if (d < 0) return ENOENT;
    return G->ino[G->dent[d].ino].dir ? 0 : ENOTDIR;
}
static void escape(const char *what, const char *p) {
    if (!G->escapes++) snprintf(G->escape_path, sizeof G->escape_path, "%s %s", what, p ? p : "(null)");
}
static bool is_urandom(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static u64 rnd() { Rng r(1); r.s = G->rnd; u64 v = r.next(); G->rnd = r.s; return v; }
static void fill_random(void *b, size_t n) { u8 *p = (u8 *)b; while (n) { u64 v = rnd(); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; } }

static const int INO_RANDOM = -2, INO_NULL = -3;

static int do_open(const char *sp, int flags, int mode) {
    bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    int d = find(sp);
    int ino = d >= 0 ? (int)G->dent[d].ino : -1;
    Sys k = w ? S_OPEN_W : S_OPEN_R;
    Verdict v = sys(k, ino, 0);
    d = find(sp); ino = d >= 0 ? (int)G->dent[d].ino : -1;
    int e = v.err;
    if (!e && sp[0] == 1) e = ENAMETOOLONG;
    if (!e && !sp[0]) e = ENOENT;
    if (!e && d >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) e = EEXIST;
    if (!e && d < 0 && !(flags & O_CREAT)) e = ENOENT;
    if (!e && d >= 0 && G->ino[ino].dir && w) e = EISDIR;
    if (!e && d >= 0 && (flags & O_DIRECTORY) && !G->ino[ino].dir) e = ENOTDIR;
    if (!e && d < 0) {
        e = parent_ok(sp);
        if (!e) {
            ino = ino_new(false);
            if (ino < 0) e = ENOSPC;
            else {
                G->ino[ino].mode = 0100000 | (mode & 0777 & ~022); G->ino[ino].nlink = 1; G->ino[ino].mtime = G->clock_us;
                dent_set(sp, ino); journal(0, (u32)ino, sp, NULL);
            }
        }
    }
    int fd = -1;
    if (!e) {
        fd = newfd(ino, flags); if (fd < 0) e = EMFILE;
        else {
            if ((flags & O_TRUNC) && w) { G->usedbytes -= G->ino[ino].size; G->ino[ino].size = 0; G->ino[ino].dirty = 1; }
        }
    }
    rec(k, ino, fnv(sp, strlen(sp)) & 0xffff, e ? -e : 0);
    if (e) { errno = e; return -1; }
    return fd;
}
static ssize_t do_read(Desc *d, void *buf, size_t n) {
    if (!d->open) { errno = EBADF; return -1; }
    if (d->ino == INO_RANDOM) { fill_random(buf, n); return (ssize_t)n; }
    if (d->ino == INO_NULL) return 0;
    Inode &in = G->ino[d->ino];
    Verdict v = sys(S_READ, d->ino, n, in.special == 1);
    if (!v.err && in.dir) v.err = EISDIR;
    if (v.err) { rec(S_READ, d->ino, n, -v.err); errno = v.err; return -1; }
    u64 avail = d->pos < in.size ? in.size - d->pos : 0;
    if (n > avail) n = avail;
    if (v.shrt && v.param == 0xffffffff) n = 0; else if (v.shrt && n > 1) n = 1 + v.param % (n - 1);
    if (n) memcpy(buf, G->data + in.off + d->pos, n);
    d->pos += n;
    rec(S_READ, d->ino, n, (s64)n);
    return (ssize_t)n;
}
static ssize_t do_write(Desc *d, const void *buf, size_t n) {
    if (!d->open || (d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (d->ino == INO_NULL) return (ssize_t)n;
    Inode &in = G->ino[d->ino];
    Verdict v = sys(S_WRITE, d->ino, n, in.special == 1);
    if (d->flags & O_APPEND) d->pos = in.size;
    if (!v.err && G->capacity && !in.special) {
        u64 end = d->pos + n, grow = end > in.size ? end - in.size : 0;
        if (G->usedbytes + grow > G->capacity) {
            u64 room = G->capacity > G->usedbytes ? G->capacity - G->usedbytes : 0;
            if (!room || grow >= room + n) v.err = ENOSPC; else n = n - (grow - room);
            if (!n) v.err = ENOSPC;
            G->hit[S_WRITE][F_ERR]++; if (!G->lastfault_op[g_actor]) G->lastfault_op[g_actor] = G->opidx[g_actor] + 1;
        }
    }
    if (v.err) { rec(S_WRITE, d->ino, n, -v.err); errno = v.err; return -1; }
    size_t len = n;
    if ((v.shrt || v.torn) && n > 1) n = 1 + v.param % (n - 1);
    u64 old = in.size;
    if (!ino_write(in, d->pos, buf, n)) { errno = ENOSPC; return -1; }
    G->usedbytes += in.size - old;
    d->pos += n;
    rec(S_WRITE, d->ino, len, (s64)n);
    if (v.torn) die(1);
    return (ssize_t)n;
}
static off_t do_seek(Desc *d, off_t o, int wh) {
    if (!d->open) { errno = EBADF; return -1; }
    if (d->ino < 0) return 0;
    Inode &in = G->ino[d->ino];
    if (in.special) { errno = ESPIPE; return -1; }
    s64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (s64)d->pos : (s64)in.size;
    if (b + o < 0) { errno = EINVAL; return -1; }
    d->pos = (u64)(b + o);
    return (off_t)d->pos;
}
static int do_close(Desc *d) {
    if (!d->open) { errno = EBADF; return -1; }
    int ino = d->ino;
    if (ino < 0) { d->open = false; G->openfds[g_actor]--; return 0; }
    Verdict v = sys(S_CLOSE, ino, 0);
    d->open = false; G->openfds[g_actor]--;
    rec(S_CLOSE, ino, 0, -v.err);
    ino_put(ino);
    if (v.err) { errno = v.err; return -1; }
    return 0;
}
static void fill_stat(int ino, struct stat *st) {
    memset(st, 0, sizeof *st);
    if (ino < 0) { st->st_mode = S_IFCHR | 0666; st->st_nlink = 1; return; }
    Inode &n = G->ino[ino];
    st->st_dev = 77; st->st_ino = (ino_t)ino + 100; st->st_nlink = 1;
    st->st_mode = n.special ? (S_IFIFO | 0600) : n.dir ? (S_IFDIR | 0755) : (n.mode ? n.mode : 0100644);
    st->st_uid = getuid(); st->st_gid = getgid();
    st->st_size = n.dir || n.special ? 0 : (off_t)n.size; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtim.tv_sec = n.mtime / 1000000; st->st_mtim.tv_nsec = (n.mtime % 1000000) * 1000;
    st->st_ctim = st->st_atim = st->st_mtim;
}
static int do_stat(const char *sp, struct stat *st) {
    int d = find(sp); int ino = d >= 0 ? (int)G->dent[d].ino : -1;
    Verdict v = sys(S_STAT, ino, 0);
    d = find(sp); ino = d >= 0 ? (int)G->dent[d].ino : -1;
    int e = v.err; if (!e && d < 0) e = ENOENT;
    rec(S_STAT, ino, 0, -e);
    if (e) { errno = e; return -1; }
    fill_stat(ino, st); return 0;
}
static int do_fstat(Desc *d, struct stat *st) {
    if (!d->open) { errno = EBADF; return -1; }
    if (d->ino < 0) { fill_stat(-1, st); return 0; }
    Verdict v = sys(S_STAT, d->ino, 0);
    rec(S_STAT, d->ino, 1, -v.err);
    if (v.err) { errno = v.err; return -1; }
    fill_stat(d->ino, st); return 0;
}
static int do_unlink(const char *sp) {
    int d = find(sp);
    Verdict v = sys(S_UNLINK, d >= 0 ? (int)G->dent[d].ino : -1, 0);
    d = find(sp);
    int e = v.err; if (!e && d < 0) e = ENOENT;
    if (!e && G->ino[G->dent[d].ino].dir) e = EISDIR;
    rec(S_UNLINK, d >= 0 ? (int)G->dent[d].ino : -1, 0, -e);
    if (e) { errno = e; return -1; }
    G->dent[d].live = 0; journal(1, 0, sp, NULL);
    return 0;
}
static int do_rename(const char *a, const char *b) {
    int d = find(a);
    Verdict v = sys(S_RENAME, d >= 0 ? (int)G->dent[d].ino : -1, 0);
    d = find(a);
    int e = v.err; if (!e && d < 0) e = ENOENT;
    if (!e) e = parent_ok(b);
    int t = find(b);
    if (!e && t >= 0 && G->ino[G->dent[t].ino].dir != G->ino[G->dent[d].ino].dir) e = G->ino[G->dent[t].ino].dir ? EISDIR : ENOTDIR;
    rec(S_RENAME, d >= 0 ? (int)G->dent[d].ino : -1, 0, -e);
    if (e) { errno = e; return -1; }
    if (!strcmp(a, b)) return 0;
    u32 in = G->dent[d].ino; G->dent[d].live = 0;
    dent_set(b, (int)in);
    journal(2, in, a, b);
    return 0;
}
static int do_mkdir(const char *sp) {
    Verdict v = sys(S_MKDIR, -1, 0);
    int e = v.err; if (!e && find(sp) >= 0) e = EEXIST; if (!e) e = parent_ok(sp);
    rec(S_MKDIR, -1, 0, -e);
    if (e) { errno = e; return -1; }
    sim_mkdir(sp); return 0;
}
static int do_rmdir(const char *sp) {
    int d = find(sp); Verdict v = sys(S_UNLINK, -1, 1);
    int e = v.err; if (!e && d < 0) e = ENOENT; if (!e && !G->ino[G->dent[d].ino].dir) e = ENOTDIR;
    if (!e && !sim_list(std::string(sp) + "/").empty()) e = ENOTEMPTY;
    rec(S_UNLINK, -1, 1, -e);
    if (e) { errno = e; return -1; }
    G->dent[d].live = 0; journal(1, 0, sp, NULL); return 0;
}
static int simple(Sys k, int ino, bool must_exist, const char *sp) {
    int d = sp ? find(sp) : 0; if (sp && d >= 0) ino = (int)G->dent[d].ino;
    Verdict v = sys(k, ino, 0);
    int e = v.err; if (!e && sp && must_exist && find(sp) < 0) e = ENOENT;
    rec(k, ino, 0, -e);
    if (e) { errno = e; return -1; }
    return 0;
}
static int do_fsync(Desc *d) {
    if (d->ino < 0) return 0;
    if (simple(S_FSYNC, d->ino, false, NULL)) return -1;
    ino_sync(G->ino[d->ino]); jcommit();
    return 0;
}

// cookie FILEs
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read(&fds[(intptr_t)c], b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    // glibc's cookie layer stops at a short write; the real file layer keeps writing the rest
    size_t done = 0;
    while (done < n) { ssize_t r = do_write(&fds[(intptr_t)c], b + done, n - done); if (r <= 0) break; done += (size_t)r; }
    return done ? (ssize_t)done : (n ? 0 : 0);
}
static int ck_seek(void *c, off64_t *o, int w) { off_t r = do_seek(&fds[(intptr_t)c], *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) {
    int r = do_close(&fds[(intptr_t)c]);
    if (filemap) for (auto it = filemap->begin(); it != filemap->end(); ++it) if (it->second == (int)(intptr_t)c) { filemap->erase(it); break; }
    return r;
}
static FILE *cookie(int slot, const char *mode) {
    cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
    FILE *fp = fopencookie((void *)(intptr_t)slot, mode, f);
    if (fp) (*filemap)[fp] = slot;
    return fp;
}
static int mode_flags(const char *m) {
    int f = 0; bool plus = strchr(m, '+') != NULL;
    if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x')) f |= O_EXCL;
    return f;
}
static FILE *(*real_fopen)(const char *, const char *);
static FILE *(*real_fdopen)(int, const char *);
static int (*real_fileno)(FILE *);
static DIR *(*real_opendir)(const char *);
static struct dirent *(*real_readdir)(DIR *);
static int (*real_closedir)(DIR *);

struct SimDir { std::vector<std::string> *names; size_t pos; struct dirent ent; u32 magic; };
static std::map<DIR *, SimDir *> *dirs;

void sim_enter_child(int actor) {
    g_actor = actor;
    if (!fds) fds = (Desc *)calloc(NFD, sizeof(Desc));
    memset(fds, 0, NFD * sizeof(Desc));
    filemap = new std::map<FILE *, int>();
    dirs = new std::map<DIR *, SimDir *>();
    g_cwd = new std::string("/sim/w");
    real_fopen = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
    real_fdopen = (FILE * (*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen");
    real_fileno = (int (*)(FILE *))dlsym(RTLD_NEXT, "fileno");
    G->alive[actor] = 1;
    g_sim = true;
    if (G->nact > 1) fwait(&G->sem[actor]);
}
void sim_redirect_std() {
    g_std = true;
    const char *nm[3] = {"/sim/stdin", "/sim/stdout", "/sim/stderr"};
    FILE *f[3];
    for (int i = 0; i < 3; i++) {
        int d = find(nm[i]); int ino;
        if (d < 0) { ino = ino_new(false); G->ino[ino].special = 1; dent_set(nm[i], ino); } else ino = (int)G->dent[d].ino;
        fds[i] = {true, ino, 0, i ? O_WRONLY : O_RDONLY};
        f[i] = cookie(i, i ? "w" : "r");
    }
    setvbuf(f[2], NULL, _IONBF, 0);
    stdin = f[0]; stdout = f[1]; stderr = f[2];
}

// ---------------------------------------------------------------- libc entry points
#define RAW(n, ...) syscall(SYS_##n, __VA_ARGS__)
#define SP char sp[256]
static bool denied(const char *what, const char *p) { // a write access outside the simulation
    if (!g_sim) return false;
    escape(what, p); errno = EACCES; return true;
}
static int open_common(int dirfd, const char *p, int flags, int mode) {
    SP;
    if (g_sim && is_urandom(p)) { int fd = newfd(INO_RANDOM, O_RDONLY); return fd; }
    if (g_sim && p && !strcmp(p, "/dev/null")) return newfd(INO_NULL, O_RDWR);
    if (p && (p[0] == '/' || dirfd == AT_FDCWD)) {
        if (simpath(p, sp)) return do_open(sp, flags, mode);
        if (((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) && denied("open", p)) return -1;
        if (g_sim && p[0] != '/') { errno = ENOENT; return -1; }
    }
    return (int)RAW(openat, dirfd, p, flags, mode);
}
extern "C" {
#define GETMODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { GETMODE return open_common(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE return open_common(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE return open_common(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE return open_common(d, p, flags, mode); }
int __open_2(const char *p, int flags) { return open_common(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return open_common(AT_FDCWD, p, flags, 0); }
int __openat_2(int d, const char *p, int flags) { return open_common(d, p, flags, 0); }
int __openat64_2(int d, const char *p, int flags) { return open_common(d, p, flags, 0); }
int creat(const char *p, mode_t m) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }
ssize_t read(int fd, void *b, size_t n) { if (Desc *d = getfd(fd)) return do_read(d, b, n); return RAW(read, fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (Desc *d = getfd(fd)) return do_write(d, b, n); return RAW(write, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (Desc *d = getfd(fd)) { u64 s = d->pos; d->pos = (u64)o; ssize_t r = do_read(d, b, n); d->pos = s; return r; }
    return RAW(pread64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (Desc *d = getfd(fd)) { u64 s = d->pos; d->pos = (u64)o; ssize_t r = do_write(d, b, n); d->pos = s; return r; }
    return RAW(pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if (Desc *d = getfd(fd)) return do_seek(d, o, w); return RAW(lseek, fd, o, w); }
off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
int close(int fd) { if (Desc *d = getfd(fd)) return do_close(d); return (int)RAW(close, fd); }
int fsync(int fd) { if (Desc *d = getfd(fd)) return do_fsync(d); return (int)RAW(fsync, fd); }
int fdatasync(int fd) { if (Desc *d = getfd(fd)) return do_fsync(d); return (int)RAW(fdatasync, fd); }
int ftruncate64(int fd, off64_t l) noexcept {
    if (Desc *d = getfd(fd)) {
        if (simple(S_TRUNC, d->ino, false, NULL)) return -1;
        Inode &n = G->ino[d->ino];
        if ((u64)l > n.size) { char z = 0; ino_write(n, (u64)l - 1, &z, 1); } else { n.size = (u64)l; n.dirty = 1; }
        return 0;
    }
    return (int)RAW(ftruncate, fd, l);
}
int ftruncate(int fd, off_t l) noexcept { return ftruncate64(fd, l); }
int truncate(const char *p, off_t l) noexcept { SP; if (simpath(p, sp)) { errno = ENOSYS; return -1; } if (denied("truncate", p)) return -1; return (int)RAW(truncate, p, l); }
int fallocate(int fd, int m, off_t o, off_t l) { if (getfd(fd)) { errno = EOPNOTSUPP; return -1; } return (int)RAW(fallocate, fd, m, o, l); }
int fallocate64(int fd, int m, off64_t o, off64_t l) { return fallocate(fd, m, o, l); }
int posix_fallocate(int fd, off_t o, off_t l) { if (getfd(fd)) return EOPNOTSUPP; return RAW(fallocate, fd, 0, o, l) ? errno : 0; }
int posix_fallocate64(int fd, off64_t o, off64_t l) { return posix_fallocate(fd, o, l); }
int rename(const char *a, const char *b) noexcept {
    char x[256], y[256]; bool sa = simpath(a, x), sb = simpath(b, y);
    if (sa && sb) return do_rename(x, y);
    if (g_sim) { denied("rename", sa ? b : a); return -1; }
    return (int)RAW(rename, a, b);
}
int renameat(int, const char *a, int, const char *b) noexcept { return rename(a, b); }
int unlink(const char *p) noexcept { SP; if (simpath(p, sp)) return do_unlink(sp); if (denied("unlink", p)) return -1; return (int)RAW(unlink, p); }
int unlinkat(int d, const char *p, int f) noexcept {
    SP; if (simpath(p, sp)) return f & AT_REMOVEDIR ? do_rmdir(sp) : do_unlink(sp);
    if (denied("unlinkat", p)) return -1; return (int)RAW(unlinkat, d, p, f);
}
int rmdir(const char *p) noexcept { SP; if (simpath(p, sp)) return do_rmdir(sp); if (denied("rmdir", p)) return -1; return (int)RAW(rmdir, p); }
int remove(const char *p) noexcept {
    SP; if (simpath(p, sp)) { int d = find(sp); return d >= 0 && G->ino[G->dent[d].ino].dir ? do_rmdir(sp) : do_unlink(sp); }
    if (denied("remove", p)) return -1; int r = (int)RAW(unlink, p); return r && errno == EISDIR ? (int)RAW(rmdir, p) : r;
}
int link(const char *a, const char *b) noexcept {
    char x[256], y[256]; if (simpath(a, x) && simpath(b, y)) {
        Verdict v = sys(S_LINK, -1, 0); int d = find(x); int e = v.err; if (!e && d < 0) e = ENOENT; if (!e && find(y) >= 0) e = EEXIST;
        rec(S_LINK, -1, 0, -e); if (e) { errno = e; return -1; }
        dent_set(y, (int)G->dent[d].ino); journal(0, G->dent[d].ino, y, NULL); return 0;
    }
    if (g_sim) { denied("link", b); return -1; } return (int)RAW(link, a, b);
}
int symlink(const char *a, const char *b) noexcept { SP; if (simpath(b, sp)) { errno = EPERM; return -1; } if (denied("symlink", b)) return -1; return (int)RAW(symlink, a, b); }
ssize_t readlink(const char *p, char *b, size_t n) noexcept {
    SP; if (simpath(p, sp)) { int d = find(sp); int i = d >= 0 ? (int)G->dent[d].ino : -1; sys(S_READLINK, i, 0); d = find(sp); errno = d >= 0 ? EINVAL : ENOENT; rec(S_READLINK, i, 0, -errno); return -1; }
    return RAW(readlink, p, b, n);
}
ssize_t readlinkat(int d, const char *p, char *b, size_t n) noexcept { SP; if (simpath(p, sp)) return readlink(p, b, n); return RAW(readlinkat, d, p, b, n); }
int mkdir(const char *p, mode_t m) noexcept { SP; if (simpath(p, sp)) return do_mkdir(sp); if (denied("mkdir", p)) return -1; return (int)RAW(mkdir, p, m); }
int mkdirat(int d, const char *p, mode_t m) noexcept { SP; if (simpath(p, sp)) return do_mkdir(sp); if (denied("mkdirat", p)) return -1; return (int)RAW(mkdirat, d, p, m); }
int access(const char *p, int m) noexcept { SP; if (simpath(p, sp)) return simple(S_ACCESS, -1, true, sp); return (int)RAW(access, p, m); }
int faccessat(int d, const char *p, int m, int f) noexcept { SP; if (simpath(p, sp)) return simple(S_ACCESS, -1, true, sp); return (int)RAW(faccessat, d, p, m, f); }
int euidaccess(const char *p, int m) noexcept { return access(p, m); }
int stat(const char *p, struct stat *st) noexcept { SP; if (simpath(p, sp)) return do_stat(sp, st); return (int)RAW(newfstatat, AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) noexcept { SP; if (simpath(p, sp)) return do_stat(sp, st); return (int)RAW(newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat *st) noexcept { if (Desc *d = getfd(fd)) return do_fstat(d, st); return (int)RAW(fstat, fd, st); }
int fstatat(int dfd, const char *p, struct stat *st, int fl) noexcept {
    if ((fl & AT_EMPTY_PATH) && p && !*p) { if (Desc *d = getfd(dfd)) return do_fstat(d, st); }
    else { SP; if (p && (p[0] == '/' || dfd == AT_FDCWD) && simpath(p, sp)) return do_stat(sp, st); }
    return (int)RAW(newfstatat, dfd, p, st, fl);
}
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat64(const char *p, struct stat64 *st) noexcept { return lstat(p, (struct stat *)st); }
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) noexcept { return fstatat(d, p, (struct stat *)st, f); }
int statx(int dfd, const char *__restrict p, int fl, unsigned mask, struct statx *__restrict sx) noexcept {
    struct stat st; int r; SP;
    Desc *d = NULL;
    if ((fl & AT_EMPTY_PATH) && (!p || !*p) && (d = getfd(dfd))) r = do_fstat(d, &st);
    else if (p && *p && (p[0] == '/' || dfd == AT_FDCWD) && simpath(p, sp)) r = do_stat(sp, &st);
    else return (int)RAW(statx, dfd, p, fl, mask, sx);
    if (r) return r;
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = (u16)st.st_mode; sx->stx_size = (u64)st.st_size; sx->stx_ino = st.st_ino; sx->stx_nlink = 1;
    sx->stx_uid = st.st_uid; sx->stx_gid = st.st_gid; sx->stx_blksize = 4096; sx->stx_blocks = (u64)st.st_blocks;
    sx->stx_mtime.tv_sec = st.st_mtim.tv_sec; sx->stx_ctime = sx->stx_mtime; sx->stx_atime = sx->stx_mtime; sx->stx_dev_minor = 77;
    return 0;
}
static void setmode(int ino, mode_t m) { if (ino >= 0) G->ino[ino].mode = (G->ino[ino].mode & 0170000) | (m & 07777); }
int chmod(const char *p, mode_t m) noexcept { SP; if (simpath(p, sp)) { if (simple(S_CHMOD, -1, true, sp)) return -1; setmode((int)G->dent[find(sp)].ino, m); return 0; } if (denied("chmod", p)) return -1; return (int)RAW(chmod, p, m); }
int fchmod(int fd, mode_t m) noexcept { if (Desc *d = getfd(fd)) { if (simple(S_CHMOD, d->ino, false, NULL)) return -1; setmode(d->ino, m); return 0; } return (int)RAW(fchmod, fd, m); }
int fchmodat(int, const char *p, mode_t m, int) noexcept { return chmod(p, m); }
int chown(const char *p, uid_t u, gid_t g) noexcept { SP; if (simpath(p, sp)) return simple(S_CHOWN, -1, true, sp); if (denied("chown", p)) return -1; return (int)RAW(chown, p, u, g); }
int lchown(const char *p, uid_t u, gid_t g) noexcept { SP; if (simpath(p, sp)) return simple(S_CHOWN, -1, true, sp); if (denied("lchown", p)) return -1; return (int)RAW(lchown, p, u, g); }
int fchown(int fd, uid_t u, gid_t g) noexcept { if (Desc *d = getfd(fd)) return simple(S_CHOWN, d->ino, false, NULL); return (int)RAW(fchown, fd, u, g); }
int utime(const char *p, const struct utimbuf *) noexcept { SP; if (simpath(p, sp)) return simple(S_UTIME, -1, true, sp); denied("utime", p); return -1; }
int utimes(const char *p, const struct timeval *) noexcept { SP; if (simpath(p, sp)) return simple(S_UTIME, -1, true, sp); denied("utimes", p); return -1; }
int utimensat(int dfd, const char *p, const struct timespec t[2], int f) noexcept {
    SP; if (p && simpath(p, sp)) return simple(S_UTIME, -1, true, sp);
    if (Desc *d = getfd(dfd)) return simple(S_UTIME, d->ino, false, NULL);
    if (denied("utimensat", p)) return -1; return (int)RAW(utimensat, dfd, p, t, f);
}
int futimens(int fd, const struct timespec t[2]) noexcept { if (Desc *d = getfd(fd)) return simple(S_UTIME, d->ino, false, NULL); return (int)RAW(utimensat, fd, NULL, t, 0); }
char *getcwd(char *b, size_t n) noexcept {
    if (!g_sim) { long r = RAW(getcwd, b, n); return r < 0 ? NULL : b; }
    if (!b) { b = (char *)malloc(n ? n : 4096); n = n ? n : 4096; }
    if (g_cwd->size() + 1 > n) { errno = ERANGE; return NULL; }
    strcpy(b, g_cwd->c_str()); return b;
}
char *__getcwd_chk(char *b, size_t n, size_t) { return getcwd(b, n); }
char *get_current_dir_name(void) noexcept { char b[4096]; return getcwd(b, sizeof b) ? strdup(b) : NULL; }
int chdir(const char *p) noexcept { SP; if (simpath(p, sp)) { int d = find(sp); if (d < 0 || !G->ino[G->dent[d].ino].dir) { errno = ENOENT; return -1; } *g_cwd = sp; return 0; } if (g_sim) { errno = EACCES; return -1; } return (int)RAW(chdir, p); }
int fcntl64(int fd, int cmd, ...);
int fcntl(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
    if (Desc *d = getfd(fd)) {
        if (!d->open) { errno = EBADF; return -1; }
        if (cmd == F_GETFL) return d->flags;
        if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { int n = newfd(d->ino, d->flags); if (n >= 0) getfd(n)->pos = d->pos; return n; }
        return 0;
    }
    return (int)RAW(fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return fcntl(fd, cmd, arg); }
int dup(int fd) noexcept { if (Desc *d = getfd(fd)) { if (!d->open) { errno = EBADF; return -1; } int n = newfd(d->ino, d->flags); if (n >= 0) getfd(n)->pos = d->pos; return n; } return (int)RAW(dup, fd); }
int isatty(int fd) noexcept { if (getfd(fd)) { errno = ENOTTY; return 0; } int x[20]; return RAW(ioctl, fd, 0x5401, x) == 0; }
void *mmap(void *a, size_t l, int pr, int fl, int fd, off_t o) noexcept { if (fd >= 0 && g_sim && getfd(fd)) { errno = ENODEV; return MAP_FAILED; } return (void *)RAW(mmap, a, l, pr, fl, fd, o); }
void *mmap64(void *a, size_t l, int pr, int fl, int fd, off64_t o) noexcept { return mmap(a, l, pr, fl, fd, o); }
ssize_t splice(int a, off64_t *, int b, off64_t *, size_t, unsigned) { (void)a; (void)b; errno = EINVAL; return -1; }
ssize_t copy_file_range(int, off64_t *, int, off64_t *, size_t, unsigned) { errno = EINVAL; return -1; }
ssize_t sendfile(int, int, off_t *, size_t) noexcept { errno = EINVAL; return -1; }
ssize_t sendfile64(int, int, off64_t *, size_t) noexcept { errno = EINVAL; return -1; }
int poll(struct pollfd *p, nfds_t n, int t) {
    if (g_sim) { bool any = false; for (nfds_t i = 0; i < n; i++) if (getfd(p[i].fd)) { p[i].revents = p[i].events; any = true; } else p[i].revents = 0; if (any) { int c = 0; for (nfds_t i = 0; i < n; i++) c += p[i].revents != 0; return c; } }
    struct timespec ts = {t / 1000, (t % 1000) * 1000000}; return (int)RAW(ppoll, p, n, t < 0 ? NULL : &ts, NULL, 0);
}
int fstatfs(int fd, struct statfs *s) noexcept { if (getfd(fd)) { memset(s, 0, sizeof *s); s->f_type = 0xEF53; s->f_bsize = 4096; return 0; } return (int)RAW(fstatfs, fd, s); }
int statfs(const char *p, struct statfs *s) noexcept { SP; if (simpath(p, sp)) { memset(s, 0, sizeof *s); s->f_type = 0xEF53; s->f_bsize = 4096; return 0; } return (int)RAW(statfs, p, s); }
int fstatfs64(int fd, struct statfs64 *s) noexcept { return fstatfs(fd, (struct statfs *)s); }
int statfs64(const char *p, struct statfs64 *s) noexcept { return statfs(p, (struct statfs *)s); }
int statvfs(const char *p, struct statvfs *s) noexcept { SP; if (simpath(p, sp)) { memset(s, 0, sizeof *s); s->f_bsize = 4096; return 0; } errno = ENOSYS; return -1; }
int fstatvfs(int fd, struct statvfs *s) noexcept { (void)fd; memset(s, 0, sizeof *s); s->f_bsize = 4096; return 0; }
ssize_t getxattr(const char *p, const char *n, void *v, size_t s) noexcept { SP; if (simpath(p, sp)) { errno = ENOTSUP; return -1; } return RAW(getxattr, p, n, v, s); }
ssize_t lgetxattr(const char *p, const char *n, void *v, size_t s) noexcept { SP; if (simpath(p, sp)) { errno = ENOTSUP; return -1; } return RAW(lgetxattr, p, n, v, s); }
ssize_t fgetxattr(int fd, const char *n, void *v, size_t s) noexcept { if (getfd(fd)) { errno = ENOTSUP; return -1; } return RAW(fgetxattr, fd, n, v, s); }
ssize_t listxattr(const char *p, char *l, size_t s) noexcept { SP; if (simpath(p, sp)) { errno = ENOTSUP; return -1; } return RAW(listxattr, p, l, s); }
ssize_t llistxattr(const char *p, char *l, size_t s) noexcept { SP; if (simpath(p, sp)) { errno = ENOTSUP; return -1; } return RAW(llistxattr, p, l, s); }
ssize_t flistxattr(int fd, char *l, size_t s) noexcept { if (getfd(fd)) { errno = ENOTSUP; return -1; } return RAW(flistxattr, fd, l, s); }
// clocks and randomness
time_t time(time_t *t) noexcept { time_t v; if (g_sim) { G->clock_us += 1; v = (time_t)(G->clock_us / 1000000); } else { struct timespec ts; RAW(clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec *ts) noexcept { if (g_sim) { G->clock_us += 1; ts->tv_sec = G->clock_us / 1000000; ts->tv_nsec = (G->clock_us % 1000000) * 1000; return 0; } return (int)RAW(clock_gettime, c, ts); }
int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (g_sim) { fill_random(b, n); return (ssize_t)n; } return RAW(getrandom, b, n, f); }
int getentropy(void *b, size_t n) { if (g_sim) { fill_random(b, n); return 0; } return RAW(getrandom, b, n, 0) < 0 ? -1 : 0; }
pid_t getpid(void) noexcept { if (g_sim) return 4242 + g_actor; return (pid_t)RAW(getpid, 0); }
// stdio
FILE *fopen(const char *p, const char *m) {
    SP;
    if (!g_sim) { if (!real_fopen) real_fopen = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); return real_fopen(p, m); }
    int fl = mode_flags(m);
    if (is_urandom(p) || (p && !strcmp(p, "/dev/null"))) { int fd = open_common(AT_FDCWD, p, fl, 0666); if (fd < 0) return NULL; return cookie(fd - FDBASE, m); }
    if (simpath(p, sp)) {
        int fd = do_open(sp, fl, 0666); if (fd < 0) return NULL;
        char mm[4] = {m[0], 0, 0, 0}; if (strchr(m, '+')) mm[1] = '+';
        FILE *f = cookie(fd - FDBASE, mm); if (f && m[0] == 'a') do_seek(&fds[fd - FDBASE], 0, SEEK_END);
        return f;
    }
    if (fl != O_RDONLY && denied("fopen", p)) return NULL;
    return real_fopen(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m) noexcept {
    if (Desc *d = getfd(fd)) { if (!d->open) { errno = EBADF; return NULL; } char mm[4] = {m[0], 0, 0, 0}; if (strchr(m, '+')) mm[1] = '+'; return cookie(fd < 3 ? fd : fd - FDBASE, mm); }
    if (!real_fdopen) real_fdopen = (FILE * (*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen");
    return real_fdopen(fd, m);
}
int fileno(FILE *f) noexcept {
    if (g_sim && filemap) { auto it = filemap->find(f); if (it != filemap->end()) return it->second < 3 ? it->second : it->second + FDBASE; }
    if (!real_fileno) real_fileno = (int (*)(FILE *))dlsym(RTLD_NEXT, "fileno");
    return real_fileno(f);
}
int fileno_unlocked(FILE *f) noexcept { return fileno(f); }
// directories
DIR *opendir(const char *p) {
    SP;
    if (simpath(p, sp)) {
        if (simple(S_READDIR, -1, true, sp)) return NULL;
        if (!G->ino[G->dent[find(sp)].ino].dir) { errno = ENOTDIR; return NULL; }
        SimDir *s = new SimDir(); s->pos = 0; s->names = new std::vector<std::string>();
        std::string pre = std::string(sp) + "/";
        for (auto &x : sim_list(pre)) { std::string t = x.substr(pre.size()); if (t.find('/') == std::string::npos) s->names->push_back(t); }
        (*dirs)[(DIR *)s] = s; return (DIR *)s;
    }
    if (!real_opendir) real_opendir = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    return real_opendir(p);
}
struct dirent *readdir(DIR *d) {
    if (g_sim && dirs->count(d)) {
        SimDir *s = (SimDir *)d; if (s->pos >= s->names->size()) return NULL;
        memset(&s->ent, 0, sizeof s->ent); snprintf(s->ent.d_name, sizeof s->ent.d_name, "%s", (*s->names)[s->pos++].c_str()); s->ent.d_type = DT_UNKNOWN; s->ent.d_ino = s->pos; return &s->ent;
    }
    if (!real_readdir) real_readdir = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
    return real_readdir(d);
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *d) {
    if (g_sim && dirs->count(d)) { dirs->erase(d); return 0; }
    if (!real_closedir) real_closedir = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    return real_closedir(d);
}
} // extern C
