// Simulated machine: one shared-memory arena holding an in-memory file system
// (volatile and durable state), clock, randomness, fault plan, schedule,
// system-call trace and result log.  All libc entry points that libgsf, GLib,
// GIO, libxml2, gcab and msitools use to reach the outside world are
// interposed in the executable and routed here (interpose.cc).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int32_t s32; typedef int64_t s64;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    u64 next() { // splitmix64
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((u32)(b - a + 1)); }
    bool chance(int pct) { return below(100) < (u32)pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((u32)v.size())]; }
};

u64 fnv(const void *p, size_t n, u64 h = 0xcbf29ce484222325ull);

enum Sys : u8 {
    S_OPEN_R, S_OPEN_W, S_READ, S_WRITE, S_SEEK, S_CLOSE, S_STAT, S_RENAME, S_UNLINK, S_MKDIR,
    S_FSYNC, S_TRUNC, S_CHMOD, S_CHOWN, S_UTIME, S_READLINK, S_ACCESS, S_READDIR, S_LINK, S_N
};
extern const char *sys_names[S_N];

enum FaultKind : u8 {
    F_NONE, F_ERR /* errno=param */, F_SHORT /* transfer param%n bytes (>=1) */, F_EINTR,
    F_KILL /* process dies before the call */, F_TORN /* process dies after param bytes of the write */,
    F_POWER /* power loss before the call */, F_CLOCK /* clock jumps by (s32)param seconds */, F_NKINDS
};
extern const char *fault_names[F_NKINDS];

// A fault hits the `step`-th simulated system call made during operation `op`
// of an actor; with count>1 it also hits later calls whose kind is in `mask`.
struct Fault { u32 actor, op, step; u8 kind; u8 pad; u16 count; /* 0xffff = forever */ u32 param; u32 mask; };

struct TraceRec { u8 kind, actor; u16 op; u32 step; u32 ino; u32 len; s32 res; };

struct Inode {
    u32 used, dir, mode, nlink; // nlink: names
    u64 off, size, cap;
    u64 doff, dsize; u32 dvalid; // durable contents (dvalid=0: none ever)
    u32 dirty;
    s64 mtime; u32 special; // 1=pipe/stream: no seeking, 2=the same but never interrupted
};
struct Dent { u32 live; u32 ino; char path[248]; };
struct Jent { u8 op; /*0 add 1 del 2 rename*/ u32 ino; char a[248], b[248]; };

static const int MAXINO = 1024, MAXDENT = 1024, MAXJ = 1024, MAXTRACE = 1 << 17, MAXFAULT = 128, MAXACT = 8, MAXSCHED = 1 << 15;
static const size_t LOGSZ = 48u << 20, DATASZ = 768u << 20;

struct Shared {
    volatile u32 active;
    u64 rnd; s64 clock_us; u32 clock_step;
    u32 nsteps[MAXACT], opstep[MAXACT]; u32 total_steps, step_limit;
    u32 nfault; Fault fault[MAXFAULT]; u32 fired[MAXFAULT];
    u32 hit[S_N][F_NKINDS];
    u32 ntrace; u64 thash; u32 trace_on;
    u32 crashed; // 1 kill 2 power
    u32 runaway; // step limit exceeded
    u32 lastfault_op[MAXACT]; // op id (+1) of the first fault that fired
    u32 escapes; char escape_path[256];
    u32 overflow; // arena exhausted
    // actors
    u32 nact, cur; u32 alive[MAXACT]; volatile u32 sem[MAXACT];
    u64 sched_rng; u32 sched_replay, nsched, sched_pos; u8 sched[MAXSCHED]; u32 switch_pct;
    u32 opidx[MAXACT];
    // disk capacity in bytes (0 = unlimited)
    u64 capacity, usedbytes;
    // files
    u32 nino, ndent, nj; Inode ino[MAXINO]; Dent dent[MAXDENT]; Jent j[MAXJ];
    Dent durable[MAXDENT]; u32 ndurable;
    u32 tmpcount;
    u64 bump;
    u32 openfds[MAXACT];
    u64 loglen;
    TraceRec trace[MAXTRACE];
    char log[LOGSZ];
    u8 data[DATASZ];
};
extern Shared *G;
extern int g_actor; // index of the actor this process is
extern bool g_sim;  // this process runs under simulation

void sim_init();                 // map the arena
void sim_reset(u64 seed);        // fresh machine
void sim_boot();                 // machine (re)boot: everything present becomes durable
struct SimSnap { u64 rnd; s64 clock_us; u32 tmpcount; u64 bump; std::vector<Inode> ino; std::vector<Dent> dent; std::vector<Jent> j; std::vector<Dent> durable; std::vector<u8> data; };
SimSnap sim_snapshot();
void sim_restore(const SimSnap &s);
void sim_power_apply(Rng &r);    // after a power loss: compute what the disk kept
void sim_begin_proc();           // new process incarnation: clears counters and traces for a phase
void sim_enter_child(int actor); // called in the forked child: activates interposition
void sim_leave_child();          // actor finished: pass the baton
int  sim_open_fds();             // descriptors currently open in this process
int  sim_open_files(std::string *names);
std::vector<std::string> sim_list(const std::string &prefix);
bool sim_get(const std::string &path, std::string &out);
void sim_put(const std::string &path, const std::string &data, int special = 0);
void sim_mkdir(const std::string &path);
void sim_del(const std::string &path);
void sim_purge(const std::string &path);
bool sim_is_dir(const std::string &path);
bool sim_exists(const std::string &path);
void sim_log(const std::string &s); // append to result log
void sim_set_op(u32 i);
void sim_redirect_std(); // stdin/stdout/stderr of this process become /sim/stdin, /sim/stdout, /sim/stderr

int sim_nact();
