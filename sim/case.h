// Test cases: operations, faults and schedules in a textual form that can be
// written to and read from replay files.
#pragma once
#include "sim.h"
#include <map>
#include <string>
#include <vector>
#include <set>

struct Op { u32 id = 0; std::vector<std::string> t; std::string str() const; };
struct Actor { std::vector<Op> ops; };
struct Phase {
    std::vector<Actor> actors;
    std::vector<Fault> faults;
    std::vector<u8> sched; bool use_sched = false; u64 sched_seed = 0; u32 switch_pct = 50;
    std::string tz = "UTC";
    s64 clock_jump = 0; // seconds, before the phase
    u64 capacity_left = 0; // bytes of free disk space (0 = unlimited)
    u64 power_seed = 0;
};
struct Case {
    std::string profile; u64 seed = 0;
    std::vector<Phase> phases;
    std::map<std::string, std::string> opt;
    std::string str() const;
    static bool parse(const std::string &text, Case &c);
};
struct PhaseResult {
    std::vector<int> status;         // raw wait status per actor
    u32 crashed = 0, runaway = 0, escapes = 0, overflow = 0, lastfault_op[MAXACT] = {0};
    u32 fired = 0, steps = 0; s64 clock_us = 0;
    std::string log;                 // merged result log
    std::vector<TraceRec> trace; u64 thash = 0;
    std::vector<u8> sched;
    std::string escape_path;
    std::vector<u32> fired_each;
    u32 hit[S_N][F_NKINDS] = {{0}}; // faults that fired in this phase
};

std::string pct(const std::string &s);
std::string unpct(const std::string &s);
std::vector<std::string> split(const std::string &s, char c);

// values
struct Val {
    enum K { NUL, INT, STR, BIN } k = NUL;
    s64 i = 0; std::string s;
    bool operator==(const Val &o) const { return k == o.k && i == o.i && s == o.s; }
    bool operator<(const Val &o) const { if (k != o.k) return k < o.k; if (i != o.i) return i < o.i; return s < o.s; }
};
std::string val_tok(const Val &v);       // token for op lines (generated contents stay symbolic when registered)
Val val_parse(const std::string &tok);
std::string canon(const Val &v);         // canonical printed form used in result logs
std::string canon_str(const char *s);
std::string canon_bin(const void *p, size_t n);
std::string gen_bytes(u32 len, u32 seed);
std::string damage(const std::string &bytes, u32 seed); // what a broken disk or a hostile tool makes of a file
std::string gen_ole(u32 seed, std::vector<std::string> *listing = NULL); // a small compound file and what it holds
std::vector<std::string> ole_list(const std::string &bytes, const std::string &storage, bool &ok); // contents of one storage of a compound file
std::string gen_text(u32 len, u32 seed);

// SQL text of data ops (shared by the executor and anything that wants to print)
std::string sql_create(const Op &op);
std::string sql_of(const Op &op, std::vector<std::string> *params);

void exec_ops(const std::vector<Op> &ops); // in the child, linked with libmsi
typedef void (*Executor)(const Actor &a, int idx);
PhaseResult run_phase(const Phase &p, Executor ex, bool trace = true);
