// Workload generation: operations are tried on the model first, so that every
// generated operation has a defined expectation.
#pragma once
#include "model.h"

struct Gen {
    Rng &r; World w; Phase ph; std::vector<ActorState> as; u32 nextid = 1; int cur = 0;
    std::vector<std::string> strpool; std::vector<s64> intpool; std::map<std::string, int> weight;
    std::string prof; int thorough = 0; bool litonly = false; // litonly: values that SQL can say
    Gen(Rng &rng, const World &world) : r(rng), w(world) { ph.actors.resize(1); as.resize(1); }
    void actor(int n) { if ((int)ph.actors.size() <= n) { ph.actors.resize(n + 1); as.resize(n + 1); } cur = n; }
    bool op(const std::string &line);   // returns false when the operation left the modelled territory (and was dropped)
    Expect last; bool utf() const;
    // vocabulary
    std::string table_name(); std::string new_table(const std::string &h, int mincols = 1, int maxcols = 7, bool temp_ok = false, bool binary = true);
    std::string str_tok(); Val rnd_str(); Val rnd_int(char kind); Val rnd_val(const MCol &c, bool null_ok = true);
    std::string val_param(const Val &v, bool lit_ok = true);
    std::string cond(const std::string &h, const std::vector<std::string> &tables, int depth = 2);
    const MDb *db(const std::string &h);
    std::string any_table(const std::string &h, bool with_rows = false);
    bool insert(const std::string &h, const std::string &t, int temp = 0, bool collide = false);
    bool update(const std::string &h, const std::string &t);
    bool del(const std::string &h, const std::string &t);
    bool select(const std::string &h, bool open = false, const std::string &q = "");
    bool ddl(const std::string &h, bool temp_ok);
    bool stream_op(const std::string &h, bool read_ok = true);
    bool storage_op(const std::string &h);
    bool si_op(const std::string &h, std::string &si);
    void fill(const std::string &h, int n, bool same, const std::string &t = "Fill"); // many rows at once
    std::string stream_pick();
    std::string bin_tok();
    void edits(const std::string &h, int n);  // random modifications
    void reads(const std::string &h, int n);
    void build(const std::string &h, int tables, int rows); // initial contents
};
enum FaultPolicy { FP_NONE, FP_BENIGN, FP_KILL, FP_POWER, FP_WRITE, FP_READ, FP_ALL, FP_CUSTOM, FP_READERS };
struct Profile { const char *prop; int phases_min, phases_max; FaultPolicy fp; void (*gen)(Gen &g, int phase, int nphases); const char *desc; const char *kinds; int variants; };
extern const Profile profiles[]; extern const int nprofiles;
void plan_faults(const Profile &p, const Phase &ph, const std::vector<TraceRec> &tr, Rng &r, std::vector<std::vector<Fault>> &out, int n);
