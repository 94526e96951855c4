// Reference model: what a package and the sessions on it must contain.
#pragma once
#include "case.h"
#include <memory>

struct MCol { std::string name; char kind = 's'; /* s i(2) j(4) v */ int type = 0; bool key = false, nullable = false, temp = false; };
struct MRow { std::vector<Val> c; bool temp = false; };
struct MTable { std::string name; std::vector<MCol> cols; std::vector<MRow> rows; bool persistent = true; int refs = 1; std::map<std::string, int> colrefs; int col(const std::string &n) const; };
struct MProp { char t = 's'; s64 i = 0; u64 ft = 0; std::string s; bool operator==(const MProp &o) const { return t == o.t && i == o.i && ft == o.ft && s == o.s; } };
struct MDb {
    std::map<std::string, MTable> tables;
    std::map<std::string, std::string> streams;
    std::map<std::string, std::map<std::string, std::string>> storages; // name -> streams (decoded names unspecified)
    std::map<int, MProp> si;
    int cp = 0; // code page: 0 (system default, holds Latin-1 here), 65001 (everything)
    bool representable() const;
    std::vector<std::string> dump(bool streams = true) const;
    MDb stored() const; // what a commit stores
};
typedef std::shared_ptr<MDb> PDb;

struct Expect {
    enum K { OK, ERR, ANY, ROWS, TEXT, FETCH } k = OK;
    std::vector<std::vector<std::string>> alt; // ROWS: other possible rows
    std::vector<std::string> rows;   // ROWS: multiset; FETCH: allowed remaining
    bool ordered_exact = false;
    std::vector<std::pair<int, char>> order; // ORDER BY columns (index into row, kind): check
    std::vector<std::vector<s64>> okeys;
    std::string text;                // TEXT
    long want = 0; // FETCH
    std::string prop;                // property this expectation belongs to
    std::string why;
};

struct MQuery { std::string handle; std::vector<std::string> rest; std::vector<std::string> all; std::set<std::string> tables; bool tainted = false, live = false; std::vector<u64> vers; Op op; bool ended = false; bool released_db = false; };
struct MStrm { std::string data; s64 pos = 0; bool tainted = false; };
struct MSi { std::map<int, MProp> p; int limit = 0; std::string handle; bool tainted = false; };
struct Sess {
    std::string path; int flags = 0; MDb db; std::map<std::string, u64> ver; u64 alter = 0; // versions per table
    bool readonly() const { return flags == 1; }
    std::vector<long> vidx; // which versions db and alts are, for readers next to a writer
    std::vector<MDb> alts; // other possible contents (after a crash, until seen)
    bool wild = false; // contents no longer known (an import or merge that was cut short, a damaged package)
    bool commit_failed = false, did_commit = false, everbad = false;
};
struct PkgState { bool exists = false, may_absent = false, wild = false; std::vector<MDb> cand; }; // candidates for what is stored
struct MExport { char kind = '?'; /* t(able) s(ummary) c(ode page) ? (unknown) */ MTable t; std::map<std::string, std::string> streams; std::map<int, MProp> si; int cp = 0; bool bins() const; std::vector<std::string> lines() const; };
struct World {
    std::map<std::string, MExport> exports; // archives the workload exported
    std::map<std::string, PkgState> pkg;
    std::map<std::string, std::string> files; // ordinary files the workload put there
    std::set<std::string> touched;            // packages legitimately changed other than by a commit
    std::map<std::string, std::vector<std::string>> built; // packages wixl built: seeds of what may be there ("" nothing)
    bool invalid = false;                     // case left the modelled territory
    std::string inv_why;
};
struct ActorState {
    std::map<std::string, Sess> s; std::map<std::string, MQuery> q; std::map<std::string, MStrm> st; std::map<std::string, MSi> si;
};

// evaluates an operation on the model; `apply` says whether it took effect
struct Model {
    World &w; ActorState &a; u64 vctr = 1;
    Model(World &w_, ActorState &a_) : w(w_), a(a_) {}
    Expect eval(const Op &op);                // expectation before the op (no state change)
    void apply(const Op &op, bool ok, const std::vector<std::string> &rows);
    void failed(const Op &op);        // the op reported failure after a fault
    void commit_failed(const Op &op);
    void spoil_export(const Op &op);
    void crashed(const Op &op);       // the process died inside the op
    void invalid(const std::string &why) { w.invalid = true; if (w.inv_why.empty()) w.inv_why = why; }
};
bool cond_eval(const std::string &tok, const std::vector<std::pair<const MTable *, const MRow *>> &env, bool *bad);
std::vector<std::string> archive_lines(const std::string &data);
bool str_fits_cp(const std::string &s, int cp);
bool name_fits(const std::string &name);   // stream name the format can hold
std::string stream_name(const MTable &t, const MRow &r);
std::string cell_canon(const MDb &d, const MTable &t, const MRow &r, size_t i);
bool expect_match(const Expect &e, const std::string &res, const std::vector<std::string> &rows, std::string &why);
