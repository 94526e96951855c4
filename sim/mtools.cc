// What msibuild and msiinfo have to do, in terms of the reference model.
#include "tools.h"
#include "wx.h"
#include <algorithm>
#include <string.h>
#include <time.h>

bool is_tool_op(const std::string &k) { return k == "mb" || k == "info" || k == "heat" || k == "wixl" || k == "wxlook" || k == "twice" || k == "wxx"; }
static const char H[] = "_mb";
// mb PATH MODE ; sub ; sub ...
static std::vector<std::vector<std::string>> parts(const Op &op) {
    std::vector<std::vector<std::string>> P; for (size_t i = 3; i < op.t.size(); i++) { if (op.t[i] == ";") P.emplace_back(); else if (P.size()) P.back().push_back(op.t[i]); } return P;
}
std::vector<std::string> mb_args(const Op &op) {
    std::vector<std::string> a; bool first = true;
    auto add = [&](const std::string &s) { a.push_back(s); if (first && op.t[2] == "1") a.push_back(op.t[1]); first = false; };
    if (op.t[2] != "1") a.push_back(op.t[1]);
    for (auto &p : parts(op)) {
        const std::string &k = p[0];
        if (k == "q" || k == "Q" || k == "n" || (k.size() == 1 && isdigit((unsigned char)k[0]))) {
            Op o; o.t.assign(p.begin() + 1, p.end()); std::vector<std::string> P; std::string s = o.t[0] == "sql" ? unpct(o.t[1]) : sql_of(o, &P);
            static const char *J[] = {";", "; ", " ", "\n", " ;\n "};
            if (k == "q") { add("-q"); a.push_back(s); } else if (k == "Q") { add("-q"); a.push_back(" \n" + s + " ; "); } else if (k == "n") a.push_back(s); else a.back() += J[(k[0] - '0') % 5] + s;
        } else if (k == "i" || k == "I") { if (k == "i") add("-i"); a.push_back(p[1]); }
        else if (k == "a") { add("-a"); a.push_back(unpct(p[1])); a.push_back(p[2]); }
        else if (k == "s") { add("-s"); for (size_t i = 1; i < p.size(); i++) a.push_back(val_parse(p[i]).s); }
        else if (k == "x") { add("-q"); a.push_back("\x01sql"); }
        else if (k == "r") { for (size_t i = 1; i < p.size(); i++) add(unpct(p[i])); }
    }
    return a;
}
static Expect mk(Expect::K k, const char *p, const std::string &why = "") { Expect e; e.k = k; e.prop = p; e.why = why; return e; }
static const PkgState *pkg_of(const World &w, const std::string &path, bool &unknown) { // NULL: no such package
    auto it = w.pkg.find(path); unknown = false; if (it == w.pkg.end() || !it->second.exists) return NULL;
    const PkgState &p = it->second; if (p.wild || p.may_absent || p.cand.empty()) { unknown = true; return NULL; }
    for (size_t i = 1; i < p.cand.size(); i++) if (p.cand[i].dump() != p.cand[0].dump() || p.cand[i].storages != p.cand[0].storages) { unknown = true; return NULL; }
    return &p;
}
static void si_set(MDb &d, int p, const std::string &s) { MProp v; v.t = 's'; v.s = s; d.si[p] = v; }
static void si_seti(MDb &d, int p, s64 i) { MProp v; v.t = 'i'; v.i = i; d.si[p] = v; }
// what re-creating a table from `msiinfo export -s` gives; false when SQL cannot say it
static bool sql_table(const MTable &t, MTable &o) {
    o = t; o.refs = 1; o.colrefs.clear(); o.persistent = true;
    for (auto &c : o.cols) { if (c.kind == 's') c.type |= 0x400; if (c.kind == 'i') c.type |= 0x400; if (c.kind == 'v') c.type &= ~0xff; else if (c.kind != 's') c.type &= ~0x200; }
    for (auto &r : o.rows) { r.temp = false; bool say = false; for (size_t i = 0; i < o.cols.size(); i++) if (r.c[i].k != Val::NUL || o.cols[i].kind == 's' || o.cols[i].kind == 'v') say = true; if (!say) return false; for (auto &v : r.c) { if (v.k == Val::STR && v.s.find('\'') != std::string::npos) return false; if (v.k == Val::BIN) v = Val(); } }
    return true;
}
static void drop_bins(MDb &d, const MTable &m) { (void)d; (void)m; }
// runs the requests on copies of the world: fills w2 with what is stored afterwards
static Expect mb_run(Model &m, const Op &op, World &w2) {
    bool unknown; const PkgState *p = pkg_of(m.w, op.t[1], unknown); if (unknown) return mk(Expect::ANY, "P19", "package unknown");
    w2 = m.w; ActorState a2; Sess s; s.path = op.t[1]; s.flags = p ? 4 : 2;
    if (p) s.db = p->cand[0]; else { si_set(s.db, 2, "Installation Database"); si_set(s.db, 5, "Installer, MSI"); si_set(s.db, 7, ";1033"); si_set(s.db, 18, "libmsi msibuild"); si_seti(s.db, 14, 200); si_seti(s.db, 15, 0); si_seti(s.db, 16, 0); si_set(s.db, 9, "*UUID*"); }
    a2.s[H] = s; Model m2(w2, a2); auto P = parts(op); if (P.empty()) return mk(Expect::ERR, "P19", "usage");
    for (auto &x : P) {
        const std::string &k = x[0]; Op o; o.id = op.id; MDb &d = a2.s[H].db;
        if (k == "r") return mk(Expect::ERR, "P19", "bad command line");
        if (k == "s") { static const int pr[] = {3, 4, 7, 9}; for (size_t i = 1; i < x.size() && i < 5; i++) si_set(d, pr[i - 1], val_parse(x[i]).s); continue; }
        if (k == "x") {
            auto it = m.w.exports.find("\x01sql"); if (it == m.w.exports.end() || it->second.kind != 't') continue;
            if (d.tables.count(it->second.t.name)) return mk(Expect::ERR, "P20", "table exists");
            MTable n; if (!sql_table(it->second.t, n)) continue;
            for (auto &r : n.rows) for (auto &c : n.cols) if (c.kind == 'v' && d.streams.count(stream_name(n, r))) { m.invalid("cell stream"); return mk(Expect::ANY, "P20"); }
            d.tables[n.name] = n; drop_bins(d, n); continue;
        }
        if (k == "i" || k == "I") o.t = {"imp", H, x[1]}; else if (k == "a") o.t = {"sputf", H, x[1], x[2]}; else { o.t.assign(x.begin() + 1, x.end()); if (o.t[0] == "sql") return mk(Expect::ERR, "P19", "bad statement"); }
        Expect e = m2.eval(o); if (w2.invalid) { m.invalid("mb: " + w2.inv_why); return mk(Expect::ANY, "P19"); }
        if (e.k == Expect::ANY) { m.invalid("mb: any"); return mk(Expect::ANY, "P19"); }
        if (e.k == Expect::ERR) return mk(Expect::ERR, "P19", e.why);
        m2.apply(o, true, {}); if (w2.invalid || a2.s[H].wild) { m.invalid("mb: " + w2.inv_why); return mk(Expect::ANY, "P19"); }
    }
    Op c; c.id = op.id; c.t = {"commit", H}; Expect e = m2.eval(c); if (e.k != Expect::OK) return mk(e.k == Expect::ERR ? Expect::ERR : Expect::ANY, "P19", e.why);
    m2.apply(c, true, {}); return mk(Expect::OK, "P19");
}
static std::string iline(std::string l) { return l.size() < 200 ? "l" + pct(l) : canon_bin(l.data(), l.size()); }
static const char SRC[] = "wx";
static std::vector<std::string> wx_rows(const std::string &seed) { if (seed.empty()) return {"absent"}; return wx_facts(SRC, (u32)atoi(seed.c_str()), 0).rows; }
static std::vector<std::string> wx_cands(const World &w, const std::string &path) { auto it = w.built.find(path); if (it == w.built.end()) return {""}; return it->second; }
static std::vector<std::string> wx_tree(const std::string &seed, bool list) { const WxFacts &F = wx_facts(SRC, (u32)atoi(seed.c_str()), 0); return list ? F.list : F.tree; }
static bool same_rows(std::vector<std::string> a, std::vector<std::string> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
static Expect wx_eval(Model &m, const Op &op) {
    const auto &t = op.t; const std::string &k = t[0];
    if (k == "wixl") { if (atoi(t[3].c_str()) % 8 == 0) { Expect e = mk(Expect::ROWS, "P22"); return e; } return mk(Expect::ERR, "P22", wx_facts(SRC, (u32)atoi(t[2].c_str()), atoi(t[3].c_str())).why); }
    if (k == "twice") return mk(Expect::ROWS, "P22");
    auto C = wx_cands(m.w, t[1]);
    if (k == "wxlook") { Expect e = mk(Expect::ROWS, "P22"); for (size_t i = 0; i < C.size(); i++) if (i) e.alt.push_back(wx_rows(C[i])); else e.rows = wx_rows(C[i]); return e; }
    // wxx
    if (C.size() != 1) return mk(Expect::ANY, "P21"); if (C[0].empty()) return mk(Expect::ERR, "P21", "no such package");
    if (C[0].find('!') != std::string::npos) return t[3] == "l" ? mk(Expect::ANY, "P21") : mk(Expect::ERR, "P21", "a name that leads out of the output directory");
    Expect e = mk(Expect::ROWS, "P21"); e.rows = wx_tree(C[0], t[3] == "l"); return e;
}
Expect tool_eval(Model &m, const Op &op) {
    const auto &t = op.t;
    if (t[0] == "mb") { World w2; return mb_run(m, op, w2); }
    if (t[0] == "heat") { Expect e = mk(Expect::ROWS, "P23"); e.rows = heat_facts((u32)atoi(t[1].c_str())).rows; return e; }
    if (t[0] == "wixl" || t[0] == "wxlook" || t[0] == "twice" || t[0] == "wxx") return wx_eval(m, op);
    // info CMD f|p PATH [arg]
    const std::string &c = t[1]; bool unknown; const PkgState *p = pkg_of(m.w, t[3], unknown); if (unknown) return mk(Expect::ANY, "P20");
    if (!p) return mk(Expect::ERR, "P20", "no such package");
    const MDb &d = p->cand[0]; Expect e = mk(Expect::ROWS, "P20");
    if (c == "streams" && t.size() == 4) { for (auto &s : d.streams) e.rows.push_back(iline(s.first)); return e; }
    if (c == "tables" && t.size() == 4) { e.rows = {iline("_SummaryInformation"), iline("_ForceCodepage")}; for (auto &x : d.tables) e.rows.push_back(iline(x.first)); return e; }
    if (c == "suminfo" && t.size() == 4) {
        static const struct { int p; const char *n; } N[] = {{2, "Title"}, {3, "Subject"}, {4, "Author"}, {5, "Keywords"}, {6, "Comments"}, {7, "Template"}, {8, "Last author"}, {9, "Revision number (UUID)"}, {10, "Edittime"}, {11, "Last printed"}, {12, "Created"}, {13, "Last saved"}, {14, "Version"}, {15, "Source"}, {16, "Restrict"}, {17, "Thumbnail"}, {18, "Application"}, {19, "Security"}};
        for (auto &x : N) { auto it = d.si.find(x.p); if (it == d.si.end()) continue; const MProp &v = it->second; char b[128];
            if (v.t == 'i') { snprintf(b, sizeof b, "%d (%x)", (int)v.i, (unsigned)(int)v.i); e.rows.push_back(iline(std::string(x.n) + ": " + b)); }
            else if (v.t == 't') { time_t u = (time_t)(v.ft / 10000000ULL - 134774ULL * 86400); struct tm tm; gmtime_r(&u, &tm); strftime(b, sizeof b, "%a %b %e %H:%M:%S %Y", &tm); { char b2[128]; static const char *wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; snprintf(b2, sizeof b2, "%.3s %.3s%3d %.2d:%.2d:%.2d %d", wd[tm.tm_wday], mo[tm.tm_mon], tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, 1900 + tm.tm_year); e.rows.push_back(iline(std::string(x.n) + ": " + b2)); } }
            else e.rows.push_back(iline(std::string(x.n) + ": " + v.s)); }
        return e;
    }
    if (t.size() != 5) return mk(Expect::ERR, "P20", "usage");
    std::string a = unpct(t[4]);
    if (c == "extract") { auto it = d.streams.find(a); if (it == d.streams.end()) return a.find("\x05") != std::string::npos ? mk(Expect::ANY, "P20") : mk(Expect::ERR, "P20", "no such stream"); e.rows.push_back(canon_bin(it->second.data(), it->second.size())); return e; }
    if (c == "export" || c == "sql") {
        if (a == "_ForceCodepage" || a == "_SummaryInformation") {
            if (c == "sql") return mk(Expect::ANY, "P20");
            MExport x; x.kind = a == "_ForceCodepage" ? 'c' : 's'; x.cp = d.cp; x.si = d.si; if (x.kind == 's') for (auto &y : d.si) if (y.second.t == 't' && y.second.ft > 2600000000000000000ULL) return mk(Expect::ANY, "P20"); e.rows = x.lines(); e.ordered_exact = true; return e;
        }
        if (a[0] == '_' && a != "_") return mk(Expect::ANY, "P20");
        auto it = d.tables.find(a); if (it == d.tables.end()) return mk(Expect::ERR, "P20", "no such table");
        const MTable &x = it->second;
        if (c == "sql") { MTable o; return mk(sql_table(x, o) ? Expect::OK : Expect::ERR, "P20", "a quote in a string"); }
        for (auto &r : x.rows) for (auto &v : r.c) { if (v.k == Val::BIN && stream_name(x, r).find('/') != std::string::npos) return mk(Expect::ERR, "P20", "not a file name"); if (v.k == Val::STR && v.s.find_first_of("\x10\x11\x19") != std::string::npos) return mk(Expect::ANY, "P20"); }
        MExport y; y.kind = 't'; y.t = x; e.rows = y.lines(); return e;
    }
    return mk(Expect::ERR, "P20", "usage");
}
void tool_apply(Model &m, const Op &op, bool ok, const std::vector<std::string> &rows) {
    const auto &t = op.t;
    if (t[0] == "wixl") { m.w.files[t[1]] = "package"; if (ok) { if (t[3] == "0") m.w.built[t[1]] = {t[2]}; else if (t[3] == "8") m.w.built[t[1]] = {t[2] + "!"}; } else if (!m.w.built.count(t[1])) m.w.built[t[1]] = {""}; return; }
    if (t[0] == "wxlook" && ok) { auto C = wx_cands(m.w, t[1]), K = C; K.clear(); for (auto &c : C) { std::vector<std::string> R; for (auto &r : rows) { R.push_back(r); } if (same_rows(R, wx_rows(c))) K.push_back(c); } if (K.size()) m.w.built[t[1]] = K; return; }
    if (t[0] == "mb") {
        if (!ok) return; World w2; Expect e = mb_run(m, op, w2);
        if (e.k == Expect::ANY) { auto &p = m.w.pkg[t[1]]; p.exists = true; p.may_absent = false; p.wild = true; return; }
        if (e.k == Expect::OK) m.w.pkg = w2.pkg; return;
    }
    if (t[0] == "info" && t.size() == 5) {
        bool unknown; const PkgState *p = pkg_of(m.w, t[3], unknown); std::string a = unpct(t[4]);
        if (t[1] == "sql" && ok) { MExport x; if (ok && p) { auto it = p->cand[0].tables.find(a); if (it != p->cand[0].tables.end()) { x.kind = 't'; x.t = it->second; } } m.w.exports["\x01sql"] = x; }
        if (t[1] == "export" && p) { auto it = p->cand[0].tables.find(a); if (it != p->cand[0].tables.end()) for (auto &r : it->second.rows) for (auto &v : r.c) if (v.k == Val::BIN) m.w.files[a + "/" + stream_name(it->second, r)] = "export"; }
    }
}
void tool_crashed(Model &m, const Op &op) {
    if (op.t[0] == "wixl" && op.t[3] == "0") { auto C = wx_cands(m.w, op.t[1]); C.push_back(op.t[2]); m.w.built[op.t[1]] = C; m.w.files[op.t[1]] = "package"; }
    if (op.t[0] != "mb") return; World w2; Expect e = mb_run(m, op, w2); if (e.k == Expect::ERR) return;
    auto &p = m.w.pkg[op.t[1]]; if (!p.exists) { p.may_absent = true; p.exists = true; }
    if (e.k == Expect::OK) p.cand.push_back(w2.pkg[op.t[1]].cand[0]); else p.wild = true;
}
