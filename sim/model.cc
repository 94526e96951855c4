#include "model.h"
#include "tools.h"
#include <algorithm>
#include <string.h>
#include <time.h>
#include <functional>

bool MExport::bins() const { for (auto &c : t.cols) if (c.kind == 'v') return true; return false; }
int MTable::col(const std::string &n) const { for (size_t i = 0; i < cols.size(); i++) if (cols[i].name == n) return (int)i; return -1; }

std::string cell_canon(const MDb &d, const MTable &t, const MRow &r, size_t i) {
    if (r.c[i].k != Val::BIN) return canon(r.c[i]);
    auto it = d.streams.find(stream_name(t, r));
    return it == d.streams.end() ? "!gone" : canon_bin(it->second.data(), it->second.size());
}
static std::string row_canon_t(const MDb &d, const MTable &t, const MRow &r) { std::string s; for (size_t i = 0; i < r.c.size(); i++) { if (i) s += ","; s += cell_canon(d, t, r, i); } return s; }

static int type_bits(const std::string &t, const std::string &f, char &kind) {
    int b = 0;
    if (t == "c") { b = 0x800 | 1; kind = 's'; }
    else if (t == "lc") { b = 0x800 | 0x400; kind = 's'; }
    else if (t == "i2" || t == "int") { b = 2 | 0x400; kind = 'i'; }
    else if (t == "i4") { b = 4; kind = 'j'; }
    else if (t == "ob") { b = 0x800; kind = 'v'; }
    else { b = 0x800 | 0x400 | atoi(t.c_str() + 1); kind = 's'; }
    b |= 0x100;
    if (f.find('r') == std::string::npos) b |= 0x1000;
    if (f.find('l') != std::string::npos) b |= 0x200;
    else if (f.find('t') != std::string::npos) b |= 0x4000;
    if (f.find('k') != std::string::npos) b |= 0x2000;
    return b;
}
static MCol mcol(const std::string &d) {
    auto w = split(d, ':'); MCol c; c.name = w[0]; std::string f = w.size() > 2 ? w[2] : "";
    c.type = type_bits(w[1], f, c.kind); c.key = c.type & 0x2000; c.nullable = c.type & 0x1000; c.temp = c.type & 0x4000; return c;
}
std::string stream_name(const MTable &t, const MRow &r) {
    std::string n = t.name;
    for (size_t i = 0; i < t.cols.size(); i++) if (t.cols[i].key) {
        n += "."; const Val &v = r.c[i];
        if (t.cols[i].kind == 's') n += v.s; else n += v.k == Val::NUL ? (t.cols[i].kind == 'i' ? "-32768" : "-2147483648") : std::to_string(v.i);
    }
    return n;
}
static int enc_units(const std::string &n) { // UTF-16 units of the encoded name, -1 if not valid UTF-8
    auto m = [](unsigned char c) { return isalnum(c) || c == '.' || c == '_'; };
    int u = 0;
    for (size_t i = 0; i < n.size(); ) {
        unsigned char c = (unsigned char)n[i];
        if (c < 0x80 && m(c)) { if (i + 1 < n.size() && (unsigned char)n[i + 1] < 0x80 && m((unsigned char)n[i + 1])) i += 2; else i++; u++; }
        else { int l = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; u += l == 4 ? 2 : 1; i += l; }
    }
    return u;
}
static int raw_units(const std::string &n) { int u = 0; for (unsigned char c : n) if ((c & 0xc0) != 0x80) u += c >= 0xf0 ? 2 : 1; return u; }
bool name_fits(const std::string &name) { return !name.empty() && enc_units(name) <= 31; }

std::vector<std::string> MDb::dump(bool withstreams) const {
    std::vector<std::string> L, C, R;
    for (auto &tp : tables) {
        const MTable &t = tp.second;
        if (t.persistent) for (size_t i = 0; i < t.cols.size(); i++)
            C.push_back(canon_str(t.name.c_str()) + ",i" + std::to_string(i + 1) + "," + canon_str(t.cols[i].name.c_str()) + ",i" + std::to_string(t.cols[i].type));
    }
    std::sort(C.begin(), C.end());
    for (auto &c : C) L.push_back("C " + c);
    std::vector<std::pair<std::string, const MTable *>> T;
    for (auto &tp : tables) T.push_back({canon_str(tp.second.name.c_str()), &tp.second});
    std::sort(T.begin(), T.end());
    for (auto &x : T) {
        std::string l = "T " + x.first;
        if (x.second->persistent) { for (auto &c : x.second->cols) if (c.key) l += " " + c.name; }
        L.push_back(l);
        R.clear(); for (auto &r : x.second->rows) R.push_back(row_canon_t(*this, *x.second, r));
        std::sort(R.begin(), R.end());
        for (auto &r : R) L.push_back("R " + x.first + " " + r);
    }
    if (withstreams) {
        std::vector<std::string> S;
        for (auto &s : streams) S.push_back(canon_str(s.first.c_str()) + "," + canon_bin(s.second.data(), s.second.size()));
        std::sort(S.begin(), S.end());
        for (auto &s : S) L.push_back("S " + s);
        S.clear(); for (auto &s : storages) S.push_back(canon_str(s.first.c_str()));
        std::sort(S.begin(), S.end());
        for (auto &s : S) L.push_back("G " + s);
    }
    std::string i = "I";
    for (auto &p : si) {
        i += " p" + std::to_string(p.first) + "=";
        if (p.second.t == 'i') i += "i" + std::to_string(p.second.i); else if (p.second.t == 't') i += "t" + std::to_string(p.second.ft);
        else i += p.second.s.empty() ? "sEMPTY" : canon_str(p.second.s.c_str());
    }
    L.push_back(i);
    return L;
}
MDb MDb::stored() const {
    MDb d = *this;
    for (auto it = d.tables.begin(); it != d.tables.end();) {
        if (!it->second.persistent) { it = d.tables.erase(it); continue; }
        auto &t = it->second; t.refs = 1; t.colrefs.clear();
        t.rows.erase(std::remove_if(t.rows.begin(), t.rows.end(), [](const MRow &r) { return r.temp; }), t.rows.end());
        ++it;
    }
    return d;
}

bool str_fits_cp(const std::string &s, int cp) { // the workloads use ASCII, Latin-1 and CJK only
    if (cp == 65001) return true;
    for (unsigned char c : s) if (c >= 0xc4) return false; // U+0100 and up
    return true;
}
bool MDb::representable() const {
    if (cp == 65001) return true;
    for (auto &t : tables) if (t.second.persistent) for (auto &r : t.second.rows) if (!r.temp) for (auto &v : r.c) if (v.k == Val::STR && !str_fits_cp(v.s, cp)) return false;
    return true;
}
static void drop_bins(MDb &d, const MTable &m, const MRow &r) { for (auto &v : r.c) if (v.k == Val::BIN) d.streams.erase(stream_name(m, r)); }

// the lines of an archive
static std::string arc_line(std::string s) { return s.size() < 200 ? "l" + pct(s) : canon_bin(s.data(), s.size()); }
static std::string arc_text(std::string s) { for (auto &c : s) c = c == '\t' ? '\x10' : c == '\r' ? '\x11' : c == '\n' ? '\x19' : c; return s; }
std::vector<std::string> archive_lines(const std::string &data) {
    std::vector<std::string> L; size_t p = 0; for (;;) { size_t e = data.find("\r\n", p); if (e == std::string::npos) break; L.push_back(arc_line(data.substr(p, e - p))); p = e + 2; }
    if (p != data.size()) L.push_back("rest " + arc_line(data.substr(p))); return L;
}
static std::string ft_text(u64 ft) { time_t u = (time_t)((s64)(ft / 10000000ULL) - 134774LL * 86400); struct tm tm; gmtime_r(&u, &tm); char b[64]; snprintf(b, sizeof b, "%04d/%02d/%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec); return b; }
std::vector<std::string> MExport::lines() const {
    std::vector<std::string> L;
    if (kind == 'c') { L = {"l", "l", arc_line(std::to_string(cp) + "\t_ForceCodepage"), "rest " + arc_line(std::string(1, '\0'))}; return L; }
    if (kind == 's') {
        L = {arc_line("PropertyId\tValue"), arc_line("i2\tl255"), arc_line("_SummaryInformation\tPropertyId")};
        for (auto &p : si) L.push_back(arc_line(std::to_string(p.first) + "\t" + (p.second.t == 'i' ? std::to_string(p.second.i) : p.second.t == 't' ? ft_text(p.second.ft) : arc_text(p.second.s)))); return L;
    }
    std::string a, b, c = t.name;
    for (auto &k : t.cols) {
        char l = k.kind == 'v' ? 'v' : k.kind == 's' ? (k.type & 0x200 ? 'l' : 's') : 'i'; if (k.nullable) l = (char)toupper(l);
        std::string s = a.empty() ? "" : "\t"; a += s + k.name; b += s + l + std::to_string(k.kind == 'v' ? 0 : k.type & 0xff); if (k.key) c += "\t" + k.name;
    }
    L = {arc_line(a), arc_line(b), arc_line(c)};
    for (auto &r : t.rows) { std::string s; for (size_t i = 0; i < r.c.size(); i++) { if (i) s += "\t"; const Val &v = r.c[i]; s += v.k == Val::NUL ? "" : v.k == Val::INT ? std::to_string(v.i) : arc_text(v.k == Val::BIN ? stream_name(t, r) : v.s); } L.push_back(arc_line(s)); }
    return L;
}
// ---------------------------------------------------------------- conditions
typedef std::vector<std::pair<const MTable *, const MRow *>> Env;
static bool lookup(const Env &env, const std::string &id, const MCol *&c, const Val *&v, bool *bad) {
    size_t d = id.find('.'); std::string t = d == std::string::npos ? "" : id.substr(0, d), n = d == std::string::npos ? id : id.substr(d + 1);
    int found = 0;
    for (auto &e : env) {
        if (!t.empty() && e.first->name != t) continue;
        int i = e.first->col(n);
        if (i >= 0) { if (!found) { c = &e.first->cols[i]; v = e.second ? &e.second->c[i] : NULL; } found++; }
    }
    if (found != 1) { *bad = true; return false; }
    return true;
}
static s64 nval(const MCol &c, const Val &v) { return v.k == Val::INT ? v.i : c.kind == 'i' ? -32768 : -2147483648LL; }
static bool cond_rec(const std::vector<std::string> &w, size_t &i, const Env &env, bool *bad) {
    if (i >= w.size()) { *bad = true; return false; }
    std::string o = w[i++];
    if (o == "and" || o == "or" || o == "flatand" || o == "flator") {
        bool a = cond_rec(w, i, env, bad), b = cond_rec(w, i, env, bad);
        return o == "and" || o == "flatand" ? a && b : a || b;
    }
    const MCol *c = NULL; const Val *v = NULL;
    if (i >= w.size() || !lookup(env, w[i++], c, v, bad)) { *bad = true; i++; return false; }
    if (o == "null" || o == "nn") { if (!v) return false; bool isn = v->k == Val::NUL || (v->k == Val::STR && v->s.empty()); return o == "null" ? isn : !isn; }
    if (i >= w.size()) { *bad = true; return false; }
    std::string r = w[i++];
    const MCol *c2 = NULL; const Val *v2 = NULL; Val tmp;
    if (r[0] == '@') { if (!lookup(env, r.substr(1), c2, v2, bad)) return false; }
    else { tmp = val_parse(r[0] == '?' ? r.substr(1) : r); v2 = &tmp; }
    if (c->kind == 'v' || (c2 && c2->kind == 'v')) { *bad = true; return false; }
    if (c->kind == 's') {
        if (c2 ? c2->kind != 's' : !(v2->k == Val::STR || v2->k == Val::NUL)) { *bad = true; return false; }
        if (o != "eq" && o != "ne") { *bad = true; return false; }
        if (!v || !v2) return false;
        bool eq = v->s == v2->s; return o == "eq" ? eq : !eq;
    }
    if (c2 ? c2->kind == 's' : v2->k != Val::INT) { *bad = true; return false; }
    if (!v || !v2) return false;
    s64 a = nval(*c, *v), b = c2 ? nval(*c2, *v2) : v2->i;
    if (o == "eq") return a == b; if (o == "ne") return a != b; if (o == "lt") return a < b; if (o == "gt") return a > b; if (o == "le") return a <= b; return a >= b;
}
bool cond_eval(const std::string &tok, const Env &env, bool *bad) {
    if (tok == "-") return true;
    auto w = split(tok, ','); size_t i = 0; bool r = cond_rec(w, i, env, bad); if (i != w.size()) *bad = true; return r;
}
static Val lit_val(const std::string &s) { return val_parse(s[0] == '?' ? s.substr(1) : s); }

// ---------------------------------------------------------------- values into columns: -1 misuse, 0 does not fit, 1 fine
static int fits(const MCol &c, Val &v) {
    if (v.k == Val::STR && v.s.empty()) v = Val();
    if (v.k == Val::NUL) return 1;
    if (c.kind == 's') return v.k == Val::STR ? 1 : -1;
    if (c.kind == 'v') return v.k == Val::BIN ? 1 : -1;
    if (v.k != Val::INT) return -1;
    if (c.kind == 'i') { if (v.i == -32768) return -1; return v.i >= -32767 && v.i <= 32767; }
    return v.i > -2147483648LL && v.i <= 2147483647LL ? 1 : -1;
}
static Expect mk(Expect::K k, const char *p, const std::string &why = "") { Expect e; e.k = k; e.prop = p; e.why = why; return e; }

static std::string col_text(const MCol &c) {
    char l = c.kind == 'v' ? 'v' : c.kind == 's' ? (c.type & 0x200 ? 'l' : c.type & 0x4000 ? 'g' : 's') : (c.type & 0x4000 ? 'j' : 'i');
    if (c.nullable) l = (char)toupper(l);
    return std::string(1, l) + std::to_string(c.kind == 'v' ? 0 : c.type & 0xff);
}
static MCol archived_col(MCol c) { if (c.kind == 's') c.type |= 0x400; if (c.kind == 'v') c.type = (c.type & ~0xff); return c; } // what an archive, or a merge, says of a column

// ---------------------------------------------------------------- merge of b into a: 'o' fine, 'c' conflicts, 'd' definitions differ, 'n' a value does not fit, '?' outside the domain
struct MergePlan { char k = 'o'; std::map<std::string, int> conflicts; MDb db; };
static bool merge_types(const std::string &x, const std::string &y) { auto c = [](char ch) { return ch == 'l' ? 's' : ch == 'L' ? 'S' : ch; }; return strchr("lLsS", x[0]) ? c(x[0]) == c(y[0]) : x == y; }
static MergePlan merge_plan(const MDb &a, const MDb &b) {
    MergePlan p; p.db = a; bool differ = false, nofit = false;
    for (auto &x : b.tables) {
        const MTable &m = x.second; if (!m.persistent) { p.k = '?'; return p; }
        int bins = 0; for (auto &c : m.cols) { if (c.temp) { p.k = '?'; return p; } if (c.kind == 'v') bins++; } if (bins > 1) { p.k = '?'; return p; }
        auto it = a.tables.find(m.name); bool there = it != a.tables.end();
        size_t common = m.cols.size();
        if (there) {
            const MTable &o = it->second; if (!o.persistent) { p.k = '?'; return p; }
            bins = 0; for (auto &c : o.cols) if (c.kind == 'v') bins++; if (bins > 1) { p.k = '?'; return p; }
            common = std::min(common, o.cols.size()); bool bad = false;
            for (size_t i = 0; i < common; i++) if (o.cols[i].name != m.cols[i].name || !merge_types(col_text(o.cols[i]), col_text(m.cols[i]))) bad = true;
            std::vector<std::string> ka, kb; for (auto &c : o.cols) if (c.key) ka.push_back(c.name); for (auto &c : m.cols) if (c.key) kb.push_back(c.name);
            if (ka != kb) bad = true;
            if (bad) { differ = true; continue; }
        } else { MTable n; n.name = m.name; for (auto &c : m.cols) n.cols.push_back(archived_col(c)); p.db.tables[n.name] = n; }
        MTable &to = p.db.tables[m.name];
        for (auto &r : m.rows) {
            const MRow *old = NULL;
            if (there) for (auto &q : it->second.rows) { bool same = true; for (size_t i = 0; i < common; i++) if (m.cols[i].key && !(q.c[i] == r.c[i])) same = false; if (same) old = &q; }
            for (size_t i = 0; i < m.cols.size(); i++) if (m.cols[i].kind == 'v' && ((r.c[i].k == Val::BIN) != (b.streams.count(stream_name(m, r)) > 0))) { p.k = '?'; return p; }
            if (old) {
                const MTable &o = it->second; bool same = o.cols.size() == m.cols.size();
                for (size_t i = 0; same && i < common; i++) same = cell_canon(a, o, *old, i) == cell_canon(b, m, r, i);
                if (!same) p.conflicts[m.name]++;
                continue;
            }
            MRow n = r; n.temp = false; n.c.resize(to.cols.size());
            for (size_t i = m.cols.size(); i < to.cols.size(); i++) if (!to.cols[i].nullable && to.cols[i].kind != 'v') nofit = true;
            for (size_t i = 0; i < to.cols.size(); i++) if (to.cols[i].kind == 'v') {
                std::string sn = stream_name(to, n);
                if (n.c[i].k == Val::BIN) { auto f = b.streams.find(sn); if (f == b.streams.end()) { p.k = '?'; return p; } p.db.streams[sn] = f->second; }
                else if (p.db.streams.count(sn)) { p.k = '?'; return p; }
            }
            to.rows.push_back(n);
        }
    }
    p.k = differ ? 'd' : nofit ? 'n' : p.conflicts.size() ? 'c' : 'o';
    return p;
}
static bool is_error_table(const MTable &m) { return m.persistent && m.cols.size() == 2 && m.cols[0].name == "Table" && col_text(m.cols[0]) == "s255" && m.cols[0].key && !m.cols[1].key && m.cols[1].name == "NumRowMergeConflicts" && col_text(m.cols[1]) == "i2"; }

static MTable catalog_tables(const MDb &d) {
    MTable t; t.name = "_Tables"; MCol c; c.name = "Name"; c.kind = 's'; c.key = true; t.cols.push_back(c);
    for (auto &x : d.tables) { MRow r; Val v; v.k = Val::STR; v.s = x.second.name; r.c.push_back(v); t.rows.push_back(r); }
    return t;
}
static MTable catalog_columns(const MDb &d) {
    MTable t; t.name = "_Columns"; const char *n[4] = {"Table", "Number", "Name", "Type"};
    for (int i = 0; i < 4; i++) { MCol c; c.name = n[i]; c.kind = i & 1 ? 'i' : 's'; t.cols.push_back(c); }
    for (auto &x : d.tables) if (x.second.persistent) for (size_t i = 0; i < x.second.cols.size(); i++) {
        MRow r; Val v; v.k = Val::STR; v.s = x.second.name; r.c.push_back(v); v = Val(); v.k = Val::INT; v.i = (s64)i + 1; r.c.push_back(v);
        v = Val(); v.k = Val::STR; v.s = x.second.cols[i].name; r.c.push_back(v); v = Val(); v.k = Val::INT; v.i = x.second.cols[i].type; r.c.push_back(v); t.rows.push_back(r);
    }
    return t;
}

struct SelResult { bool ok = false, invalid = false; std::vector<std::string> rows; std::vector<std::vector<s64>> ordkeys; std::vector<std::pair<int, char>> order; std::set<std::string> tables; bool live = false; };
static SelResult do_select(const MDb &d, const Op &op) {
    SelResult R; const auto &t = op.t;
    MTable ct, cc; std::vector<const MTable *> T;
    for (auto &n : split(t[4], ',')) {
        if (n == "_Tables") { ct = catalog_tables(d); T.push_back(&ct); }
        else if (n == "_Columns") { cc = catalog_columns(d); T.push_back(&cc); }
        else { auto it = d.tables.find(n); if (it == d.tables.end()) return R; T.push_back(&it->second); }
        R.tables.insert(n);
    }
    bool bad = false; Env empty; for (auto x : T) empty.push_back({x, NULL});
    std::vector<std::pair<int, int>> out; std::vector<std::pair<int, int>> ord;
    auto resolve = [&](const std::string &id, std::pair<int, int> &o) {
        size_t dd = id.find('.'); std::string tn = dd == std::string::npos ? "" : id.substr(0, dd), n = dd == std::string::npos ? id : id.substr(dd + 1);
        int f = 0; for (size_t i = 0; i < T.size(); i++) { if (!tn.empty() && T[i]->name != tn) continue; int c = T[i]->col(n); if (c >= 0) { o = {(int)i, c}; f++; } }
        return f;
    };
    if (t[3] == "*") { for (size_t i = 0; i < T.size(); i++) for (size_t c = 0; c < T[i]->cols.size(); c++) out.push_back({(int)i, (int)c}); }
    else for (auto &id : split(t[3], ',')) { std::pair<int, int> o; int f = resolve(id, o); if (f == 0) return R; if (f > 1) { R.invalid = true; return R; } out.push_back(o); }
    if (t[6] != "-") for (auto &id : split(t[6], ',')) { std::pair<int, int> o; int f = resolve(id, o); if (f == 0) return R; if (f > 1 || T[o.first]->cols[o.second].kind == 'v') { R.invalid = true; return R; } ord.push_back(o); }
    if (t[5] != "-") { // unknown columns make it fail
        bool b2 = false; auto w = split(t[5], ','); cond_eval(t[5], empty, &b2);
        if (b2) { R.invalid = true; return R; }
    }
    bool distinct = t[2] == "1";
    bool dbin = false; if (distinct) for (auto &o : out) if (T[o.first]->cols[o.second].kind == 'v') dbin = true; // equal streams of different rows: not specified
    R.live = t[5] == "-" && t[6] == "-" && T.size() == 1 && !distinct;
    for (auto x : T) if (x->rows.empty()) { R.ok = true; return R; }
    std::set<std::string> seen; std::vector<size_t> idx(T.size(), 0);
    u64 total = 1; for (auto x : T) total *= x->rows.size();
    if (total > 200000) { R.invalid = true; return R; }
    bool order_visible = true; std::vector<int> ordpos;
    for (auto &o : ord) { int p = -1; for (size_t i = 0; i < out.size(); i++) if (out[i] == o) p = (int)i; if (p < 0) order_visible = false; ordpos.push_back(p); }
    auto w = t[5] == "-" ? std::vector<std::string>() : split(t[5], ',');
    for (;;) {
        Env env; for (size_t i = 0; i < T.size(); i++) env.push_back({T[i], &T[i]->rows[idx[i]]});
        bool ok = true; if (!w.empty()) { size_t p = 0; ok = cond_rec(w, p, env, &bad); }
        if (bad) { R.invalid = true; return R; }
        if (ok) {
            std::string s; for (size_t q = 0; q < out.size(); q++) { if (q) s += ","; s += cell_canon(d, *T[out[q].first], *env[out[q].first].second, (size_t)out[q].second); }
            if (!distinct || seen.insert(s).second) R.rows.push_back(s); else if (dbin) { R.invalid = true; return R; }
        }
        size_t i = 0; for (; i < T.size(); i++) { if (++idx[i] < T[i]->rows.size()) break; idx[i] = 0; }
        if (i == T.size()) break;
    }
    if (order_visible) for (size_t i = 0; i < ord.size(); i++) R.order.push_back({ordpos[i], T[ord[i].first]->cols[ord[i].second].kind});
    R.ok = true; return R;
}

// ---------------------------------------------------------------- operations
static bool known_flags(int f) { return f == 1 || f == 4 || f == 6; }

Expect Model::eval(const Op &op) {
    if (is_tool_op(op.t[0])) return tool_eval(*this, op);
    const auto &t = op.t; const std::string &k = t[0];
    auto S = [&](size_t i = 1) -> Sess * { auto it = a.s.find(t[i]); return it == a.s.end() ? NULL : &it->second; };
    if (k == "open") {
        int f = atoi(t[3].c_str());
        if (t.size() > 4 && t[4] != "-") { invalid("persist"); return mk(Expect::ANY, "P16"); }
        if (!known_flags(f)) { invalid("flags"); return mk(Expect::ANY, "P16"); }
        if (f != 6 && w.pkg.count(t[2]) && w.pkg[t[2]].wild) return mk(Expect::ANY, "P14", "open");
        auto it = w.pkg.find(t[2]); bool ex = it != w.pkg.end() && it->second.exists;
        if (f == 6) return mk(Expect::OK, "P03", "create");
        if (it != w.pkg.end() && it->second.may_absent) return mk(Expect::ANY, "P01", "open");
        return mk(ex ? Expect::OK : Expect::ERR, "P16", "open");
    }
    if (k == "bad") {
        // the table it is written for may never have been made
        std::string q = unpct(t[2]); Sess *s = S(); size_t b = q.find('`'), e = b == std::string::npos ? b : q.find('`', b + 1);
        if (s && e != std::string::npos) {
            std::string name = q.substr(b + 1, e - b - 1); auto it = s->db.tables.find(name);
            if (!q.compare(0, 12, "CREATE TABLE") && name != "N9" && it == s->db.tables.end()) { invalid("create"); return mk(Expect::ANY, "P16"); }
            if (!q.compare(0, 22, "INSERT INTO `_Tables` ")) { size_t bb = q.find("('"), ee = q.rfind('\''); if (bb != std::string::npos && !s->db.tables.count(q.substr(bb + 2, ee - bb - 2))) { invalid("_Tables"); return mk(Expect::ANY, "P16"); } }
            if (q.size() > 3 && !q.compare(q.size() - 3, 3, "= ?")) { size_t bb = q.find("FROM `"); if (bb != std::string::npos) { size_t ee = q.find('`', bb + 6); auto i2 = s->db.tables.find(q.substr(bb + 6, ee - bb - 6)); if (i2 != s->db.tables.end() && i2->second.rows.empty()) return mk(Expect::ANY, "P16"); } }
        }
        return mk(Expect::ERR, "P16", "illegal statement");
    }
    if (k == "api") return mk(Expect::ERR, "P16", "illegal call");
    if (k == "qapi") return mk(Expect::ANY, "P16");
    if (k == "cat") {
        auto it = w.exports.find(t[1]); if (it == w.exports.end() || it->second.kind == '?') return mk(Expect::ANY, "P12");
        Expect e = mk(Expect::ROWS, "P12"); e.rows = it->second.lines(); return e;
    }
    if (k == "fds" || k == "release" || k == "file" || k == "ole") return mk(Expect::ANY, "P17");
    if (k == "qf") {
        auto it = a.q.find(t[1]); if (it == a.q.end()) { Expect e = mk(Expect::TEXT, "P10"); e.text = "noq"; return e; }
        MQuery &q = it->second; if (q.tainted) return mk(Expect::ANY, "P10");
        Expect e = mk(Expect::FETCH, "P10"); e.rows = q.rest; e.want = atol(t[2].c_str()); return e;
    }
    if (k == "qre" || k == "qre!") { auto it = a.q.find(t[1]); if (it == a.q.end()) { Expect e = mk(Expect::TEXT, "P10"); e.text = "noq"; return e; } if (it->second.tainted) return mk(Expect::ANY, "P10"); return mk(Expect::OK, "P10"); }
    if (k == "qclose") { auto it = a.q.find(t[1]); if (it == a.q.end()) { Expect e = mk(Expect::TEXT, "P10"); e.text = "noq"; return e; } if (it->second.tainted) return mk(Expect::ANY, "P10"); return mk(Expect::OK, "P10"); }
    if (k == "qopen") {
        auto x = split(t[1], '@'); auto it = a.s.find(x[1]); if (it == a.s.end()) { Expect e = mk(Expect::TEXT, "P10"); e.text = "nodb"; return e; }
        if (it->second.wild) return mk(Expect::ANY, "P10");
        SelResult r = do_select(it->second.db, op);
        if (r.invalid) { invalid("select"); return mk(Expect::ANY, "P10"); }
        return mk(r.ok ? Expect::OK : Expect::ERR, "P10");
    }
    if (k == "tread" || k == "tseek" || k == "tskip" || k == "tclose") {
        auto it = a.st.find(t[1]); if (it == a.st.end()) { Expect e = mk(Expect::TEXT, "P24"); e.text = "nostrm"; return e; }
        MStrm &s = it->second; Expect e = mk(Expect::TEXT, "P24"); if (s.tainted) return mk(Expect::ANY, "P24");
        if (k == "tclose") { e.text = "ok"; return e; }
        s64 size = (s64)s.data.size();
        if (k == "tread" || k == "tskip") {
            s64 n = atoll(t[2].c_str()), left = size - s.pos; if (left < 0) left = 0; if (n > left) n = left;
            e.text = "ok " + std::to_string(n); if (k == "tread") e.text += " " + canon_bin(s.data.data() + s.pos, (size_t)n);
            e.text += " @" + std::to_string(s.pos + n); return e;
        }
        s64 o = atoll(t[2].c_str()), p = t[3] == "set" ? o : t[3] == "cur" ? s.pos + o : size + o;
        bool ok = p >= 0 && p <= size;
        e.text = (ok ? "ok @" : "err @") + std::to_string(ok ? p : s.pos); return e;
    }
    if (k == "recdrop") return mk(Expect::OK, "P24");
    if (k == "sis" || k == "sigets" || k == "sipersist" || k == "sisave" || k == "siclose") {
        auto it = a.si.find(t[1]); if (it == a.si.end()) { Expect e = mk(Expect::TEXT, "P11"); e.text = "nosi"; return e; }
        MSi &s = it->second;
        if (s.tainted) return mk(Expect::ANY, "P11");
        if (k == "sis") {
            int p = atoi(t[2].c_str());
            if (p < 1 || p > 19 || p == 17) { invalid("prop"); return mk(Expect::ANY, "P11"); }
            char want = p == 1 ? 'i' : (p >= 2 && p <= 9) || p == 18 ? 's' : p >= 10 && p <= 13 ? 't' : 'i';
            char have = t[3][0] == 't' ? 't' : t[3][0] == 'i' ? 'i' : 's';
            if (want != have) return mk(Expect::ERR, "P11", "type");
            if (!s.p.count(p) && s.limit == 0) return mk(Expect::ERR, "P11", "limit");
            return mk(Expect::OK, "P11");
        }
        if (k == "sigets") { MDb d; d.si = s.p; Expect e = mk(Expect::ROWS, "P11"); e.rows = d.dump(false); return e; }
        if (k == "siclose") return mk(Expect::OK, "P11");
        std::string h = k == "sipersist" ? s.handle : t[2]; auto si = a.s.find(h);
        if (si == a.s.end()) { if (k == "sipersist") return mk(Expect::ANY, "P11"); invalid("sisave"); return mk(Expect::ANY, "P11"); }
        if (si->second.readonly() || si->second.wild) return mk(Expect::ANY, "P11");
        return mk(Expect::OK, "P11");
    }
    if (k == "damage") return mk(Expect::OK, "P14");
    Sess *s = S(); if (!s) { Expect e = mk(Expect::TEXT, "P16"); e.text = "nodb"; return e; }
    MDb &d = s->db; bool ro = s->readonly();
    if (k == "merge") {
        auto m = a.s.find(t[2]); if (m == a.s.end()) { Expect e = mk(Expect::TEXT, "P18"); e.text = "nodb"; return e; }
        if (m->second.wild || m->second.alts.size() || s->wild) return mk(Expect::ANY, "P18");
        if (ro) { invalid("merge, read-only"); return mk(Expect::ANY, "P18"); }
        MergePlan p = merge_plan(d, m->second.db); if (p.k == '?') { invalid("merge"); return mk(Expect::ANY, "P18"); }
        return mk(p.k == 'o' ? Expect::OK : Expect::ERR, "P18", p.k == 'd' ? "definitions differ" : p.k == 'n' ? "null" : "conflicts");
    }
    if (s->wild && k != "close" && k != "isro") return mk(Expect::ANY, "P14");
    if (k == "exp") {
        if (t[2] == "_ForceCodepage") return mk(Expect::OK, "P12");
        if (t[2] == "_SummaryInformation") { for (auto &x : d.si) if (x.second.t == 't' && x.second.ft > 2600000000000000000ULL) { invalid("time"); return mk(Expect::ANY, "P12"); } return mk(Expect::OK, "P12"); }
        if (t[2][0] == '_') { invalid("system table"); return mk(Expect::ANY, "P12"); }
        auto it = d.tables.find(t[2]); if (it == d.tables.end()) return mk(Expect::ERR, "P12", "no table");
        const MTable &m = it->second; bool key = false; for (auto &c : m.cols) { if (c.temp) { invalid("temporary"); return mk(Expect::ANY, "P12"); } if (c.key) key = true; }
        if (!key || !m.persistent) { invalid("temporary"); return mk(Expect::ANY, "P12"); }
        for (auto &r : m.rows) for (auto &v : r.c) { if (v.k == Val::BIN && stream_name(m, r).find('/') != std::string::npos) return mk(Expect::ERR, "P12", "not a file name"); if (v.k == Val::STR && v.s.find_first_of("\x10\x11\x19") != std::string::npos) { invalid("separators"); return mk(Expect::ANY, "P12"); } }
        return mk(Expect::OK, "P12");
    }
    if (k == "imp") {
        if (ro) { invalid("import, read-only"); return mk(Expect::ANY, "P12"); }
        auto it = w.exports.find(t[2]); if (it == w.exports.end()) { if (w.files.count(t[2])) { invalid("import"); return mk(Expect::ANY, "P12"); } return mk(Expect::ERR, "P12", "no file"); }
        const MExport &x = it->second; if (x.kind == '?') return mk(Expect::ANY, "P12");
        if (x.kind != 't') return mk(Expect::OK, "P12");
        auto old = d.tables.find(x.t.name);
        if (old != d.tables.end()) {
            const MTable &o = old->second; if (o.cols.size() != x.t.cols.size()) return mk(Expect::ERR, "P12", "columns");
            for (size_t i = 0; i < o.cols.size(); i++) { if (o.cols[i].temp || o.cols[i].kind != x.t.cols[i].kind || o.cols[i].key != x.t.cols[i].key || (x.t.cols[i].nullable && !o.cols[i].nullable)) { invalid("import, other table"); return mk(Expect::ANY, "P12"); } }
        }
        MDb d2 = d; if (old != d.tables.end()) for (auto &r : old->second.rows) drop_bins(d2, old->second, r);
        for (auto &r : x.t.rows) for (size_t i = 0; i < r.c.size(); i++) if (x.t.cols[i].kind == 'v' && r.c[i].k != Val::BIN && d2.streams.count(stream_name(x.t, r))) { invalid("cell stream"); return mk(Expect::ANY, "P12"); }
        return mk(Expect::OK, "P12");
    }
    if (k == "commit") { if (!ro && !d.representable()) return mk(Expect::ERR, "P05", "string the code page cannot hold"); if (!ro && s->everbad && d.cp != 65001) return mk(Expect::ANY, "P05"); return mk(Expect::OK, "P03"); }
    if (k == "cp") return mk(ro ? Expect::ANY : Expect::OK, "P05");
    if (k == "close") return mk(Expect::OK, "P17");
    if (k == "isro") { Expect e = mk(Expect::TEXT, "P04"); e.text = ro ? "ro" : "rw"; return e; }
    if (k == "persist?") { auto it = d.tables.find(t[2]); Expect e = mk(Expect::TEXT, "P08"); if (it == d.tables.end()) return mk(Expect::ANY, "P08"); e.text = it->second.persistent ? "yes" : "no"; return e; }
    if ((k == "dump") && s->alts.size()) return mk(Expect::ANY, "P01");
    if (k == "dump" || k == "dumpns") { Expect e = mk(Expect::ROWS, "P05", "dump"); e.rows = d.dump(k == "dump"); e.ordered_exact = true; return e; }
    if (k == "create") {
        bool there = d.tables.count(t[2]);
        std::set<std::string> n; bool temp = true, tempkey = false, key = false;
        for (size_t i = 4; i < t.size(); i++) { MCol c = mcol(t[i]); if (!n.insert(c.name).second) return mk(Expect::ERR, "P08", "dup column"); if (!c.temp) temp = false; else if (c.key) tempkey = true; if (c.key) key = true; if (c.kind == 'v' && (c.key || c.temp)) { invalid("binary key"); } }
        for (size_t i = 5; i < t.size(); i++) if (mcol(t[i]).key && !mcol(t[i - 1]).key) { invalid("key order"); return mk(Expect::ANY, "P08"); }
        if (!temp && enc_units(t[2]) > 29) return mk(Expect::ERR, "P08", "long name");
        if (t.size() < 5 || !key) { invalid("nokey"); return mk(Expect::ANY, "P08"); }
        if (!temp && tempkey) return mk(Expect::ERR, "P08", "temp key");
        if (temp && t[3] != "1") return mk(Expect::OK, "P08"); // nobody holds it: nothing happens
        if (there) return mk(Expect::ERR, "P08", "exists");
        return mk(Expect::OK, "P08");
    }
    if (k == "drop") { return mk(d.tables.count(t[2]) ? Expect::OK : Expect::ERR, "P08"); }
    if (k == "add") {
        auto it = d.tables.find(t[2]); if (it == d.tables.end()) return mk(Expect::ERR, "P08");
        MCol c = mcol(t[3]); if (!it->second.persistent || (c.temp && c.kind == 'v')) { invalid("add temp table"); return mk(Expect::ANY, "P08"); }
        if (c.key || (c.temp && t[4] != "1") || (!c.temp && t[4] == "1")) { invalid("add"); return mk(Expect::ANY, "P08"); }
        if (it->second.col(c.name) >= 0) return mk(Expect::ERR, "P08"); if (it->second.cols.size() >= 31) { invalid("cols"); return mk(Expect::ANY, "P08"); }
        return mk(Expect::OK, "P08");
    }
    if (k == "hold" || k == "free") {
        auto it = d.tables.find(t[2]); if (it == d.tables.end()) return mk(Expect::ERR, "P08");
        MTable &m = it->second;
        if (k == "free" && m.refs <= (m.persistent ? 1 : 0) && true) { if (m.persistent || m.refs <= 0) { invalid("free"); return mk(Expect::ANY, "P08"); } }
        if (k == "free" && !m.persistent && m.refs == 1 && !m.rows.empty()) { invalid("free rows"); return mk(Expect::ANY, "P08"); }
        return mk(Expect::OK, "P08");
    }
    if (k == "fill") {
        auto it = d.tables.find(t[2]); if (it == d.tables.end()) return mk(Expect::ERR, "P07", "no table");
        MTable &m = it->second; s64 from = atoll(t[3].c_str()), n = atoll(t[4].c_str());
        if (m.cols.size() != 2 || m.cols[0].name != "k" || m.cols[0].kind != 'j' || m.cols[1].name != "v" || m.cols[1].kind != 's' || !m.cols[1].nullable || m.cols[1].key) { invalid("fill"); return mk(Expect::ANY, "P07"); }
        for (auto &r : m.rows) if (r.c[0].i >= from && r.c[0].i < from + n) { invalid("fill"); return mk(Expect::ANY, "P07"); }
        return mk(Expect::OK, "P07");
    }
    if (k == "ins") {
        auto it = d.tables.find(t[2]); if (it == d.tables.end()) return mk(Expect::ERR, "P07", "no table");
        MTable &m = it->second; std::vector<Val> c(m.cols.size()); std::set<std::string> n; bool range = true;
        for (size_t i = 4; i < t.size(); i++) {
            size_t e = t[i].find('='); int ci = m.col(t[i].substr(0, e)); if (ci < 0) return mk(Expect::ERR, "P07", "no column");
            if (!n.insert(m.cols[ci].name).second) { invalid("dup"); return mk(Expect::ANY, "P07"); }
            Val v = lit_val(t[i].substr(e + 1)); int f = fits(m.cols[ci], v); if (f < 0) { invalid("value"); return mk(Expect::ANY, "P07"); }
            if (!f) range = false; c[ci] = v;
        }
        for (size_t i = 0; i < m.cols.size(); i++) {
            if (c[i].k == Val::NUL && !m.cols[i].nullable && m.cols[i].kind != 'v') return mk(Expect::ERR, "P07", "null");
        }
        if (!range) return mk(Expect::ERR, "P07", "range");
        int bins = 0; for (auto &v : c) if (v.k == Val::BIN) bins++;
        if (bins > 1 || (bins && t[3] == "1")) { invalid("binaries"); return mk(Expect::ANY, "P09"); }
        // a binary cell is the stream of its row's name: a null one must not meet a stream
        for (size_t i = 0; i < m.cols.size(); i++) if (m.cols[i].kind == 'v' && c[i].k != Val::BIN) { MRow r; r.c = c; if (d.streams.count(stream_name(m, r))) { invalid("cell stream"); return mk(Expect::ANY, "P09"); } }
        for (auto &r : m.rows) { bool same = true; for (size_t i = 0; i < m.cols.size(); i++) if (m.cols[i].key && !(r.c[i] == c[i])) same = false; if (same) return mk(Expect::ERR, "P07", "duplicate key"); }
        if (bins && ro) return mk(Expect::ANY, "P04");
        for (size_t i = 0; i < m.cols.size(); i++) if (m.cols[i].kind == 'v' && c[i].k == Val::BIN) { MRow r; r.c = c; if (!name_fits(stream_name(m, r))) return mk(Expect::ERR, "P09", "stream name"); }
        return mk(Expect::OK, "P07");
    }
    if (k == "upd" || k == "del") {
        auto it = d.tables.find(t[2]); if (it == d.tables.end()) return mk(Expect::ERR, "P07", "no table");
        MTable &m = it->second; bool bad = false, hit = false, key = false, range = true, null = false, longname = false;
        for (auto &r : m.rows) { Env e{{&m, &r}}; if (cond_eval(t[3], e, &bad)) hit = true; }
        { Env e{{&m, NULL}}; cond_eval(t[3], e, &bad); }
        if (bad) { invalid("cond"); return mk(Expect::ANY, "P07"); }
        if (k == "upd") {
            std::set<std::string> n;
            for (size_t i = 4; i < t.size(); i++) {
                size_t e = t[i].find('='); int ci = m.col(t[i].substr(0, e)); if (ci < 0) return mk(Expect::ERR, "P07", "no column");
                if (!n.insert(m.cols[ci].name).second) { invalid("dup"); return mk(Expect::ANY, "P07"); }
                Val v = lit_val(t[i].substr(e + 1)); int f = fits(m.cols[ci], v); if (f < 0) { invalid("value"); return mk(Expect::ANY, "P07"); }
                if (!f) range = false; if (m.cols[ci].key) key = true; if (v.k == Val::NUL && !m.cols[ci].nullable) { null = true; if (m.cols[ci].kind == 'v') { invalid("binary null"); } }
                if (v.k == Val::NUL && m.cols[ci].kind == 'v') invalid("binary null");
                if (v.k == Val::BIN) for (auto &r : m.rows) { Env e2{{&m, &r}}; if (cond_eval(t[3], e2, &bad) && !name_fits(stream_name(m, r))) longname = true; }
                if (v.k == Val::BIN && ro) return mk(Expect::ANY, "P04");
                if (v.k == Val::BIN) { int c2 = 0; for (auto &r : m.rows) { Env e2{{&m, &r}}; if (cond_eval(t[3], e2, &bad)) c2 += r.temp ? 2 : 1; } if (c2 > 1) { invalid("binary multi"); return mk(Expect::ANY, "P09"); } }
            }
            if (hit && (key || !range || null)) return mk(Expect::ERR, "P07", key ? "key" : range ? "null" : "range");
            if (!range || null) { return mk(Expect::ANY, "P07"); }
            if (longname) return mk(Expect::ERR, "P09", "stream name");
        }
        return mk(Expect::OK, "P07");
    }
    if (k == "sel") {
        SelResult r = do_select(d, op);
        if (r.invalid) { invalid("select"); return mk(Expect::ANY, "P06"); }
        if (!r.ok) return mk(Expect::ERR, "P06");
        Expect e = mk(Expect::ROWS, "P06"); e.rows = r.rows; e.order = r.order; return e;
    }
    if (k == "colinfo") {
        auto it = d.tables.find(t[2]); if (it == d.tables.end()) return mk(Expect::ERR, "P08");
        Expect e = mk(Expect::TEXT, "P08"); e.text = "ok"; for (auto &c : it->second.cols) e.text += " " + c.name;
        for (auto &c : it->second.cols) {
            e.text += " " + col_text(c);
        }
        return e;
    }
    if (ro && (k == "sput" || k == "srepl" || k == "sputf" || k == "gput")) return mk(Expect::ANY, "P04");
    if (k == "sput" || k == "srepl" || k == "sputf") {
        std::string n = unpct(t[2]); if (!name_fits(n) && !n.empty()) return mk(k == "srepl" && !d.streams.count(n) ? Expect::OK : Expect::ERR, "P09", "long name"); if (n.empty() || n.size() > 62) { invalid("stream name"); return mk(Expect::ANY, "P09"); }
        // a row whose binary cell is null must not find a stream of its name
        for (auto &x : d.tables) for (size_t i = 0; i < x.second.cols.size(); i++) if (x.second.cols[i].kind == 'v') for (auto &r : x.second.rows) if (r.c[i].k != Val::BIN && stream_name(x.second, r) == n) { invalid("cell stream"); return mk(Expect::ANY, "P09"); }
        if (k == "sputf") return mk(w.files.count(t[3]) ? Expect::OK : Expect::ERR, "P09");
        return mk(Expect::OK, "P09");
    }
    if (k == "gput") {
        std::string n = unpct(t[2]); if (n.empty()) { invalid("name"); return mk(Expect::ANY, "P09"); }
        if (raw_units(n) > 31) return mk(Expect::ERR, "P09", "long name");
        return mk(w.files.count(t[3]) && w.files[t[3]].compare(0, 3, "OLE") == 0 ? Expect::OK : Expect::ERR, "P09");
    }
    if (k == "gdump") {
        if (s->flags != 1) { invalid("gdump"); return mk(Expect::ANY, "P09"); }
        Expect e = mk(Expect::ROWS, "P09"); for (auto &x : d.storages) for (auto &y : x.second) e.rows.push_back(pct(x.first) + ": " + pct(y.first)); return e;
    }
    if (k == "sdel") { // a stream that belongs to a cell must not be pulled from under it
        std::string n = unpct(t[2]);
        for (auto &x : d.tables) for (auto &r : x.second.rows) for (auto &c : r.c) if (c.k == Val::BIN && stream_name(x.second, r) == n) { invalid("cell stream"); return mk(Expect::ANY, "P09"); }
        return mk(Expect::OK, "P09");
    }
    if (k == "gdel") return mk(Expect::OK, "P09");
    if (k == "sget") { auto it = d.streams.find(unpct(t[2])); Expect e = mk(Expect::ROWS, "P09"); if (it != d.streams.end()) e.rows.push_back(canon_bin(it->second.data(), it->second.size())); return e; }
    if (k == "topen") {
        Op o; o.t = {"sel", t[1], "0", t[4], t[3], t[5], "-"};
        if (t[3] == "_Streams") {
            auto wd = split(t[5], ','); std::string n; if (wd.size() == 3 && wd[0] == "eq" && wd[1] == "Name") n = lit_val(wd[2]).s; else { invalid("topen"); return mk(Expect::ANY, "P24"); }
            Expect e = mk(Expect::TEXT, "P24"); e.text = d.streams.count(n) ? "ok" : "norow"; return e;
        }
        auto it = d.tables.find(t[3]); if (it == d.tables.end()) return mk(Expect::ERR, "P24");
        int ci = it->second.col(t[4]); if (ci < 0 || it->second.cols[ci].kind != 'v') { invalid("topen"); return mk(Expect::ANY, "P24"); }
        const MRow *hit = NULL; int n = 0; bool bad = false; for (auto &r : it->second.rows) { Env e{{&it->second, &r}}; if (cond_eval(t[5], e, &bad)) { hit = &r; n++; } }
        if (bad || n > 1) { invalid("topen"); return mk(Expect::ANY, "P24"); }
        Expect e = mk(Expect::TEXT, "P24"); e.text = !hit ? "norow" : hit->c[ci].k == Val::NUL ? "null" : "ok"; return e;
    }
    if (k == "sinew") return mk(Expect::OK, "P11");
    if (k == "sidump") { MDb x; x.si = d.si; Expect e = mk(Expect::ROWS, "P11"); e.rows = x.dump(false); return e; }
    return mk(Expect::ANY, "P16");
}

static void unknown_export(World &w, const std::string &path) { w.exports[path] = MExport(); w.files[path] = "archive"; }
void Model::failed(const Op &op) {
    const std::string &k = op.t[0];
    if (k == "imp" || k == "merge") { auto it = a.s.find(op.t[1]); if (it != a.s.end()) it->second.wild = true; }
    if (k == "exp") spoil_export(op);
    if (k == "qf" || k == "qre" || k == "qre!") { auto it = a.q.find(op.t[1]); if (it != a.q.end()) it->second.tainted = true; }
    if (k == "tread" || k == "tskip" || k == "tseek") { auto it = a.st.find(op.t[1]); if (it != a.st.end()) it->second.tainted = true; }
}
void Model::commit_failed(const Op &) {}
void Model::crashed(const Op &op) { if (is_tool_op(op.t[0])) { tool_crashed(*this, op); return; } if (op.t[0] == "exp") spoil_export(op); }
// an export of this table is no longer what it was: its streams are shared with other exports
void Model::spoil_export(const Op &op) {
    for (auto &x : w.exports) if (x.second.kind == 't' && x.second.t.name == op.t[2] && x.second.bins()) x.second.kind = '?';
    unknown_export(w, op.t[3]);
}
static void bump(Sess &s, const std::string &t, u64 v) { s.ver[t] = v; }
void Model::apply(const Op &op, bool ok, const std::vector<std::string> &rows) {
    if (op.t.size() < 2) return;
    if (is_tool_op(op.t[0])) { tool_apply(*this, op, ok, rows); return; }
    const auto &t = op.t; const std::string &k = t[0];
    auto touch = [&](const std::string &h, const std::string &table) { // queries over a changed table are no longer predictable
        auto it = a.s.find(h); if (it != a.s.end()) bump(it->second, table, ++vctr);
        for (auto &q : a.q) if (q.second.handle == h && q.second.tables.count(table)) q.second.tainted = true;
    };
    if (k == "damage") { auto &p = w.pkg[t[1]]; p.wild = true; if (p.cand.size() > 1) p.cand.resize(1); w.touched.insert(t[1]); for (auto &x : a.s) if (x.second.path == t[1]) x.second.wild = true; return; }
    if (k == "open") {
        if (!ok) return;
        Sess s; s.path = t[2]; s.flags = atoi(t[3].c_str());
        if (s.flags != 6) { auto &p = w.pkg[t[2]]; s.wild = p.wild; if (p.wild && p.cand.size()) s.db = p.cand[0]; /* what it held before it was damaged: for the generator */ if (p.cand.size() && !p.wild) { s.db = p.cand[0]; s.alts.assign(p.cand.begin() + 1, p.cand.end()); } }
        for (auto &q : a.q) if (q.second.handle == t[1]) { q.second.handle = "?" + t[1]; }
        for (auto &x : a.si) if (x.second.handle == t[1]) x.second.tainted = true;
        a.s[t[1]] = s; return;
    }
    if (k == "ole") { w.files[t[1]] = "OLE" + t[2]; return; }
    if (k == "ole") { w.files[t[1]] = "OLE" + t[2]; return; }
    if (k == "file") { w.files[t[1]] = val_parse(t[2]).s; return; }
    if (k == "qopen") {
        auto x = split(t[1], '@'); if (!ok) return; auto it = a.s.find(x[1]); if (it == a.s.end()) return;
        if (it->second.wild || it->second.alts.size()) { MQuery q; q.handle = x[1]; q.op = op; q.tainted = true; a.q[x[0]] = q; return; }
        SelResult r = do_select(it->second.db, op); MQuery q; q.tainted = r.invalid; q.handle = x[1]; q.rest = r.rows; q.all = r.rows; q.tables = r.tables; q.live = r.live; q.op = op; a.q[x[0]] = q; return;
    }
    if (k == "qf") {
        auto it = a.q.find(t[1]); if (it == a.q.end()) return;
        for (auto &r : rows) { auto f = std::find(it->second.rest.begin(), it->second.rest.end(), r); if (f != it->second.rest.end()) it->second.rest.erase(f); }
        return;
    }
    if (k == "qre" || k == "qre!") {
        auto it = a.q.find(t[1]); if (it == a.q.end() || !ok) return; MQuery &q = it->second;
        auto s = a.s.find(q.handle); if (s == a.s.end()) { if (t.size() > 2) q.tainted = true; q.rest = q.all; return; }
        Op o = q.op;
        if (t.size() > 2) { // new parameter values replace the old ones in order
            auto wd = split(o.t[5], ','); size_t p = 2; for (auto &x : wd) if (x[0] == '?' && p < t.size()) x = "?" + t[p++];
            o.t[5] = ""; for (size_t i = 0; i < wd.size(); i++) o.t[5] += (i ? "," : "") + wd[i];
        }
        SelResult r = do_select(s->second.db, o); if (!r.ok || r.invalid) { q.tainted = true; return; }
        q.rest = q.all = r.rows; return;
    }
    if (k == "qclose") { a.q.erase(t[1]); return; }
    if (k == "tclose") { a.st.erase(t[1]); return; }
    if (k == "tread" || k == "tskip" || k == "tseek") {
        auto it = a.st.find(t[1]); if (it == a.st.end()) return; MStrm &s = it->second; s64 size = (s64)s.data.size();
        if (k == "tseek") { s64 o = atoll(t[2].c_str()), p = t[3] == "set" ? o : t[3] == "cur" ? s.pos + o : size + o; if (p >= 0 && p <= size) s.pos = p; }
        else if (ok) { s.pos = std::min(size, s.pos + (s64)atoll(t[2].c_str())); }
        return;
    }
    if (k == "sinew") { auto it = a.s.find(t[1]); if (!ok || it == a.s.end()) return; MSi s; s.handle = t[1]; s.limit = atoi(t[3].c_str()); s.p = it->second.db.si; s.tainted = it->second.wild || it->second.alts.size(); a.si[t[2]] = s; return; }
    if (k == "sis") {
        auto it = a.si.find(t[1]); if (it == a.si.end() || !ok) return; int p = atoi(t[2].c_str()); MProp v; Val x;
        if (t[3][0] == 't') { v.t = 't'; v.ft = strtoull(t[3].c_str() + 1, NULL, 10); } else { x = val_parse(t[3]); if (x.k == Val::INT) { v.t = 'i'; v.i = x.i; } else { v.t = 's'; v.s = x.s; } }
        if (!it->second.p.count(p)) it->second.limit--;
        it->second.p[p] = v; return;
    }
    if (k == "sipersist" || k == "sisave") { auto it = a.si.find(t[1]); if (it == a.si.end() || !ok) return; auto s = a.s.find(k == "sipersist" ? it->second.handle : t[2]); if (s != a.s.end() && !it->second.tainted) s->second.db.si = it->second.p; return; }
    if (k == "siclose") { a.si.erase(t[1]); return; }
    auto it = a.s.find(t[1]); if (it == a.s.end()) return; Sess &s = it->second; MDb &d = s.db;
    if (k == "close") { for (auto &q : a.q) if (q.second.handle == t[1]) q.second.handle = "?" + t[1]; for (auto &x : a.si) if (x.second.handle == t[1]) x.second.handle = "?" + t[1]; a.s.erase(it); return; }
    if (k == "exp") {
        bool wild = s.wild || s.alts.size(); spoil_export(op); if (!ok || wild) return;
        MExport x;
        if (t[2] == "_ForceCodepage") { x.kind = 'c'; x.cp = d.cp; }
        else if (t[2] == "_SummaryInformation") { x.kind = 's'; x.si = d.si; }
        else {
            x.kind = 't'; x.t = d.tables[t[2]]; for (auto &r : x.t.rows) { r.temp = false; for (auto &v : r.c) if (v.k == Val::BIN) { std::string n = stream_name(x.t, r); auto f = d.streams.find(n); if (f == d.streams.end()) { x.kind = '?'; continue; } x.streams[n] = f->second; w.files[x.t.name + "/" + n] = "export"; } }
        }
        w.exports[t[3]] = x; return;
    }
    if (k == "imp" || k == "merge") for (auto &q : a.q) if (q.second.handle == t[1]) q.second.tainted = true;
    if (k == "imp" && ok && !s.wild) {
        auto f = w.exports.find(t[2]); if (f == w.exports.end() || f->second.kind == '?') { s.wild = true; return; }
        const MExport &x = f->second;
        if (x.kind == 'c') { d.cp = x.cp; return; }
        if (x.kind == 's') { for (auto &y : x.si) { MProp v = y.second; if (v.t == 't') v.ft -= v.ft % 10000000; d.si[y.first] = v; } return; }
        auto old = d.tables.find(x.t.name);
        if (old == d.tables.end()) {
            MTable m; m.name = x.t.name; for (auto &c : x.t.cols) m.cols.push_back(archived_col(c));
            d.tables[m.name] = m;
        } else { for (auto &r : old->second.rows) drop_bins(d, old->second, r); old->second.rows.clear(); }
        MTable &m = d.tables[x.t.name]; m.rows = x.t.rows; for (auto &y : x.streams) d.streams[y.first] = y.second;
        for (auto &r : m.rows) for (auto &v : r.c) if (v.k == Val::STR && !str_fits_cp(v.s, 0)) s.everbad = true;
        return;
    }
    if (k == "imp") { if (!ok && !s.wild) { auto f = w.exports.find(t[2]); if (f != w.exports.end() && f->second.kind == '?') s.wild = true; } return; }
    if (k == "merge" && !s.wild) {
        auto m = a.s.find(t[2]); if (m == a.s.end()) return;
        if (m->second.wild || m->second.alts.size() || s.readonly()) { s.wild = true; return; }
        MergePlan p = merge_plan(d, m->second.db); if (p.k == '?' || ok != (p.k == 'o')) { s.wild = true; return; }
        if (ok) { d = p.db; if (m->second.everbad) s.everbad = true; for (auto &x : d.tables) for (auto &r : x.second.rows) for (auto &v : r.c) if (v.k == Val::STR && !str_fits_cp(v.s, 0)) s.everbad = true; return; }
        if (p.k != 'c' || t[3] == "-") return;
        std::string n = t[3]; if (enc_units(n) > 29) return;
        auto it = d.tables.find(n); if (it != d.tables.end() && !is_error_table(it->second)) { s.wild = true; return; }
        if (it == d.tables.end()) { MTable e; e.name = n; e.cols = {mcol("Table:c255:rk"), mcol("NumRowMergeConflicts:i2:r")}; d.tables[n] = e; it = d.tables.find(n); }
        for (auto &c : p.conflicts) {
            std::vector<MRow> keep; for (auto &r : it->second.rows) if (r.c[0].s != c.first) keep.push_back(r);
            MRow r; Val v; v.k = Val::STR; v.s = c.first; r.c.push_back(v); v = Val(); v.k = Val::INT; v.i = c.second; r.c.push_back(v); keep.push_back(r); it->second.rows = keep;
        }
        return;
    }
    if (s.wild) { // only what is certain
        if (k == "commit" && ok && !s.readonly()) { auto &p = w.pkg[s.path]; p.exists = true; p.may_absent = false; p.wild = true; p.cand.clear(); s.did_commit = true; }
        if (k == "topen" && rows.size() && rows[0] == "ok") { MStrm st; st.tainted = true; a.st[t[2]] = st; }
        return;
    }
    if (k == "commit") {
        for (auto &q : a.q) if (q.second.handle == t[1]) q.second.tainted = true;
        if (ok) { if (!s.readonly()) { d = d.stored(); auto &p = w.pkg[s.path]; p.exists = true; p.may_absent = p.wild = false; p.cand.assign(1, d); s.did_commit = true; } else d = d.stored(); }
        return;
    }
    if (k == "ins" || k == "upd") for (size_t i = 4; i < t.size(); i++) { size_t e = t[i].find('='); if (e == std::string::npos) continue; Val v = lit_val(t[i].substr(e + 1)); if (v.k == Val::STR && !str_fits_cp(v.s, 0)) s.everbad = true; }
    // an ADD ... HOLD of a column that is there already holds the columns all the same
    if (!ok && k == "add" && t[4] == "1") { auto it = d.tables.find(t[2]); if (it != d.tables.end() && it->second.col(mcol(t[3]).name) >= 0) { it->second.refs++; for (auto &x : it->second.cols) if (x.temp) it->second.colrefs[x.name]++; } }
    if (!ok) return;
    if (k == "cp") d.cp = atoi(t[2].c_str());
    if (k == "create") {
        MTable m; m.name = t[2]; bool temp = true; for (size_t i = 4; i < t.size(); i++) { m.cols.push_back(mcol(t[i])); if (!m.cols.back().temp) temp = false; }
        m.persistent = !temp; if (temp && t[3] != "1") return; d.tables[t[2]] = m; touch(t[1], "_Tables"); touch(t[1], "_Columns");
    } else if (k == "drop") { for (auto &r : d.tables[t[2]].rows) drop_bins(d, d.tables[t[2]], r); touch(t[1], "_Streams"); d.tables.erase(t[2]); touch(t[1], t[2]); touch(t[1], "_Tables"); touch(t[1], "_Columns"); }
    else if (k == "add") { auto &m = d.tables[t[2]]; MCol c = mcol(t[3]); m.cols.push_back(c); for (auto &r : m.rows) r.c.push_back(Val()); if (t[4] == "1") { m.refs++; if (c.temp) { for (auto &x : m.cols) if (x.temp) m.colrefs[x.name]++; } } touch(t[1], t[2]); touch(t[1], "_Columns"); }
    else if (k == "hold") { auto &m = d.tables[t[2]]; m.refs++; for (auto &x : m.cols) if (x.temp) m.colrefs[x.name]++; }
    else if (k == "free") {
        auto &m = d.tables[t[2]]; m.refs--;
        for (int i = (int)m.cols.size() - 1; i >= 0; i--) if (m.cols[i].temp && m.persistent) { if (--m.colrefs[m.cols[i].name] == 0) { for (auto &r : m.rows) r.c.erase(r.c.begin() + i); m.cols.erase(m.cols.begin() + i); touch(t[1], t[2]); touch(t[1], "_Columns"); } }
        if (!m.persistent && m.refs == 0) { d.tables.erase(t[2]); touch(t[1], t[2]); touch(t[1], "_Tables"); }
    } else if (k == "fill") {
        auto &m = d.tables[t[2]]; s64 from = atoll(t[3].c_str()), n = atoll(t[4].c_str());
        for (s64 i = 0; i < n; i++) { MRow r; Val a, b; a.k = Val::INT; a.i = from + i; if (t[5][0] == '+') { b.k = Val::STR; b.s = t[5].substr(1) + std::to_string(from + i); } else b = val_parse(t[5]); r.c = {a, b}; m.rows.push_back(r); }
        touch(t[1], t[2]);
    } else if (k == "ins") {
        auto &m = d.tables[t[2]]; MRow r; r.c.resize(m.cols.size()); r.temp = t[3] == "1";
        for (size_t i = 4; i < t.size(); i++) { size_t e = t[i].find('='); int ci = m.col(t[i].substr(0, e)); if (ci < 0) continue; Val v = lit_val(t[i].substr(e + 1)); if (v.k == Val::STR && v.s.empty()) v = Val(); r.c[ci] = v; }
        for (auto &v : r.c) if (v.k == Val::BIN) { d.streams[stream_name(m, r)] = v.s; touch(t[1], "_Streams"); }
        m.rows.push_back(r); touch(t[1], t[2]);
    } else if (k == "upd") {
        auto &m = d.tables[t[2]]; bool bad = false; std::vector<MRow *> hits;
        for (auto &r : m.rows) { Env e{{&m, &r}}; if (cond_eval(t[3], e, &bad)) hits.push_back(&r); }
        for (auto r : hits) for (size_t i = 4; i < t.size(); i++) { size_t e = t[i].find('='); int ci = m.col(t[i].substr(0, e)); if (ci < 0) continue; Val v = lit_val(t[i].substr(e + 1)); if (v.k == Val::STR && v.s.empty()) v = Val(); r->c[ci] = v; if (v.k == Val::BIN) { d.streams[stream_name(m, *r)] = v.s; touch(t[1], "_Streams"); } }
        if (!hits.empty()) touch(t[1], t[2]);
    } else if (k == "del") {
        auto &m = d.tables[t[2]]; bool bad = false; std::vector<MRow> keep; for (auto &r : m.rows) { Env e{{&m, &r}}; if (!cond_eval(t[3], e, &bad)) keep.push_back(r); else { for (auto &v : r.c) if (v.k == Val::BIN) touch(t[1], "_Streams"); drop_bins(d, m, r); } }
        if (keep.size() != m.rows.size()) touch(t[1], t[2]); m.rows = keep;
    } else if (k == "sput" || k == "srepl" || k == "sputf") { // the stream may be a cell of some row
        for (auto &x : d.tables) for (auto &c : x.second.cols) if (c.kind == 'v') for (auto &r : x.second.rows) if (stream_name(x.second, r) == unpct(t[2])) { touch(t[1], x.first); break; }
    }
    if (k == "sput") { Val v = val_parse(t[3]); d.streams[unpct(t[2])] = v.s; }
    else if (k == "srepl") { auto f = d.streams.find(unpct(t[2])); if (f != d.streams.end()) f->second = val_parse(t[3]).s; }
    else if (k == "sputf") d.streams[unpct(t[2])] = w.files[t[3]];
    else if (k == "sdel") d.streams.erase(unpct(t[2]));
    else if (k == "gput") { auto &g = d.storages[unpct(t[2])]; g.clear(); std::vector<std::string> L; gen_ole((u32)atoi(w.files[t[3]].c_str() + 3), &L); for (auto &y : L) g[y] = ""; }
    else if (k == "gdel") d.storages.erase(unpct(t[2]));
    else if (k == "topen") {
        if (rows.empty() || rows[0] != "ok") return; MStrm st; if (s.alts.size()) { st.tainted = true; a.st[t[2]] = st; return; }
        if (t[3] == "_Streams") { auto wd = split(t[5], ','); st.data = d.streams[lit_val(wd[2]).s]; }
        else { auto &m = d.tables[t[3]]; int ci = m.col(t[4]); bool bad = false; for (auto &r : m.rows) { Env e{{&m, &r}}; if (cond_eval(t[5], e, &bad) && r.c[ci].k == Val::BIN) st.data = d.streams[stream_name(m, r)]; } }
        a.st[t[2]] = st;
    }
}

// ---------------------------------------------------------------- comparing a logged result with the expectation
static bool ms_equal(std::vector<std::string> a, std::vector<std::string> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
static std::string diff_text(std::vector<std::string> want, std::vector<std::string> got) {
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    std::vector<std::string> m, x; std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(m)); std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(x));
    std::string r = std::to_string(want.size()) + " expected, " + std::to_string(got.size()) + " returned";
    for (size_t i = 0; i < m.size() && i < 3; i++) r += "; missing [" + m[i].substr(0, 160) + "]";
    for (size_t i = 0; i < x.size() && i < 3; i++) r += "; unexpected [" + x[i].substr(0, 160) + "]";
    if (m.empty() && x.empty()) r += "; order differs";
    return r;
}
static bool ordered(const std::vector<std::string> &rows, const std::vector<std::pair<int, char>> &ord, std::string &why) {
    // integer keys ascend (null lowest); string keys only have to be grouped
    std::vector<std::vector<std::string>> keys;
    for (auto &r : rows) { auto c = split(r, ','); std::vector<std::string> k; for (auto &o : ord) k.push_back((size_t)o.first < c.size() ? c[o.first] : ""); keys.push_back(k); }
    for (size_t i = 1; i < keys.size(); i++) {
        for (size_t j = 0; j < ord.size(); j++) {
            if (keys[i][j] == keys[i - 1][j]) continue;
            if (ord[j].second != 's') {
                auto v = [](const std::string &s) { return s == "n" ? -1000000000000LL : atoll(s.c_str() + 1); };
                if (v(keys[i][j]) < v(keys[i - 1][j])) { why = "rows out of order"; return false; }
            }
            break;
        }
    }
    for (size_t j = 0; j < ord.size(); j++) { // grouping of each prefix of keys
        std::set<std::string> seen; std::string last; bool first = true;
        for (auto &k : keys) { std::string p; for (size_t x = 0; x <= j; x++) p += k[x] + "|"; if (first || p != last) { if (!seen.insert(p).second) { why = "equal keys not adjacent"; return false; } last = p; first = false; } }
    }
    return true;
}
// a UUID the tool made up: any will do, when it looks like one
static std::vector<std::string> mask_uuid(const std::vector<std::string> &want, std::vector<std::string> rows) {
    bool any = false; for (auto &x : want) if (x.find("*UUID*") != std::string::npos) any = true; if (!any) return rows;
    for (auto &x : rows) for (size_t p = x.find('{'); p != std::string::npos; p = x.find('{', p + 1)) {
        if (x.size() < p + 38 || x[p + 37] != '}') continue; bool ok = true; for (size_t i = 1; i < 37; i++) { char c = x[p + i]; if (i == 9 || i == 14 || i == 19 || i == 24 ? c != '-' : !(isdigit((unsigned char)c) || (c >= 'A' && c <= 'F'))) ok = false; }
        if (ok) { x.replace(p, 38, "*UUID*"); break; }
    }
    return rows;
}
bool expect_match(const Expect &e, const std::string &res, const std::vector<std::string> &rows0, std::string &why) {
    std::vector<std::string> rows = mask_uuid(e.rows, rows0);
    bool ok = res.compare(0, 2, "ok") == 0;
    switch (e.k) {
    case Expect::ANY: return true;
    case Expect::OK: if (!ok) { why = "failed (" + res + ") where it has to succeed"; return false; } return true;
    case Expect::ERR: if (ok) { why = "succeeded where it has to fail" + (e.why.empty() ? "" : " (" + e.why + ")"); return false; } return true;
    case Expect::TEXT: if (res != e.text && !(e.text.compare(0, 3, "err") && 0)) { why = "returned [" + res.substr(0, 200) + "], expected [" + e.text.substr(0, 200) + "]"; return false; } return true;
    case Expect::ROWS:
        if (!ok) { why = "failed (" + res + ") where it has to succeed"; return false; }
        for (auto &a : e.alt) if (ms_equal(mask_uuid(a, rows0), a)) return true;
        if (e.ordered_exact ? rows != e.rows : !ms_equal(rows, e.rows)) { why = diff_text(e.rows, rows); return false; }
        if (!e.order.empty()) return ordered(rows, e.order, why);
        return true;
    case Expect::FETCH: {
        bool end = res == "end", more = res == "more";
        if (!end && !more) { why = "fetch failed (" + res + ")"; return false; }
        long want = e.want; long have = (long)e.rows.size();
        bool expect_end = want < 0 || want > have; size_t n = (size_t)(expect_end ? have : want);
        if (rows.size() != n || end != expect_end) { why = "fetch returned " + std::to_string(rows.size()) + " rows, " + res + "; expected " + std::to_string(n) + " and " + (expect_end ? "end" : "more"); return false; }
        auto rest = e.rows; for (auto &r : rows) { auto f = std::find(rest.begin(), rest.end(), r); if (f == rest.end()) { why = "fetch returned [" + r.substr(0, 160) + "] which is not among the remaining rows"; return false; } rest.erase(f); }
        return true; }
    }
    return true;
}
