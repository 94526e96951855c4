#include "gen.h"
#include <algorithm>
#include <string.h>

bool Gen::op(const std::string &line) {
    Op o; o.id = nextid; for (auto &x : split(line, ' ')) o.t.push_back(x == "''" ? "" : x);
    Model m(w, as[cur]);
    Expect e = m.eval(o);
    if (w.invalid) { w.invalid = false; w.inv_why.clear(); return false; }
    last = e; nextid++; ph.actors[cur].ops.push_back(o);
    std::vector<std::string> rows;
    bool ok = e.k == Expect::OK || e.k == Expect::ROWS || e.k == Expect::FETCH || e.k == Expect::ANY || (e.k == Expect::TEXT && e.text.compare(0, 2, "ok") == 0);
    if (e.k == Expect::TEXT) rows.push_back(e.text);
    if (e.k == Expect::FETCH) { for (long i = 0; i < (long)e.rows.size() && (e.want < 0 || i < e.want); i++) rows.push_back(e.rows[i]); }
    m.apply(o, ok, rows);
    if (o.t[0] == "open" && o.t[3] == "6" && r.chance(35)) op("cp " + o.t[1] + " 65001");
    return true;
}
bool Gen::utf() const { for (auto &a : as) for (auto &s : a.s) if (s.second.db.cp != 65001) return false; return true; }
const MDb *Gen::db(const std::string &h) { auto it = as[cur].s.find(h); return it == as[cur].s.end() ? NULL : &it->second.db; }

static const char *tabs[] = {"T", "Un", "Table_Three", "File", "Property", "x1", "T56789012345678901234567890123456789012345678901234567xyz", "T567890123456789012345678901234567890123456789012345678xyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ12345", "Binary", "Media", "Order", "Key", "Select"};
std::string Gen::table_name() { return tabs[r.below(sizeof tabs / sizeof *tabs)]; }
Val Gen::rnd_str() {
    Val v; v.k = Val::STR;
    if (strpool.empty()) {
        static const char *base[] = {"a", "A", "ab", "foo", "bar", "Foo", "foo bar", "x.y", "_", "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "0", "12", "-1", "[Prop]", "!(loc.X)", "NULL", "k1", "k2", "k3", "k4", "path/to", "a;b", "a,b", "100%"};
        int n = 3 + (int)r.below(14); for (int i = 0; i < n; i++) strpool.push_back(base[r.below(sizeof base / sizeof *base)]);
    }
    u32 x = r.below(100);
    if (x < 70) { v.s = r.pick(strpool); if (!str_fits_cp(v.s, utf() ? 65001 : 0) && r.chance(97)) v.s = "k5"; }
    else if (x < 90) { v.s = "s" + std::to_string(r.below(400)); if (r.chance(30)) strpool.push_back(v.s); }
    else if (x < 97) { return val_parse("L" + std::to_string(r.range(25, 300)) + "." + std::to_string(r.below(6))); }
    else return val_parse("L" + std::to_string(r.chance(50) ? r.range(300, 5000) : r.range(60000, 70000)) + "." + std::to_string(r.below(6)));
    return v;
}
Val Gen::rnd_int(char kind) {
    Val v; v.k = Val::INT; u32 x = r.below(100);
    if (x < 55) v.i = r.range(0, 9);
    else if (x < 70) v.i = r.range(-20, 20);
    else if (kind == 'i') { static const int e[] = {32767, -32767, 255, 256, -256, 1000, -1, 0}; v.i = x < 85 ? e[r.below(8)] : r.range(-32767, 32767); }
    else { static const s64 e[] = {2147483647LL, -2147483647LL, 65535, 65536, -65536, 32768, -32768, 16777216, -1, 0}; v.i = x < 85 ? e[r.below(10)] : (s64)(s32)r.next(); if (v.i == -2147483648LL) v.i = 7; }
    return v;
}
std::string Gen::bin_tok() { u32 x = r.below(100); u32 len = x < 10 ? 1 : x < 50 ? 1 + r.below(200) : x < 75 ? 4000 + r.below(300) : x < 95 ? 1 + r.below(20000) : 60000 + r.below(90000); return "b" + std::to_string(len) + "." + std::to_string(r.below(1000)); }
Val Gen::rnd_val(const MCol &c, bool null_ok) {
    if (null_ok && c.nullable && r.chance(20)) return Val();
    if (c.kind == 's') return rnd_str();
    if (c.kind == 'v') return val_parse(bin_tok());
    return rnd_int(c.kind);
}
std::string Gen::val_param(const Val &v, bool lit_ok) {
    bool lit = lit_ok && (litonly || r.chance(35)) && v.k != Val::BIN && v.k != Val::NUL;
    if (v.k == Val::INT && v.i < 0 && r.chance(litonly ? 10 : 50)) lit = false;
    if (lit && v.k == Val::STR) for (unsigned char c : v.s) if (c == '\'' || c < 32) lit = false;
    if (v.k == Val::STR && v.s.size() > 2000) lit = false;
    return (lit ? "" : "?") + val_tok(v);
}
std::string Gen::new_table(const std::string &h, int mincols, int maxcols, bool temp_ok, bool binary) {
    std::string t = table_name();
    int nk = r.chance(70) ? 1 : r.range(1, 3), n = std::max(nk, r.range(mincols, maxcols));
    static const char *cn[] = {"k", "v", "Name", "Data", "Sequence", "Description_", "Attr", "Component_", "Q9", "z"};
    std::string l = "create " + h + " " + t; bool temp = temp_ok && r.chance(35);
    l += temp && r.chance(85) ? " 1" : " 0"; int bins = 0;
    for (int i = 0; i < n; i++) {
        std::string name = i < 10 && r.chance(80) ? cn[(i * 7 + nk) % 10] : "c" + std::to_string(i); if (l.find(" " + name + ":") != std::string::npos) name = "c" + std::to_string(i);
        std::string ty;
        u32 x = r.below(100);
        if (i < nk) ty = x < 45 ? "c" + std::to_string(r.range(1, 255)) : x < 60 ? "lc" : x < 80 ? "i2" : x < 90 ? "i4" : "int";
        else ty = x < 35 ? "c" + std::to_string(r.range(1, 255)) : x < 45 ? "lc" : x < 50 ? "c" : x < 65 ? "i2" : x < 85 ? "i4" : x < 90 ? "int" : "ob";
        if (ty == "ob" && (!binary || temp || bins++ > 0 || t.size() > 12)) ty = "i2";
        std::string f; if (i < nk) f += r.chance(88) ? "kr" : "k"; else if (r.chance(25) && ty != "ob") f += "r";
        if (temp) f += "t"; else if (ty[0] == 'c' && r.chance(20)) f += "l";
        l += " " + name + ":" + ty + ":" + f;
    }
    op(l); return t;
}
std::string Gen::any_table(const std::string &h, bool with_rows) {
    const MDb *d = db(h); if (!d) return ""; std::vector<std::string> v; for (auto &t : d->tables) if (!with_rows || t.second.rows.size()) v.push_back(t.first);
    if (v.empty()) return ""; return r.pick(v);
}
bool Gen::insert(const std::string &h, const std::string &t, int temp, bool collide) {
    const MDb *d = db(h); if (!d) return false; auto it = d->tables.find(t); if (it == d->tables.end()) return false; const MTable &m = it->second;
    std::string l = "ins " + h + " " + t + " " + (temp ? "1" : "0"); const MRow *dup = collide && m.rows.size() ? &m.rows[r.below((u32)m.rows.size())] : NULL;
    std::vector<std::string> parts;
    for (size_t i = 0; i < m.cols.size(); i++) {
        const MCol &c = m.cols[i];
        Val v = dup && (c.key || r.chance(30)) ? dup->c[i] : rnd_val(c);
        if (c.key && v.k == Val::NUL && (!(c.type & 0x1000) || r.chance(60))) v = rnd_val(c, false);
        if (c.key && c.kind == 's' && v.s.size() > 12 && r.chance(85)) { v.s = "k" + std::to_string(r.below(60)); }
        if (!c.key && r.chance(6)) { if (c.kind == 'i') { v.k = Val::INT; v.i = r.chance(50) ? 40000 : -40000; } else v = Val(); }
        if (v.k == Val::NUL && r.chance(50)) continue;
        if (v.k == Val::NUL && (c.kind != 's')) { if (r.chance(50)) continue; parts.push_back(c.name + "=?n"); continue; }
        parts.push_back(c.name + "=" + val_param(v));
    }
    if (parts.empty()) return false;
    if (r.chance(20)) for (size_t i = parts.size() - 1; i > 0; i--) std::swap(parts[i], parts[r.below((u32)i + 1)]);
    for (auto &p : parts) l += " " + p;
    return op(l);
}
std::string Gen::cond(const std::string &h, const std::vector<std::string> &tables, int depth) {
    const MDb *d = db(h);
    if (depth > 0 && r.chance(55)) {
        static const char *c[] = {"and", "or", "and", "or", "and"}; return std::string(c[r.below(5)]) + "," + cond(h, tables, depth - 1) + "," + cond(h, tables, depth - 1);
    }
    for (int tries = 0; tries < 20; tries++) {
        const std::string &tn = tables[r.below((u32)tables.size())]; auto it = d->tables.find(tn); if (it == d->tables.end()) return "null,k";
        const MTable &m = it->second; const MCol &c = m.cols[r.below((u32)m.cols.size())]; int ci = m.col(c.name);
        std::string cn = tables.size() > 1 ? tn + "." + c.name : c.name;
        if (c.kind == 'v') { if (r.chance(40)) return std::string(r.chance(50) ? "null," : "nn,") + cn; continue; }
        if (r.chance(12)) return std::string(r.chance(50) ? "null," : "nn,") + cn;
        if (r.chance(tables.size() > 1 ? 45 : 8)) { // column to column
            const std::string &t2 = tables[r.below((u32)tables.size())]; const MTable &m2 = d->tables.at(t2); const MCol &c2 = m2.cols[r.below((u32)m2.cols.size())];
            if (c2.kind == 'v' || (c.kind == 's') != (c2.kind == 's')) continue;
            static const char *o[] = {"eq", "eq", "eq", "ne", "lt", "gt", "le", "ge"};
            return std::string(o[r.below(c.kind == 's' ? 4 : 8)]) + "," + cn + ",@" + (tables.size() > 1 ? t2 + "." + c2.name : c2.name);
        }
        Val v = m.rows.size() && r.chance(75) ? m.rows[r.below((u32)m.rows.size())].c[ci] : rnd_val(c, false);
        if (v.k == Val::NUL) { if (c.kind == 's' && r.chance(50)) v.k = Val::STR; else continue; }
        if (c.kind == 's') return std::string(r.chance(75) ? "eq," : "ne,") + cn + "," + (v.s.empty() ? "?n" : val_param(v));
        static const char *o[] = {"eq", "ne", "lt", "gt", "le", "ge"};
        return std::string(o[r.chance(50) ? 0 : r.below(6)]) + "," + cn + "," + val_param(v);
    }
    return "-";
}
bool Gen::update(const std::string &h, const std::string &t) {
    const MDb *d = db(h); auto it = d->tables.find(t); if (it == d->tables.end()) return false; const MTable &m = it->second;
    std::string c = r.chance(90) ? cond(h, {t}, r.below(3)) : "-"; if (c.find("n,") == 0) {}
    std::string l = "upd " + h + " " + t + " " + c; int n = r.range(1, 3); std::set<std::string> used;
    for (int i = 0; i < n; i++) {
        const MCol &k = m.cols[r.below((u32)m.cols.size())]; if (!used.insert(k.name).second) continue;
        if (k.key && !r.chance(8)) { continue; }
        Val v = rnd_val(k, k.kind != 'v'); if (v.k == Val::NUL && k.kind != 's') { l += " " + k.name + "=?n"; continue; }
        if (r.chance(4) && k.kind == 'i') { v.k = Val::INT; v.i = 33000; }
        l += " " + k.name + "=" + (v.k == Val::NUL ? std::string(r.chance(50) ? "s" : "?n") : val_param(v));
    }
    if (split(l, ' ').size() < 5) return false;
    return op(l);
}
bool Gen::del(const std::string &h, const std::string &t) { std::string c = r.chance(93) ? cond(h, {t}, r.below(3)) : "-"; return op("del " + h + " " + t + " " + c); }
bool Gen::select(const std::string &h, bool open, const std::string &qn) {
    const MDb *d = db(h); if (!d || d->tables.empty()) return false;
    std::vector<std::string> T; int n = r.chance(60) ? 1 : r.range(2, 3);
    for (int i = 0; i < n; i++) { std::string t = any_table(h, r.chance(80)); if (t.empty() || std::count(T.begin(), T.end(), t)) continue; T.push_back(t); }
    if (T.empty()) return false;
    for (;;) { u64 n = 1; for (auto &t : T) n *= std::max<size_t>(1, d->tables.at(t).rows.size()); if (n <= 1200 || T.size() == 1) break; T.pop_back(); }
    if (T.size() == 1 && r.chance(4)) T[0] = r.chance(50) ? "_Tables" : "_Columns";
    std::vector<std::string> ids; bool hasbin = false;
    for (auto &t : T) { auto it = d->tables.find(t); if (it == d->tables.end()) { if (t == "_Tables") ids.push_back("Name"); else for (auto x : {"Table", "Number", "Name", "Type"}) ids.push_back(x); continue; } for (auto &c : it->second.cols) { ids.push_back(T.size() > 1 || r.chance(10) ? t + "." + c.name : c.name); if (c.kind == 'v') hasbin = true; } }
    std::string cols = "*"; std::vector<std::string> sel;
    if (r.chance(60)) { cols = ""; int k = r.range(1, (int)std::min<size_t>(ids.size(), 4)); for (int i = 0; i < k; i++) { std::string id = r.pick(ids); if (std::count(sel.begin(), sel.end(), id)) continue; sel.push_back(id); cols += (cols.empty() ? "" : ",") + id; } } else sel = ids;
    bool distinct = r.chance(hasbin ? 8 : 15);
    std::string c = "-"; if (r.chance(T.size() > 1 ? 85 : 65) && d->tables.count(T[0])) { c = cond(h, T, r.below(3)); }
    std::string ord = "-"; if (r.chance(30) && d->tables.count(T[0])) { ord = r.pick(sel); if (r.chance(30)) { std::string o2 = r.pick(sel); if (o2 != ord) ord += "," + o2; } }
    std::string tl; for (auto &t : T) tl += (tl.empty() ? "" : ",") + t;
    if (ord != "-" && T[0][0] == '_') ord = "-";
    std::string tail = std::string(distinct ? "1" : "0") + " " + cols + " " + tl + " " + c + " " + ord;
    return open ? op("qopen " + qn + "@" + h + " " + tail) : op("sel " + h + " " + tail);
}
bool Gen::ddl(const std::string &h, bool temp_ok) {
    u32 x = r.below(100); std::string t = any_table(h);
    if (x < 40 || t.empty()) { new_table(h, 1, 7, temp_ok); return true; }
    if (x < 60) return op("drop " + h + " " + (r.chance(90) ? t : table_name()));
    if (x < 90 || !temp_ok) {
        static const char *ty[] = {"c72", "i2", "i4", "lc", "ob", "c"}; const char *y = ty[r.below(6)]; if (!strcmp(y, "ob")) { bool has = t.size() > 12; for (auto &c : db(h)->tables.at(t).cols) if (c.kind == 'v') has = true; if (has) y = "i2"; }
        bool tmp = temp_ok && r.chance(30);
        if (tmp && !strcmp(y, "ob")) y = "i4";
        return op("add " + h + " " + t + " n" + std::to_string(r.below(5)) + ":" + y + ":" + (tmp ? "t" : (y[0] == 'c' || y[0] == 'l') && r.chance(15) ? "l" : "") + (tmp ? " 1" : " 0"));
    }
    return op(std::string(r.chance(50) ? "hold " : "free ") + h + " " + t);
}
void Gen::fill(const std::string &h, int n, bool same, const std::string &t) {
    if (n > 3000) { int k = 33; for (int i = 0; i < k; i++) fill(h, n / k + (i < n % k), same, "Fill" + std::to_string(i)); return; } // inserting costs time quadratic in the size of a table
    const MDb *d = db(h); if (!d) return;
    if (!d->tables.count(t)) op("create " + h + " " + t + " 0 k:i4:kr v:" + (r.chance(50) ? "lc" : "c255") + ":");
    s64 from = 1; for (auto &row : db(h)->tables.at(t).rows) if (row.c.size() && row.c[0].k == Val::INT) from = std::max(from, row.c[0].i + 1);
    if (r.chance(10)) from += 100000; if (from > 2000000000) return;
    op("fill " + h + " " + t + " " + std::to_string(from) + " " + std::to_string(n) + " " + (same ? "sshared" + std::to_string(r.below(3)) : "+x" + std::to_string(r.below(9)) + t + "."));
}
static const char *snames[] = {"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz012345678.9", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789.", "123456789012345678901-abcdefghi", "-------------------------------", "--------------------------------", "s1", "S1", "stream.two", "Icon.exe", "a", "ab", "Data_1", "caf\xc3\xa9", "x y z", "MsiDigitalSig2", "\xe6\x97\xa5", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ.cab", "12345678901234567890123456789", "cab1.cab", "#x", "-", "A.B.C", "\xc3\xa9t\xc3\xa9"};
std::string Gen::stream_pick() { return snames[r.below(sizeof snames / sizeof *snames)]; }
bool Gen::storage_op(const std::string &h) {
    static const char *gn[] = {"sub", "Storage.One", "MST1", "caf\xc3\xa9", "12345678901234567890123456789_31", "12345678901234567890123456789__32"};
    const MDb *d = db(h); if (!d) return false; std::vector<std::string> have; for (auto &s : d->storages) have.push_back(s.first); u32 x = r.below(100);
    if (x < 70 || have.empty()) { std::string f = "o" + std::to_string(r.below(3)) + ".ole"; if (!w.files.count(f)) op("ole " + f + " " + std::to_string(r.below(100000))); if (r.chance(3) && !w.files.count("plain")) { op("file plain b5000.7"); } return op("gput " + h + " " + pct(have.size() && r.chance(25) ? r.pick(have) : gn[r.below(6)]) + " " + (w.files.count("plain") && r.chance(5) ? "plain" : r.chance(2) ? "missing" : f)); }
    return op("gdel " + h + " " + pct(r.chance(90) ? r.pick(have) : "nosuch"));
}
bool Gen::stream_op(const std::string &h, bool read_ok) {
    if (r.chance(12)) return storage_op(h);
    const MDb *d = db(h); if (!d) return false; u32 x = r.below(100); std::vector<std::string> have; for (auto &s : d->streams) have.push_back(s.first);
    if (x < 45 || have.empty()) { std::string n = have.size() && r.chance(30) ? r.pick(have) : stream_pick(); return op("sput " + h + " " + pct(n) + " " + bin_tok()); }
    if (x < 60) return op("srepl " + h + " " + pct(r.pick(have)) + " " + bin_tok());
    if (x < 80 || !read_ok) return op("sdel " + h + " " + pct(r.chance(90) ? r.pick(have) : stream_pick()));
    return op("sget " + h + " " + pct(r.chance(85) ? r.pick(have) : stream_pick()));
}
bool Gen::si_op(const std::string &h, std::string &si) {
    if (!as[cur].si.count(si)) { if (!op("sinew " + h + " " + si + " " + std::to_string(r.chance(90) ? 20 : r.below(3)))) return false; }
    u32 x = r.below(100);
    if (x < 60) {
        static const int sp[] = {2, 3, 4, 5, 6, 7, 8, 9, 18}, ip[] = {1, 14, 15, 16, 19};
        u32 y = r.below(100); std::string v; int p;
        if (y < 45) { p = sp[r.below(9)]; Val s = rnd_str(); if (r.chance(5)) s.s = ""; v = s.s.empty() ? "s" : val_tok(s); }
        else if (y < 75) { p = ip[r.below(5)]; Val i = rnd_int(p == 1 ? 'i' : 'j'); if (p == 1 && r.chance(50)) { static const int cps[] = {65001, 1252, 932, 1200, 65000, 40000, 65535, 32768}; i.i = cps[r.below(8)]; } v = val_tok(i); }
        else { p = r.range(10, 13); u64 t = r.chance(70) ? 116444736000000000ull + (u64)r.below(2000000000u) * 10000000ull : r.chance(50) ? r.next() >> 1 : r.next() >> 40; v = "t" + std::to_string(t); }
        if (r.chance(4)) p = r.range(1, 16);
        return op("sis " + si + " " + std::to_string(p) + " " + v);
    }
    if (x < 70) return op("sigets " + si);
    if (x < 92) { bool b = op("sipersist " + si); if (r.chance(30)) op("sidump " + h); return b; }
    return op("siclose " + si);
}
void Gen::edits(const std::string &h, int n) {
    if (weight.empty()) { for (auto k : {"ins", "dup", "upd", "del", "ddl", "str", "si", "tmp"}) weight[k] = (int)r.below(10); weight["ins"] += 12; weight["upd"] += 3; weight["del"] += 2; weight["dup"] /= 3; weight["tmp"] /= 3; weight["ddl"] /= 2; weight["si"] /= 2; if (prof != "P08" && prof != "P05" && prof != "P01") weight["tmp"] = 0; }
    int total = 0; for (auto &x : weight) total += x.second; std::string si = "si" + h;
    for (int i = 0; i < n; i++) {
        int x = (int)r.below((u32)total); std::string k; for (auto &y : weight) { if (x < y.second) { k = y.first; break; } x -= y.second; }
        std::string t = any_table(h); if (t.empty() && k != "str" && k != "si") { new_table(h); continue; }
        if (k == "ins") insert(h, t); else if (k == "dup") insert(h, t, 0, true); else if (k == "upd") update(h, t); else if (k == "del") del(h, t);
        else if (k == "ddl") ddl(h, weight["tmp"] > 0); else if (k == "str") stream_op(h, false); else if (k == "si") si_op(h, si); else if (k == "tmp") insert(h, t, 1);
    }
}
void Gen::reads(const std::string &h, int n) { for (int i = 0; i < n; i++) { u32 x = r.below(100); if (x < 60) select(h); else if (x < 75) stream_op(h); else if (x < 85) op("sidump " + h); else if (x < 95) { std::string t = any_table(h); if (!t.empty()) op("colinfo " + h + " " + t); } else op("dump " + h); } }
void Gen::build(const std::string &h, int tables, int rows) {
    for (int i = 0; i < tables; i++) { std::string t = new_table(h, 2, 7); for (int j = 0; j < rows; j++) insert(h, t); }
}

// ---------------------------------------------------------------- profiles
static void setup(Gen &g, const char *path = "x.msi") { // a committed package to work on
    g.op(std::string("open h ") + path + " 6"); g.build("h", g.r.range(1, 4), g.r.below(12)); for (u32 i = g.r.below(4); i > 0; i--) g.stream_op("h", false);
    if (g.r.chance(25)) g.storage_op("h");
    if (g.r.chance(50)) { std::string si = "sih"; g.si_op("h", si); g.op("sipersist sih"); }
    g.op("commit h"); g.op("close h");
}
static void gen_crash(Gen &g, int ph, int) { // sessions with several commits
    if (ph == 0) { setup(g); return; }
    int sessions = g.r.chance(75) ? 1 : 2;
    for (int s = 0; s < sessions; s++) {
        bool fresh = g.r.chance(6); g.op(fresh ? "open d y.msi 6" : "open d x.msi 4"); if (g.r.chance(30)) g.reads("d", 2); if (fresh) g.build("d", 1, 4);
        if (g.r.chance(8)) g.fill("d", g.r.range(1000, 3000), g.r.chance(50));
        int n = g.r.chance(60) ? 1 : g.r.range(2, 4); for (int i = 0; i < n; i++) { g.edits("d", g.r.range(1, 10)); g.op("commit d"); if (g.r.chance(20)) g.reads("d", 2); }
        if (g.r.chance(40)) g.edits("d", g.r.range(1, 5)); if (g.r.chance(70)) g.op("close d");
    }
}
static void gen_nocommit(Gen &g, int ph, int) {
    if (ph == 0) { setup(g); return; }
    int kind = g.r.below(3);
    g.op(std::string("open d x.msi ") + (kind == 0 ? "1" : "4"));
    if (g.r.chance(50)) g.reads("d", 2);
    if (kind == 2) { g.edits("d", g.r.range(1, 6)); g.op("commit d"); }
    g.edits("d", g.r.range(1, 12)); if (kind == 0 && g.r.chance(60)) { g.op("commit d"); if (g.r.chance(50)) g.edits("d", 3); }
    if (g.r.chance(30)) g.reads("d", 2);
    if (g.r.chance(80)) g.op("close d");
}
static void gen_roundtrip(Gen &g, int ph, int) {
    std::string h = "d" + std::to_string(ph);
    g.op("open " + h + " x.msi " + (ph == 0 ? "6" : "4"));
    if (ph == 0) g.build(h, g.r.range(1, 4), g.r.below(20));
    int n = g.r.range(1, 4);
    if (g.r.chance(12)) {
        static const int sz[] = {254, 255, 256, 257, 511, 512, 513, 1024, 3000}; u32 x = g.r.below(100);
        if (x == 0) g.fill(h, g.r.range(65530, 65600), g.r.chance(50)); else g.fill(h, g.r.chance(75) ? sz[g.r.below(9)] : g.r.range(1, 1200), g.r.chance(60));
    }
    for (int i = 0; i < n; i++) { g.edits(h, g.r.range(0, 15)); if (g.r.chance(30)) g.op("dump " + h); g.op("commit " + h); if (g.r.chance(40)) g.op("dump " + h); }
    if (g.r.chance(30)) g.edits(h, 4);
    g.op("close " + h);
    if (g.r.chance(40)) { g.op("open e x.msi 1"); g.op("dump e"); g.op("close e"); }
}
static void gen_select(Gen &g, int ph, int) {
    std::string h = "d"; g.op(std::string("open d x.msi ") + (ph == 0 ? "6" : g.r.chance(50) ? "4" : "1"));
    if (ph == 0) g.build(h, g.r.range(2, 4), g.r.range(2, 14));
    int n = g.r.range(4, 16); for (int i = 0; i < n; i++) { if (g.r.chance(80)) g.select(h); else g.edits(h, g.r.range(1, 4)); if (g.r.chance(4)) g.op("commit d"); }
    g.op("commit d"); g.op("close d");
}
static void gen_dml(Gen &g, int ph, int) {
    std::string h = "d"; g.op(std::string("open d x.msi ") + (ph == 0 ? "6" : "4"));
    if (ph == 0) g.build(h, g.r.range(1, 3), g.r.range(2, 12));
    g.weight = {{"ins", 10}, {"dup", 4}, {"upd", 8}, {"del", 5}};
    int n = g.r.range(2, 10); for (int i = 0; i < n; i++) { g.edits(h, g.r.range(1, 3)); g.op("dump d"); if (g.r.chance(8)) g.op("commit d"); }
    if (g.r.chance(70)) g.op("commit d"); g.op("close d");
}
static void gen_schema(Gen &g, int ph, int) {
    std::string h = "d"; g.op(std::string("open d x.msi ") + (ph == 0 ? "6" : "4"));
    g.weight = {{"ins", 6}, {"upd", 2}, {"del", 1}, {"ddl", 10}, {"tmp", 4}};
    int n = g.r.range(2, 10); for (int i = 0; i < n; i++) { g.edits(h, g.r.range(1, 3)); std::string t = g.any_table(h); if (!t.empty() && g.r.chance(60)) { g.op("colinfo d " + t); g.op("persist? d " + t); } g.op("dump d"); if (g.r.chance(12)) g.op("commit d"); }
    g.op("commit d"); g.op("dump d"); g.op("close d");
}
static void gen_streams(Gen &g, int ph, int) {
    std::string h = "d"; g.op(std::string("open d x.msi ") + (ph == 0 ? "6" : "4"));
    if (ph == 0) { if (g.r.chance(70)) g.op("create d B 0 k:c40:kr b:ob:"); if (g.r.chance(60)) g.op("create d Icon 0 k:c40:kr n:i2:kr b:ob:r z:i4:"); }
    int n = g.r.range(3, 14); for (int i = 0; i < n; i++) { u32 x = g.r.below(100); std::string t = g.any_table(h); if (x < 60 || t.empty()) g.stream_op(h); else if (x < 80) g.insert(h, t); else if (x < 90) g.update(h, t); else if (x < 95) g.del(h, t); else g.ddl(h, false); if (g.r.chance(15)) g.op("dump d"); if (g.r.chance(10)) g.op("commit d"); }
    if (g.r.chance(80)) g.op("commit d"); g.op("dump d"); g.op("close d");
}
static void gen_cursors(Gen &g, int ph, int) {
    std::string h = "d"; g.op(std::string("open d x.msi ") + (ph == 0 ? "6" : g.r.chance(60) ? "4" : "1"));
    if (ph == 0) { g.build(h, g.r.range(2, 4), g.r.range(2, 14)); g.op("commit d"); }
    int n = g.r.range(6, 30), opened = 0; bool closed = false; bool ro = g.as[0].s.count("d") && g.as[0].s["d"].readonly();
    for (int i = 0; i < n; i++) {
        u32 x = g.r.below(100); std::string q = "q" + std::to_string(g.r.below(5)); bool have = g.as[0].q.count(q);
        if (!have) { if (!closed) g.select(h, true, q), opened++; continue; }
        if (x < 60) g.op("qf " + q + " " + std::to_string(g.r.chance(80) ? g.r.range(1, 5) : -1));
        else if (x < 72) g.op((g.r.chance(60) ? "qre " : "qre! ") + q); else if (x < 82) g.op("qclose " + q + (g.r.chance(30) ? " raw" : ""));
        else if (x < 94 && !closed && !ro) { // edit tables without open queries on them
            std::string t = g.any_table(h); bool busy = false; for (auto &y : g.as[0].q) if (y.second.tables.count(t)) busy = true; if (!t.empty() && !busy) { u32 z = g.r.below(3); if (z == 0) g.insert(h, t); else if (z == 1) g.update(h, t); else g.del(h, t); }
        } else if (x < 96 && !closed) { g.op("close d"); closed = true; }
    }
    for (auto &y : g.as[0].q) { (void)y; }
    if (!closed) { std::vector<std::string> qs; for (auto &y : g.as[0].q) qs.push_back(y.first); for (auto &y : qs) if (g.r.chance(70)) { g.op("qf " + y + " -1"); } for (auto &y : qs) g.op("qclose " + y); if (ph == 0 || g.r.chance(50)) g.op("commit d"); }
}
static void gen_si(Gen &g, int ph, int) {
    static const char *tz[] = {"UTC", "EST5EDT", "CET-1CEST", "Asia/Kolkata", "NZST-12NZDT", "XXX14", "YYY-14"}; g.ph.tz = tz[g.r.below(7)];
    g.ph.clock_jump = g.r.chance(30) ? (s64)g.r.range(-400000000, 400000000) : 0;
    g.op(std::string("open d x.msi ") + (ph == 0 ? "6" : "4")); if (ph == 0 || g.r.chance(20)) g.new_table("d");
    int n = g.r.range(2, 14); std::string si = "s1", s2 = "s2"; for (int i = 0; i < n; i++) { g.si_op("d", g.r.chance(80) ? si : s2); if (g.r.chance(10)) g.op("sidump d"); if (g.r.chance(8)) g.op("commit d"); }
    g.op("sidump d"); if (g.r.chance(85)) g.op("commit d"); g.op("sidump d"); g.op("close d");
}
static void gen_rd(Gen &g, int ph, int) { // reading a stored package under faults
    if (ph == 0) { if (g.r.chance(35)) { g.op("open h x.msi 6"); g.fill("h", g.r.range(300, 3000), g.r.chance(50)); if (g.r.chance(60)) g.build("h", 2, 4); g.op("commit h"); g.op("close h"); } else setup(g); return; }
    bool rw = g.r.chance(60); g.op(std::string("open d x.msi ") + (rw ? "4" : "1")); if (rw && g.r.chance(60)) g.edits("d", g.r.range(1, 6)); g.reads("d", g.r.range(1, 6)); if (rw) { if (g.r.chance(40)) g.edits("d", 3); g.op("commit d"); if (g.r.chance(30)) g.reads("d", 2); } g.op("close d");
}
static void gen_streamread(Gen &g, int ph, int) {
    g.op(std::string("open d x.msi ") + (ph == 0 ? "6" : g.r.chance(70) ? "4" : "1"));
    if (ph == 0) { g.op("create d B 0 k:c20:kr b:ob:"); int n = g.r.range(1, 4); for (int i = 0; i < n; i++) g.op("ins d B 0 k=sk" + std::to_string(i) + " b=?" + g.bin_tok()); n = g.r.range(0, 3); for (int i = 0; i < n; i++) g.op("sput d st" + std::to_string(i) + " " + g.bin_tok()); g.op("commit d"); }
    bool ro = g.as[0].s.count("d") && g.as[0].s["d"].readonly();
    int n = g.r.range(8, 40); bool closed = false;
    for (int i = 0; i < n; i++) {
        std::string s = "z" + std::to_string(g.r.below(3)); auto it = g.as[0].st.find(s);
        if (it == g.as[0].st.end()) { if (closed) continue; if (g.r.chance(60)) g.op("topen d " + s + " B b eq,k,sk" + std::to_string(g.r.below(4)) + (g.r.chance(30) ? " keep" : "")); else g.op("topen d " + s + " _Streams Data eq,Name,sst" + std::to_string(g.r.below(3))); continue; }
        s64 size = (s64)it->second.data.size(); u32 x = g.r.below(100);
        if (x < 50) { static const int sz[] = {0, 1, 2, 7, 64, 512, 4096, 10000, 200000}; g.op("tread " + s + " " + std::to_string(g.r.chance(70) ? sz[g.r.below(9)] : (int)g.r.below((u32)size + 10))); }
        else if (x < 80) { static const char *w[] = {"set", "cur", "end"}; int wi = (int)g.r.below(3); s64 o = wi == 0 ? g.r.range(-3, (int)size + 3) : wi == 1 ? g.r.range(-(int)size - 3, (int)size + 3) : g.r.range(-(int)size - 3, 3); if (g.r.chance(15)) o = wi == 2 ? 0 : wi == 0 ? size : 0; g.op("tseek " + s + " " + std::to_string(o) + " " + w[wi]); }
        else if (x < 84) g.op("tskip " + s + " " + std::to_string(g.r.below((u32)size + 5)));
        else if (x < 87) g.op("tclose " + s); else if (x < 90) g.op("recdrop " + s);
        else if (x < 96 && !closed && !ro) { u32 y = g.r.below(4); if (y == 0) g.op("sput d st" + std::to_string(g.r.below(3)) + " " + g.bin_tok()); else if (y == 1) g.op("upd d B eq,k,sk" + std::to_string(g.r.below(4)) + " b=?" + g.bin_tok()); else if (y == 2) g.op("del d B eq,k,sk" + std::to_string(g.r.below(4))); else g.op("commit d"); }
        else if (x < 98 && !closed) { g.op("close d"); closed = true; }
    }
    if (!closed) { if (g.r.chance(50)) g.op("commit d"); g.op("close d"); }
}
static void illegal(Gen &g, const std::string &h) { // statements and calls that cannot succeed
    std::string t = g.any_table(h), nt = "NoSuch", T = t.empty() ? nt : t; const MDb *d = g.db(h); if (!d) return; std::string c1 = t.empty() ? "k" : d->tables.at(t).cols[0].name; bool str = !t.empty() && d->tables.at(t).cols[0].kind == 's'; std::string lit = str ? "'z'" : "1", wrong = str ? "1" : "'z'"; (void)wrong;
    if (g.r.chance(30)) {
        static const char *a[] = {"pk NoSuch", "imp /sim/w/missing.idt", "imp /sim/w", "exp NoSuch", "new 1:missing.msi", "new 4:missing.msi", "new 1:/sim/w", "new 6:nodir/x.msi", "load missing.bin", "apply missing.mst", "new 1:plain.txt", "new 4:plain.txt", "apply plain.txt", "imp plain.txt"};
        std::string x = a[g.r.below(14)]; if (x.find("plain") != std::string::npos && !g.w.files.count("plain.txt")) g.op("file plain.txt " + std::string(g.r.chance(50) ? "sjust%20text" : "b700.3"));
        size_t sp = x.find(' '); g.op("api " + h + " " + x.substr(0, sp) + " " + pct(x.substr(sp + 1))); return;
    }
    static const char *S[] = {
        "", "'", "SELECT", "SELECT *", "SELECT * FROM", "SELECT * FROM `%T", "SELECT * FROM `NoSuch`", "SELECT `NoCol` FROM `%T`", "SELECT `%C`, `NoCol` FROM `%T`", "SELECT * FROM `%T` WHERE", "SELECT * FROM `%T` WHERE `NoCol` = 1", "SELECT * FROM `%T` WHERE `%C` =", "SELECT * FROM `%T` WHERE `%C` = ?",
        "SELECT * FROM `%T`, `NoSuch`", "SELECT * FROM `%T` ORDER BY", "SELECT * FROM `%T` ORDER BY `NoCol`", "SELECT DISTINCT `NoCol` FROM `%T`", "SELECT `NoSuch`.`a` FROM `%T`", "SELECT * FROM `%T` WHERE ((((`%C` = %L", "SELECT * FROM `%T` garbage here", "SELEC * FROM `%T`", "SELECT , FROM `%T`",
        "INSERT INTO `NoSuch` (`a`) VALUES (1)", "INSERT INTO `%T` (`NoCol`) VALUES (1)", "INSERT INTO `%T` (`%C`) VALUES ()", "INSERT INTO `%T` (`%C`, `NoCol`) VALUES (%L, 1)", "INSERT INTO `%T` (`%C`) VALUES (?)", "INSERT INTO `%T` VALUES", "INSERT INTO `%T` (`%C`) VALUES (%L", "INSERT `%T`",
        "UPDATE `NoSuch` SET `a` = 1", "UPDATE `%T` SET `NoCol` = 1", "UPDATE `%T` SET `%C` = %L WHERE `NoCol` = 1", "UPDATE `%T` SET", "UPDATE `%T`", "UPDATE `%T` SET `%C`",
        "DELETE FROM `NoSuch`", "DELETE FROM `%T` WHERE `NoCol` = 1", "DELETE `%T`", "DELETE FROM", "DROP TABLE `NoSuch`", "DROP TABLE", "DROP `%T`", "CREATE TABLE `%T` (`a` SHORT NOT NULL PRIMARY KEY `a`)", "CREATE TABLE `N9` (`a` BADTYPE NOT NULL PRIMARY KEY `a`)", "CREATE TABLE `N9` (`a` SHORT NOT NULL)", "CREATE TABLE `N9` (`a` SHORT NOT NULL PRIMARY KEY `b`)", "CREATE TABLE `N9` ()", "CREATE TABLE `N9`", "CREATE TABLE (`a` SHORT NOT NULL PRIMARY KEY `a`)",
        "ALTER TABLE `NoSuch` ADD `x` SHORT", "ALTER TABLE `NoSuch` HOLD", "ALTER TABLE `NoSuch` FREE", "ALTER TABLE `%T` ADD", "ALTER TABLE `%T`", "ALTER TABLE `%T` ADD `%C` SHORT", "COMMIT", "\x01\x02", "SELECT * FROM `%T` WHERE `%C` = %W AND", "SELECT * FROM `%T` WHERE `%C` LIKE 'x'", "SELECT COUNT(*) FROM `%T`", "SELECT * FROM 'x'", "INSERT INTO `_Tables` (`Name`) VALUES ('%T')", "SELECT * FROM `%T` WHERE `%C` = %L OR `NoCol` = 1", "INSERT INTO `_Streams` (`Name`) VALUES ('x')", "INSERT INTO `_Streams` (`Name`, `Data`) VALUES ('x', ?)", "INSERT INTO `_Storages` (`Name`) VALUES ('x')", "INSERT INTO `_Storages` (`Name`, `Data`) VALUES ('x', 'notafile')"};
    std::string q = S[g.r.below(sizeof S / sizeof *S)], o; if (t.empty() && (q.find("%T") != std::string::npos && q.compare(0, 6, "CREATE") == 0)) return;
    if (q == "ALTER TABLE `%T` ADD `%C` SHORT" && t.empty()) return;
    if (q == "SELECT * FROM `%T` WHERE `%C` = ?" && (t.empty() || d->tables.at(t).rows.empty() || d->tables.at(t).cols[0].kind == 'v')) return; // without rows nothing asks for the parameter
    for (size_t i = 0; i < q.size(); i++) { if (q[i] == '%' && i + 1 < q.size()) { i++; o += q[i] == 'T' ? T : q[i] == 'C' ? c1 : q[i] == 'L' ? lit : wrong; } else o += q[i]; }
    g.op("bad " + h + " " + (o.empty() ? "''" : pct(o)));
}
static void qapi(Gen &g, const std::string &h) {
    std::string t = g.any_table(h); if (t.empty()) return; const MDb *d = g.db(h); const MTable &m = d->tables.at(t); const MCol &c = m.cols[g.r.below((u32)m.cols.size())]; std::string sql, par;
    switch (g.r.below(7)) {
    case 0: sql = "SELECT * FROM `" + t + "`"; break;
    case 1: sql = "SELECT DISTINCT `" + c.name + "` FROM `" + t + "`"; break;
    case 2: sql = "SELECT `" + c.name + "` FROM `" + t + "` WHERE `" + m.cols[0].name + "` = ?"; if (g.r.chance(70)) par = m.cols[0].kind == 's' ? " sk1" : " i1"; break;
    case 3: sql = "SELECT * FROM `" + t + "` ORDER BY `" + m.cols[0].name + "`"; break;
    case 4: sql = "SELECT * FROM `" + t + "`, `_Columns`"; break;
    case 5: sql = "SELECT `Name`, `Data` FROM `_Streams`"; break;
    default: sql = "SELECT * FROM `_Storages`"; break;
    }
    std::string st; int n = g.r.range(1, 9); for (int i = 0; i < n; i++) st += "eeffffccntg"[g.r.below(11)];
    g.op("qapi " + h + " " + pct(sql) + " " + st + par);
}
static void gen_errors(Gen &g, int ph, int) {
    if (ph == 0) { setup(g); return; }
    bool rw = g.r.chance(75); g.op(std::string("open d x.msi ") + (rw ? "4" : "1")); std::string si = "s1";
    int n = g.r.range(4, 18);
    for (int i = 0; i < n; i++) {
        u32 x = g.r.below(100);
        if (x < 40) illegal(g, "d"); else if (x < 55) qapi(g, "d"); else if (x < 70) { if (rw) g.edits("d", g.r.range(1, 3)); else g.reads("d", 1); }
        else if (x < 85) g.reads("d", g.r.range(1, 2)); else if (x < 92) { if (rw) g.si_op("d", si); } else if (x < 96) g.op("dump d"); else if (rw) g.op("commit d");
    }
    if (rw) g.op("commit d"); g.op("dump d"); g.op("close d");
}
static void gen_handles(Gen &g, int ph, int) {
    if (ph == 0) { setup(g); return; }
    bool rw = g.r.chance(75); g.op(std::string("open d x.msi ") + (rw ? "4" : "1")); if (rw && g.r.chance(60)) { g.edits("d", g.r.range(1, 5)); if (g.r.chance(50)) g.op("commit d"); }
    int rounds = g.r.range(1, 4), len = g.r.range(3, 14); bool dclosed = false; g.op("fds");
    for (int k = 0; k < rounds && !dclosed; k++) {
        std::string si = "s1";
        for (int i = 0; i < len; i++) {
            u32 x = g.r.below(100); std::string q = "q" + std::to_string(g.r.below(4)), z = "z" + std::to_string(g.r.below(3));
            if (x < 22) { if (g.as[0].q.count(q)) g.op("qf " + q + " " + std::to_string(g.r.range(0, 3))); else g.select("d", true, q); }
            else if (x < 30) { if (g.as[0].q.count(q)) g.op((g.r.chance(50) ? "qre " : "qre! ") + q); }
            else if (x < 38) { if (g.as[0].q.count(q)) g.op("qclose " + q + (g.r.chance(50) ? " raw" : "")); }
            else if (x < 56) { const MDb *d = g.db("d"); std::vector<std::string> n; if (d) for (auto &s : d->streams) if (!(s.first.size() && s.first[0] == '\x05')) n.push_back(s.first); if (n.size()) { if (!g.as[0].st.count(z)) g.op("topen d " + z + " _Streams Data eq,Name,s" + pct(g.r.pick(n)) + (g.r.chance(40) ? " keep" : "")); else g.op(g.r.chance(60) ? "tread " + z + " " + std::to_string(g.r.below(6000)) : "tclose " + z); } }
            else if (x < 64) illegal(g, "d"); else if (x < 70) qapi(g, "d"); else if (x < 80) g.reads("d", 1); else if (x < 86) { if (rw) g.edits("d", g.r.range(1, 3)); }
            else if (x < 90) { if (rw && g.r.chance(60)) g.op("commit d"); } else if (x < 94) { if (rw) g.si_op("d", si); else g.op("sidump d"); }
            else { std::string e = "e" + std::to_string(g.r.below(2)); if (g.as[0].s.count(e)) g.op("close " + e); else { g.op("open " + e + " x.msi 1"); if (g.r.chance(60)) g.reads(e, 1); } }
        }
        if (g.r.chance(25)) { g.op("close d"); dclosed = true; }
        // everything but the package goes, in any order
        std::vector<std::string> all; for (auto &q : g.as[0].q) all.push_back("qclose " + q.first + (g.r.chance(50) ? " raw" : "")); for (auto &z : g.as[0].st) { all.push_back("tclose " + z.first); } for (int i = 0; i < 3; i++) all.push_back("recdrop z" + std::to_string(i)); for (auto &s : g.as[0].si) all.push_back("siclose " + s.first); for (auto &s : g.as[0].s) if (s.first != "d") all.push_back("close " + s.first);
        for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[g.r.below((u32)i)]);
        for (auto &l : all) g.op(l);
        g.op("fds =");
    }
    if (!dclosed) { if (g.r.chance(60)) g.op("close d"); }
    if (g.r.chance(50)) g.op("fds =");
}
static void gen_xfer(Gen &g, int ph, int) {
    // text with the characters archives use as separators
    if (g.strpool.empty()) { g.rnd_str(); static const char *x[] = {"a\tb", "\tlead", "trail\t", "two\nlines", "crlf\r\nend", "\r", "\n", "\t\t", " ", " x ", "a\rb", "end\n", "\\t", "\"q\"", "#", "k\t1", "l'x"}; for (auto y : x) if (g.r.chance(45)) g.strpool.push_back(y); }
    std::string h = "d", si = "s1"; bool rw = ph == 0 || g.r.chance(60);
    g.op(std::string("open d x.msi ") + (ph == 0 ? "6" : rw ? "4" : "1")); if (ph) g.op("dump d");
    if (ph == 0) { g.build(h, g.r.range(1, 4), g.r.below(25)); if (g.r.chance(8)) g.fill(h, g.r.range(100, 900), g.r.chance(50)); }
    if (rw) { g.edits(h, g.r.below(8)); if (g.r.chance(50)) for (int i = g.r.range(1, 6); i > 0; i--) g.si_op(h, si); if (g.r.chance(70)) g.op("commit d"); }
    std::vector<std::string> files; for (auto &x : g.w.exports) files.push_back(x.first);
    bool open2 = false;
    int n = g.r.range(1, 7);
    for (int i = 0; i < n; i++) {
        u32 x = g.r.below(100);
        if (x < 45 || files.empty()) {
            std::string t = x < 6 ? "_SummaryInformation" : x < 10 ? "_ForceCodepage" : x < 12 ? "Missing" : g.any_table(h), f = g.r.chance(20) && files.size() ? g.r.pick(files) : "a" + std::to_string(files.size()) + ".idt";
            if (t.empty()) continue; if (g.op("exp d " + t + " " + f)) { files.push_back(f); if (g.r.chance(60)) g.op("cat " + f); }
        } else if (x < 52) { if (rw) g.edits(h, g.r.range(1, 4)); else g.reads(h, 1); }
        else if (x < 65) { if (rw) { g.op("imp d " + g.r.pick(files)); g.op("dump d"); } }
        else if (x < 67) { if (rw) g.op("imp d missing.idt"); }
        else if (x < 70) { if (rw) g.op("commit d"); }
        else {
            if (!open2) { if (g.op(std::string("open e y.msi ") + (g.w.pkg.count("y.msi") && g.w.pkg["y.msi"].exists && g.r.chance(65) ? "4" : "6"))) open2 = true; }
            g.op("imp e " + g.r.pick(files)); if (g.r.chance(50)) g.op("dump e"); if (g.r.chance(20)) g.edits("e", 2); if (g.r.chance(20)) g.op("commit e");
        }
    }
    if (open2) { if (g.r.chance(30)) for (auto &f : files) g.op("imp e " + f); g.op("dump e"); g.op("commit e"); g.op("close e"); g.op("open f y.msi 1"); g.op("dump f"); g.op("close f"); }
    if (rw && g.r.chance(50)) g.op("commit d"); g.op("dump d"); g.op("close d");
}
static void gen_readers(Gen &g, int ph, int) {
    if (ph == 0) { setup(g); return; }
    g.op("open d x.msi 4"); int n = g.r.range(1, 4);
    for (int i = 0; i < n; i++) { g.edits("d", g.r.range(1, 6)); if (g.r.chance(10)) g.storage_op("d"); g.op("commit d"); if (g.r.chance(15)) { g.op("close d"); g.op("open d x.msi 4"); } if (g.r.chance(15)) g.reads("d", 1); }
    if (g.r.chance(25)) g.edits("d", 2); if (g.r.chance(70)) g.op("close d");
    int nr = g.r.range(1, 3);
    for (int k = 1; k <= nr; k++) {
        g.actor(k); int m = g.r.range(1, 4);
        for (int i = 0; i < m; i++) {
            std::string h = "r" + std::to_string(i); g.op("open " + h + " x.msi 1"); bool first = g.r.chance(60); if (first) g.op("dump " + h); g.reads(h, g.r.below(3));
            if (!first || g.r.chance(50)) g.op("dump " + h); if (g.r.chance(75)) g.op("close " + h);
        }
        // whatever was left open still shows the same
        for (auto &s : std::map<std::string, Sess>(g.as[g.cur].s)) { g.op("dump " + s.first); }
    }
    g.actor(0);
}
// two packages that share tables and rows, differ in some, and are merged
static void copy_ops(Gen &g, const std::string &to, size_t from, int conflicts) {
    auto ops = g.ph.actors[0].ops; std::set<std::string> skip; int skiprow = g.r.below(60), other = g.r.chance(25) ? 15 : 0;
    for (size_t i = from; i < ops.size(); i++) {
        auto t = ops[i].t; if (t[0] != "create" && t[0] != "ins" && t[0] != "add" && t[0] != "upd" && t[0] != "del") continue;
        if (t.size() < 4 || skip.count(t[2])) continue;
        if (t[0] == "create" && g.r.chance(20)) { skip.insert(t[2]); continue; }
        if (t[0] == "ins" && (int)g.r.below(100) < skiprow) continue;
        t[1] = to;
        if (t[0] == "create") {
            if (g.r.chance(15)) for (size_t j = 4; j < t.size(); j++) { auto w = split(t[j], ':'); if (w[1][0] == 'c' || w[1] == "lc") { w[1] = g.r.chance(30) ? "lc" : "c" + std::to_string(g.r.range(1, 255)); if (g.r.chance(30)) { if (w.size() < 3) w.push_back("l"); else if (w[2].find('l') == std::string::npos) w[2] += "l"; } std::string c = w[0]; for (size_t k = 1; k < w.size(); k++) c += ":" + w[k]; t[j] = c; } } // text columns of other lengths are no difference
            if ((int)g.r.below(100) < other) {
                u32 x = g.r.below(5); size_t j = 4 + g.r.below((u32)t.size() - 4); auto w = split(t[j], ':');
                if (x == 0) { if (t.size() > 5) t.pop_back(); } else if (x == 1) t.push_back(g.r.chance(50) ? "Zz:i2" : g.r.chance(50) ? "Zz:c9:r" : "Zz:c9"); else if (x == 2) w[0] += "x"; else if (x == 3) { w[1] = w[1] == "i2" ? "i4" : "i2"; if (w.size() > 2) w[2].erase(std::remove(w[2].begin(), w[2].end(), 'l'), w[2].end()); } else { for (j = 4; j + 1 < t.size() && split(t[j] + "::", ':')[2].find('k') != std::string::npos; ) j++; w = split(t[j], ':'); if (w.size() < 3) w.push_back("k"); else w[2] += w[2].find('k') == std::string::npos ? "k" : "r"; }
                if (x > 1) { std::string c = w[0]; for (size_t k = 1; k < w.size(); k++) c += ":" + w[k]; t[j] = c; }
            }
        }
        if (t[0] == "ins" && t.size() > 4 && (int)g.r.below(100) < conflicts) {
            const MDb *d = g.db(to); auto it = d ? d->tables.find(t[2]) : std::map<std::string, MTable>::const_iterator();
            if (d && it != d->tables.end()) { size_t j = 4 + g.r.below((u32)t.size() - 4), e = t[j].find('='); int c = it->second.col(t[j].substr(0, e)); if (c >= 0 && it->second.cols[c].kind != 'v') t[j] = t[j].substr(0, e + 1) + g.val_param(g.rnd_val(it->second.cols[c])); }
        }
        std::string l; for (auto &x : t) l += (l.empty() ? "" : " ") + (x.empty() ? std::string("''") : x);
        g.op(l);
    }
}
static void gen_merge(Gen &g, int ph, int) {
    std::string fl = ph == 0 ? "6" : "4"; int conflicts = g.r.chance(55) ? 0 : 3 + g.r.below(30);
    if (ph == 0 && g.r.chance(40)) { g.rnd_str(); static const char *x[] = {"it's", "'", "a'b'c", "?", "`q`", "a b", "%41", "''"}; for (auto y : x) if (g.r.chance(40)) g.strpool.push_back(y); }
    g.op("open d x.msi " + fl); size_t from = g.ph.actors[0].ops.size();
    if (ph == 0) g.build("d", g.r.below(5), g.r.below(30)); else { g.op("dump d"); if (g.r.chance(50)) g.edits("d", g.r.below(6)); }
    g.op("open e y.msi " + fl);
    copy_ops(g, "e", from, conflicts);
    if (ph == 0) { if (g.r.chance(50)) g.build("e", g.r.below(4), g.r.below(20)); } else g.op("dump e");
    if (g.r.chance(60)) g.edits("e", g.r.below(6));
    if (g.r.chance(50)) g.op("commit d"); if (g.r.chance(50)) { g.op("commit e"); if (g.r.chance(30)) { g.op("close e"); g.op("open e y.msi 1"); } }
    int n = g.r.range(1, 4);
    for (int i = 0; i < n; i++) {
        std::string a = "d", b = "e"; if (g.r.chance(20)) std::swap(a, b); if (g.r.chance(4)) b = a;
        std::string et = g.r.chance(25) ? "-" : g.r.chance(75) ? "MergeErrors" : g.r.chance(60) ? g.table_name() : "E" + std::to_string(g.r.below(3));
        if (!g.op("merge " + a + " " + b + " " + et)) { g.edits(a, 1); continue; }
        g.op("dump " + a); if (g.r.chance(60)) g.op("dump " + b);
        if (g.r.chance(30)) g.edits(g.r.chance(50) ? a : b, g.r.range(1, 4));
        if (g.r.chance(25)) g.op("commit " + a); if (g.r.chance(15)) g.reads(a, 2);
    }
    if (g.r.chance(60)) g.op("commit d"); if (g.r.chance(40)) g.op("commit e");
    if (g.r.chance(50)) { g.op("close e"); g.op("dump d"); g.op("close d"); } else { g.op("close d"); g.op("dump e"); g.op("close e"); }
}
// a package that was truncated or damaged, and everything one can do with it
static void gen_damage(Gen &g, int ph, int) {
    if (ph == 0) {
        g.op("open d x.msi 6"); std::string si = "s1"; g.build("d", g.r.range(1, 4), g.r.below(25)); g.edits("d", g.r.below(6));
        for (int i = g.r.below(5); i > 0; i--) g.si_op("d", si);
        if (g.r.chance(4)) g.fill("d", g.r.range(100, 1500), g.r.chance(50));
        g.op("commit d"); g.op("close d"); g.op("damage x.msi " + std::to_string(g.r.next() & 0x7fffffff)); return;
    }
    int nq = 0; bool rw = g.r.chance(60); g.op(std::string("open d x.msi ") + (rw ? "4" : "1"));
    bool other = g.r.chance(30); if (other) g.op("open e y.msi 6");
    auto tab = [&]() { u32 x = g.r.below(100); std::string t; if (x < 75) t = g.any_table("d"); if (t.empty()) t = x < 85 ? "_Tables" : x < 95 ? "_Columns" : x < 98 ? "_Streams" : "_Storages"; return t; };
    int n = g.r.range(3, 16);
    for (int i = 0; i < n; i++) {
        u32 x = g.r.below(100); std::string t = tab();
        if (x < 12) g.op("dump d"); else if (x < 20) g.op("sel d 0 * " + t + " - -"); else if (x < 26) g.select("d");
        else if (x < 32) g.op("qopen q" + std::to_string(nq++) + "@d 0 * " + t + " - -"); else if (x < 40 && nq) g.op("qf q" + std::to_string(g.r.below((u32)nq)) + " " + std::to_string(g.r.below(6)));
        else if (x < 48) g.op("exp d " + (g.r.chance(20) ? std::string("_SummaryInformation") : g.r.chance(10) ? std::string("_ForceCodepage") : t) + " a" + std::to_string(g.r.below(3)) + ".idt");
        else if (x < 51) g.reads("d", 1); else if (x < 54) g.op("persist? d " + t); else if (x < 57) g.op("colinfo d " + t); else if (x < 61) g.op("sidump d");
        else if (x < 66) g.op("sget d " + g.stream_pick()); else if (x < 70) { if (other) g.op(g.r.chance(70) ? "merge e d MergeErrors" : "merge d e -"); } else if (x < 76) g.reads("d", 2);
        else if (!rw) continue; else if (x < 88) g.edits("d", g.r.range(1, 4)); else if (x < 92) { if (t[0] != '_') g.op("drop d " + t); } else if (x < 94) { std::string si = "s1"; g.si_op("d", si); }
        else if (x < 97) g.op("commit d"); else g.op("imp d a" + std::to_string(g.r.below(3)) + ".idt");
    }
    if (rw && g.r.chance(40)) g.op("commit d");
    g.op("close d"); if (g.r.chance(85)) g.op("damage x.msi " + std::to_string(g.r.next() & 0x7fffffff));
}
void gen_msibuild(Gen &g, int ph, int n); void gen_msiinfo(Gen &g, int ph, int n); void gen_heat(Gen &g, int ph, int n); void gen_extract(Gen &g, int ph, int n); void gen_wixl(Gen &g, int ph, int n);
const Profile profiles[] = {
    {"P01", 2, 4, FP_KILL, gen_crash, "process killed at system calls (also in the middle of writes)", "", 6},
    {"P02", 2, 3, FP_POWER, gen_crash, "power lost at system calls", "", 6},
    {"P03", 2, 3, FP_WRITE, gen_crash, "writes, opens, closes, renames fail; disk full", "noerror errorset", 6},
    {"P04", 2, 3, FP_ALL, gen_nocommit, "sessions that never commit", "modified leftover", 5},
    {"P05", 1, 4, FP_BENIGN, gen_roundtrip, "edit/commit/reopen histories", "", 0},
    {"P06", 1, 3, FP_BENIGN, gen_select, "queries against a model", "", 0},
    {"P07", 1, 3, FP_BENIGN, gen_dml, "insert/update/delete against a model", "", 0},
    {"P08", 1, 3, FP_BENIGN, gen_schema, "schema changes against a model", "", 0},
    {"P09", 1, 4, FP_BENIGN, gen_streams, "streams against a model", "", 0},
    {"P10", 1, 2, FP_BENIGN, gen_cursors, "interleaved cursors", "", 0},
    {"P11", 2, 5, FP_BENIGN, gen_si, "summary information, clocks and time zones", "", 0},
    {"P12", 1, 3, FP_ALL, gen_xfer, "tables, summary information and code page exported and imported, with failing system calls", "noerror errorset critical", 4},
    {"P13", 2, 3, FP_READ, gen_rd, "reads fail", "", 6},
    {"P14", 3, 6, FP_BENIGN, gen_damage, "packages damaged in their sectors and in their streams, read, edited, exported and committed", "modified", 0},
    {"P15", 2, 3, FP_READERS, gen_readers, "a writer and up to three readers of one package, interleaved at every system call", "", 8},
    {"P16", 2, 3, FP_ALL, gen_errors, "illegal and legal calls in any order, with failing system calls", "critical noerror errorset", 5},
    {"P17", 2, 3, FP_ALL, gen_handles, "objects taken and released in any order, with failing system calls", "fdleak leftover", 5},
    {"P18", 1, 3, FP_ALL, gen_merge, "packages that share, add and change tables and rows, merged, with failing system calls", "noerror errorset critical", 4},
#ifdef WITH_TOOLS
    {"P19", 2, 4, FP_ALL, gen_msibuild, "msibuild command lines on new and existing packages, with failing system calls and kills", "modified leftover", 6},
    {"P20", 2, 3, FP_ALL, gen_msiinfo, "msiinfo commands writing to pipes and files, with failing system calls", "modified", 6},
    {"P21", 2, 3, FP_ALL, gen_extract, "packages built by wixl, listed and extracted by msiextract, with failing system calls", "leftover", 6},
    {"P22", 1, 3, FP_ALL, gen_wixl, "source trees built by wixl, with failing system calls and kills, and built again", "leftover", 6},
    {"P23", 1, 2, FP_ALL, gen_heat, "wixl-heat on lists that arrive in pieces, with interrupted and failing system calls", "leftover", 6},
#endif
    {"P24", 1, 3, FP_BENIGN, gen_streamread, "stream reads and seeks", "", 0},
};
const int nprofiles = sizeof profiles / sizeof *profiles;

// ---------------------------------------------------------------- fault plans
static const u32 MW = (1u << S_OPEN_W) | (1u << S_WRITE) | (1u << S_CLOSE) | (1u << S_RENAME) | (1u << S_UNLINK) | (1u << S_FSYNC) | (1u << S_SEEK) | (1u << S_CHMOD) | (1u << S_CHOWN) | (1u << S_TRUNC) | (1u << S_MKDIR) | (1u << S_LINK) | (1u << S_UTIME);
static const u32 MR = (1u << S_OPEN_R) | (1u << S_READ) | (1u << S_STAT) | (1u << S_SEEK) | (1u << S_READDIR) | (1u << S_READLINK) | (1u << S_ACCESS);
static u32 pick_errno(u8 kind, Rng &r) {
    static const u32 ww[] = {28 /*ENOSPC*/, 5 /*EIO*/, 122 /*EDQUOT*/, 28}, oo[] = {24 /*EMFILE*/, 28, 13 /*EACCES*/, 30 /*EROFS*/, 12 /*ENOMEM*/, 23}, rr[] = {5, 5, 12}, mm[] = {5, 28, 13, 30, 16 /*EBUSY*/, 1};
    switch (kind) { case S_WRITE: case S_FSYNC: case S_CLOSE: case S_TRUNC: return ww[r.below(4)]; case S_OPEN_W: return oo[r.below(6)]; case S_OPEN_R: { static const u32 x[] = {24, 13, 12, 5, 23}; return x[r.below(5)]; } case S_STAT: { static const u32 x[] = {5, 5, 12, 13}; return x[r.below(4)]; } case S_READ: case S_SEEK: return rr[r.below(3)]; default: return mm[r.below(6)]; }
}
void plan_faults(const Profile &p, const Phase &ph, const std::vector<TraceRec> &tr, Rng &r, std::vector<std::vector<Fault>> &out, int n) {
    if (tr.empty()) return;
    std::map<std::pair<u32, u32>, std::string> opname; for (size_t a = 0; a < ph.actors.size(); a++) for (auto &o : ph.actors[a].ops) opname[{(u32)a, o.id}] = o.t[0];
    std::vector<size_t> commitrec, all, wr, rd, toolrec;
    for (size_t i = 0; i < tr.size(); i++) { auto it = opname.find({tr[i].actor, tr[i].op}); bool c = it != opname.end() && it->second == "commit"; all.push_back(i); if (c) commitrec.push_back(i); if (it != opname.end() && (it->second == "mb" || it->second == "info" || it->second == "heat" || it->second == "wixl" || it->second == "wxx" || it->second == "twice")) toolrec.push_back(i); if (MW >> tr[i].kind & 1) wr.push_back(i); if (MR >> tr[i].kind & 1) rd.push_back(i); }
    auto at = [&](size_t i, FaultKind k, u32 param, u16 count = 1, u32 mask = 0) { Fault f; memset(&f, 0, sizeof f); f.actor = tr[i].actor; f.op = tr[i].op; f.step = tr[i].step; f.kind = (u8)k; f.count = count; f.param = param; f.mask = mask; return f; };
    bool gcab = !strcmp(p.prop, "P21") || !strcmp(p.prop, "P22"); // gcab takes a short read of a disk file for its end, which no disk file system gives it
    for (int v = 0; v < n; v++) {
        std::vector<Fault> F;
        switch (p.fp) {
        case FP_KILL: case FP_POWER: {
            // prefer the calls that change the disk, and what comes just before and after them
            size_t i; u32 x = r.below(100);
            if (x < 70 && commitrec.size()) { std::vector<size_t> cw; for (size_t j : commitrec) if (MW >> tr[j].kind & 1) { cw.push_back(j); if (j + 1 < tr.size()) cw.push_back(j + 1); } i = cw.size() ? cw[r.below((u32)cw.size())] : commitrec[r.below((u32)commitrec.size())]; }
            else if (x < 85 && wr.size()) i = wr[r.below((u32)wr.size())]; else i = all[r.below((u32)all.size())];
            if (p.fp == FP_KILL && tr[i].kind == S_WRITE && r.chance(60)) F.push_back(at(i, F_TORN, r.below(tr[i].len + 1))); else F.push_back(at(i, p.fp == FP_KILL ? F_KILL : F_POWER, 0));
            if (r.chance(10)) { size_t j = all[r.below((u32)all.size())]; if (j < i) { bool w2 = tr[j].kind == S_WRITE || tr[j].kind == S_READ; F.insert(F.begin(), at(j, w2 && r.chance(50) ? F_SHORT : F_EINTR, 1 + r.below(500))); } }
            break; }
        case FP_WRITE: {
            if (wr.empty()) break; std::vector<size_t> cw; for (size_t j : commitrec) if (MW >> tr[j].kind & 1) cw.push_back(j);
            size_t i = cw.size() && r.chance(80) ? cw[r.below((u32)cw.size())] : r.chance(80) ? wr[r.below((u32)wr.size())] : all[r.below((u32)all.size())];
            u32 x = r.below(100); bool rw = tr[i].kind == S_WRITE;
            if (rw && x < 15) F.push_back(at(i, F_SHORT, 1 + r.below(600))); else if (rw && x < 22) F.push_back(at(i, F_EINTR, 0));
            else F.push_back(at(i, F_ERR, pick_errno(tr[i].kind, r), x < 60 ? 1 : x < 80 ? (u16)r.range(2, 6) : 0xffff, r.chance(50) ? 1u << tr[i].kind : MW));
            if (r.chance(20)) { size_t j = wr[r.below((u32)wr.size())]; F.push_back(at(j, F_ERR, pick_errno(tr[j].kind, r))); }
            break; }
        case FP_READ: {
            if (rd.empty()) break; std::vector<size_t> cr; for (size_t j : commitrec) if (MR >> tr[j].kind & 1) cr.push_back(j);
            size_t i = cr.size() && r.chance(35) ? cr[r.below((u32)cr.size())] : rd[r.below((u32)rd.size())]; u32 x = r.below(100);
            if (tr[i].kind == S_READ && x >= 85 && x < 93) F.push_back(at(i, F_SHORT, 0xffffffff, r.chance(50) ? 1 : 0xffff, 1u << S_READ)); // end of file before its time
            else if (tr[i].kind == S_READ && x < 15) F.push_back(at(i, F_SHORT, 1 + r.below(600))); else if (tr[i].kind == S_READ && x < 25) F.push_back(at(i, F_EINTR, 0));
            else F.push_back(at(i, F_ERR, pick_errno(tr[i].kind, r), x < 65 ? 1 : x < 85 ? (u16)r.range(2, 8) : 0xffff, r.chance(60) ? 1u << tr[i].kind : MR));
            break; }
        case FP_BENIGN: {
            int k = r.range(1, 6); for (int q = 0; q < k; q++) { size_t i = all[r.below((u32)all.size())]; if (tr[i].kind == S_READ || tr[i].kind == S_WRITE) F.push_back(at(i, r.chance(70) ? F_SHORT : F_EINTR, 1 + r.below(1500), r.chance(30) ? (u16)r.range(2, 30) : 1, 1u << tr[i].kind)); else F.push_back(at(i, F_CLOCK, (u32)r.range(-100000, 100000))); }
            break; }
        case FP_ALL: {
            int k = r.range(1, 3); for (int q = 0; q < k; q++) { size_t i = all[r.below((u32)all.size())]; if (toolrec.size() && r.chance(80)) i = toolrec[r.below((u32)toolrec.size())]; u32 x = r.below(100); bool rw = tr[i].kind == S_READ || tr[i].kind == S_WRITE; if (rw && x < 20 && !(gcab && tr[i].kind == S_READ)) F.push_back(at(i, F_SHORT, 1 + r.below(600))); else if (rw && x < 30) F.push_back(at(i, F_EINTR, 0)); else if (x < 40) F.push_back(at(i, F_KILL, 0)); else F.push_back(at(i, F_ERR, pick_errno(tr[i].kind, r), x < 80 ? 1 : (u16)r.range(2, 8), 1u << tr[i].kind)); }
            break; }
        case FP_READERS: { // mostly the writer while it commits
            int k = r.range(1, 2); for (int q = 0; q < k; q++) {
                size_t i = commitrec.size() && r.chance(70) ? commitrec[r.below((u32)commitrec.size())] : all[r.below((u32)all.size())]; u32 x = r.below(100); bool rw = tr[i].kind == S_READ || tr[i].kind == S_WRITE;
                if (x < 35) F.push_back(tr[i].kind == S_WRITE && r.chance(50) ? at(i, F_TORN, r.below(tr[i].len + 1)) : at(i, F_KILL, 0));
                else if (x < 65) F.push_back(at(i, F_ERR, pick_errno(tr[i].kind, r), x < 55 ? 1 : (u16)r.range(2, 6), 1u << tr[i].kind));
                else if (rw) F.push_back(at(i, x < 85 ? F_SHORT : F_EINTR, 1 + r.below(600), (u16)r.range(1, 10), 1u << tr[i].kind)); else F.push_back(at(i, F_CLOCK, (u32)r.range(-100000, 100000)));
            }
            break; }
        default: break;
        }
        if (F.size()) out.push_back(F);
    }
}
