// Workloads for the command-line tools.
#include "gen.h"
#include <algorithm>
#include <string.h>

static std::string str(const Op &o) { std::string l; for (auto &x : o.t) l += (l.empty() ? "" : " ") + (x.empty() ? std::string("''") : x); return l; }
static bool as_literal(const Op &o) {
    static const std::set<std::string> K = {"create", "drop", "add", "ins", "upd", "del", "sel"}; if (!K.count(o.t[0])) return false;
    for (auto &x : o.t) if (x.find('?') != std::string::npos) return false; return true;
}
static void files(Gen &g) { for (int i = g.r.below(3); i >= 0; i--) { std::string n = "f" + std::to_string(i); if (!g.w.files.count(n)) g.op("file " + n + " " + (g.r.chance(8) ? "x" : g.bin_tok())); } }
static std::string any_file(Gen &g) { return g.r.chance(4) ? "missing" : "f" + std::to_string(g.r.below(3)); }
static Sess mb_sess(Gen &g, const std::string &path) {
    Sess s; s.path = path; auto it = g.w.pkg.find(path); s.flags = 2; if (it != g.w.pkg.end() && it->second.exists && it->second.cand.size()) { s.flags = 4; s.db = it->second.cand[0]; } return s;
}
// one msibuild command line
static void mb(Gen &g, const std::string &path) {
    Gen s(g.r, g.w); s.prof = "P19"; s.litonly = true; s.strpool = g.strpool; s.as[0].s["_mb"] = mb_sess(g, path); s.weight = g.weight;
    std::string line = "mb " + path + " " + (g.r.chance(15) ? "1" : "0"); char prev = 0; int n = g.r.range(1, g.r.chance(20) ? 16 : 6); bool failed = false;
    for (int i = 0; i < n; i++) {
        u32 x = g.r.below(100);
        if (x < 72) {
            World w0 = s.w; ActorState a0 = s.as[0]; size_t from = s.ph.actors[0].ops.size(); bool err = false;
            if (g.r.chance(6)) s.select("_mb"); else s.edits("_mb", 1); err = s.last.k == Expect::ERR;
            bool good = s.ph.actors[0].ops.size() == from + 1 && as_literal(s.ph.actors[0].ops.back()) && s.last.k != Expect::ANY; if (err && !g.r.chance(12)) good = false;
            if (!good) { s.w = w0; s.as[0] = a0; s.ph.actors[0].ops.resize(from); continue; }
            std::string o = str(s.ph.actors[0].ops.back());
            if (prev == 'q' && g.r.chance(65)) line += " ; " + std::to_string(g.r.below(5)) + " " + o; else if (prev == 'q' && g.r.chance(40)) line += " ; n " + o; else line += std::string(" ; ") + (g.r.chance(15) ? "Q " : "q ") + o;
            prev = 'q'; if (err) failed = true;
        } else if (x < 82) {
            std::string nm = s.stream_pick(), f = any_file(g); if (nm[0] == '-' && g.r.chance(80)) continue; World w0 = s.w; ActorState a0 = s.as[0];
            if (!s.op("sputf _mb " + pct(nm) + " " + f)) continue; bool err = s.last.k == Expect::ERR; if (err && !g.r.chance(30)) { s.w = w0; s.as[0] = a0; continue; }
            line += " ; a " + pct(nm) + " " + f; prev = 'a'; if (err) failed = true;
        } else if (x < 90) {
            std::vector<std::string> v; for (auto &e : g.w.exports) if (e.first[0] != 1) v.push_back(e.first); if (v.empty()) continue; std::string f = g.r.chance(4) ? "nosuch.idt" : g.r.pick(v); World w0 = s.w; ActorState a0 = s.as[0];
            if (!s.op("imp _mb " + f)) continue; bool err = s.last.k == Expect::ERR; if (s.last.k == Expect::ANY || (err && !g.r.chance(25))) { s.w = w0; s.as[0] = a0; continue; }
            line += std::string(" ; ") + (prev == 'i' && g.r.chance(60) ? "I " : "i ") + f; prev = 'i'; if (err) failed = true;
        } else if (x < 97) {
            line += " ; s"; int k = g.r.range(1, 4); for (int j = 0; j < k; j++) { Val v = s.rnd_str(); if (v.s.empty() || v.s[0] == '-' || g.r.chance(4)) v.s = j ? "" : "nm"; if (v.s.size() > 3000) v.s = "big"; line += " " + (v.s.empty() ? std::string("s") : val_tok(v)); } prev = 's';
        } else if (g.r.chance(60)) {
            static const char *bad[] = {"-z", "-", "--", "-qq DROP%20TABLE%20%60T%60", "-q", "-a", "-a only", "-i", "-s", "stray", "stray stray"}; line += std::string(" ; r ") + bad[g.r.below(prev == 's' ? 9 : 11)]; failed = true; break;
        } else {
            static const char *bad[] = {"CREATE%20TABLE", "INSERT%20INTO%20%60nosuch%60%20%28%60a%60%29%20VALUES%20%281%29", "FOO", "UPDATE%20%60nosuch%60%20SET%20%60a%60%20%3d%201", "DROP%20TABLE%20%60nosuch%60", "SELECT%20%2a%20FROM%20%60nosuch%60", "%27unclosed", "CREATE%20TABLE%20%60Z%60%20%28%60a%60%20INT%29"};
            line += std::string(" ; ") + (prev == 'q' && g.r.chance(50) ? "0" : "q") + " sql " + bad[g.r.below(8)]; prev = 'q'; failed = true;
        }
        if (failed && g.r.chance(60)) break;
    }
    if (!prev && line.find(';') == std::string::npos) return;
    g.strpool = s.strpool; g.weight = s.weight; g.op(line);
}
static void look(Gen &g, const std::string &path) { auto it = g.w.pkg.find(path); if (it == g.w.pkg.end() || !it->second.exists) { if (g.r.chance(20)) g.op("open r " + path + " 1"); return; } g.op("open r " + path + " 1"); g.op("dump r"); g.op("close r"); }
void gen_msibuild(Gen &g, int ph, int) {
    if (ph == 0) {
        files(g); if (g.r.chance(40)) { g.rnd_str(); static const char *x[] = {";", "a;b;c", "SELECT", "INSERT", "`q`", "--", "x -- y", "[a", "a]", "(", "?", "/*"}; for (auto y : x) if (g.r.chance(40)) g.strpool.push_back(y); }
        if (g.r.chance(65)) {
            g.op("open d x.msi 6"); g.build("d", g.r.range(1, 4), g.r.below(10)); g.edits("d", g.r.below(8)); int k = 0;
            const MDb *d = g.db("d"); std::vector<std::string> T; if (d) for (auto &t : d->tables) T.push_back(t.first); for (auto &t : T) if (g.r.chance(50)) g.op("exp d " + t + " a" + std::to_string(k++) + ".idt");
            if (g.r.chance(20)) g.op("exp d _SummaryInformation si.idt"); if (g.r.chance(20)) g.op("exp d _ForceCodepage cp.idt");
            if (g.r.chance(85)) g.op("commit d"); g.op("close d");
        }
        return;
    }
    look(g, "x.msi"); if (ph > 1) look(g, "y.msi");
    for (int i = g.r.range(1, 3); i > 0; i--) { std::string p = g.r.chance(70) ? "x.msi" : "y.msi"; mb(g, p); if (g.r.chance(80)) look(g, p); }
}
void gen_msiinfo(Gen &g, int ph, int) {
    if (ph == 0) {
        g.op("open d x.msi 6"); if (g.r.chance(20)) { g.rnd_str(); static const char *x[] = {"it's", "a\\b", "a\\", "'", "\"", "a;b", "\\'"}; for (auto y : x) if (g.r.chance(40)) g.strpool.push_back(y); }
        g.build("d", g.r.range(1, 4), g.r.below(14)); g.edits("d", g.r.below(12)); std::string si = "s1"; for (int i = g.r.below(10); i > 0; i--) g.si_op("d", si);
        if (g.r.chance(5)) g.fill("d", g.r.range(200, 1500), g.r.chance(50)); g.op("commit d"); g.op("close d"); return;
    }
    Sess s = mb_sess(g, "x.msi"); int z = 0; std::vector<std::string> T, S; for (auto &t : s.db.tables) T.push_back(t.first); for (auto &t : s.db.streams) S.push_back(t.first);
    for (int i = g.r.range(1, 6); i > 0; i--) {
        u32 x = g.r.below(100); std::string o = g.r.chance(60) ? "p" : "f", p = g.r.chance(97) ? "x.msi" : "absent.msi", t = T.size() && g.r.chance(93) ? g.r.pick(T) : "nosuch";
        if (x < 10) g.op("info streams " + o + " " + p); else if (x < 20) g.op("info tables " + o + " " + p); else if (x < 35) g.op("info suminfo " + o + " " + p);
        else if (x < 55) g.op("info extract " + o + " " + p + " " + pct(S.size() && g.r.chance(93) ? g.r.pick(S) : g.stream_pick()));
        else if (x < 75) g.op("info export " + o + " " + p + " " + (g.r.chance(15) ? (g.r.chance(70) ? std::string("_SummaryInformation") : "_ForceCodepage") : t));
        else if (x < 97) { if (g.op("info sql " + o + " " + p + " " + t) && g.last.k == Expect::OK) { std::string y; do y = "z" + std::to_string(z++) + ".msi"; while (g.w.pkg.count(y)); if (g.op("mb " + y + " 0 ; x")) look(g, y); } }
        else { static const char *bad[] = {"streams f x.msi extra", "tables p x.msi extra", "extract p x.msi a b", "export p x.msi", "suminfo p x.msi y", "nonsense p x.msi"}; g.op(std::string("info ") + bad[g.r.below(6)]); }
    }
}
void gen_heat(Gen &g, int, int) { for (int i = g.r.range(1, 4); i > 0; i--) g.op("heat " + std::to_string(g.r.below(1000000))); }
static std::string wseed(Gen &g) { return std::to_string(g.r.below(1000000)); }
void gen_extract(Gen &g, int ph, int) {
    if (ph == 0) { for (int i = g.r.range(1, 2); i > 0; i--) g.op("wixl p" + std::to_string(i) + ".msi " + wseed(g) + (g.r.chance(8) ? " 8" : " 0")); return; }
    for (int i = g.r.range(1, 3); i > 0; i--) { std::string p = g.r.chance(4) ? "none.msi" : g.r.chance(70) || !g.w.built.count("p2.msi") ? "p1.msi" : "p2.msi"; g.op("wxx " + p + " " + std::to_string(g.r.below(100)) + (g.r.chance(30) ? " l" : " x") + (g.r.chance(60) ? " p" : " f")); }
}
static int bad_kind(Gen &g) { int k = g.r.range(1, 12); return k >= 8 ? k + 1 : k; }
void gen_wixl(Gen &g, int ph, int) {
    if (ph) g.op("wxlook p.msi");
    for (int i = g.r.range(1, 2); i > 0; i--) {
        if (g.r.chance(15)) { g.op("twice " + wseed(g)); continue; }
        g.op("wixl p.msi " + wseed(g) + " " + std::to_string(g.r.chance(15) ? bad_kind(g) : 0)); g.op("wxlook p.msi");
    }
}
