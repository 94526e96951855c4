// Generates, from a seed, a source tree for wixl with the contents its package
// must have, and a list of files for wixl-heat with the fragment it must give.
#include "wx.h"
#include <glib.h>
#include <algorithm>
#include <functional>
#include <set>
#include <ctype.h>
#include <string.h>
static std::string esc(const std::string &s) { std::string o; for (char c : s) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; case '\'': o += "&apos;"; break; default: o += c; } return o; }
static std::string dol(const std::string &s) { std::string o; for (char c : s) { o += c; if (c == '$') o += c; } return o; } // wixl takes $$ for $
static std::string at(const char *n, const std::string &v) { return std::string(" ") + n + "=\"" + esc(dol(v)) + "\""; }
// character data as plain text, as CDATA, or as both with a comment or white space about
static std::string text(Rng &r, const std::string &v) {
    size_t k = v.find(' '); std::string s = dol(v); auto cd = [](const std::string &x) { return "<![CDATA[" + x + "]]>"; };
    switch (r.below(5)) {
    case 0: return cd(s);
    case 1: if (k != std::string::npos) return esc(dol(v.substr(0, k))) + "<!-- & -->" + cd(dol(v.substr(k)));
    case 2: if (k != std::string::npos) return cd(dol(v.substr(0, k))) + esc(dol(v.substr(k)));
    default: return esc(s);
    }
}
static std::string longname(const std::string &s) { size_t p = s.find('|'); return p == std::string::npos ? s : s.substr(p + 1); }
static std::string blob(Rng &r, int n) {
    std::string d; int mode = (int)r.below(3);
    while ((int)d.size() < n) { if (mode == 0) d += (char)r.next(); else if (mode == 1) d += "line " + std::to_string(r.below(50)) + "\n"; else d.append((size_t)r.range(1, 300), (char)r.next()); }
    d.resize((size_t)n); return d;
}
static std::string blob(Rng &r) { u32 x = r.below(100); return blob(r, x < 10 ? 0 : x < 20 ? 1 : x < 60 ? r.range(2, 900) : x < 80 ? r.range(900, 9000) : x < 92 ? r.range(32760, 32776) : r.range(30000, 150000)); }
static std::string guid(Rng &r) { char b[64]; snprintf(b, sizeof b, "%08X-%04X-%04X-%04X-5EED5EED5EED", (u32)r.next(), r.below(65536), r.below(65536), r.below(65536)); return b; }
static std::string word(Rng &r) {
    static const char *w[] = {"alpha", "Beta", "read me", "caf\xc3\xa9", "a&b", "x<y>", "it's", "100%25", "%s%n", "lib.so.1", "A", "data-file", "\xc3\x9cber", "name with  spaces", "$money", "[x]", "(y)", "comma,semi;", "UPPER.TXT", "trailing.", "#hash", "back`tick", "eq=1", "tilde~1", "long-name-long-name-long-name-long-name-long-name"};
    return w[r.below(sizeof w / sizeof *w)];
}
const WxFacts &wx_facts(const std::string &dir, u32 seed, int bad) {
    static std::map<std::string, WxFacts> cache; WxFacts &F = cache[dir + " " + std::to_string(seed) + " " + std::to_string(bad)]; if (F.args.size()) return F;
    Rng r(seed * 7919ull + 13); F.bad = bad != 0 && bad != 8; F.evil = bad == 8;
    struct D { std::string id, name, parent, path; }; struct Fi { std::string id, name, src, data, ver; }; struct Rg { std::string root, key, name, type, val; };
    struct C { std::string id, guid; int d; std::vector<Fi> f; std::vector<Rg> g; bool frag = false, grp = false, w64 = false, perm = false; std::set<int> feat; std::vector<std::string> ini; };
    std::vector<D> ds; std::vector<C> cs; int uid = 0; auto id = [&](const char *p) { return std::string(p) + std::to_string(uid++) + (r.chance(20) ? "." + std::string(1, "aZ_"[r.below(3)]) : ""); };
    ds.push_back({"TARGETDIR", "SourceDir", "", ""});
    if (r.chance(60)) ds.push_back({"ProgramFilesFolder", r.chance(50) ? "PFiles" : "", "TARGETDIR", "Program Files"});
    std::set<std::string> used;
    for (int n = r.range(0, 6); n > 0; n--) {
        const D &p = ds[r.below((u32)ds.size())]; std::string nm = word(r); if (r.chance(30)) nm += std::to_string(r.below(100)); if (r.chance(15)) nm = "SHRT~" + std::to_string(r.below(9)) + "|" + nm; if (r.chance(6)) nm = r.chance(50) ? "" : ".";
        std::string ln = longname(nm), path = ln.empty() || ln == "." ? p.path : p.path + (p.path.empty() ? "" : "/") + ln; if (!ln.empty() && ln != "." && !used.insert(path).second) continue;
        ds.push_back({id("dir"), nm, p.id, path});
    }
    std::set<std::string> fpath; std::set<std::string> gused;
    for (int n = r.range(1, 6); n > 0; n--) {
        C c; c.id = id("cmp"); c.guid = r.chance(60) ? "*" : guid(r); c.d = (int)r.below((u32)ds.size()); c.frag = r.chance(25); c.grp = r.chance(25); c.w64 = r.chance(15); c.perm = r.chance(15);
        for (int k = r.chance(75) ? 1 : r.range(0, 3); k > 0; k--) {
            Fi f; f.id = id("fil"); std::string nm = word(r) + (r.chance(40) ? std::to_string(r.below(1000)) : ""); if (nm.size() && !fpath.insert(ds[c.d].path + "/" + nm).second) continue;
            if (used.count(ds[c.d].path + (ds[c.d].path.empty() ? "" : "/") + nm)) continue;
            f.name = r.chance(12) ? "SHORT~" + std::to_string(r.below(9)) + ".TXT|" + nm : nm; f.src = r.chance(30) ? nm : std::string(r.chance(50) ? "src/" : "s&s/deep dir/") + nm; if (F.put.count(f.src)) f.src = "u" + std::to_string(uid++) + "/" + nm;
            f.data = blob(r); if (r.chance(12)) f.ver = "1.2.3." + std::to_string(r.below(99)); F.put[f.src] = f.data; c.f.push_back(f);
        }
        for (int k = c.f.empty() ? r.range(1, 2) : r.chance(20) ? r.range(1, 3) : 0; k > 0; k--) {
            static const char *roots[] = {"HKCR", "HKCU", "HKLM", "HKU"}, *types[] = {"string", "integer", "binary", "expandable"}; Rg g; g.root = roots[r.below(4)]; g.key = "Software\\" + word(r) + (r.chance(50) ? "\\" + word(r) : ""); g.name = r.chance(80) ? word(r) : ""; g.type = types[r.below(4)];
            g.val = g.type == "integer" ? std::to_string(r.below(100000)) : g.type == "binary" ? "00ffA0" : r.chance(15) ? "#" + word(r) : word(r); std::string u = g.root + "\1" + g.key + "\1" + g.name; for (auto &x : u) x = (char)tolower(x); if (!gused.insert(u).second) continue; c.g.push_back(g);
        }
        if (c.f.empty() && c.g.empty()) { Fi f; f.id = id("fil"); f.name = f.src = "only" + std::to_string(uid++); f.data = blob(r); F.put[f.src] = f.data; c.f.push_back(f); }
        if (r.chance(12)) c.ini = {id("ini"), word(r) + ".ini", "sect", "key", word(r)};
        cs.push_back(c);
    }
    int nfeat = r.range(1, 3); struct Ft { std::string id, title; int parent; }; std::vector<Ft> ft; for (int i = 0; i < nfeat; i++) ft.push_back({id("feat"), r.chance(60) ? word(r) : "", i && r.chance(50) ? (int)r.below((u32)i) : -1});
    bool incab = false; for (auto &c : cs) { if (!r.chance(8)) c.feat.insert((int)r.below((u32)nfeat)); if (r.chance(10)) c.feat.insert((int)r.below((u32)nfeat)); if (c.feat.size() && c.f.size()) incab = true; }
    if (!incab) { for (auto &c : cs) if (c.f.size()) { c.feat.insert(0); incab = true; break; } if (!incab) { Fi f; f.id = id("fil"); f.name = f.src = "only.txt"; f.data = "only\n"; F.put[f.src] = f.data; cs[0].f.push_back(f); cs[0].feat.insert(0); } }
    std::vector<std::pair<std::string, std::string>> props; for (int n = r.range(0, 5); n > 0; n--) props.push_back({id("Prop"), r.chance(90) ? word(r) + (r.chance(30) ? " " + word(r) : "") : ""});
    std::vector<std::pair<std::string, std::string>> icons, bins; if (r.chance(25)) icons.push_back({id("ico") + ".exe", blob(r)}); if (r.chance(25)) bins.push_back({id("bin"), blob(r)});
    std::string name = word(r), manu = word(r), ver = std::to_string(r.below(255)) + ".0." + std::to_string(r.below(100)), code = r.chance(50) ? "*" : guid(r), up = guid(r); bool tmpl = r.chance(40); std::string cabname = r.chance(30) ? "cab's.cab" : "Sample.cab"; std::string scope = r.chance(40) ? "perMachine" : "", comments = r.chance(50) ? word(r) : "", keywords = r.chance(50) ? word(r) : "";
    std::string dvar = r.chance(30) ? word(r) : ""; if (dvar[0] == '$') dvar = "plain"; std::string pvar = r.chance(30) ? word(r) : "";
    // --- what is wrong with it
    std::string xbad; size_t cut = 0; std::string drop; if (bad == 1) { for (auto &c : cs) for (auto &f : c.f) if (drop.empty() || r.chance(40)) drop = f.src; F.why = "a source file is missing"; }
    // --- services, shortcuts, file types, searches, upgrades, actions
    std::vector<std::vector<std::string>> xr; std::map<std::string, std::string> xc, xf; std::string xp; struct Qa { std::string tab, name, cond; }; std::vector<Qa> qa; std::set<std::string> have; std::string secure;
    auto X = [&](std::vector<std::string> v) { v.insert(v.begin(), "X"); have.insert(v[1]); xr.push_back(v); }; auto opt = [&](std::string &s, const char *n, const std::string &v) { if (!v.empty()) s += at(n, v); };
    auto some = [&](int pct) { return r.chance(pct) ? word(r) : std::string(); }; static const char *modes[] = {"install", "uninstall", "both"};
    for (auto &c : cs) {
        std::string dir = ds[c.d].id, s;
        if (r.chance(12)) { // shortcuts
            std::string i = id("sc"), nm = word(r), d = ds[r.below((u32)ds.size())].id, tg = some(60), ar = some(30), de = some(40), ic = icons.size() && r.chance(60) ? icons[0].first : "", wk = r.chance(30) ? ds[r.below((u32)ds.size())].id : "", ix = !ic.empty() && r.chance(50) ? std::to_string(r.below(9)) : "";
            bool inf = c.f.size() && r.chance(50), own = !inf && r.chance(50); if (c.feat.size() != 1 && tg.empty()) tg = "[target]"; std::string e = "<Shortcut" + at("Id", i) + at("Name", nm); if (own) d = dir; else e += at("Directory", d);
            opt(e, "Target", tg); opt(e, "Arguments", ar); opt(e, "Description", de); opt(e, "Icon", ic); opt(e, "IconIndex", ix); opt(e, "WorkingDirectory", wk); e += r.chance(50) ? " Advertise=\"yes\"/>" : "/>"; (inf ? xf[c.f[0].id] : s) += e;
            X({"Shortcut", i, d, nm, c.id, tg.empty() ? ft[*c.feat.begin()].id : tg, ar, de, ic, ix, wk});
        }
        if (r.chance(12)) { // a service
            std::string i = id("svc"), nm = word(r), dn = some(60), lg = some(20), ac = some(20), pw = some(20), ar = some(20), de = some(40); int ty = r.below(2), st = (int)r.below(3), ec = (int)r.below(3); bool ia = r.chance(20), er = r.chance(10);
            static const char *tys[] = {"ownProcess", "shareProcess"}, *sts[] = {"auto", "demand", "disabled"}, *ecs[] = {"ignore", "normal", "critical"}; static const int ecn[] = {0, 1, 3};
            std::string e = "<ServiceInstall" + at("Id", i) + at("Name", nm) + at("Type", tys[ty]) + at("Start", sts[st]) + at("ErrorControl", ecs[ec]); opt(e, "DisplayName", dn); opt(e, "LoadOrderGroup", lg); opt(e, "Account", ac); opt(e, "Password", pw); opt(e, "Arguments", ar); opt(e, "Description", de); if (ia) e += " Interactive=\"yes\""; if (er) e += " EraseDescription=\"yes\""; e += ">"; std::string deps;
            for (int k = r.range(0, 2); k > 0; k--) { std::string dp = word(r); bool g = r.chance(40); e += "<ServiceDependency" + at("Id", dp) + (g ? " Group=\"yes\"" : "") + "/>"; deps += (g ? "+" : "") + dp + "[~]"; } if (!deps.empty()) deps += "[~]"; s += e + "</ServiceInstall>";
            X({"ServiceInstall", i, nm, dn, std::to_string((ty ? 32 : 16) + (ia ? 256 : 0)), std::to_string(2 + st), std::to_string(ecn[ec]), lg, deps, ac, pw, ar, c.id, er ? "[~]" : de});
        }
        for (int k = r.chance(12) ? r.range(1, 2) : 0; k > 0; k--) { // and its control
            std::string i = id("ctl"), nm = word(r), e = "<ServiceControl" + at("Id", i) + at("Name", nm), ar; int ev = 0; static const char *an[] = {"Start", "Stop", "Remove"}; static const int in[] = {1, 2, 8}, un[] = {16, 32, 128};
            for (int a = 0; a < 3; a++) if (r.chance(60)) { u32 m = r.below(3); e += at(an[a], modes[m]); ev |= (m != 1 ? in[a] : 0) | (m != 0 ? un[a] : 0); } int w = (int)r.below(3); if (w) e += w == 1 ? " Wait=\"no\"" : " Wait=\"yes\""; e += ">";
            for (int a = r.range(0, 2); a > 0; a--) { std::string v = word(r); e += "<ServiceArgument>" + text(r, v) + "</ServiceArgument>"; ar += (ar.empty() ? "" : "[~]") + v; } s += e + "</ServiceControl>"; X({"ServiceControl", i, nm, std::to_string(ev), ar, w ? std::to_string(w - 1) : "", c.id});
        }
        if (r.chance(8)) { std::string i = id("rmf"); u32 m = r.below(3); s += "<RemoveFolder" + at("Id", i) + at("On", modes[m]) + "/>"; X({"RemoveFile", i, c.id, "", dir, std::to_string(m + 1)}); }
        if (r.chance(8)) { s += "<CreateFolder/>"; X({"CreateFolder", dir, c.id}); }
        if (r.chance(8)) { // a file type
            std::string pg = "Prog." + id("P"), de = word(r), e = "<ProgId" + at("Id", pg) + at("Description", de) + ">"; auto R = [&](const std::string &k, const std::string &n, const std::string &v) { xr.push_back({"R", "0", k, n, v, c.id}); have.insert("Registry"); }; R(pg, "", de);
            if (r.chance(80)) { std::string ex = "x" + std::to_string(uid++), ct = "application/" + ex; e += "<Extension" + at("Id", ex) + at("ContentType", ct) + ">"; R("." + ex, "Content Type", ct); R("." + ex, "", pg); if (r.chance(60) && c.f.size()) { std::string ar = word(r); e += "<Verb Id=\"open\" Command=\"Open\"" + at("TargetFile", c.f[0].id) + at("Argument", ar) + "/>"; R(pg + "\\shell\\open", "", "Open"); R(pg + "\\shell\\open\\command", "", "\"[#" + c.f[0].id + "]\" " + ar); } if (r.chance(50)) { std::string m = "text/" + ex; e += "<MIME" + at("ContentType", m) + "/>"; R("MIME\\Database\\Content Type\\" + m, "Extension", "." + ex); } e += "</Extension>"; }
            s += e + "</ProgId>";
        }
        if (r.chance(10)) { // more ini entries
            std::string i = id("ini"), fn = word(r) + ".ini", sec = word(r), ke = word(r), va = word(r); int a = (int)r.below(5); static const char *an[] = {"addLine", "createLine", "removeLine", "addTag", "removeTag"}; if (a == 2 && r.chance(40)) va = "";
            s += "<IniFile" + at("Id", i) + at("Name", fn) + at("Section", sec) + at("Key", ke) + (va.empty() ? "" : at("Value", va)) + at("Action", an[a]) + at("Directory", dir) + "/>"; if (a == 2 || a == 4) X({"RemoveIniFile", i, fn, dir, sec, ke, va, std::to_string(a), c.id}); else { xr.push_back({"I", i, fn, dir, sec, ke, va, c.id}); X({"IniFile", i, std::to_string(a)}); }
        }
        xc[c.id] = s;
    }
    for (int k = r.range(0, 3) - 1; k > 0; k--) { std::string pr = id("Sr"), sg = id("sig"), key = "Software\\" + word(r), nm = word(r); u32 ro = r.below(4), ty = r.below(3); bool w = r.chance(30); static const char *roots[] = {"HKCR", "HKCU", "HKLM", "HKU"}, *tys[] = {"directory", "file", "raw"};
        xp += "<Property" + at("Id", pr) + "><RegistrySearch" + at("Id", sg) + at("Root", roots[ro]) + at("Key", key) + at("Name", nm) + at("Type", tys[ty]) + (w ? " Win64=\"yes\"" : "") + "/></Property>\n"; X({"AppSearch", pr, sg}); X({"RegLocator", sg, std::to_string(ro), key, nm, std::to_string(ty + (w ? 16 : 0))}); }
    for (int k = r.range(0, 3) - 1; k > 0; k--) { std::string cd = "VersionNT > " + std::to_string(uid++) + " OR " + word(r), ms = word(r); xp += "<Condition" + at("Message", ms) + ">" + text(r, cd) + "</Condition>\n"; X({"LaunchCondition", cd, ms}); }
    if (r.chance(15)) { std::string pr = id("UP"), g = guid(r), mi = std::to_string(r.below(9)) + ".1", ma = r.chance(50) ? std::to_string(r.range(9, 20)) + ".0" : ""; bool im = r.chance(50), ix = r.chance(50), od = r.chance(50), mf = r.chance(50); xp += "<Upgrade" + at("Id", g) + "><UpgradeVersion" + at("Minimum", mi) + (ma.empty() ? "" : at("Maximum", ma)) + at("IncludeMinimum", im ? "yes" : "no") + at("IncludeMaximum", ix ? "yes" : "no") + at("OnlyDetect", od ? "yes" : "no") + at("MigrateFeatures", mf ? "yes" : "no") + at("Property", pr) + "/></Upgrade>\n";
        X({"Upgrade", g, mi, ma, std::to_string((mf ? 1 : 0) + (od ? 2 : 0) + (im ? 256 : 0) + (ix ? 512 : 0)), pr}); secure += ";" + pr; }
    bool major = r.chance(15); if (major) { bool dn = r.chance(40), sm = r.chance(40); std::string ms = word(r), u = up; xp += std::string("<MajorUpgrade") + (dn ? " AllowDowngrades=\"yes\"" : at("DowngradeErrorMessage", ms)) + (sm ? " AllowSameVersionUpgrades=\"yes\"" : "") + "/>\n";
        X({"Upgrade", u, ver, "", dn ? "1" : "2", "WIX_DOWNGRADE_DETECTED"}); secure += ";WIX_DOWNGRADE_DETECTED"; if (sm) { X({"Upgrade", u, ver, ver, "769", "WIX_SAME_VERSION_UPGRADE_DETECTED"}); secure += ";WIX_SAME_VERSION_UPGRADE_DETECTED"; } X({"Upgrade", u, "", ver, "1", "WIX_UPGRADE_DETECTED"}); secure += ";WIX_UPGRADE_DETECTED"; if (!dn) X({"LaunchCondition", "NOT WIX_DOWNGRADE_DETECTED", ms}); }
    if (r.chance(35)) { // custom actions, and where they come
        std::map<std::string, std::string> seq; std::vector<std::string> anyf; for (auto &c : cs) for (auto &f : c.f) anyf.push_back(f.id); std::string prev;
        for (int k = r.range(1, 4); k > 0; k--) {
            static const char *tabs[] = {"InstallExecuteSequence", "InstallExecuteSequence", "InstallExecuteSequence", "InstallUISequence", "AdminExecuteSequence"}; std::string tab = tabs[r.below(5)]; bool ex = tab[7] == 'E';
            static const char *ie[] = {"CostInitialize", "FileCost", "CostFinalize", "InstallValidate", "InstallInitialize", "ProcessComponents", "InstallFinalize", "RegisterUser", "PublishProduct"}, *ui[] = {"CostInitialize", "FileCost", "CostFinalize", "ExecuteAction"}; std::string to = ex ? ie[r.below(9)] : ui[r.below(tab[0] == 'A' ? 3 : 4)]; if (ex && have.count("ServiceControl") && r.chance(40)) to = r.chance(50) ? "StartServices" : "StopServices"; if (ex && have.count("ServiceInstall") && r.chance(30)) to = "InstallServices";
            std::string wh = r.chance(50) ? "After" : "Before"; if (r.chance(12)) { wh = "Sequence"; to = std::to_string(r.range(1, 6000) / 10 * 10 + 7); } else if (!prev.empty() && r.chance(20)) { wh = "After"; to = prev.substr(prev.find(' ') + 1); tab = prev.substr(0, prev.find(' ')); }
            std::string i = "CA" + std::to_string(uid++) + "." + wh + "." + (to.compare(0, 2, "CA") ? to : to.substr(0, to.find('.'))), src, tgt = word(r), e = "<CustomAction" + at("Id", i); int ty; u32 v = r.below(5); if (v == 4 && anyf.empty()) v = 0;
            if (v == 0) { ty = 51; src = "PROP" + std::to_string(uid++); e += at("Property", src) + at("Value", tgt); } else if (v == 1) { ty = 1; src = bins.size() ? bins[0].first : "nobin"; e += at("BinaryKey", src) + at("DllEntry", tgt); } else if (v == 2) { ty = 5; src = bins.size() ? bins[0].first : "nobin"; e += at("BinaryKey", src) + at("JScriptCall", tgt); } else if (v == 3) { ty = 50; src = "PROP" + std::to_string(uid++); e += at("Property", src) + at("ExeCommand", tgt); } else { ty = 18; src = anyf[r.below((u32)anyf.size())]; e += at("FileKey", src) + at("ExeCommand", tgt); }
            static const char *exs[] = {"", "immediate", "firstSequence", "oncePerProcess", "clientRepeat", "deferred", "rollback", "commit"}; static const int exn[] = {0, 0, 0x100, 0x200, 0x300, 0x400, 0x500, 0x600}; u32 q = r.below(8); if (q) e += at("Execute", exs[q]); ty |= exn[q]; if (q >= 5) { bool im = r.chance(50); e += at("Impersonate", im ? "yes" : "no"); if (!im) ty |= 0x800; }
            static const char *res[] = {"", "check", "ignore", "asyncWait", "asyncNoWait"}; static const int ren[] = {0, 0, 0x40, 0x80, 0xc0}; q = r.below(5); if (q) e += at("Return", res[q]); ty |= ren[q]; xp += e + "/>\n"; X({"CustomAction", i, std::to_string(ty), src, tgt});
            std::string cd = r.chance(50) ? "NOT Installed AND " + word(r) : ""; seq[tab] += "<Custom" + at("Action", i) + at(wh.c_str(), to) + (cd.empty() ? "/>" : ">" + text(r, cd) + "</Custom>"); qa.push_back({tab, i, cd}); prev = tab + " " + i;
        }
        for (auto &y : seq) xp += "<" + y.first + ">" + y.second + "</" + y.first + ">\n";
    }
    if (bad == 9) { xp += "<CustomAction Id=\"cax\" VBScriptCall=\"x\"/>"; F.why = "a custom action of no kind"; }
    if (bad == 10) { xp += "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"two\" Guid=\"*\"><RegistryValue Root=\"HKLM\" Key=\"a\" Name=\"1\" Type=\"string\" Value=\"1\" KeyPath=\"yes\"/><RegistryValue Root=\"HKLM\" Key=\"a\" Name=\"2\" Type=\"string\" Value=\"1\" KeyPath=\"yes\"/></Component></DirectoryRef>"; F.why = "two key paths"; }
    if (bad == 11) { xp += std::string("<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"ev\" Guid=\"*\"><RegistryValue Root=\"HKLM\" Key=\"a\" Name=\"1\" Type=\"string\" Value=\"1\"/>") + (r.chance(50) ? "<RegistryValue Root=\"HKXX\" Key=\"b\" Name=\"1\" Type=\"string\" Value=\"1\"/>" : r.chance(50) ? "<RegistryValue Root=\"HKCU\" Key=\"b\" Name=\"1\" Type=\"sting\" Value=\"1\"/>" : "<ServiceControl Id=\"e\" Name=\"e\" Start=\"never\"/>") + "</Component></DirectoryRef>"; F.why = "a value of no such kind"; }
    if (bad == 12) { xp += "<DirectoryRef Id=\"TARGETDIR\"><Component Id=\"adv\" Guid=\"*\"><RegistryValue Root=\"HKLM\" Key=\"a\" Name=\"1\" Type=\"string\" Value=\"1\"/><Shortcut Id=\"scx\" Name=\"n\" Directory=\"TARGETDIR\"/></Component></DirectoryRef>"; F.why = "a shortcut to a feature of none"; }
    if (bad == 13) { xp += "<CustomAction Id=\"cax\" FileKey=\"NoSuchFile\" ExeCommand=\"x\"/>"; F.why = "a file reference to nothing"; }
    // --- the text
    auto comp = [&](const C &c, const std::string &in) {
        std::string s = in + "<Component" + at("Id", c.id) + at("Guid", c.guid) + (c.w64 ? " Win64=\"yes\"" : "") + (c.perm ? " Permanent=\"yes\"" : "") + ">\n"; bool kp = false;
        for (auto &f : c.f) { s += in + "  <File" + at("Id", f.id); std::string base = f.src.substr(f.src.rfind('/') == std::string::npos ? 0 : f.src.rfind('/') + 1); if (f.name != base || f.src == f.name) s += at("Name", f.name); if (f.src != f.name) s += at("Source", f.src); if (!f.ver.empty()) s += at("DefaultVersion", f.ver); if (!kp && (f.id.size() & 1)) { s += " KeyPath=\"yes\""; kp = true; } s += " DiskId=\"1\"" + (xf[f.id].empty() ? "/>\n" : ">" + xf[f.id] + "</File>\n"); if (!kp) kp = true; }
        for (auto &g : c.g) { bool nest = g.key.find('\\', 9) != std::string::npos && (c.id.size() & 1); size_t p = g.key.find('\\', 9); if (nest) s += in + "  <RegistryKey" + at("Root", g.root) + at("Key", g.key.substr(0, p)) + ">\n  "; s += in + "  <RegistryValue" + (nest ? at("Key", g.key.substr(p + 1)) : at("Root", g.root) + at("Key", g.key)) + (g.name.empty() ? "" : at("Name", g.name)) + at("Type", g.type) + at("Value", g.val) + "/>\n"; if (nest) s += in + "  </RegistryKey>\n"; }
        if (c.ini.size()) s += in + "  <IniFile" + at("Id", c.ini[0]) + at("Name", c.ini[1]) + at("Section", c.ini[2]) + at("Key", c.ini[3]) + at("Value", c.ini[4]) + at("Action", "addLine") + at("Directory", ds[c.d].id) + "/>\n";
        if (!xc[c.id].empty()) s += in + "  " + xc[c.id] + "\n";
        return s + in + "</Component>\n";
    };
    std::function<std::string(size_t, std::string)> dtree = [&](size_t i, std::string in) {
        std::string s = in + "<Directory" + at("Id", ds[i].id) + (ds[i].name.empty() ? "" : at("Name", ds[i].name)) + ">\n"; for (auto &c : cs) if ((size_t)c.d == i && !c.frag && !c.grp) s += comp(c, in + "  ");
        for (size_t k = 1; k < ds.size(); k++) if (ds[k].parent == ds[i].id) s += dtree(k, in + "  "); return s + in + "</Directory>\n";
    };
    std::string x = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"; if (!dvar.empty()) x += "<?define Name = \"" + dvar + "\"?>\n"; x += "<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\">\n <Product" + at("Name", name) + at("Id", code) + at("UpgradeCode", up) + at("Language", "1033") + at("Codepage", "1252") + at("Version", ver) + at("Manufacturer", manu) + ">\n  <Package Id=\"*\"" + (comments.empty() ? "" : at("Comments", comments)) + (keywords.empty() ? "" : at("Keywords", keywords)) + (scope.empty() ? "" : at("InstallScope", scope)) + " InstallerVersion=\"200\" Compressed=\"yes\"/>\n";
    x += tmpl ? "  <MediaTemplate EmbedCab=\"yes\"/>\n" : "  <Media Id=\"1\"" + at("Cabinet", cabname) + " EmbedCab=\"yes\"" + at("DiskPrompt", "disk") + "/>\n";
    for (auto &p : props) x += "  <Property" + at("Id", p.first) + (p.second.empty() ? "" : at("Value", p.second)) + "/>\n"; if (!dvar.empty()) x += "  <Property Id=\"FromVar\" Value=\"$(var.Name)\"/>\n"; if (!pvar.empty()) x += "  <Property Id=\"FromArg\" Value=\"$(var.Arg)\"/>\n";
    for (auto &p : icons) { x += "  <Icon" + at("Id", p.first) + at("SourceFile", p.first) + "/>\n"; F.put[p.first] = p.second; } for (auto &p : bins) { x += "  <Binary" + at("Id", p.first) + at("SourceFile", p.first + ".bin") + "/>\n"; F.put[p.first + ".bin"] = p.second; }
    x += xp; x += dtree(0, "  "); bool second = false; for (auto &c : cs) if (c.frag && !c.grp) second = true; bool group = false; for (auto &c : cs) if (c.grp) group = true; std::string gid = id("grp"); std::vector<std::string> grefs;
    if (bad == 3) xbad = "   <ComponentRef Id=\"NoSuchComponent\"/>\n"; if (bad == 3) F.why = "a reference to nothing";
    static const char *away[] = {"..", "../..", "/abs", "a/../../b", "..\\..", "\\abs"}; std::string evil = bad == 8 ? away[r.below(6)] : ""; if (bad == 8) xbad = "   <ComponentRef Id=\"evilc\"/>\n";
    std::function<std::string(int, std::string)> ftree = [&](int i, std::string in) { std::string s = in + "<Feature" + at("Id", ft[i].id) + (ft[i].title.empty() ? "" : at("Title", ft[i].title)) + " Level=\"1\">\n"; for (auto &c : cs) if (!c.grp && c.feat.count(i)) s += in + "  <ComponentRef" + at("Id", c.id) + "/>\n"; bool g = false; for (auto &c : cs) if (c.grp && c.feat.count(i)) g = true; if (g) { for (auto &c : cs) if (c.grp && c.feat.count(i)) s += in + "  <ComponentRef" + at("Id", c.id) + "/>\n"; } if (i == 0 && !xbad.empty()) s += xbad; for (int k = 0; k < nfeat; k++) if (ft[k].parent == i) s += ftree(k, in + "  "); return s + in + "</Feature>\n"; };
    for (int i = 0; i < nfeat; i++) if (ft[i].parent < 0) x += ftree(i, "  ");
    if (bad == 4) { x += "  <DirectoryRef Id=\"NoSuchDir\"><Component Id=\"lost\" Guid=\"*\"><File Id=\"lostf\" Name=\"" + std::string("lost.txt") + "\"/></Component></DirectoryRef>\n"; F.put["lost.txt"] = "lost"; F.why = "a directory that is not there"; }
    if (bad == 8) { bool fn = r.chance(40); x += "  <DirectoryRef Id=\"TARGETDIR\"><Directory Id=\"evild\" Name=\"" + (fn ? std::string("plain") : evil) + "\"><Component Id=\"evilc\" Guid=\"*\"><File Id=\"evilf\" Source=\"evil.txt\" Name=\"" + (fn ? (evil[0] == '/' || evil[0] == '\\' ? "../.." + evil : evil + "/../x") : std::string("evil.txt")) + "\"/></Component></Directory></DirectoryRef>\n"; F.put["evil.txt"] = "evil"; F.why = "a name that leads away"; }
    if (bad == 5) { x += "  <Property Id=\"Twice\" Value=\"1\"/>\n  <Property Id=\"Twice\" Value=\"2\"/>\n"; F.why = "the same key twice"; }
    if (bad == 6) { x += "  <Binary Id=\"gone\" SourceFile=\"gone.bin\"/>\n"; F.why = "a binary that is not there"; }
    if (bad == 7) { x += "  <Property Id=\"Unset\" Value=\"$(var.Unset)\"/>\n"; F.why = "a variable that is not set"; }
    std::string frag; for (auto &c : cs) if (c.frag && !c.grp) frag += "  <DirectoryRef" + at("Id", ds[c.d].id) + ">\n" + comp(c, "   ") + "  </DirectoryRef>\n";
    if (group) { std::map<int, std::vector<const C *>> by; for (auto &c : cs) if (c.grp) by[c.d].push_back(&c); int k = 0; for (auto &b : by) { frag += "  <ComponentGroup" + at("Id", gid + std::to_string(k++)) + at("Directory", ds[b.first].id) + ">\n"; for (auto c : b.second) frag += comp(*c, "   "); frag += "  </ComponentGroup>\n"; } }
    bool two = second && r.chance(50); x += " </Product>\n"; if (!frag.empty() && !two) x += " <Fragment>\n" + frag + " </Fragment>\n"; x += "</Wix>\n"; if (bad == 2) { cut = x.size() - (size_t)r.range(1, (int)x.size() / 2); while (cut && x.compare(cut - 1, 1, ">") == 0 && x.find_first_not_of(" \n", cut) == std::string::npos) cut--; x.resize(cut); F.why = "the source is cut short"; }
    F.put["main.wxs"] = x; F.args = {dir + "/main.wxs"}; if (!frag.empty() && two) { F.put["frag.wxs"] = "<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\">\n <Fragment>\n" + frag + " </Fragment>\n</Wix>\n"; F.args.push_back(dir + "/frag.wxs"); }
    if (!pvar.empty()) { F.args.push_back("-D"); F.args.push_back("Arg=" + pvar); } if (!drop.empty()) F.put.erase(drop);
    // --- what the package must say
    auto row = [&](std::vector<std::string> v) { std::string s; for (auto &y : v) s += (s.empty() ? "" : " ") + (y.empty() ? std::string("-") : pct(y)); F.rows.push_back(s); };
    auto P = [&](const std::string &n, const std::string &v) { row({"P", n, v}); };
    P("Manufacturer", manu); P("ProductLanguage", "1033"); F.rows.push_back("P ProductCode " + (code == "*" ? std::string("*UUID*") : pct(code))); P("ProductName", name); P("ProductVersion", ver); P("UpgradeCode", up); if (scope == "perMachine") P("ALLUSERS", "1");
    for (auto &p : props) if (!p.second.empty()) P(p.first, p.second); if (!dvar.empty()) P("FromVar", dvar); if (!pvar.empty()) P("FromArg", pvar);
    for (auto &d : ds) row({"D", d.id, d.parent, d.name.empty() ? "." : d.name});
    int nseq = 0;
    for (auto &c : cs) {
        std::string key; bool reg = false; if (c.f.size()) { key = c.f[0].id; bool kp = false; for (auto &f : c.f) if (!kp && (f.id.size() & 1)) { key = f.id; kp = true; } else if (!kp) { kp = true; } } else { reg = true; key = "reg"; }
        F.rows.push_back("C " + pct(c.id) + " " + pct(ds[c.d].id) + " " + std::to_string((reg ? 4 : 0) + (c.w64 ? 256 : 0) + (c.perm ? 16 : 0)) + " " + pct(key) + " " + (c.guid == "*" ? std::string("*UUID*") : pct(c.guid)));
        for (auto &f : c.f) {
            bool in = c.feat.size(); row({"F", f.id, c.id, f.name, std::to_string(f.data.size()), f.ver, in ? "in" : "out"}); std::string p = ds[c.d].path + (ds[c.d].path.empty() ? "" : "/") + longname(f.name); F.list.push_back("o l" + pct(p)); if (in) nseq++; if (in) F.rows.push_back("K " + pct(f.id) + " " + canon_bin(f.data.data(), f.data.size()));
            if (in) { F.tree.push_back("o l" + pct(p)); F.tree.push_back("x " + pct(p) + " " + canon_bin(f.data.data(), f.data.size())); }
            if (in && f.ver.empty()) { GChecksum *ck = g_checksum_new(G_CHECKSUM_MD5); g_checksum_update(ck, (const guchar *)f.data.data(), (gssize)f.data.size()); s32 h[4]; gsize l = 16; g_checksum_get_digest(ck, (guint8 *)h, &l); g_checksum_free(ck); std::string s = "H " + pct(f.id); for (int k = 0; k < 4; k++) s += " " + (h[k] == (s32)0x80000000 ? std::string("?") : std::to_string(h[k])); F.rows.push_back(s); }
        }
        for (auto &g : c.g) { static const char *roots[] = {"HKCR", "HKCU", "HKLM", "HKU"}; int ri = 0; for (int k = 0; k < 4; k++) if (g.root == roots[k]) ri = k; std::string v = g.val; if (g.type == "integer") v = "#" + v; else if (g.type == "string") v = v[0] == '#' ? "#" + v : v; else if (g.type == "binary") v = "#x" + v; else v = v.compare(0, 2, "#%") ? "#%" + v : v; row({"R", std::to_string(ri), g.key, g.name, v, c.id}); }
        for (int i : c.feat) row({"FC", ft[i].id, c.id});
        if (c.ini.size()) row({"X", "IniFile", c.ini[0], "0"}); if (c.ini.size()) row({"I", c.ini[0], c.ini[1], ds[c.d].id, c.ini[2], c.ini[3], c.ini[4], c.id});
    }
    for (auto &y : xr) row(y); if (!secure.empty()) P("SecureCustomProperties", secure.substr(1)); bool anyfile = false, anyreg = have.count("Registry"), anyini = false; for (auto &c : cs) { if (c.f.size()) anyfile = true; if (c.g.size()) anyreg = true; if (c.ini.size()) anyini = true; } for (auto &y : xr) if (y[0] == "I") anyini = true;
    auto Q = [&](const char *t, const char *n, int q, const char *cond = "") { row({"Q", t, n, cond, std::to_string(q)}); };
    for (auto t : {"AdminExecuteSequence", "AdminUISequence", "AdvtExecuteSequence", "InstallExecuteSequence", "InstallUISequence"}) {
        bool ae = !strcmp(t, "AdminExecuteSequence"), ad = !strcmp(t, "AdvtExecuteSequence"), ie = !strcmp(t, "InstallExecuteSequence"), iu = !strcmp(t, "InstallUISequence"), ui = iu || !strcmp(t, "AdminUISequence");
        Q(t, "CostInitialize", 800); if (!ad) Q(t, "FileCost", 900); Q(t, "CostFinalize", 1000); if (ui) Q(t, "ExecuteAction", 1300); else { Q(t, "InstallValidate", 1400); Q(t, "InstallInitialize", 1500); Q(t, "InstallFinalize", 6600); }
        if (ae) { Q(t, "InstallAdminPackage", 3900); Q(t, "InstallFiles", 4000); } if (ad || ie) { Q(t, "PublishFeatures", 6300); Q(t, "PublishProduct", 6400); if (have.count("Shortcut")) Q(t, "CreateShortcuts", 4500); }
        if (ie || iu) { Q(t, "ValidateProductID", 700); if (have.count("Upgrade")) { Q(t, "FindRelatedProducts", 25); Q(t, "MigrateFeatureStates", 1200); } if (have.count("LaunchCondition")) Q(t, "LaunchConditions", 100); if (have.count("AppSearch")) Q(t, "AppSearch", 50); }
        if (ie) { Q(t, "ProcessComponents", 1600); Q(t, "UnpublishFeatures", 1800); Q(t, "RegisterUser", 6000); Q(t, "RegisterProduct", 6100); if (anyreg) { Q(t, "RemoveRegistryValues", 2600); Q(t, "WriteRegistryValues", 5000); } if (anyini) Q(t, "WriteIniValues", 5100); if (have.count("RemoveIniFile")) Q(t, "RemoveIniValues", 3100); if (have.count("Shortcut")) Q(t, "RemoveShortcuts", 3200); if (anyfile || have.count("RemoveFile")) Q(t, "RemoveFiles", 3500); if (anyfile) Q(t, "InstallFiles", 4000);
            if (have.count("ServiceControl")) { Q(t, "StartServices", 5900, "VersionNT"); Q(t, "StopServices", 1900, "VersionNT"); Q(t, "DeleteServices", 2000, "VersionNT"); } if (have.count("ServiceInstall")) Q(t, "InstallServices", 5800, "VersionNT"); if (have.count("CreateFolder")) { Q(t, "RemoveFolders", 3600); Q(t, "CreateFolders", 3700); } if (major) row({"Q", t, "RemoveExistingProducts", "", "right"}); }
    }
    for (auto &q : qa) row({"Q", q.tab, q.name, q.cond, "right"});
    for (auto &f : ft) row({"T", f.id, f.parent < 0 ? "" : ft[f.parent].id, f.title, "1"});
    row({"M", "1", std::string("#") + (tmpl ? "cab1.cab" : cabname), std::to_string(nseq)});
    for (auto &p : icons) F.rows.push_back("B Icon " + pct(p.first) + " " + canon_bin(p.second.data(), p.second.size())); for (auto &p : bins) F.rows.push_back("B Binary " + pct(p.first) + " " + canon_bin(p.second.data(), p.second.size()));
    row({"S", name, manu, keywords.empty() ? "Installer" : keywords, comments.empty() ? "This installer database contains the logic and data required to install " + name + "." : comments});
    return F;
}
const HeatFacts &heat_facts(u32 seed) {
    static std::map<u32, HeatFacts> cache; HeatFacts &F = cache[seed]; if (F.args.size()) return F;
    Rng r(seed * 104729ull + 5); std::string prefix = r.chance(60) ? "tree/" : r.chance(50) ? "tree/sub dir/" : "", var = r.chance(40) ? "var.Src" : "", cg = r.chance(60) ? word(r) : "", dr = r.chance(40) ? word(r) : ""; bool w64 = r.chance(25);
    F.args = {"-p", prefix}; if (prefix.empty()) F.args = {"--prefix="}; if (!var.empty()) { F.args.push_back("--var"); F.args.push_back(var); } if (!cg.empty()) F.args.push_back("--component-group=" + cg); if (!dr.empty()) F.args.push_back("--directory-ref=" + dr); if (w64) F.args.push_back("--win64");
    std::vector<std::string> ex; if (r.chance(30)) { ex.push_back(word(r).substr(0, 3)); F.args.push_back("--exclude=" + ex[0]); }
    std::set<std::string> dirs, files; std::vector<std::string> D; D.push_back(prefix.empty() ? "" : prefix.substr(0, prefix.size() - 1));
    int big = r.chance(10) ? 150 : r.range(0, 30); for (int i = r.range(0, 6); i > 0; i--) { std::string d = D[r.below((u32)D.size())]; d += (d.empty() ? "" : "/") + word(r) + (r.chance(30) ? std::to_string(r.below(9)) : ""); if (d.size() < 130 && std::find(D.begin(), D.end(), d) == D.end()) D.push_back(d); }
    if (r.chance(20)) D.push_back("other");
    for (int i = 0; i < big; i++) { const std::string &d = D[r.below((u32)D.size())]; std::string f = d + (d.empty() ? "" : "/") + word(r) + (r.chance(70) ? std::to_string(r.below(1000)) : ""); if (std::find(D.begin(), D.end(), f) != D.end()) continue; files.insert(f); }
    std::vector<std::string> L; for (auto &f : files) L.push_back(f); for (auto &d : D) if (!d.empty() && r.chance(60)) L.push_back(d);
    if (r.chance(60)) std::sort(L.begin(), L.end()); else for (size_t i = L.size(); i > 1; i--) std::swap(L[i - 1], L[r.below((u32)i)]);
    for (auto &f : files) if (r.chance(80)) F.put[f] = "x"; for (auto &d : D) if (!d.empty()) F.dirs.push_back(d);
    F.rows.push_back("d " + pct(dr.empty() ? "TARGETDIR" : dr)); if (!cg.empty()) F.rows.push_back("cg " + pct(cg));
    for (size_t i = 0; i < L.size(); i++) F.in += L[i] + (i + 1 < L.size() || r.chance(70) ? "\n" : "");
    std::string src = var.empty() ? "SourceDir/" : "$(" + var + ")/";
    for (auto &l : L) {
        if (l.compare(0, prefix.size(), prefix) || !files.count(l)) continue; std::string rel = l.substr(prefix.size()); bool out = false; for (auto &e : ex) if (rel.compare(0, e.size(), e) == 0) out = true; if (out) continue;
        size_t p = rel.rfind('/'); std::string d = p == std::string::npos ? "" : rel.substr(0, p); F.rows.push_back("f " + pct(d) + "/ " + pct(src + rel) + (w64 ? " w" : "")); if (!cg.empty()) F.rows.push_back("g " + pct(src + rel));
    }
    return F;
}
