// Runs the real command-line tools as child processes inside the simulated
// machine: main() of each is linked in under another name.
#ifdef WITH_TOOLS
#include "tools.h"
#include "wx.h"
#include <libxml/parser.h>
#include <gio/gio.h>
#include <libmsi.h>
#include <libgcab.h>
#include <set>
#include <algorithm>
#include <functional>
#include <ctype.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" { int tool_msibuild(int, char **); int tool_msiinfo(int, char **); int tool_msiextract(int, char **); int tool_wixl(int, char **); int tool_wixl_heat(int, char **); }
u32 exec_ncrit(std::string *msg); void exec_crit_from_child(const std::string &m);
static void at_exit() { std::string m; if (exec_ncrit(&m)) sim_put("/sim/crit", m); }
static std::string file(const char *n) { std::string s; sim_get(n, s); return s; }
// returns the exit status; out: pipe or file
static int run_tool(const std::string &name, const std::vector<std::string> &args, const std::string &in, bool tofile, bool intr = false) {
    static const std::map<std::string, int (*)(int, char **)> T = {{"msibuild", tool_msibuild}, {"msiinfo", tool_msiinfo}, {"msiextract", tool_msiextract}, {"wixl", tool_wixl}, {"wixl-heat", tool_wixl_heat}};
    for (auto f : {"/sim/stdin", "/sim/stdout", "/sim/stderr", "/sim/crit"}) sim_del(f);
    // special 2: a pipe no signal handler can interrupt (the tools install none)
    sim_put("/sim/stdin", in, intr ? 1 : 2); sim_put("/sim/stdout", "", tofile ? 0 : 2); sim_put("/sim/stderr", "", 2);
    u32 fds = G->openfds[g_actor]; pid_t pid = fork();
    if (pid == 0) {
        sim_redirect_std(); atexit(at_exit);
        std::vector<char *> av; av.push_back(strdup(name.c_str())); for (auto &a : args) av.push_back(strdup(a.c_str())); int n = (int)av.size(); av.push_back(NULL);
        exit(T.at(name)(n, av.data()));
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0) {}
    if (getenv("DST_LOG")) { std::string l; for (auto &a : args) l += " '" + a + "'"; fprintf(stderr, "   $ %s%s -> %x\n", name.c_str(), l.c_str(), st); }
    G->openfds[g_actor] = fds;
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); syscall(SYS_kill, (pid_t)syscall(SYS_getpid), WTERMSIG(st)); for (;;) pause(); }
    int x = WEXITSTATUS(st); if ((x == 77 && G->crashed) || (x == 78 && G->runaway) || x == 99) syscall(SYS_exit_group, x);
    std::string c = file("/sim/crit"); if (!c.empty()) exec_crit_from_child(c);
    if (getenv("DST_LOG")) { std::string e = file("/sim/stderr"); if (!e.empty()) fprintf(stderr, "   %s: %s", name.c_str(), e.c_str()); }
    return x;
}
static std::string status(int x) { return x == 0 ? "ok" : "err:" + std::to_string(x); }
static std::vector<std::string> lines_of(const std::string &s) {
    std::vector<std::string> L; size_t p = 0;
    for (;;) { size_t e = s.find('\n', p); if (e == std::string::npos) break; std::string l = s.substr(p, e - p); L.push_back(l.size() < 200 ? "l" + pct(l) : canon_bin(l.data(), l.size())); p = e + 1; }
    if (p < s.size()) L.push_back("rest l" + pct(s.substr(p, 200))); return L;
}
static std::string undol(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); i++) { o += s[i]; if (s[i] == '$' && i + 1 < s.size() && s[i + 1] == '$') i++; } return o; }
static std::string xattr(xmlNodePtr n, const char *k) { xmlChar *v = xmlGetProp(n, BAD_CAST k); std::string s = v ? (const char *)v : ""; xmlFree(v); return s; }
// what a fragment written by wixl-heat says
static void heat_walk(xmlNodePtr n, const std::string &dir, std::vector<std::string> &rows, std::map<std::string, std::string> &src, std::set<std::string> &ids) {
    for (; n; n = n->next) {
        if (n->type != XML_ELEMENT_NODE) continue; std::string k = (const char *)n->name, id = xattr(n, "Id");
        if (k != "DirectoryRef" && k != "ComponentRef" && !id.empty() && !ids.insert(k + " " + id).second) rows.push_back("twice " + k);
        if (id.empty() && (k == "Directory" || k == "Component" || k == "File" || k == "ComponentRef")) rows.push_back("no id " + k);
        if (k == "Wix" || k == "Fragment") heat_walk(n->children, dir, rows, src, ids);
        else if (k == "DirectoryRef") { rows.push_back("d " + pct(id)); heat_walk(n->children, dir, rows, src, ids); }
        else if (k == "Directory") { std::string nm = undol(xattr(n, "Name")); heat_walk(n->children, nm.empty() || nm == "." ? dir : dir + (dir.empty() ? "" : "/") + nm, rows, src, ids); }
        else if (k == "Component") {
            int nf = 0; for (xmlNodePtr c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && !strcmp((const char *)c->name, "File")) { std::string s = undol(xattr(c, "Source")), w = xattr(n, "Win64"); nf++; src[id] = s; std::string fid = xattr(c, "Id"); if (fid.empty() || !ids.insert("File " + fid).second) rows.push_back("File id"); rows.push_back("f " + pct(dir) + "/ " + pct(s) + (w.empty() ? "" : w == "$(var.Win64)" ? " w" : " w?")); if (xattr(c, "KeyPath") != "yes") rows.push_back("key path"); }
            if (nf != 1 || xattr(n, "Guid") != "*") rows.push_back("component");
        } else if (k == "ComponentGroup") { rows.push_back("cg " + pct(id)); for (xmlNodePtr c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) { auto it = src.find(xattr(c, "Id")); rows.push_back(it == src.end() ? "dangling" : "g " + pct(it->second)); } }
        else rows.push_back("element " + k);
    }
}
static void breach(std::string &, const std::string &what) { if (!G->escapes++) snprintf(G->escape_path, sizeof G->escape_path, "%s", what.c_str()); }
static void clear_dir(const std::string &d) { auto L = sim_list(d); for (auto i = L.rbegin(); i != L.rend(); ++i) sim_purge(*i); }
static void mkdirs(const std::string &p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') sim_mkdir(p.substr(0, i)); }
// what the host does between tools: no faults, no trace
struct Quiet { u32 nf, tr; Quiet() { nf = G->nfault; tr = G->trace_on; G->nfault = 0; G->trace_on = 0; } ~Quiet() { G->nfault = nf; G->trace_on = tr; } };
static std::string col(LibmsiRecord *r, guint i) { gchar *s = libmsi_record_get_string(r, i); std::string v = s ? s : ""; g_free(s); return v; }
static std::string inum(LibmsiRecord *r, guint i, const char *nul = "-") { return libmsi_record_is_null(r, i) ? nul : std::to_string(libmsi_record_get_int(r, i)); }
static std::string tok(const std::string &s) { return s.empty() ? "-" : pct(s); }
static std::string uuid_tok(const std::string &s) { // made up by wixl, or given
    bool u = s.size() == 38 && s[0] == '{' && s[37] == '}'; for (size_t i = 1; u && i < 37; i++) if (i == 9 || i == 14 || i == 19 || i == 24 ? s[i] != '-' : !(isdigit((unsigned char)s[i]) || (s[i] >= 'A' && s[i] <= 'F'))) u = false;
    return u && s.compare(25, 12, "5EED5EED5EED") ? "*UUID*" : u ? s.substr(1, 36) : tok(s);
}
static bool each(LibmsiDatabase *db, const char *sql, std::function<void(LibmsiRecord *)> fn, std::vector<std::string> &R) {
    GError *e = NULL; LibmsiQuery *q = libmsi_query_new(db, sql, &e); if (!q) { R.push_back(std::string("no ") + sql); g_clear_error(&e); return false; }
    if (!libmsi_query_execute(q, NULL, &e)) { R.push_back(std::string("exec ") + sql); g_clear_error(&e); g_object_unref(q); return false; }
    while (LibmsiRecord *r = libmsi_query_fetch(q, &e)) { fn(r); g_object_unref(r); }
    if (e) { R.push_back(std::string("fetch ") + sql); g_clear_error(&e); } g_object_unref(q); return true;
}
static std::string slurp(GInputStream *in) { std::string d; if (!in) return d; char b[16384]; gssize n; while ((n = g_input_stream_read(in, b, sizeof b, NULL, NULL)) > 0) d.append(b, (size_t)n); g_object_unref(in); return d; }
// the tables of a package in the form of WxFacts::rows, and the identifiers of its components
static void wx_read(const std::string &path, std::vector<std::string> &R, std::string *guids = NULL) {
    GError *e = NULL; LibmsiDatabase *db = libmsi_database_new(path.c_str(), 1, NULL, &e); if (!db) { R.push_back("unreadable"); g_clear_error(&e); return; }
    typedef LibmsiRecord *L; auto has = [&](const char *t) { bool y = false; each(db, "SELECT `Name` FROM `_Tables`", [&](L r) { if (col(r, 1) == t) y = true; }, R); return y; };
    each(db, "SELECT `Property`, `Value` FROM `Property`", [&](L r) { std::string n = col(r, 1); R.push_back("P " + pct(n) + " " + (n == "ProductCode" || n == "UpgradeCode" ? uuid_tok(col(r, 2)) : tok(col(r, 2)))); }, R);
    each(db, "SELECT `Directory`, `Directory_Parent`, `DefaultDir` FROM `Directory`", [&](L r) { R.push_back("D " + tok(col(r, 1)) + " " + tok(col(r, 2)) + " " + tok(col(r, 3))); }, R);
    std::map<std::string, std::string> G_; each(db, "SELECT `Component`, `ComponentId`, `Directory_`, `Attributes`, `KeyPath` FROM `Component`", [&](L r) { int at = libmsi_record_get_int(r, 4); G_[col(r, 1)] = col(r, 2); R.push_back("C " + pct(col(r, 1)) + " " + tok(col(r, 3)) + " " + std::to_string(at) + " " + (at & 4 ? std::string("reg") : tok(col(r, 5))) + " " + uuid_tok(col(r, 2))); }, R);
    if (guids) for (auto &g : G_) *guids += g.first + "=" + g.second + "\n";
    { std::set<std::string> u; for (auto &g : G_) if (!g.second.empty() && !u.insert(g.second).second) R.push_back("two components are " + g.second); }
    std::map<std::string, std::string> cab; std::set<std::string> cabs; int last = 0;
    if (has("Media")) each(db, "SELECT `DiskId`, `LastSequence`, `Cabinet` FROM `Media`", [&](L r) {
        last = std::max(last, libmsi_record_get_int(r, 2)); std::string c = col(r, 3); R.push_back("M " + inum(r, 1) + " " + tok(c) + " " + inum(r, 2)); if (c[0] != '#') return;
        LibmsiRecord *p = libmsi_record_new(1); libmsi_record_set_string(p, 1, c.c_str() + 1); LibmsiQuery *q = libmsi_query_new(db, "SELECT `Data` FROM `_Streams` WHERE `Name` = ?", NULL); libmsi_query_execute(q, p, NULL); LibmsiRecord *x = libmsi_query_fetch(q, NULL);
        if (!x) { R.push_back("no cabinet"); } else {
            GInputStream *in = libmsi_record_get_stream(x, 1); GCabCabinet *cb = gcab_cabinet_new(); GError *e2 = NULL;
            if (!in || !gcab_cabinet_load(cb, in, NULL, &e2)) { R.push_back("bad cabinet"); g_clear_error(&e2); }
            else {
                GPtrArray *fs = gcab_cabinet_get_folders(cb); std::vector<GCabFile *> all; for (guint i = 0; i < fs->len; i++) { GSList *l = gcab_folder_get_files((GCabFolder *)fs->pdata[i]); for (GSList *y = l; y; y = y->next) all.push_back((GCabFile *)y->data); g_slist_free(l); }
                clear_dir("/sim/xcab/"); sim_mkdir("/sim/xcab"); GFile *to = g_file_new_for_path("/sim/xcab"); if (!gcab_cabinet_extract_simple(cb, to, NULL, NULL, NULL, &e2)) { R.push_back("cabinet does not unpack"); g_clear_error(&e2); } g_object_unref(to);
                for (auto f : all) { std::string nm = gcab_file_get_name(f), d; bool y = sim_get("/sim/xcab/" + nm, d); if (cab.count(nm)) R.push_back("twice in cabinet"); cab[nm] = y ? canon_bin(d.data(), d.size()) : "nothing"; } clear_dir("/sim/xcab/");
            }
            g_object_unref(cb); if (in) g_object_unref(in); g_object_unref(x);
        }
        g_object_unref(q); g_object_unref(p); }, R);
    std::set<int> seqs; if (has("File")) each(db, "SELECT `File`, `Component_`, `FileName`, `FileSize`, `Version`, `Sequence` FROM `File`", [&](L r) {
        std::string id = col(r, 1); int seq = libmsi_record_get_int(r, 6); bool in = cab.count(id); if (in && !(seq >= 1 && seq <= last)) R.push_back("sequence out of the medium"); if (in && !seqs.insert(seq).second) R.push_back("sequence taken twice");
        R.push_back("F " + pct(id) + " " + pct(col(r, 2)) + " " + tok(col(r, 3)) + " " + inum(r, 4) + " " + tok(col(r, 5)) + " " + (in ? "in" : "out")); if (in) { R.push_back("K " + pct(id) + " " + cab[id]); cab.erase(id); } }, R);
    for (auto &c : cab) R.push_back("stray in cabinet: " + pct(c.first));
    if (has("MsiFileHash")) each(db, "SELECT * FROM `MsiFileHash`", [&](L r) { std::string s = "H " + pct(col(r, 1)); for (guint i = 3; i < 7; i++) s += " " + inum(r, i, "?"); R.push_back(s); }, R);
    if (has("Registry")) each(db, "SELECT `Root`, `Key`, `Name`, `Value`, `Component_` FROM `Registry`", [&](L r) { R.push_back("R " + inum(r, 1) + " " + tok(col(r, 2)) + " " + tok(col(r, 3)) + " " + tok(col(r, 4)) + " " + tok(col(r, 5))); }, R);
    if (has("FeatureComponents")) each(db, "SELECT `Feature_`, `Component_` FROM `FeatureComponents`", [&](L r) { R.push_back("FC " + pct(col(r, 1)) + " " + pct(col(r, 2))); }, R);
    if (has("IniFile")) each(db, "SELECT `IniFile`, `FileName`, `DirProperty`, `Section`, `Key`, `Value`, `Component_` FROM `IniFile`", [&](L r) { std::string s = "I"; for (guint i = 1; i < 8; i++) s += " " + tok(col(r, i)); R.push_back(s); }, R);
    if (has("Feature")) each(db, "SELECT `Feature`, `Feature_Parent`, `Title`, `Level` FROM `Feature`", [&](L r) { R.push_back("T " + tok(col(r, 1)) + " " + tok(col(r, 2)) + " " + tok(col(r, 3)) + " " + inum(r, 4)); }, R);
    for (auto t : {"Icon", "Binary"}) if (has(t)) each(db, (std::string("SELECT `Name`, `Data` FROM `") + t + "`").c_str(), [&](L r) { std::string d = slurp(libmsi_record_get_stream(r, 2)); R.push_back(std::string("B ") + t + " " + pct(col(r, 1)) + " " + canon_bin(d.data(), d.size())); }, R);
    static const struct { const char *t, *cols; int n; } xt[] = {{"Shortcut", "`Shortcut`, `Directory_`, `Name`, `Component_`, `Target`, `Arguments`, `Description`, `Icon_`, `IconIndex`, `WkDir`", 10}, {"ServiceInstall", "`ServiceInstall`, `Name`, `DisplayName`, `ServiceType`, `StartType`, `ErrorControl`, `LoadOrderGroup`, `Dependencies`, `StartName`, `Password`, `Arguments`, `Component_`, `Description`", 13}, {"ServiceControl", "`ServiceControl`, `Name`, `Event`, `Arguments`, `Wait`, `Component_`", 6}, {"RemoveFile", "`FileKey`, `Component_`, `FileName`, `DirProperty`, `InstallMode`", 5}, {"CreateFolder", "`Directory_`, `Component_`", 2}, {"RemoveIniFile", "`RemoveIniFile`, `FileName`, `DirProperty`, `Section`, `Key`, `Value`, `Action`, `Component_`", 8},
        {"AppSearch", "`Property`, `Signature_`", 2}, {"RegLocator", "`Signature_`, `Root`, `Key`, `Name`, `Type`", 5}, {"LaunchCondition", "`Condition`, `Description`", 2}, {"Upgrade", "`UpgradeCode`, `VersionMin`, `VersionMax`, `Attributes`, `ActionProperty`", 5}, {"CustomAction", "`Action`, `Type`, `Source`, `Target`", 4}};
    for (auto &x : xt) if (has(x.t)) each(db, (std::string("SELECT ") + x.cols + " FROM `" + x.t + "`").c_str(), [&](L r) { std::string s = std::string("X ") + x.t; for (int i = 1; i <= x.n; i++) s += " " + (i == 1 && !strcmp(x.t, "Upgrade") ? uuid_tok(col(r, 1)) : tok(col(r, (guint)i))); R.push_back(s); }, R);
    if (has("IniFile")) each(db, "SELECT `IniFile`, `Action` FROM `IniFile`", [&](L r) { std::string i = col(r, 1); R.push_back("X IniFile " + pct(i) + " " + inum(r, 2)); }, R);
    for (auto t : {"AdminExecuteSequence", "AdminUISequence", "AdvtExecuteSequence", "InstallExecuteSequence", "InstallUISequence"}) if (has(t)) {
        std::map<std::string, int> pos; std::map<std::string, std::string> cond; each(db, (std::string("SELECT `Action`, `Condition`, `Sequence` FROM `") + t + "`").c_str(), [&](L r) { pos[col(r, 1)] = libmsi_record_get_int(r, 3); cond[col(r, 1)] = col(r, 2); }, R);
        for (auto &p : pos) { std::string how = std::to_string(p.second); if (p.first == "RemoveExistingProducts") how = p.second > pos["InstallValidate"] ? "right" : "wrong";
            else if (p.first.compare(0, 2, "CA") == 0) { size_t a = p.first.find('.'), b = p.first.find('.', a + 1); std::string wh = p.first.substr(a + 1, b - a - 1), to = p.first.substr(b + 1); int at = -99999; for (auto &y : pos) if (y.first == to || (to.compare(0, 2, "CA") == 0 && y.first.compare(0, to.size() + 1, to + ".") == 0)) at = y.second; how = wh == "Sequence" ? (p.second == atoi(to.c_str()) ? "right" : "wrong") : at == -99999 ? "unbound" : (wh == "After" ? p.second > at : p.second < at) ? "right" : "wrong " + std::to_string(p.second); }
            R.push_back("Q " + std::string(t) + " " + tok(p.first) + " " + tok(cond[p.first]) + " " + how); }
    }
    LibmsiSummaryInfo *si = libmsi_summary_info_new(db, 0, &e); if (!si) { R.push_back("no summary"); g_clear_error(&e); } else { std::string s = "S"; for (int p : {3, 4, 5, 6}) s += " " + tok(libmsi_summary_info_get_string(si, (LibmsiProperty)p, NULL) ?: ""); R.push_back(s); g_object_unref(si); }
    g_object_unref(db);
}
static const std::string SRC = "wx"; // where source trees are
static const WxFacts &wx_place(const std::string &seed, int bad) { const WxFacts &F = wx_facts(SRC, (u32)atoi(seed.c_str()), bad); clear_dir("/sim/w/" + SRC + "/"); mkdirs("/sim/w/" + SRC); for (auto &f : F.put) sim_put("/sim/w/" + SRC + "/" + f.first, f.second); return F; }
static void wx_remove() { clear_dir("/sim/w/" + SRC + "/"); sim_purge("/sim/w/" + SRC); }
void tool_op(const Op &op, std::string &out) {
    const auto &t = op.t; const std::string &k = t[0];
    if (k == "mb") {
        auto a = mb_args(op); for (auto &x : a) if (x == "\x01sql") x = file("/sim/sql");
        out = status(run_tool("msibuild", a, "", false)); return;
    }
    if (k == "info") { // info CMD f|p PATH [arg]
        std::string c = t[1]; std::vector<std::string> a; if (c == "sql") { a = {"export", "-s"}; } else a.push_back(c); a.push_back(t[3]); for (size_t i = 4; i < t.size(); i++) a.push_back(unpct(t[i]));
        int x = run_tool("msiinfo", a, "", t[2] == "f"); out = status(x); std::string o = file("/sim/stdout"); if (x) return;
        if (c == "extract") out += "\x01" + canon_bin(o.data(), o.size());
        else if (c == "export") { for (auto &l : archive_lines(o)) out += "\x01" + l; }
        else if (c == "sql") { sim_del("/sim/sql"); sim_put("/sim/sql", o); }
        else if (c == "streams") { for (auto &l : lines_of(o)) if (l.compare(0, 6, "l%05Su")) out += "\x01" + l; }
        else for (auto &l : lines_of(o)) out += "\x01" + l;
        return;
    }
    if (k == "heat") { // heat SEED: a list of paths, some of them there
        const HeatFacts &F = heat_facts((u32)atoi(t[1].c_str())); clear_dir("/sim/w/");
        for (auto &d : F.dirs) mkdirs("/sim/w/" + d); for (auto &f : F.put) sim_put("/sim/w/" + f.first, f.second);
        std::set<std::string> before; for (auto &f : sim_list("/sim/w/")) before.insert(f);
        int x = run_tool("wixl-heat", F.args, F.in, false, true); out = status(x); std::string o = file("/sim/stdout");
        for (auto &f : sim_list("/sim/w/")) if (!before.erase(f)) breach(out, f); for (auto &f : before) breach(out, f);
        clear_dir("/sim/w/"); if (x) return;
        xmlDocPtr d = xmlReadMemory(o.data(), (int)o.size(), "heat", NULL, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING); if (!d) { out += "\x01not XML"; return; }
        std::vector<std::string> rows; std::map<std::string, std::string> src; std::set<std::string> ids; heat_walk(xmlDocGetRootElement(d), "", rows, src, ids); xmlFreeDoc(d);
        for (auto &r : rows) out += "\x01" + r; return;
    }
    if (k == "wixl") { // wixl OUT SEED BAD
        const WxFacts *F; { Quiet q; F = &wx_place(t[2], atoi(t[3].c_str())); }
        std::vector<std::string> a = F->args; a.insert(a.begin(), {"-o", t[1]}); out = status(run_tool("wixl", a, "", false)); Quiet q;
        std::set<std::string> have; for (auto &f : sim_list("/sim/w/wx/")) if (!sim_is_dir(f)) { have.insert(f.substr(10)); std::string d; sim_get(f, d); auto it = F->put.find(f.substr(10)); if (it == F->put.end() || it->second != d) breach(out, f + " (a source file)"); }
        if (have.size() != F->put.size()) breach(out, "a source file"); wx_remove(); return;
    }
    if (k == "wxlook") { // wxlook OUT: what is there
        Quiet q; std::vector<std::string> R; if (!sim_exists("/sim/w/" + t[1])) R.push_back("absent"); else wx_read(t[1], R); out = "ok"; for (auto &r : R) out += "\x01" + r; return;
    }
    if (k == "twice") { // twice SEED: the same sources built again, and later by another machine
        u64 r0, r1; s64 c0, c1; const WxFacts *F; { Quiet q; F = &wx_place(t[1], 0); r0 = G->rnd; c0 = G->clock_us; } std::string d[3], g[3]; u32 f0 = 0; for (u32 i = 0; i < G->nfault; i++) f0 += G->fired[i];
        for (int i = 0; i < 3; i++) {
            G->rnd = i < 2 ? r0 : r0 * 31 + 7; G->clock_us = i < 2 ? c0 : c0 + 86400000000LL * 400; std::vector<std::string> a = F->args; std::string o = "tw" + std::to_string(i) + ".msi"; a.insert(a.begin(), {"-o", i < 2 ? "tw.msi" : o});
            { Quiet q; for (auto n : {"tw.msi", "tw2.msi", "tw.msi.tmp"}) sim_purge(std::string("/sim/w/") + n); } std::vector<void *> junk; if (i) for (u32 z = 0; z < 300 + 100 * (u32)i; z++) junk.push_back(malloc(16 + z * 37 % 400)); for (size_t z = 0; z < junk.size(); z += 1 + z % 3) { free(junk[z]); junk[z] = nullptr; } // other addresses in the second build
            int x = run_tool("wixl", a, "", false); for (void *z : junk) free(z); if (i == 0) r1 = G->rnd, c1 = G->clock_us; if (x) { out = status(x); break; }
            Quiet q; sim_get("/sim/w/" + (i < 2 ? std::string("tw.msi") : o), d[i]); std::vector<std::string> R; wx_read(i < 2 ? "tw.msi" : o, R, &g[i]);
        }
        Quiet q; G->rnd = r1; G->clock_us = c1; for (auto n : {"tw.msi", "tw2.msi"}) sim_purge(std::string("/sim/w/") + n); wx_remove(); if (!out.empty()) return; u32 f1 = 0; for (u32 i = 0; i < G->nfault; i++) f1 += G->fired[i]; (void)f1;
        out = "ok"; if (d[0] != d[1]) out += "\x01" "differs"; if (g[0] != g[1] || g[0] != g[2]) out += "\x01" "other component identifiers"; return;
    }
    if (k == "wxx") { // wxx PKG SEED l|x f|p: msiextract
        std::map<std::string, std::string> before; { Quiet q; clear_dir("/sim/w/out/"); sim_purge("/sim/w/out"); if (atoi(t[2].c_str()) & 1) sim_mkdir("/sim/w/out"); for (auto &f : sim_list("/sim/w/")) { std::string d; if (!sim_is_dir(f)) sim_get(f, d); before[f] = d; } }
        std::vector<std::string> a = {"-C", "out", t[1]}; if (t[3] == "l") a = {"--list", t[1]};
        int x = run_tool("msiextract", a, "", t[4] == "f"); out = status(x); Quiet q; std::map<std::string, std::string> got;
        for (auto &f : sim_list("/sim/w/")) { std::string d; bool dir = sim_is_dir(f); if (!dir) sim_get(f, d); auto it = before.find(f); bool was = it != before.end(); if (was && it->second == d) before.erase(it); else if (f.compare(0, 11, "/sim/w/out/") == 0) { if (!dir) got[f.substr(11)] = d; } else if (f != "/sim/w/out") breach(out, f); }
        for (auto &f : before) breach(out, f.first); clear_dir("/sim/w/out/"); sim_purge("/sim/w/out"); if (x) return;
        for (auto &l : lines_of(file("/sim/stdout"))) out += "\x01o " + l; for (auto &f : got) out += "\x01x " + pct(f.first) + " " + canon_bin(f.second.data(), f.second.size()); return;
    }
    out = "badop";
}
#endif
