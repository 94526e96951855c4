// Runs operations against the real libmsi inside the simulated machine and
// logs one line per result.
#include "model.h"
#include "tools.h"
#include <gio/gio.h>
#include <libmsi.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>

static std::map<std::string, LibmsiDatabase *> dbs; static std::map<std::string, std::string> dbpath;
struct Q { LibmsiQuery *q = NULL; std::vector<char> types; std::vector<std::string> params; bool done = false; std::string op; LibmsiRecord *prec = NULL; };
static std::map<std::string, Q> qs;
static std::map<std::string, LibmsiSummaryInfo *> sis;
static std::map<std::string, GInputStream *> strms;
static std::map<std::string, LibmsiRecord *> keptrec;
static u32 cur_id;
static std::string out;
static u32 ncrit;
static std::string critmsg;

static void logfn(const gchar *dom, GLogLevelFlags lvl, const gchar *msg, gpointer) {
    if (lvl & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR)) {
        bool api = dom && (!strcmp(dom, "GLib") || !strcmp(dom, "GLib-GObject") || !strcmp(dom, "GLib-GIO") || !strncmp(dom, "libgsf", 6));
        if (msg && strstr(msg, "assertion") ) api = true;
        if (msg && !strncmp(msg, "ole_", 4)) api = false; // libgsf itself, about chains it could not read
        if (msg && strstr(msg, "tracking of file descriptors")) api = false; // GLib closes a file again whose close failed
        if (api && !ncrit++) critmsg = msg ? msg : "";
    }
}
u32 exec_ncrit(std::string *m) { *m = critmsg.empty() ? "?" : critmsg; return ncrit; }
void exec_crit_from_child(const std::string &m) { if (!ncrit++) critmsg = m; }
static void emit(const std::string &s) { out += s; }
static void done() {
    std::string l = std::to_string(g_actor) + ":" + std::to_string(cur_id) + " " + out;
    if (ncrit) l += " !crit[" + pct(critmsg) + "]";
    l += "\n"; sim_log(l); out.clear(); ncrit = 0;
}
static std::string errs(bool ok, GError *e) {
    std::string r = ok ? "ok" : "err";
    if (!ok && !e) r += "!noerror";
    if (ok && e) r += "!error";
    if (!ok && e) r += std::string(":") + (e->message && *e->message ? "m" : "nomsg");
    if (e) g_error_free(e);
    return r;
}
static void set_param(LibmsiRecord *rec, guint i, const std::string &tok) {
    Val v = val_parse(tok);
    switch (v.k) {
    case Val::NUL: break;
    case Val::INT: libmsi_record_set_int(rec, i, (gint)v.i); break;
    case Val::STR: libmsi_record_set_string(rec, i, v.s.c_str()); break;
    case Val::BIN: {
        GInputStream *in = g_memory_input_stream_new_from_data(g_memdup2(v.s.data(), v.s.size() ? v.s.size() : 1), (gssize)v.s.size(), g_free);
        GError *e = NULL;
        gboolean b = libmsi_record_set_stream(rec, i, in, v.s.size(), NULL, &e);
        if (!b) emit("[setstream " + errs(b, e) + "]"); else if (e) { emit("[setstream ok!error]"); g_error_free(e); }
        g_object_unref(in);
        break;
    }
    }
}
static LibmsiRecord *mkrec(const std::vector<std::string> &p, size_t from = 0, bool always = false) {
    if (p.size() <= from && !always) return NULL;
    LibmsiRecord *r = libmsi_record_new((guint)(p.size() - from));
    for (size_t i = from; i < p.size(); i++) set_param(r, (guint)(i - from + 1), p[i]);
    return r;
}
// reads a whole stream; appends !short when an error happened
static bool read_all(GInputStream *s, std::string &o, u32 chunk = 5000) {
    std::vector<char> b(chunk);
    for (;;) {
        GError *e = NULL;
        gssize n = g_input_stream_read(s, b.data(), chunk, NULL, &e);
        if (n < 0) { if (!e) emit("!readnoerror"); else g_error_free(e); return false; }
        if (e) { emit("!readerrorset"); g_error_free(e); }
        if (n == 0) return true;
        o.append(b.data(), (size_t)n);
        if (o.size() > (200u << 20)) { emit("!endless"); return false; }
    }
}
static bool col_types(LibmsiQuery *q, std::vector<char> &types) {
    GError *e = NULL;
    LibmsiRecord *r = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_TYPES, &e);
    if (!r) { emit(std::string("[colinfo ") + errs(false, e) + "]"); return false; }
    if (e) { emit("[colinfo ok!error]"); g_error_free(e); }
    guint n = libmsi_record_get_field_count(r);
    types.clear();
    for (guint i = 1; i <= n; i++) { gchar *s = libmsi_record_get_string(r, i); char c = s && *s ? (char)g_ascii_tolower(*s) : 's'; types.push_back(c == 'v' ? 'v' : (c == 'i' || c == 'j') ? 'i' : 's'); g_free(s); }
    g_object_unref(r);
    return true;
}
static std::string cell(LibmsiRecord *r, guint i, char type) {
    if (libmsi_record_is_null(r, i)) return "n";
    if (type == 'v') {
        GInputStream *s = libmsi_record_get_stream(r, i);
        if (!s) return "!nostream";
        std::string d; bool ok = read_all(s, d); g_object_unref(s);
        return ok ? canon_bin(d.data(), d.size()) : "!readerr";
    }
    if (type == 'i') return "i" + std::to_string(libmsi_record_get_int(r, i));
    gchar *s = libmsi_record_get_string(r, i); std::string c = canon_str(s); g_free(s); return c;
}
static std::string row_text(LibmsiRecord *r, const std::vector<char> &types) {
    std::string t; guint n = libmsi_record_get_field_count(r);
    if (n != types.size()) t += "!fields" + std::to_string(n);
    for (guint i = 1; i <= n; i++) { if (i > 1) t += ","; t += cell(r, i, i <= types.size() ? types[i - 1] : 's'); }
    return t;
}
// fetch up to max rows (-1: all); returns 0 more, 1 end, 2 error
static int fetch_rows(LibmsiQuery *q, const std::vector<char> &types, long max, std::vector<std::string> &rows) {
    while (max < 0 || (long)rows.size() < max) {
        GError *e = NULL;
        LibmsiRecord *r = libmsi_query_fetch(q, &e);
        if (!r) {
            if (e) { g_error_free(e); return 2; }
            return 1;
        }
        if (e) { emit("!fetcherrset"); g_error_free(e); }
        rows.push_back(row_text(r, types));
        g_object_unref(r);
        if (rows.size() > 300000) { emit("!endless"); return 2; }
    }
    return 0;
}
static bool run_sql(LibmsiDatabase *db, const std::string &sql, LibmsiRecord *rec, std::vector<std::string> *rows, std::vector<char> *ty = NULL) {
    GError *e = NULL; bool ok = false;
    LibmsiQuery *q = libmsi_query_new(db, sql.c_str(), &e);
    if (!q) { emit(errs(false, e)); return false; }
    if (e) { emit("new!error"); g_clear_error(&e); }
    ok = libmsi_query_execute(q, rec, &e);
    if (!ok) { emit(errs(false, e)); }
    else {
        if (e) { emit("exec!error "); g_clear_error(&e); }
        if (rows) {
            std::vector<char> types; if (!col_types(q, types)) { emit("err:m"); ok = false; }
            else { int f = fetch_rows(q, types, -1, *rows); if (f == 2) { emit("err:fetch"); ok = false; } if (ty) *ty = types; }
        }
        if (ok) {
            bool c = libmsi_query_close(q, &e);
            if (!c || e) { emit("[close " + errs(c, e) + "]"); e = NULL; }
        }
    }
    g_object_unref(q);
    return ok;
}
static std::vector<std::string> rows_of(LibmsiDatabase *db, const std::string &sql, bool &ok) { std::vector<std::string> r; ok = run_sql(db, sql, NULL, &r); return r; }
static std::string join(const std::vector<std::string> &v, const char *sep) { std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }

static std::string si_text(LibmsiSummaryInfo *s, bool &ok) {
    std::string r; ok = true;
    for (int p = 1; p <= 19; p++) {
        GError *e = NULL; LibmsiPropertyType t = libmsi_summary_info_get_property_type(s, (LibmsiProperty)p, &e);
        if (e) { g_error_free(e); ok = false; r += " p" + std::to_string(p) + "=!err"; continue; }
        if (t == LIBMSI_PROPERTY_TYPE_EMPTY) continue;
        std::string v; e = NULL;
        if (t == LIBMSI_PROPERTY_TYPE_INT) v = "i" + std::to_string(libmsi_summary_info_get_int(s, (LibmsiProperty)p, &e));
        else if (t == LIBMSI_PROPERTY_TYPE_STRING) { const gchar *x = libmsi_summary_info_get_string(s, (LibmsiProperty)p, &e); v = x ? (*x ? canon_str(x) : "sEMPTY") : "null"; }
        else if (t == LIBMSI_PROPERTY_TYPE_FILETIME) v = "t" + std::to_string(libmsi_summary_info_get_filetime(s, (LibmsiProperty)p, &e));
        else v = "?";
        if (e) { g_error_free(e); v += "!err"; }
        r += " p" + std::to_string(p) + "=" + v;
    }
    return r;
}

static bool dump_db(LibmsiDatabase *db, bool streams = true) {
    bool ok; std::vector<std::string> L;
    auto tabs = rows_of(db, "SELECT `Name` FROM `_Tables`", ok); if (!ok) return false;
    auto cols = rows_of(db, "SELECT `Table`, `Number`, `Name`, `Type` FROM `_Columns`", ok); if (!ok) return false;
    std::sort(tabs.begin(), tabs.end()); std::sort(cols.begin(), cols.end());
    for (auto &c : cols) L.push_back("C " + c);
    for (auto &t : tabs) {
        std::string n = t.size() > 1 && t[0] == 's' ? unpct(t.substr(1)) : t;
        std::string l = "T " + t;
        GError *e = NULL; LibmsiRecord *pk = libmsi_database_get_primary_keys(db, n.c_str(), &e);
        if (!pk) { emit("[pk " + errs(false, e) + "]err"); return false; }
        for (guint i = 1; i <= libmsi_record_get_field_count(pk); i++) { gchar *s = libmsi_record_get_string(pk, i); l += " " + std::string(s ? s : "?"); g_free(s); }
        g_object_unref(pk);
        L.push_back(l);
        auto rows = rows_of(db, "SELECT * FROM `" + n + "`", ok); if (!ok) return false;
        std::sort(rows.begin(), rows.end());
        for (auto &r : rows) L.push_back("R " + t + " " + r);
    }
    if (streams) {
        auto st = rows_of(db, "SELECT `Name`, `Data` FROM `_Streams`", ok); if (!ok) return false;
        std::sort(st.begin(), st.end());
        for (auto &s : st) if (s.compare(0, 6, "s%05Su") ) L.push_back("S " + s);
        auto sg = rows_of(db, "SELECT `Name` FROM `_Storages`", ok); if (!ok) return false;
        std::sort(sg.begin(), sg.end());
        for (auto &s : sg) L.push_back("G " + s);
    }
    GError *e = NULL; LibmsiSummaryInfo *si = libmsi_summary_info_new(db, 0, &e);
    if (!si) { emit("[si " + errs(false, e) + "]err"); return false; }
    if (e) { emit("si!error"); g_clear_error(&e); }
    std::string t = si_text(si, ok); g_object_unref(si);
    if (!ok) { emit("err:si"); return false; }
    L.push_back("I" + t);
    for (auto &l : L) emit("\x01" + l);
    return true;
}

static void do_op(const Op &op) {
    const auto &t = op.t; const std::string &k = t[0];
    GError *e = NULL;
#ifdef WITH_TOOLS
    if (is_tool_op(k)) { tool_op(op, out); return; }
#endif
    auto db = [&](size_t i = 1) -> LibmsiDatabase * { auto it = dbs.find(t[i]); return it == dbs.end() ? NULL : it->second; };
    if (k == "open") {
        LibmsiDatabase *d = libmsi_database_new(t[2].c_str(), (guint)atoi(t[3].c_str()), t.size() > 4 && t[4] != "-" ? t[4].c_str() : NULL, &e);
        emit(errs(d != NULL, e));
        if (d) { if (dbs.count(t[1])) g_object_unref(dbs[t[1]]); dbs[t[1]] = d; dbpath[t[1]] = t[2]; }
        return;
    }
    if (k == "cat") { // host looks at an archive
        std::string b; if (!sim_get("/sim/w/" + t[1], b)) { emit("err:nofile"); return; }
        emit("ok"); for (auto &l : archive_lines(b)) emit("\x01" + l); return;
    }
    if (k == "file") { // host puts a file
        sim_put("/sim/w/" + t[1], val_parse(t[2]).s); emit("ok"); return;
    }
    if (k == "damage") { // the file as it was first, or as it is
        std::string d, o = "/sim/orig/" + t[1]; u32 seed = (u32)strtoul(t[2].c_str(), NULL, 10); if (!sim_get("/sim/w/" + t[1], d)) { emit("ok"); return; }
        if (!sim_exists(o)) sim_put(o, d); else if (seed % 5) sim_get(o, d);
        sim_put("/sim/w/" + t[1], damage(d, seed)); emit("ok"); return;
    }
    if (k == "ole") { sim_put("/sim/w/" + t[1], gen_ole((u32)atoi(t[2].c_str()))); emit("ok"); return; } // host puts a compound file
    if (k == "qf") {
        auto it = qs.find(t[1]); if (it == qs.end()) { emit("noq"); return; }
        std::vector<std::string> rows; int f = fetch_rows(it->second.q, it->second.types, atol(t[2].c_str()), rows);
        emit(f == 2 ? "err:fetch" : f == 1 ? "end" : "more"); for (auto &r : rows) emit("\x01" + r);
        return;
    }
    if (k == "qre" || k == "qre!") { // qre! does not close first
        auto it = qs.find(t[1]); if (it == qs.end()) { emit("noq"); return; }
        if (k == "qre") { bool c = libmsi_query_close(it->second.q, &e); if (!c || e) emit("[close " + errs(c, e) + "]"); e = NULL; }
        LibmsiRecord *r = t.size() > 2 ? mkrec(t, 2) : mkrec(it->second.params);
        bool ok = libmsi_query_execute(it->second.q, r, &e); if (r) g_object_unref(r);
        emit(errs(ok, e)); return;
    }
    if (k == "qclose") {
        auto it = qs.find(t[1]); if (it == qs.end()) { emit("noq"); return; }
        bool ok = true; if (t.size() < 3) ok = libmsi_query_close(it->second.q, &e);
        emit(errs(ok, e)); g_object_unref(it->second.q); qs.erase(it); return;
    }
    if (k == "sis" || k == "sigets" || k == "sipersist" || k == "sisave" || k == "siclose") {
        auto it = sis.find(t[1]); if (it == sis.end()) { emit("nosi"); return; }
        LibmsiSummaryInfo *s = it->second;
        if (k == "sis") {
            int p = atoi(t[2].c_str()); bool ok;
            if (t[3][0] == 't') ok = libmsi_summary_info_set_filetime(s, (LibmsiProperty)p, strtoull(t[3].c_str() + 1, NULL, 10), &e);
            else { Val v = val_parse(t[3]); ok = v.k == Val::INT ? libmsi_summary_info_set_int(s, (LibmsiProperty)p, (gint)v.i, &e) : libmsi_summary_info_set_string(s, (LibmsiProperty)p, v.k == Val::NUL ? NULL : v.s.c_str(), &e); }
            emit(errs(ok, e));
        } else if (k == "sigets") { bool ok; std::string x = si_text(s, ok); emit(ok ? "ok" : "err:m"); emit("\x01I" + x); }
        else if (k == "sipersist") { bool ok = libmsi_summary_info_persist(s, &e); emit(errs(ok, e)); }
        else if (k == "sisave") { bool ok = libmsi_summary_info_save(s, db(2), &e); emit(errs(ok, e)); }
        else { g_object_unref(s); sis.erase(it); emit("ok"); }
        return;
    }
    if (k == "tread" || k == "tseek" || k == "tclose" || k == "tskip") {
        auto it = strms.find(t[1]); if (it == strms.end()) { emit("nostrm"); return; }
        GInputStream *s = it->second;
        if (k == "tread") {
            u32 n = (u32)atoi(t[2].c_str()); std::string b(n ? n : 1, 0);
            gssize r = g_input_stream_read(s, &b[0], n, NULL, &e);
            if (r < 0) { emit(errs(false, e)); return; }
            emit("ok " + std::to_string(r) + " " + canon_bin(b.data(), (size_t)r) + " @" + std::to_string(g_seekable_tell(G_SEEKABLE(s))));
        } else if (k == "tskip") {
            gssize r = g_input_stream_skip(s, (gsize)atoi(t[2].c_str()), NULL, &e);
            if (r < 0) { emit(errs(false, e)); return; }
            emit("ok " + std::to_string(r) + " @" + std::to_string(g_seekable_tell(G_SEEKABLE(s))));
        } else if (k == "tseek") {
            GSeekType w = t[3] == "set" ? G_SEEK_SET : t[3] == "cur" ? G_SEEK_CUR : G_SEEK_END;
            gboolean r = g_seekable_seek(G_SEEKABLE(s), atoll(t[2].c_str()), w, NULL, &e);
            if (e) g_error_free(e);
            emit(std::string(r ? "ok" : "err") + " @" + std::to_string(g_seekable_tell(G_SEEKABLE(s))));
        } else { g_object_unref(s); strms.erase(it); emit("ok"); }
        return;
    }
    if (k == "recdrop") { auto it = keptrec.find(t[1]); if (it != keptrec.end()) { g_object_unref(it->second); keptrec.erase(it); } emit("ok"); return; }
    LibmsiDatabase *d = k == "qopen" ? NULL : db();
    if (k == "qopen") { // qopen 0:Q(1 H encoded as Q@H)
        auto w = split(t[1], '@'); auto it = dbs.find(w[1]); if (it == dbs.end()) { emit("nodb"); return; }
        std::vector<std::string> P; std::string sql = sql_of(op, &P);
        LibmsiQuery *qq = libmsi_query_new(it->second, sql.c_str(), &e);
        if (!qq) { emit(errs(false, e)); return; }
        if (e) { emit("new!error"); g_clear_error(&e); }
        LibmsiRecord *r = mkrec(P);
        bool ok = libmsi_query_execute(qq, r, &e); if (r) g_object_unref(r);
        emit(errs(ok, e));
        if (!ok) { g_object_unref(qq); return; }
        Q x; x.q = qq; x.params = P; if (!col_types(qq, x.types)) { emit(" err"); g_object_unref(qq); return; }
        if (qs.count(w[0])) g_object_unref(qs[w[0]].q);
        qs[w[0]] = x; return;
    }
    if (!d) { emit("nodb"); return; }
    if (k == "commit") { bool ok = libmsi_database_commit(d, &e); emit(errs(ok, e)); return; }
    if (k == "close") { dbs.erase(t[1]); g_object_unref(d); emit("ok"); return; }
    if (k == "isro") { emit(libmsi_database_is_readonly(d) ? "ro" : "rw"); return; }
    if (k == "persist?") { bool b = libmsi_database_is_table_persistent(d, t[2].c_str(), &e); if (e) { g_error_free(e); emit("err:m"); } else emit(b ? "yes" : "no"); return; }
    if (k == "create" || k == "drop" || k == "add" || k == "hold" || k == "free" || k == "ins" || k == "upd" || k == "del") {
        std::vector<std::string> P; std::string sql = sql_of(op, &P); LibmsiRecord *r = mkrec(P);
        if (run_sql(d, sql, r, NULL)) emit("ok");
        if (r) g_object_unref(r);
        return;
    }
    if (k == "fill") { // fill H T from n val|+prefix : n rows with keys from.. through one query
        LibmsiQuery *q = libmsi_query_new(d, ("INSERT INTO `" + t[2] + "` (`k`, `v`) VALUES (?, ?)").c_str(), &e);
        if (!q) { emit(errs(false, e)); return; }
        s64 from = atoll(t[3].c_str()), n = atoll(t[4].c_str()); bool ok = true;
        for (s64 i = 0; ok && i < n; i++) {
            LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_int(r, 1, (gint)(from + i));
            if (t[5][0] == '+') libmsi_record_set_string(r, 2, (t[5].substr(1) + std::to_string(from + i)).c_str()); else set_param(r, 2, t[5]);
            ok = libmsi_query_execute(q, r, &e) && (i % 2 || libmsi_query_close(q, &e)); g_object_unref(r);
        }
        emit(errs(ok, e)); g_object_unref(q); return;
    }
    if (k == "bad") { // bad H sql params... : has to fail
        LibmsiRecord *r = mkrec(t, 3);
        if (run_sql(d, unpct(t[2]), r, NULL)) emit("ok");
        if (r) g_object_unref(r);
        return;
    }
    if (k == "api") { // api H what arg : calls that have to fail
        const std::string &w = t[2]; std::string a = t.size() > 3 ? unpct(t[3]) : "";
        if (w == "pk") { LibmsiRecord *r = libmsi_database_get_primary_keys(d, a.c_str(), &e); emit(errs(r != NULL, e)); if (r) g_object_unref(r); }
        else if (w == "persist") { bool b = libmsi_database_is_table_persistent(d, a.c_str(), &e); emit(errs(b, e)); }
        else if (w == "imp") { bool b = libmsi_database_import(d, a.c_str(), &e); emit(errs(b, e)); }
        else if (w == "exp") { int fd = open("/sim/w/null.idt", O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) { emit("err:m"); return; } bool b = libmsi_database_export(d, a.c_str(), fd, &e); emit(errs(b, e)); close(fd); unlink("/sim/w/null.idt"); }
        else if (w == "new") { size_t c = a.find(':'); LibmsiDatabase *x = libmsi_database_new(a.substr(c + 1).c_str(), (guint)atoi(a.c_str()), NULL, &e); emit(errs(x != NULL, e)); if (x) g_object_unref(x); }
        else if (w == "load") { LibmsiRecord *r = libmsi_record_new(1); bool b = libmsi_record_load_stream(r, 1, a.c_str()); emit(b ? "ok" : "err:m"); g_object_unref(r); }
        else if (w == "apply") { bool b = libmsi_database_apply_transform(d, a.c_str(), &e); emit(errs(b, e)); }
        else emit("badop");
        return;
    }
    if (k == "qapi") { // qapi H sql steps params... : one query driven in any order
        LibmsiQuery *q = libmsi_query_new(d, unpct(t[2]).c_str(), &e);
        if (!q) { emit(errs(false, e)); return; }
        if (e) { emit("new!error"); g_clear_error(&e); }
        for (char c : t[3]) {
            e = NULL; LibmsiRecord *r = NULL;
            if (c == 'e') { r = mkrec(t, 4); bool b = libmsi_query_execute(q, r, &e); if (b && e) emit("exec!error "); if (!b && !e) emit("!noerror"); g_clear_error(&e); }
            else if (c == 'f') { r = libmsi_query_fetch(q, &e); if (r && e) emit("!fetcherrset"); g_clear_error(&e); }
            else if (c == 'c') { bool b = libmsi_query_close(q, &e); if (b && e) emit("!error"); if (!b && !e) emit("!noerror"); g_clear_error(&e); }
            else if (c == 'n' || c == 't') { r = libmsi_query_get_column_info(q, c == 'n' ? LIBMSI_COL_INFO_NAMES : LIBMSI_COL_INFO_TYPES, &e); if (r && e) emit("!error"); if (!r && !e) emit("!noerror"); g_clear_error(&e); }
            else if (c == 'g') { gchar *col = NULL; libmsi_query_get_error(q, &col, &e); g_clear_error(&e); g_free(col); }
            if (r) g_object_unref(r);
        }
        g_object_unref(q); emit("ok"); return;
    }
    if (k == "raw") { // raw H sql params...
        LibmsiRecord *r = mkrec(t, 3);
        if (run_sql(d, unpct(t[2]), r, NULL)) emit("ok");
        if (r) g_object_unref(r);
        return;
    }
    if (k == "rawsel") {
        LibmsiRecord *r = mkrec(t, 3); std::vector<std::string> rows;
        if (run_sql(d, unpct(t[2]), r, &rows)) { emit("ok"); for (auto &x : rows) emit("\x01" + x); }
        if (r) g_object_unref(r);
        return;
    }
    if (k == "sel") {
        std::vector<std::string> P; std::string sql = sql_of(op, &P); LibmsiRecord *r = mkrec(P);
        std::vector<std::string> rows; if (run_sql(d, sql, r, &rows)) { emit("ok"); for (auto &x : rows) emit("\x01" + x); }
        if (r) g_object_unref(r);
        return;
    }
    if (k == "colinfo") { // colinfo H cols tables : names and types
        LibmsiQuery *qq = libmsi_query_new(d, ("SELECT * FROM `" + t[2] + "`").c_str(), &e);
        if (!qq) { emit(errs(false, e)); return; }
        for (int w = 0; w < 2; w++) {
            LibmsiRecord *r = libmsi_query_get_column_info(qq, w ? LIBMSI_COL_INFO_TYPES : LIBMSI_COL_INFO_NAMES, &e);
            if (!r) { emit(errs(false, e)); g_object_unref(qq); return; }
            if (!w) emit("ok");
            for (guint i = 1; i <= libmsi_record_get_field_count(r); i++) { gchar *s = libmsi_record_get_string(r, i); emit(" " + std::string(s ? s : "?")); g_free(s); }
            g_object_unref(r);
        }
        g_object_unref(qq); return;
    }
    if (k == "sput" || k == "srepl") { // sput H name val
        std::string n = unpct(t[2]); std::vector<std::string> P;
        std::string sql;
        if (k == "sput") { sql = "INSERT INTO `_Streams` (`Name`, `Data`) VALUES (?, ?)"; P = {"s" + t[2], t[3]}; }
        else { sql = "UPDATE `_Streams` SET `Data` = ? WHERE `Name` = ?"; P = {t[3], "s" + t[2]}; }
        LibmsiRecord *r = mkrec(P); if (run_sql(d, sql, r, NULL)) emit("ok"); g_object_unref(r); return;
    }
    if (k == "sputf") { // from a file
        LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, unpct(t[2]).c_str());
        if (!libmsi_record_load_stream(r, 2, t[3].c_str())) { emit("err:load"); g_object_unref(r); return; }
        if (run_sql(d, "INSERT INTO `_Streams` (`Name`, `Data`) VALUES (?, ?)", r, NULL)) emit("ok"); g_object_unref(r); return;
    }
    if (k == "gput") {
        LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, unpct(t[2]).c_str());
        if (!libmsi_record_load_stream(r, 2, t[3].c_str())) { emit("err:load"); g_object_unref(r); return; }
        if (run_sql(d, "INSERT INTO `_Storages` (`Name`, `Data`) VALUES (?, ?)", r, NULL)) emit("ok"); g_object_unref(r); return;
    }
    if (k == "gdump") { // storages of the package file itself
        std::string b; if (!sim_get("/sim/w/" + dbpath[t[1]], b)) { emit("err:gone"); return; }
        bool allok = true, ok; std::vector<std::string> L, n = rows_of(d, "SELECT `Name` FROM `_Storages`", ok); if (!ok) { emit("err:m"); return; }
        for (auto &x : n) { std::string nm = unpct(x.substr(1)); for (auto &y : ole_list(b, nm, ok)) L.push_back(pct(nm) + ": " + pct(y)); if (!ok) { allok = false; L.push_back(pct(nm) + " unreadable"); } }
        (void)allok; emit("ok"); std::sort(L.begin(), L.end()); for (auto &y : L) emit("\x01" + y); return;
    }
    if (k == "sdel" || k == "gdel") {
        LibmsiRecord *r = mkrec({"s" + t[2]}); if (run_sql(d, std::string("DELETE FROM `") + (k == "sdel" ? "_Streams" : "_Storages") + "` WHERE `Name` = ?", r, NULL)) emit("ok"); g_object_unref(r); return;
    }
    if (k == "sget") {
        LibmsiRecord *r = mkrec({"s" + t[2]}); std::vector<std::string> rows;
        if (run_sql(d, "SELECT `Data` FROM `_Streams` WHERE `Name` = ?", r, &rows)) { emit("ok"); for (auto &x : rows) emit("\x01" + x); } g_object_unref(r); return;
    }
    if (k == "dump") { out.clear(); std::string keep; if (dump_db(d)) out = "ok" + out; else out = "err " + out.substr(0, 200); return; }
    if (k == "dumpns") { out.clear(); if (dump_db(d, false)) out = "ok" + out; else out = "err " + out.substr(0, 200); return; }
    if (k == "topen") { // topen H S sql-ish: table col cond
        Op s2; s2.t = {"sel", t[1], "0", t[4], t[3], t[5], "-"}; std::vector<std::string> P; std::string sql = sql_of(s2, &P);
        LibmsiQuery *qq = libmsi_query_new(d, sql.c_str(), &e); if (!qq) { emit(errs(false, e)); return; }
        LibmsiRecord *r = mkrec(P); bool ok = libmsi_query_execute(qq, r, &e); if (r) g_object_unref(r);
        if (!ok) { emit(errs(ok, e)); g_object_unref(qq); return; }
        LibmsiRecord *row = libmsi_query_fetch(qq, &e);
        if (!row) { if (e) { emit("err:m"); g_error_free(e); } else emit("norow"); g_object_unref(qq); return; }
        if (libmsi_record_is_null(row, 1)) emit("null");
        else {
            GInputStream *s = libmsi_record_get_stream(row, 1);
            if (!s) emit("nostream"); else { if (strms.count(t[2])) g_object_unref(strms[t[2]]); strms[t[2]] = s; emit("ok"); }
        }
        if (t.size() > 6 && t[6] == "keep") { if (keptrec.count(t[2])) g_object_unref(keptrec[t[2]]); keptrec[t[2]] = row; } else g_object_unref(row);
        g_object_unref(qq); return;
    }
    if (k == "sinew") { LibmsiSummaryInfo *s = libmsi_summary_info_new(d, (guint)atoi(t[3].c_str()), &e); emit(errs(s != NULL, e)); if (s) { if (sis.count(t[2])) g_object_unref(sis[t[2]]); sis[t[2]] = s; } return; }
    if (k == "sidump") { LibmsiSummaryInfo *s = libmsi_summary_info_new(d, 0, &e); if (!s) { emit(errs(false, e)); return; } if (e) { emit("!error"); g_clear_error(&e); } bool ok; std::string x = si_text(s, ok); g_object_unref(s); emit(ok ? "ok" : "err:m"); emit("\x01I" + x); return; }
    if (k == "cp") {
        std::string f = "/sim/tmp/cp-" + std::to_string(g_actor) + ".idt"; sim_put(f, "\r\n\r\n" + t[2] + "\t_ForceCodepage\r\n");
        bool ok = libmsi_database_import(d, f.c_str(), &e); sim_del(f); emit(errs(ok, e)); return;
    }
    if (k == "imp") { bool ok = libmsi_database_import(d, t[2].c_str(), &e); emit(errs(ok, e)); return; }
    if (k == "exp") { // exp H table path
        int fd = open(t[3].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd < 0) { emit("err:open"); return; }
        bool ok = libmsi_database_export(d, t[2].c_str(), fd, &e); std::string r = errs(ok, e);
        if (close(fd) != 0 && ok) r = "err:close";
        emit(r); return;
    }
    if (k == "merge") { if (!db(2)) { emit("nodb"); return; } bool ok = libmsi_database_merge(d, db(2), t[3] == "-" ? NULL : t[3].c_str(), &e); emit(errs(ok, e)); return; }
    emit("badop");
}
static void release_all() {
    for (auto &s : strms) g_object_unref(s.second);
    for (auto &s : keptrec) g_object_unref(s.second);
    for (auto &s : qs) g_object_unref(s.second.q);
    for (auto &s : sis) g_object_unref(s.second);
    for (auto &s : dbs) g_object_unref(s.second);
    strms.clear(); keptrec.clear(); qs.clear(); sis.clear(); dbs.clear();
}
void exec_warm() { // type registration once, before forking
    g_log_set_default_handler(logfn, NULL);
    libmsi_database_get_type(); libmsi_query_get_type(); libmsi_record_get_type(); libmsi_summary_info_get_type();
}
void exec_actor(const Actor &a, int) {
    g_log_set_default_handler(logfn, NULL);
    u32 last = 0;
    for (auto &op : a.ops) {
        cur_id = op.id; last = op.id; sim_set_op(op.id); if (sim_nact() > 1) { emit(">"); done(); }
        if (op.t[0] == "fds") { emit("fds " + std::to_string(sim_open_fds())); done(); continue; }
        if (op.t[0] == "release") { release_all(); emit("ok"); done(); continue; }
        do_op(op);
        done();
    }
    cur_id = last + 1; sim_set_op(cur_id);
    release_all();
    std::string names; int n = sim_open_files(&names);
    emit("end fds=" + std::to_string(n) + names); done();
}
