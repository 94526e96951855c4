#include "eval.h"
#include "tools.h"
#include <algorithm>
#include <string.h>
#include <signal.h>
#include <sys/wait.h>

Before look_before(const World &w) {
    Before b; for (auto &f : sim_list("/sim/w/")) b.files.insert(f);
    for (auto &p : w.pkg) { std::string d; if (sim_get("/sim/w/" + p.first, d)) b.bytes[p.first] = d; }
    return b;
}
static bool take(std::string &s, const std::string &tok) { size_t p = s.find(tok); if (p == std::string::npos) return false; s.erase(p, tok.size()); return true; }
bool kind_counts(const Profile &p, const std::string &kind) {
    if (kind == "fdleak" || kind == "leftover" || kind == "modified" || kind == "critical" || kind == "noerror" || kind == "errorset") return (std::string(" ") + p.kinds + " ").find(" " + kind + " ") != std::string::npos;
    return true;
}
static std::string opkind(const Actor &a, u32 id) { for (auto &o : a.ops) if (o.id == id) return o.t[0]; return "end"; }

Eval eval_phase(const World &w0, const Phase &ph, const PhaseResult &pr, const Before &before) {
    Eval E; E.w = w0; E.w.invalid = false; World &w = E.w;
    auto viol = [&](const std::string &kind, u32 a, u32 op, const std::string &text) {
        Viol v; v.kind = kind; v.actor = a; v.op = op; v.text = text; v.opk = a < ph.actors.size() ? opkind(ph.actors[a], op) : "?"; E.v.push_back(v);
    };
    if (pr.overflow) { E.invalid = true; E.inv_why = "arena"; return E; }
    if (pr.escapes) viol("escape", 0, 0, "touched a path outside the sandbox: " + pr.escape_path);
    size_t na = ph.actors.size(); bool multi = na > 1;
    std::vector<ActorState> as(na); std::vector<size_t> pos(na, 0); std::vector<int> fdbase(na, -1);
    std::vector<std::unique_ptr<Model>> M; for (size_t i = 0; i < na; i++) M.emplace_back(new Model(w, as[i]));
    std::vector<bool> ended(na, false), started(na, false);
    std::set<std::string> wrote; // packages some commit was attempted on
    // versions a concurrent reader may see
    std::map<std::string, std::vector<MDb>> hist; std::map<size_t, std::pair<std::string, MDb>> inflight; std::vector<std::map<std::string, size_t>> opstart(na); std::map<std::string, size_t> seen;
    if (multi) for (auto &p : w.pkg) { hist[p.first] = p.second.cand; }
    auto crashed_in = [&](size_t a, const Op &op) { // the actor died inside this operation
        if (op.t[0] == "commit") {
            auto it = as[a].s.find(op.t[1]);
            if (it != as[a].s.end() && !it->second.readonly()) {
                auto &p = w.pkg[it->second.path]; wrote.insert(it->second.path);
                if (!p.exists) p.may_absent = true;
                p.exists = true; if (it->second.wild) p.wild = true; p.cand.push_back(it->second.db.stored());
                if (multi) { for (auto &x : inflight) if (x.first == a) hist[it->second.path].push_back(x.second.second); }
            }
        } else { if (op.t[0] == "mb") wrote.insert(op.t[1]); M[a]->crashed(op); }
    };
    for (auto &line : split(pr.log, '\n')) {
        if (line.empty()) continue;
        size_t c = line.find(':'), sp = line.find(' '); if (c == std::string::npos || sp == std::string::npos) continue;
        size_t a = (size_t)atoi(line.c_str()); u32 id = (u32)atoi(line.c_str() + c + 1); if (a >= na) continue;
        std::string rest = line.substr(sp + 1); std::vector<std::string> rows = split(rest, '\x01'); std::string res = rows.empty() ? "" : rows[0]; if (!rows.empty()) rows.erase(rows.begin());
        if (res == ">") { // start of an operation (multi-actor phases)
            started[a] = true;
            if (pos[a] < ph.actors[a].ops.size()) {
                const Op &op = ph.actors[a].ops[pos[a]];
                if (op.t[0] == "open") { auto &h = hist[op.t[2]]; opstart[a][op.t[2]] = std::max(seen[op.t[2]], h.empty() ? 0 : h.size() - 1); /* not older than what anyone has seen */ }
                if (op.t[0] == "commit") { auto it = as[a].s.find(op.t[1]); if (it != as[a].s.end() && !it->second.readonly()) inflight[a] = {it->second.path, it->second.db.stored()}; }
            }
            continue;
        }
        // criticals may trail the last row
        auto strip = [&](std::string &s) {
            size_t p = s.find(" !crit["); if (p != std::string::npos) { viol("critical", (u32)a, id, "library critical: " + unpct(s.substr(p + 7, s.size() - p - 8))); s.erase(p); }
            while (take(s, "!noerror") || take(s, "!readnoerror")) viol("noerror", (u32)a, id, "failed without setting an error");
            while (take(s, "new!error") || take(s, "exec!error ") || take(s, "si!error") || take(s, "!fetcherrset") || take(s, "!readerrorset") || take(s, "!error")) viol("errorset", (u32)a, id, "succeeded but set an error");
            if (s.find("nomsg") != std::string::npos) viol("errorset", (u32)a, id, "error without a message");
        };
        strip(res); for (auto &r : rows) strip(r);
        if (res.compare(0, 4, "end ") == 0 || pos[a] >= ph.actors[a].ops.size()) {
            ended[a] = true;
            if (res.compare(0, 7, "end fds") == 0 && res.compare(0, 9, "end fds=0") != 0) viol("fdleak", (u32)a, id, "files still open after everything was released: " + res.substr(4));
            continue;
        }
        const Op &op = ph.actors[a].ops[pos[a]++];
        if (op.t[0] == "fds" && res.compare(0, 4, "fds ") == 0) { int n = atoi(res.c_str() + 4); if (op.t.size() > 1 && fdbase[a] >= 0 && n > std::max(fdbase[a], 2 /* a package open for writing, whose new file may have been opened late */)) viol("fdleak", (u32)a, id, std::to_string(n) + " files open where the same objects held " + std::to_string(fdbase[a]) + " before"); fdbase[a] = n; }
        if (op.id != id) { viol("internal", (u32)a, id, "log out of step"); break; }
        bool faulted = pr.lastfault_op[a] && id + 1 >= pr.lastfault_op[a];
        Expect e = M[a]->eval(op);
        if (w.invalid && multi && (op.t[0] == "sel" || op.t[0] == "qopen" || op.t[0] == "topen")) { w.invalid = false; w.inv_why.clear(); e = Expect(); e.k = Expect::ANY; } // written for another version
        if (w.invalid) { E.invalid = true; E.inv_why = w.inv_why; return E; }
        bool brerr = false; // failures reported on the way
        for (;;) { size_t b = res.find('['); if (b == std::string::npos) break; size_t q = res.find(']', b); if (q == std::string::npos) q = res.size() - 1; std::string in = res.substr(b, q - b + 1); res.erase(b, q - b + 1); if (in.find("err") != std::string::npos) brerr = true; }
        bool rowerr = false; for (auto &r : rows) if (r.find("!readerr") != std::string::npos || r.find("!nostream") != std::string::npos || r.find("!err") != std::string::npos) rowerr = true;
        bool ok = res.compare(0, 2, "ok") == 0 || res == "end" || res == "more";
        if (e.k == Expect::TEXT && (res == e.text)) ok = res.compare(0, 3, "err") != 0;
        bool err = (res.compare(0, 3, "err") == 0 && !(e.k == Expect::TEXT && res == e.text)) || brerr || rowerr || (op.t[0] == "topen" && res == "nostream");
        if (op.t[0] == "commit") { E.commits++; auto it = as[a].s.find(op.t[1]); if (it != as[a].s.end() && !it->second.readonly()) wrote.insert(it->second.path); }
        if (op.t[0] == "mb" && ok && !err) { E.commits++; wrote.insert(op.t[1]); }
        if (ok && !err) E.oks++; else E.errs++;
        std::string why;
        Sess *s0 = NULL; if (op.t.size() > 1) { auto it = as[a].s.find(op.t[1]); if (it != as[a].s.end()) s0 = &it->second; }
        if (err && faulted && (e.k != Expect::ANY || (s0 && s0->alts.size()))) { // a reported failure after a fault is fine; nothing may have happened
            if (op.t[0] == "commit") M[a]->commit_failed(op);
            M[a]->apply(op, false, rows); M[a]->failed(op);
            if (multi && op.t[0] == "commit") inflight.erase(a);
            continue;
        }
        if (multi && op.t[0] == "open" && ok && e.k != Expect::ERR) {
            M[a]->apply(op, true, rows);
            auto it = as[a].s.find(op.t[1]); auto &h = hist[op.t[2]]; size_t from = opstart[a][op.t[2]];
            if (it != as[a].s.end() && it->second.flags == 1) {
                std::vector<MDb> c; it->second.vidx.clear(); for (size_t i = from; i < h.size(); i++) { c.push_back(h[i]); it->second.vidx.push_back((long)i); }
                for (auto &x : inflight) if (x.second.first == op.t[2]) { c.push_back(x.second.second); it->second.vidx.push_back((long)h.size()); }
                if (c.empty()) { E.invalid = true; return E; }
                it->second.db = c[0]; it->second.alts.assign(c.begin() + 1, c.end());
            }
            continue;
        }
        Sess *ss = NULL; if (op.t.size() > 1) { auto it = as[a].s.find(op.t[1]); if (it != as[a].s.end()) ss = &it->second; }
        if (ss && ss->alts.size() && ok) { // several contents are possible: whichever agrees
            std::vector<MDb> C; C.push_back(ss->db); C.insert(C.end(), ss->alts.begin(), ss->alts.end()); std::vector<MDb> keep; std::vector<long> kv; size_t ci = 0; std::string why1;
            for (auto &d : C) { ss->db = d; ss->alts.clear(); Expect e2 = M[a]->eval(op); std::string y; bool fit = true; if (w.invalid) w.invalid = false; else fit = expect_match(e2, res, rows, y); if (fit) { keep.push_back(d); if (ci < ss->vidx.size()) kv.push_back(ss->vidx[ci]); } else if (why1.empty()) why1 = y; ci++; }
            if (keep.empty()) { ss->db = C[0]; viol("mismatch", (u32)a, id, op.str() + ": shows neither of the " + std::to_string(C.size()) + " possible versions: " + why1); return E; }
            ss->db = keep[0]; ss->alts.assign(keep.begin() + 1, keep.end()); ss->vidx = kv; if (multi && kv.size() == keep.size()) seen[ss->path] = std::max(seen[ss->path], (size_t)kv[0]);
            if (multi && keep.size() < C.size()) E.notes.push_back("version told apart");
            if ((op.t[0] == "dump" || op.t[0] == "gdump") && !multi) { // storages are not part of a dump: two versions may still agree on it
                auto &p = w.pkg[ss->path]; if (p.cand.size() > 1) { p.cand = keep; p.may_absent = false; }
                if (ss->flags != 1) { bool same = true; for (auto &d : keep) if (d.storages != keep[0].storages) same = false; if (!same) w.invalid = true; if (!same) w.inv_why = "storages of a version"; p.cand.resize(std::min<size_t>(p.cand.size(), 1)); ss->alts.clear(); }
                else if (op.t[0] == "gdump") { p.cand.resize(std::min<size_t>(p.cand.size(), 1)); ss->alts.clear(); }
            }
            static const std::set<std::string> inplace = {"ins", "upd", "del", "sdel", "gdel", "create", "drop", "add", "hold", "free", "fill"};
            if (inplace.count(op.t[0]) && ss->alts.size()) { std::vector<MDb> al; al.swap(ss->alts); for (auto &d : al) { std::swap(ss->db, d); M[a]->apply(op, ok, rows); std::swap(ss->db, d); } M[a]->apply(op, ok, rows); ss->alts.swap(al); }
            else M[a]->apply(op, ok, rows);
            continue;
        }
        if (op.t[0] == "open" && !ok && !multi && !faulted) { // a package that a crash may have left absent
            auto it = w.pkg.find(op.t[2]); if (it != w.pkg.end() && it->second.may_absent) { w.pkg.erase(it); M[a]->apply(op, false, rows); continue; }
        }
        if ((brerr || rowerr) && e.k != Expect::ANY) { viol("mismatch", (u32)a, id, op.str() + ": reported a failure in [" + line.substr(sp + 1, 200) + "] without cause"); return E; }
        if (!expect_match(e, res, rows, why)) { viol("mismatch", (u32)a, id, op.str() + ": " + why); return E; }
        M[a]->apply(op, ok, rows.empty() ? std::vector<std::string>{res} : rows);
        if (w.invalid) { E.invalid = true; E.inv_why = w.inv_why; return E; }
        if (multi && op.t[0] == "commit") { auto it = inflight.find(a); if (it != inflight.end()) { if (ok) hist[it->second.first].push_back(it->second.second); inflight.erase(it); } }
    }
    // how each actor ended
    bool anydead = false;
    for (size_t a = 0; a < na; a++) {
        int st = pr.status[a]; bool simdead = WIFEXITED(st) && WEXITSTATUS(st) == 77;
        if (pr.crashed == 2) simdead = true;
        if (ended[a] && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        anydead = true; E.crashed = true;
        u32 id = pos[a] < ph.actors[a].ops.size() ? ph.actors[a].ops[pos[a]].id : 0xffffffff;
        std::string ops = id == 0xffffffff ? "final release" : ph.actors[a].ops[pos[a]].str();
        if (simdead) { if (pos[a] < ph.actors[a].ops.size() && (!multi || started[a])) { crashed_in(a, ph.actors[a].ops[pos[a]]); if (w.invalid) { E.invalid = true; E.inv_why = w.inv_why; return E; } } continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 78) viol("hang", (u32)a, id, "does not terminate (system-call limit) in " + ops);
        else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) viol("hang", (u32)a, id, "does not terminate (CPU limit) in " + ops);
        else if (WIFSIGNALED(st)) viol("crash", (u32)a, id, "died of signal " + std::to_string(WTERMSIG(st)) + " in " + ops);
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) viol("crash", (u32)a, id, "memory error (AddressSanitizer) in " + ops);
        else viol("crash", (u32)a, id, "exited with status " + std::to_string(WEXITSTATUS(st)) + " in " + ops);
        return E;
    }
    // packages nobody committed to stay as they were, byte for byte
    for (auto &p : before.bytes) if (!wrote.count(p.first) && !w.touched.count(p.first)) {
        std::string d; if (!sim_get("/sim/w/" + p.first, d)) viol("modified", 0, 0, "package " + p.first + " disappeared without a commit"); else if (d != p.second) viol("modified", 0, 0, "package " + p.first + " changed without a commit");
    }
    if (!anydead) for (auto &f : sim_list("/sim/w/")) {
        if (before.files.count(f)) continue; std::string n = f.substr(7);
        if (w.pkg.count(n) || w.files.count(n) || w.files.count(f)) continue;
        bool dirok = false; for (auto &x : w.files) if (x.first.compare(0, n.size() + 1, n + "/") == 0) dirok = true;
        for (auto &A : ph.actors) for (auto &o : A.ops) { std::string t = o.t[0] == "exp" ? o.t[2] : o.t[0] == "info" && o.t.size() > 4 ? unpct(o.t[4]) : ""; if (!t.empty() && (n == t || n.compare(0, t.size() + 1, t + "/") == 0)) dirok = true; } // an export that failed half-way
        if (dirok) continue;
        if (pr.hit[S_UNLINK][F_ERR] || (n.find(".gsf-save") != std::string::npos && (pr.hit[S_RENAME][F_ERR] || pr.hit[S_CLOSE][F_ERR]))) continue;
        viol("leftover", 0, 0, "left the file " + f);
    }
    w.touched.clear();
    // packages that must exist
    for (auto &p : w.pkg) if (p.second.exists && !p.second.may_absent && !sim_exists("/sim/w/" + p.first)) { viol("lost", 0, 0, "package " + p.first + " is gone"); return E; }
    return E;
}
