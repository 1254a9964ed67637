// Properties about the observers (audit, result files) and Init.
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include "core.hpp"

// ---------------------------------------------------------------- result files
using Files = std::map<std::string, std::string>;
static const char* kDir = "results";
static std::vector<std::string> List() {
    std::vector<std::string> v;
    if (DIR* d = opendir(kDir)) {
        while (auto* e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
        closedir(d);
    }
    std::sort(v.begin(), v.end());
    return v;
}
static std::string Slurp(const std::string& n) {
    FILE* f = fopen((std::string(kDir) + "/" + n).c_str(), "rb");
    std::string s;
    if (!f) return s;
    char b[65536];
    for (size_t k; (k = fread(b, 1, sizeof b, f)) > 0;) s.append(b, k);
    fclose(f);
    return s;
}
static Files Snap() { Files m; for (auto& n : List()) m[n] = Slurp(n); return m; }
// puts the directory back to a recorded content
static void Undo(const Files& was) {
    for (auto& [n, t] : Snap()) {
        auto it = was.find(n);
        if (it == was.end()) { unlink((std::string(kDir) + "/" + n).c_str()); continue; }
        if (it->second == t) continue;
        if (FILE* f = fopen((std::string(kDir) + "/" + n).c_str(), "wb")) { fwrite(it->second.data(), 1, it->second.size(), f); fclose(f); }
    }
}
// Every path below is relative to the scratch directory the driver created.
static void Fresh() {
    if (access("SIM_SCRATCH", F_OK) != 0) { fprintf(stderr, "not in a scratch directory\n"); _exit(3); }
    mkdir("soil_simulator", 0755); mkdir(kDir, 0755);
    for (auto& n : List()) unlink((std::string(kDir) + "/" + n).c_str());
}
static int OpenFds() {
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
    return n;
}
static bool Parse(const std::string& name, std::string* fam, int* num) {
    size_t u = name.rfind('_');
    if (u == std::string::npos || name.size() != u + 1 + 5 + 4 || name.substr(u + 6) != ".csv") return false;
    *num = 0;
    for (size_t i = u + 1; i < u + 6; i++) { if (!isdigit((unsigned char)name[i])) return false; *num = *num * 10 + name[i] - '0'; }
    *fam = name.substr(0, u);
    return *fam == "terrain" || *fam == "body_soil" || *fam == "bucket" || *fam == "blade";
}
using Row = std::array<double, 3>;
static std::string ParseCsv(const std::string& t, std::vector<Row>* rows) {
    std::istringstream in(t);
    std::string l;
    if (!std::getline(in, l) || l != "x,y,z") return "does not start with the x,y,z header";
    if (t.back() != '\n') return "ends in the middle of a row";
    while (std::getline(in, l)) {
        Row r;
        const char* s = l.c_str();
        char* e;
        for (int i = 0; i < 3; i++) {
            r[i] = strtod(s, &e);
            if (e == s || *e != (i < 2 ? ',' : '\0')) return "has a malformed row: " + l.substr(0, 60);
            s = e + 1;
        }
        rows->push_back(r);
    }
    return "";
}
// files carry six significant digits; a float coordinate carries ~1e-6 m
static bool Same(double a, double b, double scale) { return std::fabs(a - b) <= 2e-5 * std::fabs(b) + 1e-3 * scale; }
static bool SameRow(const Row& a, const Row& b, double sc) { return Same(a[0], b[0], sc) && Same(a[1], b[1], sc) && Same(a[2], b[2], sc); }
// the frame a state must produce
struct Frame { std::vector<Row> terrain, soil, body; bool soil_empty; };
static Frame Expect(const World& w) {
    Frame f;
    auto& o = w.out;
    f.soil_empty = true;
    for (int i = 0; i < w.nx(); i++)
        for (int j = 0; j < w.ny(); j++) {
            double x = (i - w.grid.half_length_x_) * (double)w.grid.cell_size_xy_, y = (j - w.grid.half_length_y_) * (double)w.grid.cell_size_xy_;
            f.terrain.push_back({x, y, o.terrain_[i][j]});
            for (int l = 0; l < 4; l += 2)
                if (o.body_soil_[l][i][j] != 0 || o.body_soil_[l + 1][i][j] != 0) { f.soil.push_back({x, y, o.body_soil_[l + 1][i][j]}); f.soil_empty = false; }
        }
    auto* b = w.body();
    double pos[3] = {b->pos_[0], b->pos_[1], b->pos_[2]}, q[4] = {b->ori_[0], b->ori_[1], b->ori_[2], b->ori_[3]};
    auto c = Corners(w, pos, q);                        // J_r J_l B_r B_l T_r T_l
    std::vector<int> seq = w.bucket ? std::vector<int>{2, 4, 0, 0, 1, 3, 2, 2, 4, 5, 3, 3, 5, 1} : std::vector<int>{2, 3, 1, 0, 0, 1, 5, 4};
    for (int k : seq) f.body.push_back({c[k].x, c[k].y, c[k].z});
    return f;
}
static void CheckRows(Ctx& cx, const char* cls, const std::string& name, const std::string& text, std::vector<Row> want, double sc, bool ordered, bool maydummy) {
    std::vector<Row> got;
    std::string e = ParseCsv(text, &got);
    if (!e.empty()) cx.fail(cls, name + " " + e);
    if (maydummy && want.empty()) {                     // a placeholder row (or none) stands for "no soil"
        if (got.size() > 1) cx.fail(cls, Fmt("%s lists %zu soil columns although no soil rests on the machine", name.c_str(), got.size()));
        return;
    }
    if (got.size() != want.size()) cx.fail(cls, Fmt("%s has %zu rows, the state has %zu", name.c_str(), got.size(), want.size()));
    if (!ordered) {
        // rows are compared column by column, whatever their order
        auto key = [&](const Row& r) { return std::array<long, 2>{std::lround(r[0] / sc), std::lround(r[1] / sc)}; };
        auto lt = [&](const Row& a, const Row& b) { auto p = key(a), q = key(b); return p != q ? p < q : a[2] < b[2]; };
        std::stable_sort(got.begin(), got.end(), lt); std::stable_sort(want.begin(), want.end(), lt);
    }
    for (size_t k = 0; k < got.size(); k++)
        if (!SameRow(got[k], want[k], sc))
            cx.fail(cls, Fmt("%s row %zu is (%.6g,%.6g,%.6g), the state has (%.6g,%.6g,%.6g)", name.c_str(), k, got[k][0], got[k][1], got[k][2], want[k][0], want[k][1], want[k][2]));
}

static void SetFault(int kind, double frac, long len, int err, const long ops[], long total, Ctx& cx) {
    auto& d = env::disk;
    d.fault = kind; d.len = len; d.err = err;
    long n = kind == env::DF_CRASH ? total : kind == env::DF_OPENW_FAIL ? ops[env::D_OPEN_W]
        : kind == env::DF_OPENR_FAIL ? ops[env::D_OPEN_R] : kind == env::DF_CLOSE_ERR ? ops[env::D_CLOSE] : ops[env::D_WRITE];
    d.at = n > 0 ? std::min(n - 1, (long)(frac * n)) : 0;
    (void)cx;
}
static const char* FaultName(int k) {
    switch (k) {
        case env::DF_OPENW_FAIL: return "disk_open_refused";
        case env::DF_OPENR_FAIL: return "disk_probe_failed";
        case env::DF_WRITE_ERR: return "disk_write_error";
        case env::DF_WRITE_SHORT: return "disk_short_write";
        case env::DF_WRITE_EINTR: return "disk_write_interrupted";
        case env::DF_CLOSE_ERR: return "disk_close_error";
        case env::DF_FULL: return "disk_full";
        case env::DF_CRASH: return "crash_while_writing";
        default: return "none";
    }
}
static Op FaultOp(Rng& r, const char* k, bool crash) {
    Op q; q.k = k;
    int f = r.pick({(int)env::DF_OPENW_FAIL, (int)env::DF_OPENR_FAIL, (int)env::DF_OPENR_FAIL, (int)env::DF_WRITE_ERR, (int)env::DF_WRITE_SHORT,
                    (int)env::DF_WRITE_EINTR, (int)env::DF_CLOSE_ERR, (int)env::DF_FULL, crash ? (int)env::DF_CRASH : (int)env::DF_FULL});
    int err = f == env::DF_OPENR_FAIL ? r.pick({EMFILE, EIO, EINTR, ENFILE, ENOMEM}) : f == env::DF_FULL ? ENOSPC : r.pick({EIO, EMFILE, EACCES, ENOSPC, EDQUOT});
    long len = f == env::DF_WRITE_SHORT || f == env::DF_WRITE_EINTR ? r.pick({1, 2, 8}) : r.pick({1, 1, 2});
    q.a = {(double)f, r.u(), (double)len, (double)err};
    q.note = FaultName(f);
    return q;
}

// ------------------------------------------------------------- C11
static void GenFiles(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(4, 20); m.yaw = r.p(0.7); m.roll = r.p(0.5); m.pour = r.p(0.3);
    GenConfig(r, p, m);
    GenMission(r, p, m);
    p->c["other"] = r.p(0.4);
    std::vector<Op> out;
    double fr = r.p(0.25) ? 0 : r.u(0.1, 0.7);
    if (r.p(0.4)) {
        int n = r.i(1, 6), base = r.p(0.7) ? 0 : (r.p(0.05) ? 997 : r.pick({8, 98, 8}));
        for (int k = 0; k < n; k++) { Op q; q.k = "foreign"; q.a = {(double)r.i(0, 2), (double)(base + (r.p(0.8) ? k : r.i(0, 12)))}; out.push_back(q); }
        if (base > 0) { Op q; q.k = "fill"; q.a = {(double)base}; out.insert(out.begin(), q); }
    }
    auto write = [&]() {
        if (r.p(fr)) out.push_back(FaultOp(r, "fwrite", true));
        else { Op q; q.k = p->c["other"] != 0 && r.p(0.35) ? "owrite" : "write"; out.push_back(q); }
    };
    if (r.p(0.4)) write();
    for (auto& o : p->ops) {
        out.push_back(o);
        if (o.k == "step" && r.p(0.5)) write();
        if (r.p(0.05)) { Op q; q.k = "restart"; out.push_back(q); }
    }
    { Op q; q.k = "write"; out.push_back(q); }
    p->ops = out;
}
struct Archive {
    Files sealed;                                        // must never change again
    std::set<std::string> fams;
    Ctx& cx;
    void Intact(const Files& now, const char* when) {
        for (auto& [n, t] : sealed) {
            auto it = now.find(n);
            if (it == now.end()) cx.fail("out-removed", n + std::string(" disappeared ") + when);
            if (it->second != t) cx.fail("out-overwritten", Fmt("%s (%zu bytes, complete) was changed %s and now has %zu bytes", n.c_str(), t.size(), when, it->second.size()));
        }
    }
    void Names(const Files& was, const Files& now) {
        for (auto& [n, t] : now) {
            if (was.count(n)) continue;
            std::string f; int k;
            if (!Parse(n, &f, &k) || !fams.count(f)) cx.fail("out-name", "unexpected file " + n);
        }
    }
};
static void CleanWrite(World& w, Archive& ar, Ctx& cx) {
    Files was = Snap();
    env::disk.fault = env::disk.fault;
    Frame f = Expect(w);
    int fds = OpenFds();
    env::DiskBegin();
    bool ok = w.WriteOutputs();
    env::DiskEnd();
    if (!ok) cx.fail("out-threw", "writing a frame raised an exception");
    if (OpenFds() != fds) cx.fail("out-fdleak", "a file descriptor stayed open after writing a frame");
    Files now = Snap();
    ar.Intact(now, "while another frame was written");
    ar.Names(was, now);
    std::string bodyf = w.bucket ? "bucket" : "blade";
    double sc = w.grid.cell_size_xy_;
    int tn = 0, bn = 0;
    char nm[64];
    for (;; tn++) { snprintf(nm, sizeof nm, "terrain_%05d.csv", tn); if (!was.count(nm)) break; }
    std::string tf = nm, sf;
    snprintf(nm, sizeof nm, "body_soil_%05d.csv", tn); sf = nm;
    for (;; bn++) { snprintf(nm, sizeof nm, "%s_%05d.csv", bodyf.c_str(), bn); if (!was.count(nm)) break; }
    std::string bf = nm;
    for (auto* n : {&tf, &sf, &bf})
        if (!now.count(*n)) cx.fail("out-missing", *n + " was not created");
    for (auto& [n, t] : now)
        if (n != tf && n != sf && n != bf && (!was.count(n) || was[n] != t)) cx.fail("out-stray", "writing a frame also touched " + n);
    CheckRows(cx, "out-content", tf, now[tf], f.terrain, sc, false, false);
    CheckRows(cx, "out-content", sf, now[sf], f.soil, sc, false, true);
    if (w.body()->ori_ != std::vector<float>(4, 0.f)) CheckRows(cx, "out-content", bf, now[bf], f.body, sc, true, false);   // placed at least once
    for (auto* n : {&tf, &sf, &bf}) ar.sealed[*n] = now[*n];
    cx.hit("frames_verified");
    if (!f.soil_empty) cx.hit("frames_with_soil");
}
static void ExecFiles(const Plan& p, Ctx& cx) {
    Fresh();
    auto ms = std::make_unique<Mission>(p, cx);
    std::unique_ptr<World> other;
    Plan op;
    if (p.g("other") != 0) {
        Rng r((uint64_t)p.g("tseed") ^ 0x777);
        Motion m;
        op.prop = "x";
        GenConfig(r, &op, m);
        op.c["blade"] = p.g("blade") != 0 ? 0 : 1;
        other = std::make_unique<World>(op);
        other->InitTerrain();
    }
    Archive ar{{}, {"terrain", "body_soil", p.g("blade") != 0 ? "blade" : "bucket"}, cx};
    if (other) { ar.fams.insert("bucket"); ar.fams.insert("blade"); }
    long faults = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms->Env(o)) continue;
        if (o.k == "step") { ms->Step(o); continue; }
        if (o.k == "restart") {                          // process restarts from its checkpoint
            Checkpoint c(ms->w);
            SimParam sp = ms->sp;
            ms = std::make_unique<Mission>(p, cx);
            c.Restore(&ms->w); ms->sp = sp;
            cx.hit("fault_restart_from_checkpoint");
            continue;
        }
        if (o.k == "fill" || o.k == "foreign") {         // results of an earlier campaign
            const char* fam[] = {"terrain", "bucket", "blade"};
            int lo = o.k == "fill" ? 0 : (int)o.a[1], hi = o.k == "fill" ? (int)o.a[0] : lo + 1;
            for (int n = lo; n < hi; n++)
                for (int q = 0; q < 3; q++) {
                    if (o.k == "foreign" && q != (int)o.a[0]) continue;
                    std::string nm = Fmt("%s_%05d.csv", fam[q], n);
                    FILE* f = fopen((std::string(kDir) + "/" + nm).c_str(), "w");
                    if (!f) continue;
                    std::string t = n % 3 == 0 ? "" : Fmt("x,y,z\n%d,2,3\n", n);   // an existing file may be empty
                    fwrite(t.data(), 1, t.size(), f);
                    fclose(f);
                    ar.sealed[nm] = t;
                }
            cx.hit("preexisting_results");
            continue;
        }
        env::disk.fault = 0;
        uint64_t h = ms->w.StateHash();
        if (o.k == "write") CleanWrite(ms->w, ar, cx);
        else if (o.k == "owrite" && other) { CleanWrite(*other, ar, cx); cx.hit("frames_other_machine"); }
        else if (o.k == "fwrite") {
            faults++;
            int kind = (int)o.a[0];
            // count the operations of this very write in a child, so that the
            // fault lands on a real one
            int pfd[2];
            if (pipe(pfd)) continue;
            Files was = Snap();
            fflush(stdout);
            pid_t c = fork();
            if (c == 0) {
                env::DiskBegin();
                ms->w.WriteOutputs();
                env::DiskEnd();
                long buf[env::D_KINDS + 1];
                for (int i = 0; i < env::D_KINDS; i++) buf[i] = env::disk.ops[i];
                buf[env::D_KINDS] = env::disk.total;
                (void)!::write(pfd[1], buf, sizeof buf);
                _exit(0);
            }
            close(pfd[1]);
            long buf[env::D_KINDS + 1] = {0};
            (void)!::read(pfd[0], buf, sizeof buf);
            close(pfd[0]);
            int st = 0;
            waitpid(c, &st, 0);
            Undo(was);                                   // the child's frame
            buf[env::D_OPEN_R] += buf[env::D_META];
            SetFault(kind, o.a[1], (long)o.a[2], (int)o.a[3], buf, buf[env::D_KINDS], cx);
            Frame f = Expect(ms->w);
            bool fired = false;
            if (kind == env::DF_CRASH) {
                fflush(stdout);
                c = fork();
                if (c == 0) { env::DiskBegin(); ms->w.WriteOutputs(); env::DiskEnd(); _exit(env::disk.fired ? 98 : 0); }
                waitpid(c, &st, 0);
                if (WIFSIGNALED(st)) cx.fail("out-signal", Fmt("writing a frame died with signal %d", WTERMSIG(st)));
                fired = WIFEXITED(st) && WEXITSTATUS(st) == 98;
            } else {
                int fds = OpenFds();
                env::DiskBegin();
                bool ok = ms->w.WriteOutputs();
                env::DiskEnd();
                fired = env::disk.fired > 0;
                if (!ok) cx.fail("out-threw", std::string("a disk fault (") + FaultName(kind) + ") surfaced as an allocation failure");
                if (OpenFds() != fds) cx.fail("out-fdleak", std::string("a file descriptor stayed open after ") + FaultName(kind));
            }
            env::disk.fault = 0;
            if (fired) { cx.hit(std::string("fault_") + FaultName(kind)); }
            Files now = Snap();
            ar.Intact(now, (std::string("under ") + FaultName(kind)).c_str());
            ar.Names(was, now);
            bool recoverable = kind == env::DF_OPENR_FAIL || kind == env::DF_WRITE_SHORT || kind == env::DF_WRITE_EINTR || kind == env::DF_CLOSE_ERR || (kind != env::DF_CRASH && !fired);
            if (recoverable) {
                // the data reached the disk, so the frame must be complete
                int made = 0;
                for (auto& [n, t] : now) {
                    if (was.count(n) && was[n] == t) continue;
                    std::string fam; int num;
                    if (!Parse(n, &fam, &num)) continue;
                    made++;
                    double sc = ms->w.grid.cell_size_xy_;
                    if (fam == "terrain") CheckRows(cx, "out-torn", n, t, f.terrain, sc, false, false);
                    else if (fam == "body_soil") CheckRows(cx, "out-torn", n, t, f.soil, sc, false, true);
                    else if (ms->w.body()->ori_ != std::vector<float>(4, 0.f)) CheckRows(cx, "out-torn", n, t, f.body, sc, true, false);
                    ar.sealed[n] = t;
                }
                if (made < 3 && !was.count("x")) {
                    // a body_soil file left by an earlier torn frame may be rewritten with equal bytes
                    int again = 0;
                    for (auto& [n, t] : now) { std::string fam; int num; if (was.count(n) && was[n] == t && !ar.sealed.count(n) && Parse(n, &fam, &num) && fam == "body_soil") again++; }
                    if (made + again < 3) cx.fail("out-missing", Fmt("only %d of the 3 files of a frame appeared under %s", made, FaultName(kind)));
                }
            }
        }
        if (ms->w.StateHash() != h) cx.fail("out-disturbed", "writing a frame changed the simulation state");
    }
    Fresh();
    cx.nontrivial = cx.n["frames_verified"] >= 2 && (faults > 0 || cx.n["preexisting_results"] > 0 || cx.n["frames_with_soil"] > 0);
}

// ------------------------------------------------------------- C12 observers
static void GenObs(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(15, 60); m.yaw = r.p(0.8); m.roll = r.p(0.6); m.pour = r.p(0.3);
    GenConfig(r, p, m);
    GenMission(r, p, m);
    if (r.p(0.2)) AddParams(r, p, 0.05);
    if (r.p(0.15)) AddTools(r, p, 0.04);
    std::vector<Op> out;
    auto obs = [&]() {
        int k = r.i(0, 9);
        if (k < 3) { Op q; q.k = "check"; q.a = {(double)r.i(-3, 3)}; out.push_back(q); }
        else if (k < 4) { Op q; q.k = "acheck"; q.a = {r.u()}; out.push_back(q); }
        else if (k < 6) { Op q; q.k = "write"; out.push_back(q); }
        else if (k < 7) { Op q; q.k = "awrite"; q.a = {r.u()}; out.push_back(q); }
        else out.push_back(FaultOp(r, "fwrite", false));
    };
    double rate = r.u(0.1, 0.5);
    if (r.p(0.3)) obs();
    for (auto& o : p->ops) { out.push_back(o); while (r.p(rate)) obs(); }
    p->ops = out;
}
static void ExecObs(const Plan& p, Ctx& cx) {
    Fresh();
    std::vector<uint64_t> ref;
    {
        Mission ms(p, cx);
        for (auto& o : p.ops) if (ms.Env(o)) ref.push_back(ms.w.StateHash()); else if (o.k == "step") { ms.Step(o); ref.push_back(ms.w.StateHash()); }
    }
    Ctx quiet;
    Mission ms(p, quiet);
    size_t at = 0;
    long seen = 0, frames = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o) || o.k == "step") {
            if (o.k == "step") ms.Step(o);
            if (ms.w.StateHash() != ref[at++])
                cx.fail("obs-trajectory", Fmt("the simulation took a different course after %ld observer calls", seen));
            continue;
        }
        uint64_t h = ms.w.StateHash();
        long live = env::alloc.live;
        int vol = (int)MeasureMass(ms.w.out, ms.cz).cells;
        if (o.k == "check") ms.w.Check(vol + (int)o.a[0]);
        else if (o.k == "write") { env::disk.fault = 0; ms.w.WriteOutputs(); frames++; }
        else if (o.k == "acheck" || o.k == "awrite") {
            bool wr = o.k == "awrite";
            // size of the call, measured on a copy
            World w2(p);
            Checkpoint c(ms.w); c.Restore(&w2);
            env::disk.fault = 0;
            if (wr) w2.WriteOutputs(); else w2.Check(vol);
            long n = env::alloc.count;
            live = env::alloc.live;
            if (n > 0) {
                env::alloc.fail_at = std::min(n - 1, (long)(o.a[0] * n)); env::alloc.fail_len = 1; env::alloc.fired = 0;
                try { if (wr) ms.w.WriteOutputs(); else ms.w.Check(vol); }
                catch (const std::exception& e) { env::alloc.in_sut = false; env::alloc.fail_at = -1; cx.fail("obs-exception", std::string("allocation failure surfaced as ") + e.what()); }
                env::alloc.fail_at = -1;
                if (env::alloc.fired) cx.hit("fault_alloc_failed");
            }
        } else if (o.k == "fwrite") {
            auto& d = env::disk;
            d.fault = (int)o.a[0]; d.at = (long)(o.a[1] * (d.fault == env::DF_OPENR_FAIL ? 3 : d.fault == env::DF_OPENW_FAIL || d.fault == env::DF_CLOSE_ERR ? 3 : 6));
            d.len = (long)o.a[2]; d.err = (int)o.a[3];
            env::DiskBegin();
            ms.w.WriteOutputs();
            env::DiskEnd();
            d.fault = 0;
            if (d.fired) cx.hit(std::string("fault_") + FaultName((int)o.a[0]));
        } else continue;
        seen++;
        cx.hit("observer_calls");
        if (ms.w.StateHash() != h) cx.fail("obs-state", Fmt("%s changed the simulation state", o.k.c_str()));
        if (env::alloc.live > live + 64) cx.fail("obs-leak", Fmt("%s left %ld blocks allocated", o.k.c_str(), env::alloc.live - live));
        if (frames > 25) { Fresh(); frames = 0; }
    }
    Fresh();
    cx.log.w(seen);
    cx.nontrivial = seen >= 4 && cx.n["steps_carrying"] >= 2;
}

// ------------------------------------------------------------- C13 audit
// 1 clearly broken, 0 clearly sound, -1 in the rounding band
static int LedgerState(const SimOut& o, double cz, double tol) {
    int nx = (int)o.terrain_.size(), ny = (int)o.terrain_[0].size();
    std::map<std::array<int, 3>, double> s;
    for (auto& r : o.body_soil_pos_) s[{r.ind, r.ii, r.jj}] += r.h_soil;
    int res = 0;
    for (int l = 0; l < 4; l += 2)
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                auto it = s.find({l, i, j});
                double d = std::fabs((double)o.body_soil_[l + 1][i][j] - o.body_soil_[l][i][j] - (it == s.end() ? 0 : it->second));
                if (d > 0.5 * cz) return 1;
                if (d > 0.25 * tol) res = -1;
            }
    return res;
}
static int SoilState(const SimOut& o, double cz, double tol, std::string* why) {
    int res = 0;
    double big = 0.5 * cz;
    auto bad = [&](double excess, const char* n, int i, int j) {   // excess > 0: broken
        if (excess > big) { *why = Fmt("%s at (%d,%d)", n, i, j); return true; }
        if (excess > -0.0) res = -1;
        return false;
    };
    for (int i = o.body_area_[0][0]; i < o.body_area_[0][1]; i++)
        for (int j = o.body_area_[1][0]; j < o.body_area_[1][1]; j++) {
            double t = o.terrain_[i][j];
            bool p[2], s[2];
            double b0[2], b1[2], s0[2], s1[2];
            for (int l = 0; l < 2; l++) {
                b0[l] = o.body_[2 * l][i][j]; b1[l] = o.body_[2 * l + 1][i][j];
                s0[l] = o.body_soil_[2 * l][i][j]; s1[l] = o.body_soil_[2 * l + 1][i][j];
                p[l] = b0[l] != 0 || b1[l] != 0; s[l] = s0[l] != 0 || s1[l] != 0;
            }
            for (int l = 0; l < 2; l++) {
                int m = 1 - l;
                if (p[l] && bad(t - b0[l] - 0.5 * tol, "terrain above body", i, j)) return 1;
                if (p[l]) {                                        // zero thickness is broken too
                    if (b0[l] - b1[l] > -0.5 * tol) { *why = Fmt("body inverted or flat at (%d,%d)", i, j); return 1; }
                    if (b0[l] - b1[l] > -2 * tol) res = -1;
                }
                if (s[l] && bad(s0[l] - s1[l] - 0.5 * tol, "soil inverted", i, j)) return 1;
                if (s[l] && !p[l]) { *why = Fmt("soil without body at (%d,%d)", i, j); return 1; }
                if (s[l] && p[l] && bad(std::fabs(s0[l] - b1[l]) - 1e-12, "soil not resting", i, j)) return 1;
                if (p[m] && s[l]) {
                    double d = std::min(b1[m] - s0[l], s1[l] - b0[m]);
                    if (bad(d - 0.5 * tol, "soil crossing a body layer", i, j)) return 1;
                }
            }
            if (p[0] && p[1]) {
                double d = std::min(b1[0] - b0[1], b1[1] - b0[0]);
                if (d > -0.5 * tol) { *why = Fmt("body layers touch at (%d,%d)", i, j); return 1; }
                if (d > -2 * tol) res = -1;
            }
        }
    return res;
}
static void GenAudit(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(15, 70); m.yaw = r.p(0.8); m.roll = r.p(0.6); m.pour = r.p(0.3);
    GenConfig(r, p, m);
    GenMission(r, p, m);
    if (r.p(0.15)) p->c["mirror"] = r.i(1, 1000);
    if (r.p(0.2)) AddParams(r, p, 0.05);
    std::vector<Op> out;
    for (auto& o : p->ops) {
        out.push_back(o);
        if (o.k == "step" && r.p(0.5))
            for (int n = r.i(1, 6); n > 0; n--) {
                Op q; q.k = "rot";
                q.a = {(double)r.i(0, 21), (double)(r.next() & 0xFFFFFF), (double)r.pick({1, 1, 1, 2, 3, 7, -1, -1, -2, -5})};
                out.push_back(q);
            }
    }
    p->ops = out;
}
static const char* kRot[] = {"volume argument", "terrain height", "terrain moved", "record height", "record lost", "record duplicated", "soil top",
    "soil and record", "body top", "body bottom", "soil layer lifted", "body removed", "body bounds swapped", "soil without body", "body layers shifted", "body lowered into terrain", "soil without record", "two records, oppositely", "record in another column", "soil top with terrain", "inverted soil without record", "soil of two columns, oppositely"};
static void ExecAudit(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    double cz = ms.cz, tol = ms.w.tol;
    long judged = 0;
    auto judge = [&](World& w, int vol, const std::string& what) {
        std::string why;
        int a = LedgerState(w.out, cz, tol), b = MeasureMass(w.out, cz).cells != vol, c = SoilState(w.out, cz, tol, &why);
        std::vector<std::string> warn;
        w.Check(vol, &warn);
        bool w_ = !warn.empty();
        if (a == 1 || b == 1 || c == 1) {
            cx.hit("audited_broken");
            judged++;
            if (!w_) cx.fail("audit-silent", Fmt("%s: the audit accepts a state that is broken (%s)", what.c_str(), a == 1 ? "records and columns disagree" : b ? "volume changed" : why.c_str()));
            if (c == 1 && a == 0 && b == 0) cx.hit("audited_conventions");
        } else if (a == 0 && c == 0) {
            cx.hit("audited_sound");
            if (w_) cx.fail("audit-false", what + ": the audit rejects a sound state: " + warn[0].substr(0, 90));
        } else cx.hit("audited_rounding_band");
    };
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k == "step") {
            ms.Step(o);
            judge(ms.w, (int)MeasureMass(ms.w.out, cz).cells, "live state");
            continue;
        }
        if (o.k != "rot") continue;
        int kind = (int)o.a[0], d = (int)o.a[2];
        Rng r((uint64_t)o.a[1]);
        World w(p);
        { Checkpoint c(ms.w); c.Restore(&w); }
        int vol = (int)MeasureMass(w.out, cz).cells;
        auto& s = w.out;
        auto set = [&](float& x, double cells) { x = (float)(std::round(x / cz + cells) * cz); };
        int i = r.i(0, w.nx() - 1), j = r.i(0, w.ny() - 1), l = 0;
        // pick a column with a body layer / soil layer
        std::vector<std::array<int, 3>> bl, sl;
        for (int x = s.body_area_[0][0]; x < s.body_area_[0][1]; x++)
            for (int y = s.body_area_[1][0]; y < s.body_area_[1][1]; y++)
                for (int q = 0; q < 4; q += 2) {
                    if (BodyAt(s, x, y, q)) bl.push_back({q, x, y});
                    if (s.body_soil_[q][x][y] != 0 || s.body_soil_[q + 1][x][y] != 0) sl.push_back({q, x, y});
                }
        auto use = [&](std::vector<std::array<int, 3>>& v) { if (v.empty()) return false; auto& t = v[r.next() % v.size()]; l = t[0]; i = t[1]; j = t[2]; return true; };
        auto rec = [&]() { return s.body_soil_pos_.empty() ? -1 : (int)(r.next() % s.body_soil_pos_.size()); };
        bool done = false;
        switch (kind) {
            case 0: vol += d; done = true; break;
            case 1: set(s.terrain_[i][j], d); done = true; break;
            case 2: if (use(bl)) { int a = r.i(0, w.nx() - 1), b = r.i(0, w.ny() - 1); double up = std::fabs(d) + (r.p(0.5) ? std::round((s.body_[l][i][j] - s.terrain_[i][j]) / cz) : 0); set(s.terrain_[i][j], up); set(s.terrain_[a][b], -up); done = true; } break;
            case 3: { int n = rec(); if (n >= 0) { s.body_soil_pos_[n].h_soil += (float)(d * cz); done = true; } break; }
            case 4: { int n = rec(); if (n >= 0) { s.body_soil_pos_.erase(s.body_soil_pos_.begin() + n); done = true; } break; }
            case 5: { int n = rec(); if (n >= 0) { auto c = s.body_soil_pos_[n]; s.body_soil_pos_.push_back(c); done = true; } break; }
            case 6: if (use(sl)) { set(s.body_soil_[l + 1][i][j], d); done = true; } break;
            case 7: if (use(sl)) {
                for (auto& q : s.body_soil_pos_) if (q.ind == l && q.ii == i && q.jj == j) { q.h_soil += (float)(d * cz); set(s.body_soil_[l + 1][i][j], d); int a = r.i(0, w.nx() - 1), b = r.i(0, w.ny() - 1); set(s.terrain_[a][b], -d); done = true; break; }
            } break;
            case 8: if (use(bl)) { set(s.body_[l + 1][i][j], d); done = true; } break;
            case 9: if (use(bl)) { set(s.body_[l][i][j], d); done = true; } break;
            case 10: if (use(sl)) { set(s.body_soil_[l][i][j], d); set(s.body_soil_[l + 1][i][j], d); done = true; } break;
            case 11: if (use(r.p(0.7) && !sl.empty() ? sl : bl)) { s.body_[l][i][j] = s.body_[l + 1][i][j] = 0; done = true; } break;
            case 12: if (use(bl)) { std::swap(s.body_[l][i][j], s.body_[l + 1][i][j]); done = true; } break;
            case 13: {
                l = r.p(0.5) ? 0 : 2;
                if (BodyAt(s, i, j, l)) break;
                float base = s.terrain_[i][j]; int n = std::abs(d);
                set(s.terrain_[i][j], -n); s.body_soil_[l][i][j] = base; set(base, n); s.body_soil_[l + 1][i][j] = base;
                s.body_soil_pos_.push_back({l, i, j, 0, 0, 0, (float)(n * cz)});
                done = true; break;
            }
            case 14: if (use(bl)) {     // both bounds of one layer, with its soil
                for (int q = 0; q < 2; q++) { set(s.body_[l + q][i][j], d); if (s.body_soil_[l][i][j] != 0 || s.body_soil_[l + 1][i][j] != 0) set(s.body_soil_[l + q][i][j], d); }
                if (s.body_soil_[l][i][j] != 0 || s.body_soil_[l + 1][i][j] != 0) s.body_soil_[l][i][j] = s.body_[l + 1][i][j];
                done = true;
            } break;
            case 15: if (use(bl)) { double down = (s.body_[l][i][j] - s.terrain_[i][j]) / cz + std::abs(d); set(s.body_[l][i][j], -down); done = true; } break;
            // the volume stays what the audit is told: only the records can tell
            case 16: case 20: {
                l = r.p(0.5) ? 0 : 2;
                if (s.body_soil_[l][i][j] != 0 || s.body_soil_[l + 1][i][j] != 0) break;
                float base = s.terrain_[i][j]; int n = kind == 16 ? std::abs(d) : -std::abs(d);
                s.body_soil_[l][i][j] = base; set(base, n); s.body_soil_[l + 1][i][j] = base;
                if (r.p(0.5)) set(s.terrain_[i][j], -n); else vol += n;
                done = true; break;
            }
            case 17: { int n = rec(), m = rec(); if (n >= 0 && n != m) { s.body_soil_pos_[n].h_soil += (float)(d * cz); s.body_soil_pos_[m].h_soil -= (float)(d * cz); done = true; } break; }
            case 18: { int n = rec(); if (n >= 0) { auto& q = s.body_soil_pos_[n]; if (r.p(0.4)) q.ind = 2 - q.ind; else { q.ii = i; q.jj = j; } done = true; } break; }
            case 19: if (use(sl)) { int a = r.i(0, w.nx() - 1), b = r.i(0, w.ny() - 1); set(s.body_soil_[l + 1][i][j], d); set(s.terrain_[a][b], -d); done = true; } break;
            case 21: if (sl.size() > 1 && use(sl)) { int l0 = l, i0 = i, j0 = j; use(sl); set(s.body_soil_[l0 + 1][i0][j0], d); set(s.body_soil_[l + 1][i][j], -d); done = true; } break;
        }
        if (!done) continue;
        cx.hit("fault_state_corrupted");
        judge(w, vol, std::string("after corruption of ") + kRot[kind]);
    }
    cx.log.w(judged);
    cx.nontrivial = judged >= 5 && cx.n["steps_carrying"] >= 2;
}

// ------------------------------------------------------------- C15 Init
static void GenInit(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(3, 15);
    GenConfig(r, p, m);
    if (r.p(0.3)) { double part = r.p(0.5) ? r.u(-0.4, 0.4) : 0; p->c["gx"] = p->c["cxy"] * (r.i(12, 45) + part); p->c["gy"] = p->c["cxy"] * (r.i(12, 45) + part); }
    if (r.p(0.15)) p->c["noise"] = 0; else if (r.p(0.1)) p->c["noise"] = -p->c["noise"];
    GenMission(r, p, m);
    int n = r.i(2, 5);
    for (int k = 0; k < n; k++) {
        Op q; q.k = "init";
        double amp = p->c["noise"] * (r.p(0.5) ? 1 : r.u(0, 3));
        if (p->c["noise"] != 0 && r.p(0.35)) amp = (r.p(0.1) ? -1 : 1) * p->c["cz"] * std::pow(10.0, r.u(3, 5));   // hills of many cells
        q.a = {(double)(r.next() & 0xFFFFFFFF), amp, (double)(r.next() & 0xFFFFF), r.u()};
        p->ops.insert(p->ops.begin() + r.i(0, (int)p->ops.size()), q);
    }
}
static void ExecInit(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    long inits = 0;
    auto init = [&](World& w, uint32_t seed, float amp) {
        w.rng = simseam::Engine(seed);
        soil_simulator::rng = w.rng;
        bool ok = true;
        { env::Sut s; try { w.sim.Init(&w.out, w.grid, amp); } catch (const std::bad_alloc&) { ok = false; } }
        w.rng = soil_simulator::rng;
        return ok;
    };
    std::vector<std::vector<float>> prev;
    double pamp = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k == "step") { ms.Step(o); continue; }
        if (o.k != "init") continue;
        inits++;
        uint32_t seed = (uint32_t)o.a[0];
        float amp = (float)o.a[1];
        double cz = ms.cz;
        // reference: a fresh site in an undisturbed environment
        World a(p);
        if (!init(a, seed, amp)) cx.fail("init-oom", "initialisation failed without any fault");
        long n = env::alloc.count;
        simseam::Engine after = a.rng;
        for (int i = 0; i < a.nx(); i++)
            for (int j = 0; j < a.ny(); j++) {
                double c = a.out.terrain_[i][j] / cz;
                if (!std::isfinite(c)) cx.fail("init-nonfinite", Fmt("terrain (%d,%d) is not finite", i, j));
                if (std::fabs(c - std::round(c)) > 0.02) cx.fail("init-offgrid", Fmt("terrain (%d,%d) = %.4f cells", i, j, c));
                if (std::fabs(c * cz) > std::fabs(amp) + 0.51 * cz) cx.fail("init-range", Fmt("terrain (%d,%d) = %.4g although the noise amplitude is %.4g", i, j, c * cz, amp));
                cx.n["init_max_permil"] = std::max(cx.n["init_max_permil"], amp != 0 ? (long)(1000 * std::fabs(c * cz) / std::fabs(amp)) : 0);
                if (amp == 0 && c != 0) cx.fail("init-amp0", "amplitude zero does not give flat terrain");
            }
        // A sum of four octaves of simplex noise over the unit square: no derivative
        // of it exceeds 2 x 0.0922 times the amplitude.
        double sx = 0.19 * std::fabs(amp) / (a.nx() - 1) + 1.05 * cz, sy = 0.19 * std::fabs(amp) / (a.ny() - 1) + 1.05 * cz;
        for (int i = 0; i < a.nx(); i++)
            for (int j = 0; j < a.ny(); j++) {
                auto& t = a.out.terrain_;
                if ((i && std::fabs(t[i][j] - t[i - 1][j]) > sx) || (j && std::fabs(t[i][j] - t[i][j - 1]) > sy))
                    cx.fail("init-cliff", Fmt("the landscape jumps at (%d,%d): %.5g, neighbours %.5g and %.5g, amplitude %.5g", i, j, t[i][j], i ? t[i - 1][j] : 0.f, j ? t[i][j - 1] : 0.f, amp));
            }
        if (std::fabs(amp) > 2000 * cz) cx.hit("hilly_sites");
        for (int l = 0; l < 4; l++) for (int i = 0; i < a.nx(); i++) for (int j = 0; j < a.ny(); j++)
            if (a.out.body_[l][i][j] != 0 || a.out.body_soil_[l][i][j] != 0) cx.fail("init-touched", "a fresh site does not start free of machine and carried soil");
        // allocation failure half-way, then again on the same object
        {
            World b(p);
            if (n > 0) {
                env::alloc.fail_at = std::min(n - 1, (long)(o.a[3] * n)); env::alloc.fail_len = 1; env::alloc.fired = 0;
                bool ok = init(b, seed, amp);
                env::alloc.fail_at = -1;
                if (env::alloc.fired) cx.hit("fault_alloc_failed");
                if (ok && env::alloc.fired && b.out.terrain_ != a.out.terrain_) cx.fail("init-swallowed", "an allocation failed, no error was raised and the terrain differs");
            }
            init(b, seed, amp);
            if (b.out.terrain_ != a.out.terrain_) cx.fail("init-retry", "initialising again after a failed allocation gives another terrain");
        }
        // in the middle of a mission, in a disturbed environment
        Rng er((uint64_t)o.a[2]);
        env::alloc.poison = (unsigned char)er.i(1, 255);
        env::HeapShuffle(er.next());
        env::StackPollute((unsigned char)er.i(1, 255));
        env::clk.now_ns += er.next() % 4000000000000000ull; env::clk.device ^= er.next() | 1;
        cx.hit("fault_heap_garbage"); cx.hit("fault_clock_jump"); cx.hit("fault_stack_garbage");
        SimOut before = ms.w.out;
        std::vector<float> bp = ms.w.body()->pos_, bo = ms.w.body()->ori_;
        simseam::Engine keep = ms.w.rng;
        init(ms.w, seed, amp);
        env::HeapShuffleDrop();
        env::alloc.poison = 0xA5;
        if (ms.w.out.terrain_ != a.out.terrain_) cx.fail("init-env", "the same seed and amplitude gave a different terrain in another environment");
        if (!(ms.w.rng == after)) cx.fail("init-draws", "initialisation consumed a different number of random draws");
        if (ms.w.out.body_ != before.body_ || ms.w.out.body_soil_ != before.body_soil_ || ms.w.out.body_soil_pos_.size() != before.body_soil_pos_.size() ||
            ms.w.body()->pos_ != bp || ms.w.body()->ori_ != bo)
            cx.fail("init-touched", "initialisation changed something other than the terrain");
        ms.w.out.terrain_ = before.terrain_;               // the mission goes on
        ms.w.rng = keep;
        cx.log.w(a.StateHash());
        cx.states.push_back(a.StateHash(false));
        if (!prev.empty() && amp != 0 && std::fabs(amp) > 300 * cz && pamp > 300 * cz && prev == a.out.terrain_) cx.fail("init-seed", "two different seeds gave the same terrain");
        prev = a.out.terrain_; pamp = std::fabs(amp);
        cx.hit("inits");
    }
    cx.nontrivial = inits >= 2;
}

const std::vector<Prop>& IoProps() {
    static std::vector<Prop> v = {
        {"C11", GenFiles, ExecFiles, "One case = one seeded mission whose frames are written to a real scratch directory through a disk fault layer (refused opens, failed existence probes, write errors, short and interrupted writes, full disk, close errors, process crash at a random disk operation, restart, results of earlier campaigns already present, a second machine); after every write the whole directory is compared with the recorded archive and the simulator state. Non-trivial: at least 2 complete frames verified and a fault, an earlier campaign or carried soil."},
        {"C12", GenObs, ExecObs, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; executed once bare and once with audits and result writing (under disk and allocation faults) inserted at random points; states and random source compared after every operation. Non-trivial: at least 4 observations made and soil carried during at least 2 steps."},
        {"C13", GenAudit, ExecAudit, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; the audit's verdict on the live state and on copies corrupted by one random state fault is compared with an independent judge. Non-trivial: at least 5 corrupted states judged and soil carried during at least 2 steps."},
        {"C15", GenInit, ExecInit, "One case = one seeded site with 2-5 initialisations at random points of a mission, each repeated on a fresh site, after a failed allocation and in a disturbed environment. Non-trivial: at least 2 initialisations."},
    };
    return v;
}
