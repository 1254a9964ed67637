// Properties that depend on the environment: determinism and isolation, the
// movement gate, memory safety under allocation failure, the footprint.
#include <algorithm>
#include <errno.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include "core.hpp"

static Motion Swarm2(Rng& r) {
    Motion m;
    m.steps = r.i(15, 70);
    m.yaw = r.p(0.8); m.roll = r.p(0.6);
    if (r.p(0.5)) { m.drop = r.p(0.5) ? r.u(0.02, 0.3) : 0; m.dup = r.p(0.4) ? r.u(0.02, 0.2) : 0; m.reorder = r.p(0.4) ? r.u(0.02, 0.2) : 0; }
    if (r.p(0.2)) m.jump = r.u(0.05, 0.3);
    m.pour = r.p(0.3);
    return m;
}

// ------------------------------------------------------------- C05
static void GenDet(Rng& r, Plan* p) {
    Motion m = Swarm2(r);
    GenConfig(r, p, m);
    GenMission(r, p, m);
    if (r.p(0.25)) AddParams(r, p, 0.05);
    if (r.p(0.15)) AddTools(r, p, 0.04);
    auto& c = p->c;
    for (const char* f : {"e_poison", "e_heap", "e_stack", "e_clock", "e_history", "e_other", "e_ckpt", "e_observe"}) c[f] = r.p(0.5);
    c["e_again"] = r.p(0.35);
    c["e_seed"] = (double)(r.next() & 0xFFFFFFF);
    std::vector<Op> out;
    for (auto& o : p->ops) {
        if (c["e_ckpt"] != 0 && o.k == "step" && r.p(0.08)) { Op q; q.k = "ckpt"; out.push_back(q); }
        if (c["e_other"] != 0 && o.k == "step" && r.p(0.3)) { Op q; q.k = "other"; q.a = {(double)r.i(1, 4)}; out.push_back(q); }
        if (c["e_observe"] != 0 && o.k == "step" && r.p(0.1)) { Op q; q.k = "check"; out.push_back(q); }
        out.push_back(o);
    }
    p->ops = out;
}
// The course of a mission in a process that has done nothing before: a child
// forked before the first run serves as the template of such processes.
struct Course { std::vector<uint64_t> hash, warns; };
static Course Drive(const Plan& p, Ctx& cx, bool shape) {
    Course c;
    Mission ms(p, cx);
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        uint64_t wn = 0;
        if (!ms.Env(o) && o.k == "step") {
            auto r = ms.Step(o);
            for (auto& s : r.warn) wn += s.size();
            if (shape) CountShape(ms.w.out, 1e-5, cx);
        }
        c.warns.push_back(wn);
        c.hash.push_back(ms.w.StateHash());
    }
    return c;
}
static int clean_in = -1, clean_out = -1;
static bool ReadAll(int fd, void* d, size_t n) {
    for (char* q = (char*)d; n;) {
        ssize_t k = read(fd, q, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        q += k; n -= (size_t)k;
    }
    return true;
}
static bool WriteAll(int fd, const void* d, size_t n) {
    for (const char* q = (const char*)d; n;) {
        ssize_t k = write(fd, q, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        q += k; n -= (size_t)k;
    }
    return true;
}
void StartCleanTemplate() {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return;
    fflush(stdout);
    pid_t c = fork();
    if (c < 0) return;
    if (c > 0) { close(a[0]); close(b[1]); clean_in = a[1]; clean_out = b[0]; return; }
    close(a[1]); close(b[0]);
    signal(SIGPIPE, SIG_DFL);
    for (;;) {
        uint64_t n = 0;
        if (!ReadAll(a[0], &n, sizeof n)) _exit(0);
        std::string text(n, 0);
        if (!ReadAll(a[0], text.data(), n)) _exit(0);
        int r[2];
        if (pipe(r)) _exit(1);
        pid_t g = fork();
        if (g < 0) _exit(1);
        if (g == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(r[0]);
            Plan p = Plan::parse(text);
            Ctx cx;
            env::alloc = env::AllocCtl();
            env::clk = env::ClockCtl();
            env::alloc.limit = 400000000L;
            env::alloc.poison = 0xA5;
            Course co;
            try { co = Drive(p, cx, false); } catch (...) { _exit(1); }
            uint64_t k = co.hash.size();
            WriteAll(r[1], &k, sizeof k);
            WriteAll(r[1], co.hash.data(), k * 8);
            WriteAll(r[1], co.warns.data(), k * 8);
            _exit(0);
        }
        close(r[1]);
        std::vector<uint64_t> d;
        uint64_t k = 0, none = ~0ull;
        bool ok = ReadAll(r[0], &k, sizeof k) && k < 1000000;
        if (ok) { d.resize(2 * k); ok = ReadAll(r[0], d.data(), 2 * k * 8); }
        close(r[0]);
        int st;
        while (waitpid(g, &st, 0) < 0 && errno == EINTR) {}
        if (!ok) { if (!WriteAll(b[1], &none, sizeof none)) _exit(0); continue; }
        if (!WriteAll(b[1], &k, sizeof k) || !WriteAll(b[1], d.data(), d.size() * 8)) _exit(0);
    }
}
static bool CleanCourse(const Plan& p, Course* c) {
    if (clean_in < 0) return false;
    std::string t = p.str();
    uint64_t n = t.size(), k = 0;
    if (!WriteAll(clean_in, &n, sizeof n) || !WriteAll(clean_in, t.data(), n)) return false;
    if (!ReadAll(clean_out, &k, sizeof k) || k != p.ops.size()) return false;
    c->hash.resize(k); c->warns.resize(k);
    return ReadAll(clean_out, c->hash.data(), k * 8) && ReadAll(clean_out, c->warns.data(), k * 8);
}
static void ExecDet(const Plan& p, Ctx& cx) {
    Course co;
    bool clean = CleanCourse(p, &co);
    if (clean) cx.hit("reference_from_clean_process");
    env::alloc.poison = 0xA5;
    if (!clean || p.g("e_again") != 0) {                   // the same mission once before, undisturbed
        Course first = Drive(p, cx, true);
        if (!clean) co = first;
        for (size_t k = 0; k < p.ops.size(); k++)
            if (first.hash[k] != co.hash[k] || first.warns[k] != co.warns[k]) {
                cx.op = (int)k;
                cx.fail("det-history", Fmt("operation %zu (%s) went differently than in a process that had done nothing before", k, p.ops[k].k.c_str()));
            }
    }
    auto& ref = co.hash;
    auto& warns = co.warns;
    uint64_t es = (uint64_t)p.g("e_seed");
    Rng er(es);
    if (p.g("e_poison") != 0) { env::alloc.poison = 0x3C; cx.hit("fault_heap_garbage"); }
    if (p.g("e_heap") != 0) { env::HeapShuffle(es); cx.hit("fault_heap_layout"); }
    if (p.g("e_clock") != 0) { env::clk.now_ns += er.next() % 4000000000000000ull; env::clk.step_ns = 1 + er.next() % 100000000000ull; env::clk.device ^= er.next() | 1; cx.hit("fault_clock_jump"); }
    // another machine on another site, in the same process
    Plan op;
    std::unique_ptr<Mission> other;
    Ctx ocx;
    size_t opos = 0;
    auto advance = [&](int n) {
        for (int i = 0; i < n && opos < op.ops.size(); i++) {
            auto& o = op.ops[opos++];
            if (!other->Env(o) && o.k == "step") other->Step(o);
        }
    };
    if (p.g("e_history") != 0 || p.g("e_other") != 0) {
        Rng orr(es ^ 0x5555);
        Motion m; m.steps = 40; m.pour = true;
        op.prop = "x";
        GenConfig(orr, &op, m);
        GenMission(orr, &op, m);
        other = std::make_unique<Mission>(op, ocx);
        if (p.g("e_history") != 0) { advance(15); cx.hit("fault_prior_history"); }
    }
    auto ms = std::make_unique<Mission>(p, cx);
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (o.k == "ckpt") {
            Checkpoint c(ms->w);
            SimParam sp = ms->sp;
            ms = std::make_unique<Mission>(p, cx);
            c.Restore(&ms->w);
            ms->sp = sp;
            cx.hit("fault_restart_from_checkpoint");
        } else if (o.k == "other") {
            if (other) { advance((int)o.a[0]); cx.hit("fault_interleaved_machine"); }
        } else if (o.k == "check") {
            ms->w.Check(0);
            env::ClearWarnings();
        } else if (!ms->Env(o) && o.k == "step") {
            if (p.g("e_stack") != 0) { env::StackPollute((unsigned char)er.i(1, 255)); cx.hit("fault_stack_garbage"); }
            auto r = ms->Step(o);
            if (p.g("e_again") == 0) CountShape(ms->w.out, 1e-5, cx);
            size_t wn = 0;
            for (auto& s : r.warn) wn += s.size();
            if (wn != warns[k]) cx.fail("det-log", "the same history produced different warnings");
        }
        if (ms->w.StateHash() != ref[k]) {
            env::HeapShuffleDrop();
            cx.fail("det-diverge", Fmt("replaying the same history from the same seed diverged at operation %zu (%s)", k, o.k.c_str()));
        }
    }
    env::HeapShuffleDrop();
    cx.nontrivial = cx.n["steps_carrying"] >= 4;
}

// ------------------------------------------------------------- C06 gate
static void QMul(const double a[4], const double b[4], double o[4]) {
    o[0] = a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3];
    o[1] = a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2];
    o[2] = a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1];
    o[3] = a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0];
}
static void GenGate(Rng& r, Plan* p) {
    Motion m;
    GenConfig(r, p, m);
    p->c["maxit"] = r.pick({0, 1, 2});
    World w(*p);
    double minc = std::min(w.grid.cell_size_xy_, w.grid.cell_size_z_);
    double pos[3] = {r.u(-1, 1) * w.grid.cell_size_xy_ * 2, r.u(-1, 1) * w.grid.cell_size_xy_ * 2, 0}, q[4];
    EulerToQuat(r.p(0.5) ? 0 : r.u(-3, 3), r.u(-1.5, 1.5), r.p(0.5) ? 0 : r.u(-0.4, 0.4), q);
    auto ok = [&](const double a[3], const double b[4]) { Pose x; for (int i = 0; i < 3; i++) x.p[i] = (float)a[i]; for (int i = 0; i < 4; i++) x.q[i] = (float)b[i]; return PoseInside(w, x, 4); };
    for (int k = 0; k < 50 && !ok(pos, q); k++) { pos[0] *= 0.7; pos[1] *= 0.7; EulerToQuat(0, r.u(-1.5, 1.5), 0, q); }
    if (r.p(0.25)) {                       // places where numbers are exactly zero
        double z[3] = {r.p(0.5) ? 0 : pos[0], r.p(0.5) ? 0 : pos[1], r.p(0.7) ? 0 : pos[2]}, s = std::sqrt(0.5), e[4] = {0, 0, 0, 0};
        switch (r.i(0, 4)) {
            case 0: e[0] = 1; break;
            case 1: e[r.i(1, 3)] = 1; break;                       // half a turn
            case 2: e[0] = s; e[r.i(1, 3)] = s; break;             // a quarter
            case 3: e[0] = -1; break;
            default: e[1] = s; e[r.i(2, 3)] = s;
        }
        if (ok(z, e)) { for (int i = 0; i < 3; i++) pos[i] = z[i]; for (int i = 0; i < 4; i++) q[i] = e[i]; }
    }
    if (!ok(pos, q)) { p->ops.clear(); return; }
    p->ops.push_back(StepOp(pos, q));
    double base_p[3] = {pos[0], pos[1], pos[2]}, base_q[4] = {q[0], q[1], q[2], q[3]};
    int n = r.i(30, 120);
    double creep = r.u(0.02, 0.3);
    double cdir[3] = {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)};
    for (int k = 0; k < n; k++) {
        double np[3] = {pos[0], pos[1], pos[2]}, nq[4] = {q[0], q[1], q[2], q[3]};
        std::string note;
        int kind = r.i(0, 6);
        // displacement of the fastest corner aimed at, in smallest-cell units
        double amt = r.p(0.5) ? r.u(0.35, 0.65) : r.p(0.5) ? r.u(1.8, 2.2) : r.u(0.02, 1.2);
        if (kind == 0) { for (int i = 0; i < 3; i++) np[i] += cdir[i] * creep * minc; note = "creep"; }          // accumulate
        else if (kind == 1) { int ax = r.i(0, 2); np[ax] += (r.p(0.5) ? 1 : -1) * amt * minc; }
        else if (kind == 2) { double d[3] = {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)}, l = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]); for (int i = 0; i < 3; i++) np[i] += d[i] / l * amt * minc; }
        else if (kind == 3) { note = "dup"; }
        else if (kind == 4) { for (int i = 0; i < 4; i++) nq[i] = -nq[i]; note = "sign"; }
        else if (kind == 5) { for (int i = 0; i < 3; i++) np[i] = base_p[i]; for (int i = 0; i < 4; i++) nq[i] = base_q[i]; note = "return"; }
        else {
            // rotate about one corner so that the corners move unequally
            auto cs = Corners(w, pos, q);
            V3d c = cs[r.i(0, 5)];
            double ax[3] = {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)}, l = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]);
            double ang = 1e-3, dq[4] = {std::cos(ang / 2), std::sin(ang / 2) * ax[0] / l, std::sin(ang / 2) * ax[1] / l, std::sin(ang / 2) * ax[2] / l};
            double tq[4];
            auto place = [&](double a) {
                dq[0] = std::cos(a / 2);
                for (int i = 0; i < 3; i++) dq[i + 1] = std::sin(a / 2) * ax[i] / l;
                QMul(q, dq, tq);
                // keep corner c in place: body-frame coordinates of c
                double conj[4] = {q[0], -q[1], -q[2], -q[3]};
                V3d loc = Rotate(conj, c - V3d{pos[0], pos[1], pos[2]});
                V3d now = Rotate(tq, loc);
                np[0] = c.x - now.x; np[1] = c.y - now.y; np[2] = c.z - now.z;
                auto c2 = Corners(w, np, tq);
                double mx = 0;
                for (int i = 0; i < 6; i++) mx = std::max(mx, Norm(c2[i] - cs[i]));
                return mx;
            };
            double d = place(ang);
            if (d > 0) place(ang * amt * minc / d);
            for (int i = 0; i < 4; i++) nq[i] = tq[i];
            note = "pivot";
        }
        if (!ok(np, nq)) continue;
        for (int i = 0; i < 3; i++) pos[i] = np[i];
        for (int i = 0; i < 4; i++) q[i] = nq[i];
        if (r.p(0.1)) { base_p[0] = pos[0]; base_p[1] = pos[1]; base_p[2] = pos[2]; for (int i = 0; i < 4; i++) base_q[i] = q[i]; }
        p->ops.push_back(StepOp(pos, q, note));
        if (r.p(0.01)) { Op t; t.k = "tool"; t.a = {r.pick({1.0, 0.9, 0.7, 0.5})}; p->ops.push_back(t); }
    }
}
static void ExecGate(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    double minc = std::min(ms.w.grid.cell_size_xy_, ms.w.grid.cell_size_z_);
    bool have = false;
    Pose last{};
    long acc = 0, rej = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (o.k == "tool") have = false;        // a machine that has not moved yet
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        Pose ps = PoseOf(o);
        uint64_t h0 = ms.w.StateHash();
        auto r = ms.Step(o);
        double d = -1;
        if (have) {
            double pa[3] = {last.p[0], last.p[1], last.p[2]}, qa[4] = {last.q[0], last.q[1], last.q[2], last.q[3]};
            double pb[3] = {ps.p[0], ps.p[1], ps.p[2]}, qb[4] = {ps.q[0], ps.q[1], ps.q[2], ps.q[3]};
            auto a = Corners(ms.w, pa, qa), b = Corners(ms.w, pb, qb);
            for (int i = 0; i < 6; i++) d = std::max(d, Norm(a[i] - b[i]));
            double e = 2e-3 * minc + 2e-6;
            if (d < 0.5 * minc - e && r.updated) cx.fail("gate-early", Fmt("updated after a movement of %.4f cells", d / minc));
            if (d > 0.5 * minc + e && !r.updated) cx.fail("gate-missed", Fmt("skipped although a corner moved %.4f cells since the last update", d / minc));
            bool big = Announced(r, "Movement made");
            if (d > 2 * minc + e && !big) cx.fail("gate-nowarn", Fmt("no warning for a movement of %.4f cells", d / minc));
            if (d < 2 * minc - e && big) cx.fail("gate-falsewarn", Fmt("warning for a movement of only %.4f cells", d / minc));
            if (std::fabs(d - 0.5 * minc) < 0.2 * minc) cx.hit("near_threshold");
        } else if (!r.updated) cx.fail("gate-first", "the first step of a machine was skipped");
        if (r.updated) {
            acc++;
            have = true; last = ps;
            for (int i = 0; i < 3; i++) if (ms.w.body()->pos_[i] != ps.p[i]) cx.fail("gate-pose", "accepted pose was not recorded");
            for (int i = 0; i < 4; i++) if (ms.w.body()->ori_[i] != ps.q[i]) cx.fail("gate-pose", "accepted orientation was not recorded");
        } else {
            rej++;
            if (ms.w.StateHash() != h0) cx.fail("gate-noop", "a skipped step changed the simulation state");
        }
    }
    cx.hit("accepted", acc); cx.hit("rejected", rej);
    cx.nontrivial = acc >= 3 && rej >= 3;
}

// ------------------------------------------------------------- C08 memory
static void GenMem(Rng& r, Plan* p) {
    Motion m = Swarm2(r);
    m.steps = r.i(10, 50);
    GenConfig(r, p, m);
    GenMission(r, p, m);
    p->c["tight"] = r.p(0.6);
    if (r.p(0.15)) p->c["mirror"] = r.i(1, 1000);
    if (r.p(0.15)) AddTools(r, p, 0.04);
    if (r.p(0.25)) AddParams(r, p, 0.05);
    std::vector<Op> out;
    double rate = r.p(0.3) ? 0.0 : r.u(0.02, 0.3);
    for (auto& o : p->ops) {
        if (o.k == "step" && r.p(rate)) { Op q; q.k = "afail"; q.a = {r.u(), (double)r.pick({1, 1, 2, 1000000})}; out.push_back(q); }
        out.push_back(o);
        if (r.p(0.03)) { Op q; q.k = "check"; out.push_back(q); }
    }
    p->ops = out;
}
static void ExecMem(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    double frac = -1;
    long len = 1, fired = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k == "afail") { frac = o.a[0]; len = (long)o.a[1]; continue; }
        if (o.k == "check") { ms.w.Check(0); continue; }
        if (o.k != "step") continue;
        if (frac < 0) { ms.Step(o); CountShape(ms.w.out, 1e-5, cx); continue; }
        Checkpoint before(ms.w);
        Pose ps = PoseOf(o);
        ms.w.Step(ps, &ms.sp);
        long total = env::alloc.count;
        uint64_t want = ms.w.StateHash();
        before.Restore(&ms.w);
        if (total > 0) {
            long at = std::min(total - 1, (long)(frac * total));
            int leaks = 0;
            long leaked = 0;
            for (int rep = 0; rep < 3; rep++) {
                long live0 = env::alloc.live;
                {
                    World w2(p);
                    before.Restore(&w2);
                    env::alloc.fail_at = at; env::alloc.fail_len = len; env::alloc.fired = 0;
                    StepResult r;
                    try { r = w2.Step(ps, &ms.sp); } catch (const std::exception& e) {
                        env::alloc.in_sut = false; env::alloc.fail_at = -1;
                        cx.fail("oom-exception", std::string("allocation failure surfaced as ") + e.what());
                    }
                    env::alloc.fail_at = -1;
                    if (env::alloc.fired) { fired++; cx.hit("fault_alloc_failed"); }
                    if (r.threw) cx.hit("oom_reported");
                    if (env::alloc.fired && !r.threw && w2.StateHash() != want)
                        cx.fail("oom-swallowed", Fmt("allocation %ld of %ld failed, no error was raised and the result differs", at, total));
                }
                if (env::alloc.live > live0) { leaks++; leaked = env::alloc.live - live0; }
            }
            if (leaks == 3) cx.fail("oom-leak", Fmt("allocation %ld of %ld failing leaks %ld blocks", at, total, leaked));
        }
        frac = -1;
        ms.Step(o);
        if (ms.w.StateHash() != want) cx.fail("oom-aftermath", "after a failed step elsewhere, restoring the last state and repeating the step gives a different result");
    }
    // destroying everything must give every block back
    cx.nontrivial = cx.n["steps_carrying"] >= 2 || fired > 0;
}

// ------------------------------------------------------------- C09 footprint
static void GenFoot(Rng& r, Plan* p) {
    Motion m = Swarm2(r);
    m.steps = r.i(10, 50);
    m.mv_lo = 0.3; m.mv_hi = 4;
    m.pour = r.p(0.2);
    GenConfig(r, p, m);
    p->c["maxit"] = r.pick({0, 1, 2});
    GenMission(r, p, m);
    if (r.p(0.35)) AddParams(r, p, 0.2);
    if (r.p(0.2)) AddTools(r, p, 0.08);
    p->c["refbuffer"] = r.pick({2, 3, 5, 8});
}
struct Wall { V3d a, u, v; bool tri; };
static std::vector<Wall> Walls(const World& w, const Pose& ps) {
    double pos[3] = {ps.p[0], ps.p[1], ps.p[2]}, q[4] = {ps.q[0], ps.q[1], ps.q[2], ps.q[3]};
    auto c = Corners(w, pos, q);     // J_r J_l B_r B_l T_r T_l
    std::vector<Wall> v;
    if (w.bucket) {
        v.push_back({c[2], c[3] - c[2], c[4] - c[2], false});   // base
        v.push_back({c[2], c[3] - c[2], c[0] - c[2], false});   // back
        v.push_back({c[0], c[2] - c[0], c[4] - c[0], true});
        v.push_back({c[1], c[3] - c[1], c[5] - c[1], true});
    } else {
        V3d n = Cross(c[1] - c[0], c[3] - c[0]);
        n = ((double)w.grid.cell_size_xy_ / Norm(n)) * n;
        for (int k = 0; k < 2; k++) {
            V3d o = (double)k * n;
            v.push_back({c[2] + o, c[3] - c[2], c[0] - c[2], false});
            v.push_back({c[4] + o, c[5] - c[4], c[0] - c[4], false});
        }
    }
    return v;
}
struct Hole { int i, j; std::string msg; };
// marches over every wall and reports points no machine layer covers
static void Scan(const World& w, const SimOut& s, const std::vector<Wall>& walls, std::vector<double>* lo, std::vector<double>* hi, std::vector<Hole>* holes, Ctx& cx) {
    double cxy = w.grid.cell_size_xy_, cz = w.grid.cell_size_z_;
    int hx = w.grid.half_length_x_, hy = w.grid.half_length_y_, nx = w.nx(), ny = w.ny();
    for (auto& wl : walls) {
        double st = 0.25 * std::min(cxy, cz * 2);
        int nu = std::min(120, std::max(2, (int)std::ceil(Norm(wl.u) / st))), nv = std::min(120, std::max(2, (int)std::ceil(Norm(wl.v) / st)));
        for (int a = 0; a <= nu; a++)
            for (int b = 0; b <= nv; b++) {
                double fu = (double)a / nu, fv = (double)b / nv;
                if (wl.tri && fu + fv > 1 + 1e-9) continue;
                V3d x = wl.a + fu * wl.u + fv * wl.v;
                double fi = x.x / cxy + hx, fj = x.y / cxy + hy;
                int i = (int)std::lround(fi), j = (int)std::lround(fj);
                if (i < 0 || j < 0 || i >= nx || j >= ny) continue;
                if (lo) {
                    size_t c = (size_t)i * ny + j;
                    (*lo)[c] = std::min((*lo)[c], x.z);
                    (*hi)[c] = std::max((*hi)[c], x.z);
                }
                if (std::fabs(fi - i) > 0.45 || std::fabs(fj - j) > 0.45) continue;   // too close to a cell border
                cx.n["wall_points"]++;
                double miss = 1e30;
                for (int l = 0; l < 4; l += 2)
                    if (BodyAt(s, i, j, l)) miss = std::min(miss, std::max({0.0, s.body_[l][i][j] - x.z, x.z - s.body_[l + 1][i][j]}));
                if (miss > 1.01 * cz) {
                    if (!holes->empty() && holes->back().i == i && holes->back().j == j) continue;
                    holes->push_back({i, j, Fmt("wall point (%.4g,%.4g,%.4g) in cell (%d,%d) is not covered, nearest layer %.3g cells away", x.x, x.y, x.z, i, j, miss / cz)});
                }
            }
    }
}
// machine layers that no wall accounts for
struct Misfit { int i, j; const char* cls; std::string msg; };
static std::vector<Misfit> Misfits(const SimOut& s, int nx, int ny, double cz, const std::vector<double>& lo, const std::vector<double>& hi) {
    std::vector<Misfit> v;
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++)
            for (int l = 0; l < 4; l += 2) {
                if (!BodyAt(s, i, j, l)) continue;
                double a = 1e30, b = -1e30;
                for (int x = std::max(0, i - 1); x <= std::min(nx - 1, i + 1); x++)
                    for (int y = std::max(0, j - 1); y <= std::min(ny - 1, j + 1); y++) { a = std::min(a, lo[(size_t)x * ny + y]); b = std::max(b, hi[(size_t)x * ny + y]); }
                if (b < a) v.push_back({i, j, "foot-ghost", Fmt("cell (%d,%d) carries a machine layer but no wall passes nearby", i, j)});
                else if (s.body_[l][i][j] < a - 1.6 * cz || s.body_[l + 1][i][j] > b + 1.6 * cz)
                    v.push_back({i, j, "foot-extent", Fmt("machine layer %d at (%d,%d) spans [%.5g,%.5g], walls around only [%.5g,%.5g]", l, i, j, s.body_[l][i][j], s.body_[l + 1][i][j], a, b)});
            }
    return v;
}
static void ExecFoot(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    double cxy = ms.w.grid.cell_size_xy_, cz = ms.cz;
    int nx = ms.w.nx(), ny = ms.w.ny();
    long upd = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        auto r = ms.Step(o);
        if (!r.updated) continue;
        upd++;
        Pose ps = PoseOf(o);
        // the same machine put there straight away, on an empty site
        Plan q = p;
        q.c["terrain"] = 0;
        World f(q);
        f.SetTool(ms.w.tool);
        SimParam sp = ms.sp;
        sp.max_iterations_ = 0; sp.cell_buffer_ = (int)p.g("refbuffer");
        f.Step(ps, &sp);
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++)
                for (int l = 0; l < 4; l++)
                    if (f.out.body_[l][i][j] != ms.w.out.body_[l][i][j])
                        cx.fail("foot-history", Fmt("machine surface %d at (%d,%d) is %.6g, but %.6g when the machine is put at the same pose directly", l, i, j, ms.w.out.body_[l][i][j], f.out.body_[l][i][j]));
        // geometry
        const SimOut& s = ms.w.out;
        std::vector<double> lo((size_t)nx * ny, 1e30), hi((size_t)nx * ny, -1e30);
        std::vector<Hole> holes;
        Scan(ms.w, s, Walls(ms.w, ps), &lo, &hi, &holes, cx);
        int looked = 0;
        for (auto& h : holes) {
            if (looked++ > 12) break;
            // A wall that runs along a cell border is ambiguous by design
            // (docs: "the exact location becomes ambiguous"); such a miss
            // vanishes when the machine is nudged, a real hole does not.
            Rng nr(k * 7919 + 13);
            int still = 0;
            for (int t = 0; t < 8; t++) {
                Pose pn = ps;
                for (int d = 0; d < 3; d++) pn.p[d] += (float)(nr.u(-1, 1) * (d == 2 ? 0.02 * cz : 0.02 * cxy));
                World g(q);
                g.SetTool(ms.w.tool);
                g.Step(pn, &sp);
                std::vector<Hole> hs;
                Scan(g, g.out, Walls(g, pn), nullptr, nullptr, &hs, cx);
                for (auto& x : hs) if (std::abs(x.i - h.i) <= 1 && std::abs(x.j - h.j) <= 1) { still++; break; }
            }
            if (still >= 6) cx.fail("foot-hole", h.msg + Fmt(" (still there at %d of 8 nearby poses)", still));
            cx.hit("border_coincidences");
        }
        std::vector<Misfit> bad = Misfits(s, nx, ny, cz, lo, hi);
        looked = 0;
        for (auto& m : bad) {
            if (looked++ > 12) break;
            // same for an edge that starts exactly on a cell border
            Rng nr(k * 6271 + 7);
            int still = 0;
            for (int t = 0; t < 8; t++) {
                Pose pn = ps;
                for (int d = 0; d < 3; d++) pn.p[d] += (float)(nr.u(-1, 1) * (d == 2 ? 0.02 * cz : 0.02 * cxy));
                World g(q);
                g.SetTool(ms.w.tool);
                g.Step(pn, &sp);
                std::vector<double> l2((size_t)nx * ny, 1e30), h2((size_t)nx * ny, -1e30);
                std::vector<Hole> hs;
                Scan(g, g.out, Walls(g, pn), &l2, &h2, &hs, cx);
                for (auto& x : Misfits(g.out, nx, ny, cz, l2, h2)) if (std::abs(x.i - m.i) <= 1 && std::abs(x.j - m.j) <= 1 && !strcmp(x.cls, m.cls)) { still++; break; }
            }
            if (still >= 6) cx.fail(m.cls, m.msg + Fmt(" (still there at %d of 8 nearby poses)", still));
            cx.hit("border_coincidences");
        }
    }
    cx.nontrivial = upd >= 5;
}

const std::vector<Prop>& EnvProps() {
    static std::vector<Prop> v = {
        {"C05", GenDet, ExecDet, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; executed once undisturbed and once with heap garbage, heap layout, stack garbage, clock jumps, earlier history, an interleaved second machine, restarts from checkpoint and audits injected; state hashes compared after every operation. Non-trivial: soil was carried during at least 4 steps."},
        {"C06", GenGate, ExecGate, "One case = one seeded stream of 30-120 poses aimed at the two movement thresholds (creeping, single-axis, pivoting about one corner, duplicates, sign-flipped orientation, returns to an old pose), each step judged against a double-precision corner model. Non-trivial: at least 3 accepted and 3 skipped steps."},
        {"C08", GenMem, ExecMem, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; half of the workers under AddressSanitizer/UBSan, all with checked containers; at random steps one allocation (or all after it) is made to fail and the step is repeated from a checkpoint. Non-trivial: soil was carried during at least 2 steps or an allocation failure fired."},
        {"C09", GenFoot, ExecFoot, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; after every accepted step the machine layers are compared with those of a fresh site and with points sampled on every wall. Non-trivial: at least 5 accepted steps."},
    };
    return v;
}
