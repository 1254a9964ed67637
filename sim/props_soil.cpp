// Properties of the soil itself: conservation, ledger, conventions, grid,
// equilibrium, settling direction, carried soil, locality.
#include <algorithm>
#include "core.hpp"

// ------------------------------------------------------------- generators
static Motion Swarm(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(30, 140);
    m.yaw = r.p(0.8); m.roll = r.p(0.7);
    if (r.p(0.5)) {                                     // faulty pose link
        if (r.p(0.5)) m.drop = r.u(0.02, 0.3);
        if (r.p(0.4)) m.dup = r.u(0.02, 0.2);
        if (r.p(0.4)) m.reorder = r.u(0.02, 0.2);
        if (r.p(0.3)) m.stall = r.u(0.01, 0.08);
        if (r.p(0.25)) m.jump = r.u(0.05, 0.4);
    }
    if (r.p(0.3)) { m.mv_lo = 0.3; m.mv_hi = 4.0; }     // machine faster than recommended
    m.pour = r.p(0.35);
    (void)p;
    return m;
}
static void Extras(Rng& r, Plan* p) {
    if (r.p(0.3)) AddParams(r, p, 0.03);
    if (r.p(0.15)) AddTools(r, p, 0.04);
    if (r.p(0.2)) p->c["mirror"] = r.i(1, 1000);
}
static void GenMass(Rng& r, Plan* p) {
    Motion m = Swarm(r, p);
    GenConfig(r, p, m);
    GenMission(r, p, m);
    Extras(r, p);
}

// ------------------------------------------------------------- C01 mass
static void ExecMass(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    long start = MeasureMass(ms.w.out, ms.cz).cells, poured = 0, carried_max = 0, moved = 0, last_t = MeasureMass(ms.w.out, ms.cz).terrain;
    long have = start;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) { have += ms.poured - poured; poured = ms.poured; continue; }
        if (o.k != "step") continue;
        auto r = ms.Step(o);
        Mass m = MeasureMass(ms.w.out, ms.cz);
        carried_max = std::max(carried_max, m.carried);
        if (m.terrain != last_t) moved++;
        last_t = m.terrain;
        bool ann = Announced(r, "removed");
        if (m.cells > have) cx.fail("mass-gain", Fmt("soil appeared: %ld cells before the step, %ld after", have, m.cells));
        if (m.cells < have && !ann) cx.fail("mass-loss", Fmt("soil vanished without any announcement: %ld cells before the step, %ld after", have, m.cells));
        if (std::fabs(m.raw - m.cells * ms.cz) > 0.3 * ms.cz) cx.fail("mass-raw", Fmt("heights sum to %.6g, %ld whole cells make %.6g", m.raw, m.cells, m.cells * ms.cz));
        have = m.cells;
        CountShape(ms.w.out, 1e-5, cx);
    }
    cx.nontrivial = moved >= 3 && carried_max > 0;
}
// ------------------------------------------------------------- C02 / C03 / C04
static void ExecState(const Plan& p, Ctx& cx, std::function<std::string(Mission&)> oracle) {
    Mission ms(p, cx);
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        ms.Step(o);
        CountShape(ms.w.out, 1e-5, cx);
        Raise(cx, oracle(ms));
    }
    cx.nontrivial = cx.n["steps_carrying"] >= 5;
}
static void ExecLedger(const Plan& p, Ctx& cx) {
    ExecState(p, cx, [](Mission& m) { return OracleLedger(m.w.out, m.cz); });
}
static void ExecConv(const Plan& p, Ctx& cx) {
    ExecState(p, cx, [](Mission& m) { return OracleConventions(m.w.out, m.w.tol); });
}
// Rounding noise of a fifth of the tolerance on every height, all in the same
// direction: a heap that collapses far from the machine must not gather it.
static void GenNoisy(Rng& r, Plan* p) {
    auto& c = p->c;
    double cxy = r.pick({0.1, 0.05, 0.2, 0.125}), cz = cxy / r.pick({1.0, 2.0, 4.0, 5.0});
    c["cxy"] = cxy; c["cz"] = (float)cz;
    c["gx"] = r.i(16, 20) * cxy; c["gy"] = r.i(16, 20) * cxy; c["gz"] = 40 * cxy;
    c["repose"] = r.pick({0.85, 0.3, 0.6, 1.1});
    if (cxy * std::tan(c["repose"]) / cz < 0.6) c["repose"] = 0.85;
    c["maxit"] = r.i(1, 60); c["buffer"] = 3; c["tol"] = 1e-5;
    c["rng"] = r.i(1, 100000); c["rngmode"] = 0;
    c["blade"] = 0;
    c["ox"] = c["oy"] = c["oz"] = 0;
    c["jx"] = c["jy"] = c["jz"] = 0; c["bx"] = c["by"] = 0; c["bz"] = -2 * cxy; c["tx"] = 2.2 * cxy; c["ty"] = 0; c["tz"] = -2 * cxy;
    c["width"] = 2.3 * cxy;
    c["offgrid"] = r.pick({1, -1}) * r.u(0.1, 0.2) * 1e-5;
    c["rounds"] = r.i(2, 12);
    int n = r.i(1, 40), rad = r.i(1, 6);
    for (int k = 0; k < n; k++) {
        Op o; o.k = "tower";
        o.a = {(double)(10 + r.i(-rad, rad)), (double)(10 + r.i(-rad, rad)), (double)r.i(1, (int)(r.i(4, 30) * cxy / cz))};
        p->ops.push_back(o);
    }
}
static void ExecNoisy(const Plan& p, Ctx& cx) {
    World w(p);
    w.InitTerrain();
    double cz = w.grid.cell_size_z_, cxy = w.grid.cell_size_xy_, noise = p.g("offgrid") / cz;
    int hx = w.grid.half_length_x_, hy = w.grid.half_length_y_;
    for (auto& o : p.ops) if (o.k == "tower") w.out.terrain_[(int)o.a[0]][(int)o.a[1]] = (float)(o.a[2] * cz);
    double top = 0;
    for (auto& v : w.out.terrain_) for (auto& h : v) { top = std::max(top, std::fabs(h / cz)); h = (float)(h + p.g("offgrid")); }
    auto before = w.out.terrain_;
    double lim = 4 * std::fabs(noise) + 5e-6 * (1 + top);
    for (int t = 0; t < (int)p.g("rounds"); t++) {
        Pose q{{(float)((hx - 6) * cxy), (float)((hy - 6) * cxy), (float)(32 * cxy + (t % 2) * 0.75 * cz)}, {1, 0, 0, 0}};
        if (t) { w.out.relax_area_[0][0] = w.out.relax_area_[1][0] = 1; w.out.relax_area_[0][1] = 2 * hx; w.out.relax_area_[1][1] = 2 * hy; }
        if (!w.Step(q).updated) cx.fail("grid-gate", "the machine moved but the step was skipped");
        cx.sim_time += 0.1;
        cx.hit("steps");
        for (int i = 0; i < w.nx(); i++)
            for (int j = 0; j < w.ny(); j++) {
                double k = w.out.terrain_[i][j] / cz, off = std::fabs(k - std::round(k));
                if (!(off <= lim))
                    cx.fail("grid-noise", Fmt("round %d: terrain (%d,%d) = %.9g is %.6f cells off the height grid, although no height started more than %.6f off", t, i, j, w.out.terrain_[i][j], off, std::fabs(noise)));
            }
    }
    long moved = 0;
    for (int i = 0; i < w.nx(); i++) for (int j = 0; j < w.ny(); j++) moved += std::fabs(w.out.terrain_[i][j] - before[i][j]) > cz / 2;
    cx.hit("noisy_columns_settled", moved);
    cx.nontrivial = moved > 8;
}
static void ExecGrid(const Plan& p, Ctx& cx) {
    if (p.g("offgrid") != 0) return ExecNoisy(p, cx);
    ExecState(p, cx, [](Mission& m) { return OracleGrid(m.w.out, m.cz); });
}
static void GenLong(Rng& r, Plan* p) {      // longer, for drift
    if (r.p(0.15)) return GenNoisy(r, p);
    Motion m = Swarm(r, p);
    m.steps = r.i(100, 400);
    GenConfig(r, p, m);
    GenMission(r, p, m);
    Extras(r, p);
}

// ------------------------------------------------------------- C07 equilibrium
static void GenEq(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(20, 100);
    m.yaw = r.p(0.7); m.roll = r.p(0.5);
    m.mv_lo = 0.3; m.mv_hi = 1.0;
    if (r.p(0.5)) {
        if (r.p(0.5)) m.dup = r.u(0.02, 0.2);
        if (r.p(0.3)) m.stall = r.u(0.01, 0.05);
    }
    // a stalled or dropping link would exceed one cell per update, which the
    // documentation rules out; duplicates keep the distance
    m.stall = 0;
    GenConfig(r, p, m);
    auto& c = p->c;
    c["settled"] = 1;
    c["buffer"] = r.pick({3, 4, 4, 6});
    int burst = r.pick({1, 2, 3, 8});
    c["maxit"] = burst;
    GenMission(r, p, m);
    if (r.p(0.15)) p->c["mirror"] = r.i(1, 1000);
    // every so often the machine is given all the iterations it wants
    std::vector<Op> out;
    auto par = [&](int it) { Op q; q.k = "param"; q.a = {c["repose"], (double)it, c["buffer"]}; return q; };
    double rate = r.pick({0.05, 0.2, 1.0});
    if (4 * c["gx"] * c["gy"] / (c["cxy"] * c["cxy"]) > 2200) rate = 0;      // would take too long
    for (auto& o : p->ops) {
        bool b = o.k == "step" && r.p(rate);
        if (b) out.push_back(par(6000));
        out.push_back(o);
        if (b) out.push_back(par(burst));
    }
    p->ops = out;
}
static bool SameSoil(const SimOut& a, const SimOut& b, double cz, int* ai, int* aj) {
    for (size_t i = 0; i < a.terrain_.size(); i++)
        for (size_t j = 0; j < a.terrain_[0].size(); j++) {
            bool d = std::fabs(a.terrain_[i][j] - b.terrain_[i][j]) > 0.3 * cz;
            for (int l = 0; l < 4; l++) d |= std::fabs(a.body_soil_[l][i][j] - b.body_soil_[l][i][j]) > 0.3 * cz;
            if (d) { *ai = (int)i; *aj = (int)j; return false; }
        }
    return true;
}
static const int kPlenty = 6000;      // iterations a settling request grants
static void ExecEq(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    double dh = DhCells(ms.w.grid, p.g("repose")) * ms.cz;
    long eq = 0;
    double work = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        if (ms.sp.max_iterations_ >= kPlenty && work > 2e7) ms.sp.max_iterations_ = 8;
        Checkpoint before(ms.w);
        auto r = ms.Step(o);
        if (!r.updated) continue;
        std::string why;
        int ai = 0, aj = 0;
        if (ms.sp.max_iterations_ >= kPlenty) {
            cx.hit("settle_requests");
            if (!ms.w.out.equilibrium_) {
                work += 2.5 * kPlenty * ms.w.nx() * ms.w.ny();
                // not reported settled: the soil must nevertheless have come to
                // rest, and something must really be steeper than allowed
                cx.hit("settle_unreported");
                if (UnstableTerrain(ms.w.out, dh, ms.w.tol / 4, &ai, &aj) == 0 && UnstableCarried(ms.w.out, dh, ms.w.tol / 4, &why) == 0)
                    cx.fail("eq-unreported", Fmt("no slope is too steep after %d iterations, yet equilibrium is not reported", ms.sp.max_iterations_));
                SimOut end = ms.w.out;
                before.Restore(&ms.w);
                SimParam half = ms.sp;
                half.max_iterations_ = kPlenty / 2;
                ms.w.Step(PoseOf(o), &half);
                if (!SameSoil(end, ms.w.out, ms.cz, &ai, &aj))
                    cx.fail("eq-liveness", Fmt("soil still moving after %d iterations, e.g. at (%d,%d)", half.max_iterations_, ai, aj));
                before.Restore(&ms.w);
                ms.w.Step(PoseOf(o), &ms.sp);
            }
        }
        if (ms.w.out.equilibrium_) {
            eq++;
            cx.hit("equilibria");
            long n = UnstableTerrain(ms.w.out, dh, ms.w.tol, &ai, &aj);
            if (n) cx.fail("eq-terrain", Fmt("reported settled with %ld unstable terrain columns, e.g. (%d,%d) of %dx%d", n, ai, aj, ms.w.nx(), ms.w.ny()));
            n = UnstableCarried(ms.w.out, dh, ms.w.tol, &why);
            if (n) cx.fail("eq-carried", Fmt("reported settled with %ld unstable carried parcels, e.g. %s", n, why.c_str()));
        }
        CountShape(ms.w.out, 1e-5, cx);
    }
    cx.nontrivial = eq >= 2 && cx.n["steps_carrying"] >= 1;
}

// ------------------------------------------------------------- C10 downhill
static void GenDown(Rng& r, Plan* p) {
    Motion m = Swarm(r, p);
    m.steps = r.i(20, 90);
    GenConfig(r, p, m);
    GenMission(r, p, m);
    if (r.p(0.15)) p->c["mirror"] = r.i(1, 1000);
    if (r.p(0.3)) AddParams(r, p, 0.05);
}
// Soil only ever moves between neighbouring columns, towards the lower one:
// wherever columns changed together, no surface ends above the highest or
// below the lowest surface these columns had.
static void Surfaces(const SimOut& s, int i, int j, double* lo, double* hi) {
    *lo = std::min(*lo, (double)s.terrain_[i][j]); *hi = std::max(*hi, (double)s.terrain_[i][j]);
    for (int l = 0; l < 4; l += 2) {
        if (!BodyAt(s, i, j, l)) continue;
        double t = s.body_soil_[l][i][j] != 0 || s.body_soil_[l + 1][i][j] != 0 ? s.body_soil_[l + 1][i][j] : s.body_[l + 1][i][j];
        *lo = std::min(*lo, t); *hi = std::max(*hi, t);
    }
}
static void Reach(const SimOut& a, const SimOut& b, double cz, Ctx& cx) {
    int nx = (int)a.terrain_.size(), ny = (int)a.terrain_[0].size();
    std::vector<char> ch((size_t)nx * ny, 0);
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            bool c = a.terrain_[i][j] != b.terrain_[i][j];
            for (int l = 0; l < 4 && !c; l++) c = a.body_soil_[l][i][j] != b.body_soil_[l][i][j];
            ch[(size_t)i * ny + j] = c;
        }
    // columns between two changed ones may have passed soil on
    for (int t = 0; t < 2; t++) {
        auto q = ch;
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                size_t c = (size_t)i * ny + j;
                q[c] = ch[c] || (j > 0 && ch[c - 1]) || (j < ny - 1 && ch[c + 1]) || (i > 0 && ch[c - ny]) || (i < nx - 1 && ch[c + ny]);
            }
        ch = q;
    }
    std::vector<std::pair<int, int>> st;
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            if (ch[(size_t)i * ny + j] != 1) continue;
            double lo0 = 1e30, hi0 = -1e30, lo1 = 1e30, hi1 = -1e30;
            st.assign(1, {i, j});
            ch[(size_t)i * ny + j] = 2;
            while (!st.empty()) {
                auto [x, y] = st.back(); st.pop_back();
                Surfaces(a, x, y, &lo0, &hi0);
                Surfaces(b, x, y, &lo1, &hi1);
                static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
                for (auto& d : D) {
                    int u = x + d[0], v = y + d[1];
                    if (u < 0 || v < 0 || u >= nx || v >= ny || ch[(size_t)u * ny + v] != 1) continue;
                    ch[(size_t)u * ny + v] = 2;
                    st.push_back({u, v});
                }
            }
            cx.n["settled_regions"]++;
            if (hi1 > hi0 + 0.5 * cz) cx.fail("down-top", Fmt("settling around (%d,%d) built soil up to %.6g, above the highest soil %.6g there", i, j, hi1, hi0));
            if (lo1 < lo0 - 0.5 * cz) cx.fail("down-low", Fmt("settling around (%d,%d) dug down to %.6g, below the lowest surface %.6g there", i, j, lo1, lo0));
        }
}
static void ExecDown(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    long settled = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        Checkpoint before(ms.w);
        SimParam part = ms.sp;
        part.max_iterations_ = 0;
        Pose ps = PoseOf(o);
        auto r0 = ms.w.Step(ps, &part);
        long m0 = MeasureMass(ms.w.out, ms.cz).cells;
        Checkpoint last(ms.w);                           // after the iterations run so far
        double e0 = Energy(ms.w.out, ms.cz), ea = e0;
        // the same step with more and more of its iterations allowed
        std::vector<int> stages;
        for (int n = 1; n < ms.sp.max_iterations_ && n <= 4; n++) stages.push_back(n);
        for (size_t t = 0; t <= stages.size(); t++) {
            before.Restore(&ms.w);
            bool whole = t == stages.size();
            if (!whole) part.max_iterations_ = stages[t];
            auto r = whole ? ms.Step(o) : ms.w.Step(ps, &part);
            if (r.updated != r0.updated) cx.fail("down-gate", "the iteration budget changed whether the step was taken");
            if (!r.updated) continue;
            double e1 = Energy(ms.w.out, ms.cz);
            if (MeasureMass(ms.w.out, ms.cz).cells != m0) cx.fail("down-mass", "settling changed the amount of soil");
            if (e1 > ea + 0.25) cx.fail("down-energy", Fmt("settling raised the soil: potential energy %.1f -> %.1f (cell units)", ea, e1));
            for (auto& q : ms.w.out.body_soil_pos_)
                if (q.h_soil < -0.3 * ms.cz) cx.fail("down-overdraw", Fmt("settling took more soil from the parcel at (%d,%d) than it held: %.6g left", q.ii, q.jj, q.h_soil));
            if (!whole || (int)t + 1 == ms.sp.max_iterations_) Reach(last.out, ms.w.out, ms.cz, cx);   // a single iteration
            ea = e1;
            last = Checkpoint(ms.w);
            if (whole && e1 < e0 - 0.25) settled++;
        }
    }
    cx.hit("settling_steps", settled);
    cx.nontrivial = settled >= 3;
}

// ------------------------------------------------------------- C16 locality
static void GenLocal(Rng& r, Plan* p) {
    Motion m = Swarm(r, p);
    m.steps = r.i(20, 90);
    m.pour = false;
    GenConfig(r, p, m);
    p->c["maxit"] = r.pick({0, 1, 1, 2, 3});
    p->c["settled"] = r.p(0.7);
    GenMission(r, p, m);
    if (r.p(0.25)) AddParams(r, p, 0.05);
    if (r.p(0.15)) AddTools(r, p, 0.04);
    if (r.p(0.15)) p->c["mirror"] = r.i(1, 1000);
}
static void Dilate(std::vector<char>* m, int nx, int ny, int n, bool diag) {
    for (int k = 0; k < n; k++) {
        std::vector<char> q = *m;
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                if ((*m)[(size_t)i * ny + j]) continue;
                bool on = false;
                for (int a = -1; a <= 1 && !on; a++)
                    for (int b = -1; b <= 1 && !on; b++) {
                        if (!diag && a && b) continue;
                        int x = i + a, y = j + b;
                        if (x < 0 || y < 0 || x >= nx || y >= ny) continue;
                        on = (*m)[(size_t)x * ny + y];
                    }
                if (on) q[(size_t)i * ny + j] = 1;
            }
        *m = q;
    }
}
// The same step again with other ground far away from everything the step looks
// at: it must do the same, and leave that ground alone.
static void Elsewhere(const Plan& p, Mission& ms, const Checkpoint& was, const Pose& ps, const StepResult& r, const std::vector<char>& reach, Ctx& cx, int k) {
    int nx = ms.w.nx(), ny = ms.w.ny(), lo[2] = {nx, ny}, hi[2] = {-1, -1};
    auto in = [&](int i, int j) { lo[0] = std::min(lo[0], i); hi[0] = std::max(hi[0], i); lo[1] = std::min(lo[1], j); hi[1] = std::max(hi[1], j); };
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) if (reach[(size_t)i * ny + j]) in(i, j);
    for (auto* o : {&was.out, (const SimOut*)&ms.w.out}) {
        in(o->body_area_[0][0], o->body_area_[1][0]); in(o->body_area_[0][1], o->body_area_[1][1]);
        in(o->relax_area_[0][0], o->relax_area_[1][0]); in(o->relax_area_[0][1], o->relax_area_[1][1]);
    }
    int d = ms.sp.max_iterations_ + 2;
    auto near = [&](int i, int j) { return i >= lo[0] - d && i <= hi[0] + d && j >= lo[1] - d && j <= hi[1] + d; };
    World t(p);
    was.Restore(&t);
    t.sp = ms.sp;
    Rng q((uint64_t)k * 77 + 5);
    int amp = q.i(1, 30), far = 0;
    double noise = q.p(0.5) ? 0 : q.pick({1e-6, 1e-5, 1e-4});        // heights that are whole cells up to rounding
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) if (!near(i, j)) { t.out.terrain_[i][j] = (float)(ms.cz * (q.i(-amp, amp) + noise * q.u(-1, 1))); far++; }
    if (far < 20) return;
    cx.hit("far_ground_replaced");
    auto set = t.out.terrain_;
    auto s = t.Step(ps);
    if (s.updated != r.updated || s.warn.size() != r.warn.size()) cx.fail("local-depends", "with other ground far away the step is taken or warned about differently");
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            if (!near(i, j)) {
                if (t.out.terrain_[i][j] != set[i][j]) cx.fail("local-far", Fmt("ground at (%d,%d), far away, changed %.6g -> %.6g", i, j, set[i][j], t.out.terrain_[i][j]));
                continue;
            }
            if (t.out.terrain_[i][j] != ms.w.out.terrain_[i][j]) cx.fail("local-depends", Fmt("ground at (%d,%d) becomes %.6g, with other ground far away %.6g", i, j, ms.w.out.terrain_[i][j], t.out.terrain_[i][j]));
        }
    if (t.out.body_ != ms.w.out.body_ || t.out.body_soil_ != ms.w.out.body_soil_) cx.fail("local-depends", "machine surfaces or carried soil depend on ground far away");
    if (t.out.body_soil_pos_.size() != ms.w.out.body_soil_pos_.size() || t.out.equilibrium_ != ms.w.out.equilibrium_) cx.fail("local-depends", "records or the equilibrium flag depend on ground far away");
}
static void ExecLocal(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    int nx = ms.w.nx(), ny = ms.w.ny();
    static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    long changed_steps = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        auto before = ms.w.out.terrain_;
        Footprint f0(ms.w.out);
        std::vector<char> seed(f0.m);
        double dh = DhCells(ms.w.grid, ms.sp.repose_angle_) * ms.cz;
        for (int i = 1; i < nx - 1; i++)
            for (int j = 1; j < ny - 1; j++)
                for (auto& d : D)
                    if (TerrainPairUnstable(ms.w.out, i, j, i + d[0], j + d[1], dh, ms.w.tol / 2))
                        seed[(size_t)i * ny + j] = seed[(size_t)(i + d[0]) * ny + j + d[1]] = 1;
        for (auto& q : ms.w.out.body_soil_pos_) seed[(size_t)q.ii * ny + q.jj] = 1;
        // where the carried soil arrives, whether or not there is still a machine
        Pose ps = PoseOf(o);
        double q4[4] = {ps.q[0], ps.q[1], ps.q[2], ps.q[3]};
        for (auto& q : ms.w.out.body_soil_pos_) {
            V3d v = Rotate(q4, V3d{q.x_b, q.y_b, q.z_b});
            long ai = std::lround((v.x + ps.p[0]) / ms.w.grid.cell_size_xy_) + ms.w.grid.half_length_x_;
            long aj = std::lround((v.y + ps.p[1]) / ms.w.grid.cell_size_xy_) + ms.w.grid.half_length_y_;
            if (ai >= 0 && aj >= 0 && ai < nx && aj < ny) seed[(size_t)ai * ny + aj] = 1;
        }
        Checkpoint was(ms.w);
        auto r = ms.Step(o);
        Footprint f1(ms.w.out);
        for (size_t x = 0; x < seed.size(); x++) seed[x] |= f1.m[x];
        Dilate(&seed, nx, ny, 1, true);
        Dilate(&seed, nx, ny, 2 * ms.sp.max_iterations_, false);
        bool changed = false;
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                if (before[i][j] == ms.w.out.terrain_[i][j]) continue;
                changed = true;
                if (!r.updated) cx.fail("local-noop", "a skipped step changed the terrain");
                if (!seed[(size_t)i * ny + j])
                    cx.fail("local-far", Fmt("terrain at (%d,%d) changed %.6g -> %.6g, out of reach of the machine and of every unstable slope (%d iterations)",
                                             i, j, before[i][j], ms.w.out.terrain_[i][j], ms.sp.max_iterations_));
            }
        changed_steps += changed;
        CountShape(ms.w.out, 1e-5, cx);
        if (r.updated && p.g("mirror") == 0 && (k * 2654435761u >> 3) % 4 == 0) Elsewhere(p, ms, was, PoseOf(o), r, seed, cx, (int)k);
    }
    cx.nontrivial = changed_steps >= 3;
}

// ------------------------------------------------------------- C14 carried soil
static void GenCarry(Rng& r, Plan* p) {
    Motion m = Swarm(r, p);
    m.steps = r.i(30, 120);
    GenConfig(r, p, m);
    p->c["maxit"] = r.pick({1, 2, 3, 5});
    GenMission(r, p, m);
    if (r.p(0.2)) AddParams(r, p, 0.04);
    if (r.p(0.1)) AddTools(r, p, 0.04);
    if (r.p(0.15)) p->c["mirror"] = r.i(1, 1000);
}
static void ExecCarry(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    double cxy = ms.w.grid.cell_size_xy_, cz = ms.cz;
    int hx = ms.w.grid.half_length_x_, hy = ms.w.grid.half_length_y_;
    typedef std::array<float, 3> A3;
    long transported = 0;
    double eps = 2e-3;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        Pose ps = PoseOf(o);
        double q[4] = {ps.q[0], ps.q[1], ps.q[2], ps.q[3]};
        auto carried = [&](float x, float y, float z) {
            V3d v = Rotate(q, V3d{x, y, z});
            return V3d{v.x + ps.p[0], v.y + ps.p[1], v.z + ps.p[2]};
        };
        // the load as it was before the step
        std::map<A3, double> load;
        std::map<A3, int> parcels;
        for (auto& b : ms.w.out.body_soil_pos_) {
            if (b.h_soil < 0.9 * cz) continue;
            load[{b.x_b, b.y_b, b.z_b}] += std::round(b.h_soil / cz);
            parcels[{b.x_b, b.y_b, b.z_b}]++;
        }
        // how far it moves with the machine
        auto* bd = ms.w.body();
        double q0[4] = {bd->ori_[0], bd->ori_[1], bd->ori_[2], bd->ori_[3]};
        V3d p0{bd->pos_[0], bd->pos_[1], bd->pos_[2]};
        bool known = q0[0] * q0[0] + q0[1] * q0[1] + q0[2] * q0[2] + q0[3] * q0[3] > 0.5;
        // transport alone
        Checkpoint before(ms.w);
        SimParam none = ms.sp;
        none.max_iterations_ = 0;
        auto r0 = ms.w.Step(ps, &none);
        if (r0.updated && !load.empty()) {
            const SimOut& s = ms.w.out;
            std::map<A3, double> got;
            std::set<A3> squeezed;
            for (auto& b : s.body_soil_pos_) {
                A3 a{b.x_b, b.y_b, b.z_b};
                got[a] += b.h_soil / cz;
                int other = 2 - b.ind;
                // squeezed: the column is filled up to the layer above
                if (BodyAt(s, b.ii, b.jj, other) && s.body_[other][b.ii][b.jj] > s.body_[b.ind][b.ii][b.jj] &&
                    s.body_soil_[b.ind + 1][b.ii][b.jj] > s.body_[other][b.ii][b.jj] - 0.5 * cz) squeezed.insert(a);
                auto it = load.find(a);
                if (it == load.end()) continue;
                transported++;
                V3d c = carried(b.x_b, b.y_b, b.z_b);
                double fi = c.x / cxy + hx, fj = c.y / cxy + hy;
                if (std::fabs(b.ii - fi) > 1.5 + eps || std::fabs(b.jj - fj) > 1.5 + eps)
                    cx.fail("carry-lateral", Fmt("parcel anchored at (%.4g,%.4g) [cells] is at cell (%d,%d)", fi, fj, b.ii, b.jj));
                // which surface
                if (std::fabs(fi - std::round(fi)) > 0.5 - eps || std::fabs(fj - std::round(fj)) > 0.5 - eps) { cx.hit("carry_ambiguous"); continue; }
                int ci = (int)std::lround(fi), cj = (int)std::lround(fj);
                double best = 1e30, mine = std::fabs(c.z - s.body_[b.ind + 1][b.ii][b.jj]);
                for (int a1 = -1; a1 <= 1; a1++)
                    for (int b1 = -1; b1 <= 1; b1++)
                        for (int l = 0; l < 4; l += 2)
                            if (BodyAt(s, ci + a1, cj + b1, l)) best = std::min(best, std::fabs(c.z - s.body_[l + 1][ci + a1][cj + b1]));
                double lim = std::max(best, cz + ms.w.tol) + 1e-3 * cz + 1e-6;
                if (mine > lim)
                    cx.fail("carry-surface", Fmt("parcel anchored at height %.5g was put on a surface %.5g away although one only %.5g away was in reach (cell height %.5g)", c.z, mine, best, cz));
                // which column: its own one first, and rather one ahead than one behind
                double sure = cz + ms.w.tol - 1e-3 * cz - 1e-6;
                auto level = [&](int i, int j) {
                    for (int l = 0; l < 4; l += 2) if (BodyAt(s, i, j, l) && std::fabs(c.z - s.body_[l + 1][i][j]) < sure) return true;
                    return false;
                };
                if (level(ci, cj)) {
                    if (b.ii != ci || b.jj != cj)
                        cx.fail("carry-column", Fmt("parcel anchored at (%.4g,%.4g) [cells] was put at (%d,%d) although there is a surface at its height right there", fi, fj, b.ii, b.jj));
                    cx.hit("parcels_own_column");
                    continue;
                }
                if (!known || mine > sure) continue;
                V3d v0 = Rotate(q0, V3d{b.x_b, b.y_b, b.z_b});
                double dx = (c.x - v0.x - p0.x) / cxy, dy = (c.y - v0.y - p0.y) / cxy, len = std::hypot(dx, dy);
                auto along = [&](int i, int j) { return (i - ci) * dx + (j - cj) * dy; };
                if (len < 1e-2 || along(b.ii, b.jj) > -0.02 * len - 1e-3) { cx.hit("parcels_ahead"); continue; }
                for (int a1 = -1; a1 <= 1; a1++)
                    for (int b1 = -1; b1 <= 1; b1++)
                        if (level(ci + a1, cj + b1) && along(ci + a1, cj + b1) > 0.02 * len + 1e-3)
                            cx.fail("carry-behind", Fmt("parcel that moved by (%.3g,%.3g) to (%.4g,%.4g) [cells] was put behind, at (%d,%d), although there is a surface at its height ahead, at (%d,%d)", dx, dy, fi, fj, b.ii, b.jj, ci + a1, cj + b1));
                cx.hit("parcels_behind");
            }
            bool left_behind = Announced(r0, "could not be updated");
            for (auto& [a, n] : load) {
                double g = got.count(a) ? got[a] : 0;
                if (g > n + 0.1 && squeezed.empty()) cx.fail("carry-grew", Fmt("a parcel of %g cells arrived as %.3f cells", n, g));
                if (g > n - 0.1 || squeezed.count(a)) continue;
                if (!left_behind) cx.fail("carry-lost", Fmt("%g cells anchored at one place, %.3f cells arrived although nothing squeezes them", n, g));
                // left behind, then: is there really no surface in reach?
                V3d c = carried(a[0], a[1], a[2]);
                double fi = c.x / cxy + hx, fj = c.y / cxy + hy;
                if (std::fabs(fi - std::round(fi)) > 0.5 - eps || std::fabs(fj - std::round(fj)) > 0.5 - eps) continue;
                int ci = (int)std::lround(fi), cj = (int)std::lround(fj);
                cx.hit("left_behind_judged");
                for (int a1 = -1; a1 <= 1; a1++)
                    for (int b1 = -1; b1 <= 1; b1++)
                        if (BodyAt(s, ci + a1, cj + b1, 0) || BodyAt(s, ci + a1, cj + b1, 2))
                            cx.fail("carry-left", Fmt("%g cells anchored at (%.4g,%.4g) [cells] were left behind although the machine is at (%d,%d)", n, fi, fj, ci + a1, cj + b1));
            }
        }
        before.Restore(&ms.w);
        auto r = ms.Step(o);
        if (!r.updated) continue;
        // after settling: every parcel is where its anchor says, on its surface
        for (auto& b : ms.w.out.body_soil_pos_) {
            if (b.h_soil < 0.5 * cz) continue;
            V3d c = carried(b.x_b, b.y_b, b.z_b);
            double fi = c.x / cxy + hx, fj = c.y / cxy + hy;
            if (std::fabs(b.ii - fi) > 1.5 + eps || std::fabs(b.jj - fj) > 1.5 + eps)
                cx.fail("carry-anchor", Fmt("parcel at cell (%d,%d) is anchored at (%.4g,%.4g) [cells]", b.ii, b.jj, fi, fj));
            if (load.count({b.x_b, b.y_b, b.z_b})) continue;
            // parcels made during this step are anchored on the surface they landed on
            if (std::fabs(b.ii - fi) > 0.02 || std::fabs(b.jj - fj) > 0.02)
                cx.fail("carry-new-lateral", Fmt("new parcel at cell (%d,%d) is anchored at (%.4g,%.4g) [cells]", b.ii, b.jj, fi, fj));
            double top = ms.w.out.body_[b.ind + 1][b.ii][b.jj];
            if (std::fabs(c.z - top) > 0.05 * cz + 1e-5)
                cx.fail("carry-new-height", Fmt("new parcel at cell (%d,%d) is anchored at height %.6g, surface at %.6g", b.ii, b.jj, c.z, top));
            cx.hit("new_parcels");
        }
        CountShape(ms.w.out, 1e-5, cx);
    }
    cx.hit("parcels_transported", transported);
    cx.nontrivial = transported >= 20;
}

const std::vector<Prop>& SoilProps() {
    static std::vector<Prop> v = {
        {"C01", GenMass, ExecMass, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; judged after every step. Non-trivial: at least 3 steps moved terrain and soil was carried at some point."},
        {"C02", GenMass, ExecLedger, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; judged after every step. Non-trivial: soil was carried during at least 5 steps."},
        {"C03", GenMass, ExecConv, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; judged after every step. Non-trivial: soil was carried during at least 5 steps."},
        {"C04", GenLong, ExecGrid, "One case (long, 100-400 poses) = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; judged after every step. Non-trivial: soil was carried during at least 5 steps."},
        {"C07", GenEq, ExecEq, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; judged after every step. Non-trivial: at least 2 reported equilibria were judged and soil was carried at least once."},
        {"C10", GenDown, ExecDown, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; judged after every step. Non-trivial: Each step is executed twice from one checkpoint, without and with settling. at least 3 steps in which settling lowered the potential energy."},
        {"C14", GenCarry, ExecCarry, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; judged after every step. Non-trivial: at least 20 carried parcels were followed through a machine movement."},
        {"C16", GenLocal, ExecLocal, "One case = one seeded mission: random site size, cell sizes, machine (bucket or blade), parameters, terrain and a pose stream delivered over a simulated link (dropped, duplicated, reordered, stalled, jumping poses), soil poured by the environment, scheduler-decided random source; judged after every step. Non-trivial: at least 3 steps changed the terrain."},
    };
    return v;
}
