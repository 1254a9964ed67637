// Symmetries a user takes for granted: the place of work does not matter, and
// settling prefers no direction.
#include <algorithm>
#include "core.hpp"

// ------------------------------------------------------------- C19 place
static void GenPlace(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(15, 60);
    m.yaw = r.p(0.8); m.roll = r.p(0.6);
    if (r.p(0.4)) { m.drop = r.p(0.5) ? r.u(0.02, 0.3) : 0; m.dup = r.p(0.4) ? r.u(0.02, 0.2) : 0; m.reorder = r.p(0.4) ? r.u(0.02, 0.2) : 0; }
    if (r.p(0.25)) { m.mv_lo = 0.3; m.mv_hi = 3.0; }
    if (r.p(0.2)) m.jump = r.u(0.05, 0.3);
    m.pour = r.p(0.6);
    m.margin = 7;
    GenConfig(r, p, m);
    auto& c = p->c;
    c["terrain"] = 0;
    c["maxit"] = r.pick({0, 1, 2, 3, 5, 10});
    GenMission(r, p, m);
    if (r.p(0.25)) AddParams(r, p, 0.05);
    if (r.p(0.1)) AddTools(r, p, 0.04);
    // the other site
    c["more_x"] = r.i(0, 8); c["more_y"] = r.i(0, 8); c["more_z"] = r.i(0, 12);
    if (r.p(0.3)) for (const char* k : {"more_x", "more_y", "more_z"}) c[k] += r.u(-0.4, 0.4);
    for (auto& o : p->ops)
        if (o.k == "step") { o.a.push_back(r.i(-6, 6)); o.a.push_back(r.i(-6, 6)); o.a.push_back(r.p(0.4) ? 0 : r.i(-9, 9)); o.a.push_back(r.p(0.4) ? r.i(1, 1 << 20) : 0); }
}
struct Shift { int i, j, k; };          // columns, columns, cells
// true when nothing but flat ground lies within n columns of the site's edge
static bool FlatRim(const SimOut& o, int n, float h) {
    int nx = (int)o.terrain_.size(), ny = (int)o.terrain_[0].size();
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            if (i >= n && j >= n && i < nx - n && j < ny - n) continue;
            if (o.terrain_[i][j] != h || BodyAt(o, i, j, 0) || BodyAt(o, i, j, 2)) return false;
        }
    return true;
}
// puts the state of a, moved by s (in columns of b relative to a), into b
static void Move(const World& a, World* b, const Shift& s, float h) {
    double cz = a.grid.cell_size_z_;
    int di = b->grid.half_length_x_ - a.grid.half_length_x_ + s.i, dj = b->grid.half_length_y_ - a.grid.half_length_y_ + s.j;
    auto up = [&](float x) { return (float)(cz * std::round(x / cz + s.k)); };
    SimOut& o = b->out;
    o = SimOut(b->grid);
    for (auto& row : o.terrain_) for (float& x : row) x = up(h);
    for (int i = 0; i < a.nx(); i++)
        for (int j = 0; j < a.ny(); j++) {
            int u = i + di, v = j + dj;
            if (u < 0 || v < 0 || u >= b->nx() || v >= b->ny()) continue;
            o.terrain_[u][v] = up(a.out.terrain_[i][j]);
            for (int l = 0; l < 4; l += 2) {
                if (!BodyAt(a.out, i, j, l)) continue;
                for (int t = l; t < l + 2; t++) o.body_[t][u][v] = up(a.out.body_[t][i][j]);
                if (a.out.body_soil_[l][i][j] == 0 && a.out.body_soil_[l + 1][i][j] == 0) continue;
                for (int t = l; t < l + 2; t++) o.body_soil_[t][u][v] = up(a.out.body_soil_[t][i][j]);
            }
        }
    o.body_soil_pos_ = a.out.body_soil_pos_;
    for (auto& q : o.body_soil_pos_) { q.ii += di; q.jj += dj; }
    int d[2] = {di, dj}, top[2] = {2 * b->grid.half_length_x_, 2 * b->grid.half_length_y_};
    for (int x = 0; x < 2; x++)
        for (int y = 0; y < 2; y++) {
            auto f = [&](int q) { return std::clamp(q + d[x], 1, top[x]); };
            o.body_area_[x][y] = f(a.out.body_area_[x][y]);
            o.relax_area_[x][y] = f(a.out.relax_area_[x][y]);
            o.impact_area_[x][y] = f(a.out.impact_area_[x][y]);
        }
    o.equilibrium_ = a.out.equilibrium_;
    if (b->tool != a.tool) b->SetTool(a.tool);
    b->body()->pos_ = a.body()->pos_; b->body()->ori_ = a.body()->ori_;
    double cxy = a.grid.cell_size_xy_;
    bool fresh = true;
    for (float x : a.body()->ori_) fresh &= x == 0;
    if (!fresh) {
        b->body()->pos_[0] = (float)(b->body()->pos_[0] + s.i * cxy);
        b->body()->pos_[1] = (float)(b->body()->pos_[1] + s.j * cxy);
        b->body()->pos_[2] = (float)(b->body()->pos_[2] + s.k * cz);
    }
    b->rng = a.rng;
    b->sp = a.sp;
}
static Pose Moved(const World& a, const Pose& p, const Shift& s) {
    Pose q = p;
    q.p[0] = (float)(p.p[0] + s.i * (double)a.grid.cell_size_xy_);
    q.p[1] = (float)(p.p[1] + s.j * (double)a.grid.cell_size_xy_);
    q.p[2] = (float)(p.p[2] + s.k * (double)a.grid.cell_size_z_);
    return q;
}
static std::string Differs(const World& a, const World& b, const Shift& s) {
    double cz = a.grid.cell_size_z_, e = 0.3 * cz;
    int di = b.grid.half_length_x_ - a.grid.half_length_x_ + s.i, dj = b.grid.half_length_y_ - a.grid.half_length_y_ + s.j;
    auto off = [&](double x, double y) { return std::fabs(x + s.k * cz - y) > e; };
    const SimOut &p = a.out, &q = b.out;
    for (int i = 0; i < a.nx(); i++)
        for (int j = 0; j < a.ny(); j++) {
            int u = i + di, v = j + dj;
            if (u < 0 || v < 0 || u >= b.nx() || v >= b.ny()) continue;
            if (off(p.terrain_[i][j], q.terrain_[u][v])) return Fmt("place-ground|ground at (%d,%d) is %.6g, on the moved site %.6g", i, j, p.terrain_[i][j], q.terrain_[u][v] - s.k * cz);
            for (int l = 0; l < 4; l += 2) {
                bool on = BodyAt(p, i, j, l);
                if (on != BodyAt(q, u, v, l) || (on && (off(p.body_[l][i][j], q.body_[l][u][v]) || off(p.body_[l + 1][i][j], q.body_[l + 1][u][v]))))
                    return Fmt("place-machine|machine layer %d at (%d,%d) is [%.6g,%.6g], on the moved site [%.6g,%.6g]", l, i, j, p.body_[l][i][j], p.body_[l + 1][i][j], q.body_[l][u][v], q.body_[l + 1][u][v]);
                bool so = p.body_soil_[l][i][j] != 0 || p.body_soil_[l + 1][i][j] != 0, sq = q.body_soil_[l][u][v] != 0 || q.body_soil_[l + 1][u][v] != 0;
                if (so != sq || (so && (off(p.body_soil_[l][i][j], q.body_soil_[l][u][v]) || off(p.body_soil_[l + 1][i][j], q.body_soil_[l + 1][u][v]))))
                    return Fmt("place-carried|carried soil on layer %d at (%d,%d) is [%.6g,%.6g], on the moved site [%.6g,%.6g]", l, i, j, p.body_soil_[l][i][j], p.body_soil_[l + 1][i][j], q.body_soil_[l][u][v], q.body_soil_[l + 1][u][v]);
            }
        }
    // records without soil count for nothing but the order of the others
    std::vector<const soil_simulator::body_soil*> x, y;
    for (auto& t : p.body_soil_pos_) x.push_back(&t);
    for (auto& t : q.body_soil_pos_) y.push_back(&t);
    if (x.size() != y.size()) return Fmt("place-records|%zu records of carried soil, on the moved site %zu", x.size(), y.size());
    for (size_t n = 0; n < x.size(); n++)
        if (x[n]->ind != y[n]->ind || x[n]->ii + di != y[n]->ii || x[n]->jj + dj != y[n]->jj || std::fabs(x[n]->h_soil - y[n]->h_soil) > e)
            return Fmt("place-records|record %zu is at (%d,%d,%d) with %.6g, on the moved site at (%d,%d,%d) with %.6g", n, x[n]->ind, x[n]->ii, x[n]->jj, x[n]->h_soil, y[n]->ind, y[n]->ii - di, y[n]->jj - dj, y[n]->h_soil);
    if (p.equilibrium_ != q.equilibrium_) return "place-equilibrium|equilibrium is reported on one site only";
    return "";
}
// heights that are off the vertical grid by rounding only decide by chance
// what is just too steep; both sites start without such noise
static void Snap(SimOut* o, double cz) {
    auto f = [&](float& x) { x = (float)(cz * std::round(x / cz)); };
    for (auto& r : o->terrain_) for (float& x : r) f(x);
    for (int l = 0; l < 4; l++) {
        for (auto& r : o->body_[l]) for (float& x : r) f(x);
        for (auto& r : o->body_soil_[l]) for (float& x : r) f(x);
    }
    for (auto& q : o->body_soil_pos_) f(q.h_soil);
}
static void ExecPlace(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    Plan pb = p;
    double cxy = ms.w.grid.cell_size_xy_, cz = ms.cz;
    pb.c["gx"] = (ms.w.grid.half_length_x_ + p.g("more_x")) * cxy;
    pb.c["gy"] = (ms.w.grid.half_length_y_ + p.g("more_y")) * cxy;
    pb.c["gz"] = (ms.w.grid.half_length_z_ + p.g("more_z")) * cz;
    World b(pb);
    long same = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        ms.w.sp = ms.sp;
        Pose ps = PoseOf(o);
        Shift s{(int)o.a[7], (int)o.a[8], (int)o.a[9]};
        // zero means "nothing here" in the state: now and then some surface of
        // the machine or of the soil on it comes to lie exactly there
        if (o.a.size() > 10 && o.a[10] != 0) {
            std::vector<float> h;
            for (int i = 0; i < ms.w.nx(); i++)
                for (int j = 0; j < ms.w.ny(); j++)
                    for (int l = 0; l < 4; l += 2) {
                        if (!BodyAt(ms.w.out, i, j, l)) continue;
                        h.push_back(ms.w.out.body_[l][i][j]); h.push_back(ms.w.out.body_[l + 1][i][j]);
                        float t = ms.w.out.body_soil_[l + 1][i][j];
                        if (t != 0 || ms.w.out.body_soil_[l][i][j] != 0) { h.push_back(t); for (int n = 0; n < 3; n++) h.push_back(ms.w.out.body_soil_[l][i][j]); }
                    }
            if (!h.empty()) { s.k = -(int)std::lround(h[(size_t)o.a[10] % h.size()] / cz); cx.hit("surface_at_zero"); }
        }
        auto in = [&](const Pose& x) { return PoseInside(b, Moved(ms.w, x, s), 5); };
        for (int t = 0; t < 3 && !in(ps); t++) (t == 0 ? s.i : t == 1 ? s.j : s.k) *= -1;
        for (int t = 0; t < 4 && !in(ps); t++) { s.i /= 2; s.j /= 2; s.k /= 2; }
        // what the move cuts off at the edges must be plain ground
        int rim = std::max(std::abs(s.i), std::abs(s.j)) + 3;
        bool use = in(ps) && FlatRim(ms.w.out, rim, 0);
        Checkpoint before(ms.w);
        auto r = ms.Step(o);
        CountShape(ms.w.out, 1e-5, cx);
        if (!use || !FlatRim(ms.w.out, rim, 0)) { cx.hit("not_comparable"); continue; }
        cx.hit(s.k ? "moved_vertically" : "moved_horizontally");
        World a(p);
        // the step at a pose, on both sites, from the state before
        auto both = [&](const Pose& x) -> std::string {
            before.Restore(&a);
            a.sp = ms.sp;
            Snap(&a.out, cz);
            Move(a, &b, s, 0);
            auto ra = a.Step(x), rb = b.Step(Moved(a, x, s));
            if (ra.updated != rb.updated) return "place-gate|the step is taken on one site only";
            if (!FlatRim(a.out, rim, 0)) return "";
            std::string d = Differs(a, b, s);
            if (d.empty() && ra.warn.size() != rb.warn.size()) d = "place-log|the warnings differ";
            return d;
        };
        std::string d = both(ps);
        if (d.empty()) { same += r.updated; continue; }
        // numbers round differently elsewhere: a wall that runs exactly along a
        // cell border may fall on either side, which a nudge resolves
        Rng nr(k * 7919 + 13);
        int still = 0, tries = 0;
        for (int t = 0; t < 8; t++) {
            Pose pn = ps;
            for (int x = 0; x < 3; x++) pn.p[x] += (float)(nr.u(-1, 1) * (x == 2 ? 0.04 * cz : 0.04 * cxy));
            if (!PoseInside(ms.w, pn, 4) || !PoseInside(b, Moved(ms.w, pn, s), 4)) continue;
            tries++;
            still += !both(pn).empty();
        }
        cx.hit("rounding_coincidences");
        if (tries >= 6 && still >= tries - 1) {
            auto q = d.find('|');
            cx.fail(d.substr(0, q), d.substr(q + 1) + Fmt(" (moved by %d,%d columns and %d cells; still there at %d of %d nearby poses)", s.i, s.j, s.k, still, tries));
        }
    }
    cx.hit("steps_compared", same);
    cx.nontrivial = same >= 5 && cx.n["steps_carrying"] >= 1;
}

// ------------------------------------------------------------- C20 fairness
// A heap that looks the same from all four sides (and mirrored), on the ground
// and on plates of machine surface, far from the machine itself.
static void GenFair(Rng& r, Plan* p) {
    auto& c = p->c;
    double cxy = r.pick({0.1, 0.05, 0.2, 0.125}), ratio = r.pick({1.0, 2.0, 4.0, 5.0});
    double cz = cxy / ratio;
    c["cxy"] = cxy; c["cz"] = (float)cz;
    int hx = r.i(18, 20), hy = r.i(18, 20);
    c["gx"] = hx * cxy; c["gy"] = hy * cxy; c["gz"] = 40 * cxy;
    c["repose"] = r.pick({0.85, 0.3, 0.6, 1.1});
    if (cxy * std::tan(c["repose"]) / cz < 0.6) c["repose"] = 0.85;
    c["maxit"] = 1; c["buffer"] = 3; c["tol"] = 1e-5;
    c["rng"] = 1; c["rngmode"] = 0;
    c["blade"] = 0;
    c["ox"] = c["oy"] = c["oz"] = 0;
    c["jx"] = c["jy"] = c["jz"] = 0; c["bx"] = c["by"] = 0; c["bz"] = -2 * cxy; c["tx"] = 2.2 * cxy; c["ty"] = 0; c["tz"] = -2 * cxy;
    c["width"] = 2.3 * cxy;
    c["ci"] = r.i(9, 11); c["cj"] = r.i(9, 11);
    c["first"] = (double)(r.next() & 0xFFFFFFF);
    c["rounds"] = r.pick({1, 1, 1, 2, 3});
    int dh = (int)std::lround(cxy * std::tan(c["repose"]) / cz);
    bool plates = r.p(0.7), lone = r.p(0.3);
    // a single column of ground or of carried soil that reaches into a machine
    // surface and is pushed out to the sides
    bool push = r.p(0.2), squeeze = !push && r.p(0.15);
    if (push) { c["push"] = 1; c["rounds"] = 1; c["buffer"] = 40; plates = true; lone = false; }
    if (squeeze) plates = true;
    if ((push || squeeze) && r.p(0.5)) c["maxit"] = 0;
    int rad = r.i(0, 3), low = r.i(-3, 6), g = r.i(0, 3);
    for (int a = 0; a <= 4; a++)
        for (int b = 0; b <= a; b++) {
            if (lone && a > 1) continue;
            Op o; o.k = "orbit";
            double t = a <= rad && r.p(0.6) ? r.i(0, 3 * dh + 4) : r.i(0, g), lo = 0, hi = 0, s = 0, lo2 = 0, hi2 = 0, s2 = 0, first = r.i(0, 1), split = r.i(0, 2);
            if (plates && (a <= 2 || r.p(0.4))) {
                lo = low + r.i(0, 1); hi = lo + r.i(1, 2);
                t = std::min(t, lo);
                if (r.p(0.3)) t = lo;
                s = r.p(0.4) ? 0 : r.i(1, 3 * dh + 5);
                if (r.p(0.3)) {
                    lo2 = hi + r.i(1, 6); hi2 = lo2 + 1;
                    s = std::min(s, lo2 - hi);
                    s2 = r.p(0.5) ? 0 : r.i(1, 3 * dh + 4);
                }
            }
            if (a == 0 && push && hi > lo) t = lo + r.i(1, 12);
            if (a == 0 && squeeze && hi > lo) {
                if (hi2 <= lo2) { lo2 = hi + r.i(1, 6); hi2 = lo2 + 1; s2 = 0; }
                s = lo2 - hi + r.i(1, 12);
            }
            o.a = {(double)a, (double)b, t, first, lo, hi, s, lo2, hi2, s2, split};
            p->ops.push_back(o);
        }
}
static void ExecFair(const Plan& p, Ctx& cx) {
    World w(p);
    w.InitTerrain();
    double cz = w.grid.cell_size_z_, cxy = w.grid.cell_size_xy_;
    int ci = (int)p.g("ci"), cj = (int)p.g("cj"), hx = w.grid.half_length_x_, hy = w.grid.half_length_y_;
    // the machine waits in the far corner, high up
    Pose ps{{(float)((hx - 6) * cxy), (float)((hy - 6) * cxy), (float)(20 * cxy)}, {1, 0, 0, 0}};
    SimParam none = w.sp;
    none.max_iterations_ = 0;
    w.Step(ps, &none);
    for (int l = 0; l < 4; l++)
        for (int i = 0; i < ci + 6; i++)
            for (int j = 0; j < cj + 6; j++) if (w.out.body_[l][i][j] != 0) cx.fail("fair-ghost", Fmt("a machine surface at (%d,%d), far from the machine", i, j));
    std::vector<std::array<int, 2>> cells;
    for (size_t k = 0; k < p.ops.size(); k++) {
        auto& o = p.ops[k];
        if (o.k != "orbit") continue;
        int a = (int)o.a[0], b = (int)o.a[1], first = o.a[3] != 0 ? 2 : 0;
        std::set<std::pair<int, int>> at;
        for (int s = -1; s <= 1; s += 2)
            for (int t = -1; t <= 1; t += 2) { at.insert({s * a, t * b}); at.insert({s * b, t * a}); }
        for (auto& [x, y] : at) {
            int i = ci + x, j = cj + y;
            w.out.terrain_[i][j] = (float)(o.a[2] * cz);
            for (int u = 0; u < 2; u++) {
                double lo = o.a[4 + 3 * u], hi = o.a[5 + 3 * u], s = o.a[6 + 3 * u];
                int l = u ? 2 - first : first;
                if (hi <= lo) continue;
                w.out.body_[l][i][j] = (float)(lo * cz); w.out.body_[l + 1][i][j] = (float)(hi * cz);
                if (s <= 0) continue;
                w.out.body_soil_[l][i][j] = (float)(hi * cz); w.out.body_soil_[l + 1][i][j] = (float)((hi + s) * cz);
                double left = s;
                for (int n = 0; left > 0; n++) {
                    double h = n == 0 && o.a[10] != 0 && s > 1 ? std::floor(s / 2) : left;
                    left -= h;
                    w.out.body_soil_pos_.push_back({l, i, j, 0, 0, 0, (float)(h * cz)});
                }
            }
        }
    }
    if (p.g("push") != 0) {                 // the machine's area covers the heap
        for (int l = 0; l < 4; l++)
            for (int i = ci + 6; i < w.nx(); i++) for (int j = 0; j < w.ny(); j++) w.out.body_[l][i][j] = 0;
        for (auto& a : w.out.body_area_) a[0] = a[1] = 2 * hx - 1;
    }
    SimOut start = w.out;
    int rounds = (int)p.g("rounds");
    uint64_t first = (uint64_t)p.g("first");
    long moved = 0, runs = 0;
    struct Stat { double n = 0, s[4] = {0}, q[4] = {0}; };
    const char* what[4] = {"x", "y", "the diagonals", "x against y"};
    auto sample = [&](uint64_t from, int n) {
        Stat st;
        for (int r = 0; r < n; r++) {
            w.out = start;
            w.body()->pos_ = {ps.p[0], ps.p[1], ps.p[2]};
            w.rng.seed((uint32_t)((from + r) * 2654435761u + 12345));
            for (int t = 0; t < rounds; t++) {
                Pose q = ps;
                if (t % 2 == 0) q.p[2] += (float)(0.75 * cz);
                for (auto& rec : w.out.body_soil_pos_) {       // pinned to where they are
                    rec.x_b = (float)((rec.ii - hx) * cxy - q.p[0]); rec.y_b = (float)((rec.jj - hy) * cxy - q.p[1]);
                    rec.z_b = w.out.body_[rec.ind + 1][rec.ii][rec.jj] - q.p[2];
                }
                w.out.relax_area_[0][0] = w.out.relax_area_[1][0] = 1;
                w.out.relax_area_[0][1] = 2 * hx; w.out.relax_area_[1][1] = 2 * hy;
                w.sp.max_iterations_ = t + 1 == rounds ? (int)p.g("maxit") : 1;
                auto res = w.Step(q);
                if (!res.updated) cx.fail("fair-gate", "the machine moved but the step was skipped");
                cx.sim_time += 0.1;
            }
            runs++;
            double m[4] = {0};
            bool ch = false;
            for (int i = 1; i < w.nx() - 1; i++)
                for (int j = 1; j < w.ny() - 1; j++) {
                    double h = w.out.terrain_[i][j] + w.out.body_soil_[1][i][j] - w.out.body_soil_[0][i][j] + w.out.body_soil_[3][i][j] - w.out.body_soil_[2][i][j];
                    double h0 = start.terrain_[i][j] + start.body_soil_[1][i][j] - start.body_soil_[0][i][j] + start.body_soil_[3][i][j] - start.body_soil_[2][i][j];
                    double d = std::round(h / cz) - std::round(h0 / cz), x = i - ci, y = j - cj;
                    if (d == 0) continue;
                    ch = true;
                    m[0] += d * x; m[1] += d * y; m[2] += d * x * y; m[3] += d * (x * x - y * y);
                }
            moved += ch;
            st.n++;
            for (int a = 0; a < 4; a++) { st.s[a] += m[a]; st.q[a] += m[a] * m[a]; }
        }
        return st;
    };
    auto score = [&](const Stat& s, int a) {
        double mean = s.s[a] / s.n, var = s.q[a] / s.n - mean * mean;
        // the floor keeps a single odd outcome from counting as a bias
        return mean / std::sqrt(std::max(var, 1.0 / s.n) / s.n);
    };
    Stat st = sample(first, 200);
    cx.hit("schedules", runs);
    Hash h;
    for (int a = 0; a < 4; a++) h.d(st.s[a]);
    cx.log.w(h.h);
    cx.states.push_back(h.h);
    for (int a = 0; a < 4; a++) {
        double t = score(st, a);
        if (std::fabs(t) < 2.4) continue;
        cx.hit("second_look");
        long r0 = runs;
        Stat big = sample(first + 1000000, 4000);
        cx.hit("schedules", runs - r0);
        for (int e = 0; e < 4; e++)
            if (std::fabs(score(big, e)) > 6.5)
                cx.fail("fair-bias", Fmt("a heap symmetric in every way settles one-sided along %s: on average %+.3f column-cells over %.0f seeds, %.1f standard errors", what[e], big.s[e] / big.n, big.n, score(big, e)));
        break;
    }
    cx.hit("steps", runs);
    cx.nontrivial = moved > 100;
}

// ------------------------------------------------------------- C21 expression
// The same mission told in other words: all lengths in another unit (a power
// of two, tolerance included), orientations with the other sign (the same
// rotation), the machine drawn around another origin.
static void GenTold(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(20, 100);
    m.yaw = r.p(0.8); m.roll = r.p(0.6);
    if (r.p(0.4)) { m.drop = r.p(0.5) ? r.u(0.02, 0.3) : 0; m.dup = r.p(0.4) ? r.u(0.02, 0.2) : 0; m.reorder = r.p(0.4) ? r.u(0.02, 0.2) : 0; }
    if (r.p(0.25)) { m.mv_lo = 0.3; m.mv_hi = 3.0; }
    if (r.p(0.2)) m.jump = r.u(0.05, 0.3);
    m.pour = r.p(0.6);
    GenConfig(r, p, m);
    auto& c = p->c;
    if (r.p(0.3)) c["maxit"] = r.pick({0, 1, 2, 5, 10});
    GenMission(r, p, m);
    if (r.p(0.3)) AddParams(r, p, 0.05);
    if (r.p(0.1)) AddTools(r, p, 0.04);
    c["unit"] = r.p(0.8) ? r.pick({-7, -4, -3, -2, -1, 1, 2, 3, 4, 7}) : 0;
    if (r.p(0.3) || c["unit"] == 0) for (const char* k : {"dx", "dy", "dz"}) c[k] = r.p(0.7) ? r.i(-8, 8) * 0.125 : 0;
    if (r.p(0.3)) for (const char* k : {"ex", "ey", "ez"}) c[k] = r.p(0.7) ? r.u(-1, 1) * 0.5 * std::fabs(c["tx"] - c["bx"]) : 0;
    // the tolerance is a length where heights are compared and a fraction of a
    // column where walls are drawn
    c["tolunit"] = r.p(0.5);
    if (c["tolunit"] == 0) c["unit"] = std::max(-1.0, std::min(c["unit"], 0.0));
    double flip = r.pick({0.0, 0.1, 0.5, 1.0});
    for (auto& o : p->ops)
        if (o.k == "step") o.a.push_back(r.p(flip));
}
static void ExecTold(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    double f = std::ldexp(1, (int)p.g("unit"));
    Plan pb = p;
    for (const char* k : {"gx", "gy", "gz", "cxy", "cz", "ox", "oy", "oz", "jx", "jy", "jz", "bx", "by", "bz", "tx", "ty", "tz", "width"}) pb.c[k] = p.g(k) * f;
    bool tolunit = p.g("tolunit") != 0;
    if (tolunit) pb.c["tol"] = (double)(float)p.g("tol", 1e-5) * f;
    for (const char* k : {"x", "y", "z"}) {
        double d = p.g((std::string("d") + k).c_str()) * f;
        for (const char* q : {"o", "j", "b", "t"}) pb.c[std::string(q) + k] = pb.g((std::string(q) + k).c_str()) + d;
    }
    // the origin alone moved within the machine: the same place has another pose
    double e[3] = {(float)(p.g("ex") * f), (float)(p.g("ey") * f), (float)(p.g("ez") * f)};
    bool moved = e[0] != 0 || e[1] != 0 || e[2] != 0;
    pb.c["ox"] += e[0]; pb.c["oy"] += e[1]; pb.c["oz"] += e[2];
    World b(pb);
    auto reach = [&](const float* q) {
        double d[4] = {q[0], q[1], q[2], q[3]};
        if (d[0] == 0 && d[1] == 0 && d[2] == 0 && d[3] == 0) return std::array<double, 3>{0, 0, 0};   // no pose yet
        V3d v = Rotate(d, V3d{e[0], e[1], e[2]});
        return std::array<double, 3>{b.tool * v.x, b.tool * v.y, b.tool * v.z};
    };
    if (b.grid.half_length_x_ != ms.w.grid.half_length_x_ || b.grid.half_length_y_ != ms.w.grid.half_length_y_ || b.grid.half_length_z_ != ms.w.grid.half_length_z_)
        cx.fail("told-site", "the site has another number of cells in another unit of length");
    double cz = ms.cz;
    auto tell = [&](const World& a) {                  // the state of a in b's words
        auto& o = b.out;
        o = a.out;
        auto up = [&](float& x) { x = (float)(x * f); };
        for (auto& r : o.terrain_) for (float& x : r) up(x);
        for (int l = 0; l < 4; l++) {
            for (auto& r : o.body_[l]) for (float& x : r) up(x);
            for (auto& r : o.body_soil_[l]) for (float& x : r) up(x);
        }
        for (auto& q : o.body_soil_pos_) { up(q.x_b); up(q.y_b); up(q.z_b); up(q.h_soil); q.x_b -= (float)(e[0] * a.tool); q.y_b -= (float)(e[1] * a.tool); q.z_b -= (float)(e[2] * a.tool); }
        if (b.tool != a.tool) b.SetTool(a.tool);
        b.body()->pos_ = a.body()->pos_; b.body()->ori_ = a.body()->ori_;
        for (float& x : b.body()->pos_) up(x);
        if (moved) { auto v = reach(b.body()->ori_.data()); for (int x = 0; x < 3; x++) b.body()->pos_[x] += (float)v[x]; }
        b.rng = a.rng;
        b.sp = a.sp;
    };
    auto told = [&](const Pose& x, bool neg) {
        Pose y = x;
        auto v = reach(x.q);
        for (int n = 0; n < 3; n++) y.p[n] = moved ? (float)((double)x.p[n] * f + v[n]) : (float)(x.p[n] * f);
        if (neg) for (float& v : y.q) v = -v;
        return y;
    };
    auto differs = [&](const World& a) -> std::string {
        double tol = 0.3 * cz;
        auto off = [&](double x, double y) { return !(std::fabs(x - y / f) <= tol); };
        const SimOut &q = a.out, &t = b.out;
        for (int i = 0; i < a.nx(); i++)
            for (int j = 0; j < a.ny(); j++) {
                if (off(q.terrain_[i][j], t.terrain_[i][j])) return Fmt("told-ground|ground at (%d,%d) is %.6g, in the other words %.6g", i, j, q.terrain_[i][j], t.terrain_[i][j] / f);
                for (int l = 0; l < 4; l++) {
                    if (off(q.body_[l][i][j], t.body_[l][i][j])) return Fmt("told-machine|machine bound %d at (%d,%d) is %.6g, in the other words %.6g", l, i, j, q.body_[l][i][j], t.body_[l][i][j] / f);
                    if (off(q.body_soil_[l][i][j], t.body_soil_[l][i][j])) return Fmt("told-carried|carried soil bound %d at (%d,%d) is %.6g, in the other words %.6g", l, i, j, q.body_soil_[l][i][j], t.body_soil_[l][i][j] / f);
                }
            }
        if (q.body_soil_pos_.size() != t.body_soil_pos_.size()) return Fmt("told-records|%zu records of carried soil, in the other words %zu", q.body_soil_pos_.size(), t.body_soil_pos_.size());
        for (size_t n = 0; n < q.body_soil_pos_.size(); n++) {
            auto &x = q.body_soil_pos_[n], &y = t.body_soil_pos_[n];
            if (x.ind != y.ind || x.ii != y.ii || x.jj != y.jj || off(x.h_soil, y.h_soil) || off(x.x_b, y.x_b + e[0] * b.tool) || off(x.y_b, y.y_b + e[1] * b.tool) || off(x.z_b, y.z_b + e[2] * b.tool))
                return Fmt("told-records|record %zu is (%d,%d,%d) with %.6g at (%.6g,%.6g,%.6g), in the other words (%d,%d,%d) with %.6g at (%.6g,%.6g,%.6g)", n, x.ind, x.ii, x.jj, x.h_soil, x.x_b, x.y_b, x.z_b, y.ind, y.ii, y.jj, y.h_soil / f, y.x_b / f, y.y_b / f, y.z_b / f);
        }
        if (q.equilibrium_ != t.equilibrium_) return "told-equilibrium|equilibrium is reported in one description only";
        for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++)
            if (q.body_area_[x][y] != t.body_area_[x][y] || q.relax_area_[x][y] != t.relax_area_[x][y]) return "told-area|the active areas differ";
        return "";
    };
    auto drawn = [&](const World& a) {                 // the machine's surfaces agree
        for (int l = 0; l < 4; l++)
            for (int i = 0; i < a.nx(); i++)
                for (int j = 0; j < a.ny(); j++) if (!(std::fabs(a.out.body_[l][i][j] - b.out.body_[l][i][j] / f) <= 0.3 * cz)) return false;
        return true;
    };
    auto judge = [&](const World& a, const StepResult& ra, const StepResult& rb) -> std::string {
        if (ra.updated != rb.updated) return "told-gate|the step is taken in one description only";
        std::string d = differs(a);
        if (d.empty() && ra.warn.size() != rb.warn.size()) d = "told-log|the warnings differ";
        return d;
    };
    tell(ms.w);
    long same = 0, vol = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) { ms.w.sp = ms.sp; tell(ms.w); continue; }
        if (o.k != "step") continue;
        ms.w.sp = ms.sp; b.sp = ms.sp;
        bool neg = o.a.size() > 7 && o.a[7] != 0;
        if (neg) cx.hit("sign_flipped");
        Pose ps = PoseOf(o);
        Checkpoint before(ms.w);
        auto ra = ms.Step(o);
        CountShape(ms.w.out, 1e-5, cx);
        auto rb = b.Step(told(ps, neg));
        std::string d = judge(ms.w, ra, rb);
        if (d.empty() && k % 7 == 0) {                  // and the audit's verdict
            vol = MeasureMass(ms.w.out, cz).cells + (k % 3 ? 0 : (long)(k % 5) - 2);
            std::vector<std::string> wa, wb;
            ms.w.Check((int)vol, &wa); b.Check((int)vol, &wb);
            cx.hit("audits_compared");
            if (wa.size() != wb.size()) d = Fmt("told-audit|the audit gives %zu warnings, in the other words %zu", wa.size(), wb.size());
        }
        if (d.empty()) { same += ra.updated; continue; }
        if (tolunit && !drawn(ms.w)) { cx.hit("drawn_differently"); tell(ms.w); continue; }
        World a(p);
        Rng nr(k * 7919 + 13);
        int still = 0, tries = 0;
        for (int t = 0; t < 12; t++) {
            Pose pn = ps;
            for (int x = 0; x < 3; x++) pn.p[x] += (float)(nr.u(-1, 1) * (t % 2 ? 0.04 : 0.08) * (x == 2 ? cz : ms.w.grid.cell_size_xy_));
            if (!PoseInside(ms.w, pn, 4)) continue;
            tries++;
            before.Restore(&a);
            a.sp = ms.sp;
            Snap(&a.out, cz);
            tell(a);
            auto na = a.Step(pn), nb = b.Step(told(pn, neg));
            still += !judge(a, na, nb).empty() && (!tolunit || drawn(a));
        }
        cx.hit("rounding_coincidences");
        if (tries >= 8 && still >= tries - 1) {
            auto q = d.find('|');
            cx.fail(d.substr(0, q), d.substr(q + 1) + Fmt(" (unit %g, sign %s; still there at %d of %d nearby poses)", f, neg ? "-" : "+", still, tries));
        }
        tell(ms.w);
    }
    cx.hit("steps_compared", same);
    cx.nontrivial = same >= 5 && cx.n["steps_carrying"] >= 1;
}

const std::vector<Prop>& SymProps() {
    static std::vector<Prop> v = {
        {"C19", GenPlace, ExecPlace, "One case = one seeded mission (as in C01, on a site with a flat rim): every step is executed at its place and, from the same state with the same schedule, shifted by a seeded number of whole columns, cells of height and onto a site of another size; both results are compared cell by cell. Non-trivial: at least 5 steps compared equal and soil was carried."},
        {"C20", GenFair, ExecFair, "One case = one seeded heap, symmetric under all eight symmetries of the grid, of ground and carried soil on plates, settled under 200 seeded schedules (4000 fresh ones when the first look is suspicious); the mean shift of soil is compared with zero. Non-trivial: soil moved in more than 100 schedules."},
        {"C21", GenTold, ExecTold, "One case = one seeded mission (as in C01), executed side by side in two descriptions: lengths in another unit (a power of two), orientations with either sign, machine drawn around another origin; both compared after every step. Non-trivial: at least 5 steps compared equal and soil was carried."},
    };
    return v;
}
