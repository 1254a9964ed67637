// No compass direction is special: the same step on a site turned by a quarter
// or mirrored.
#include <algorithm>
#include "core.hpp"

static void GenTurn(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(15, 50);
    m.yaw = r.p(0.8); m.roll = r.p(0.6);
    if (r.p(0.4)) { m.drop = r.p(0.5) ? r.u(0.02, 0.3) : 0; m.dup = r.p(0.4) ? r.u(0.02, 0.2) : 0; m.reorder = r.p(0.4) ? r.u(0.02, 0.2) : 0; }
    if (r.p(0.25)) { m.mv_lo = 0.3; m.mv_hi = 3.0; }
    if (r.p(0.2)) m.jump = r.u(0.05, 0.3);
    m.pour = r.p(0.6);
    m.margin = 6;
    GenConfig(r, p, m);
    GenMission(r, p, m);
    if (r.p(0.25)) AddParams(r, p, 0.05);
    if (r.p(0.1)) AddTools(r, p, 0.04);
    // quarter turns (from 4: mirrored before), and whether the ground is far below
    for (auto& o : p->ops)
        if (o.k == "step") { o.a.push_back(r.i(1, 7)); o.a.push_back(r.p(0.6)); }
}
// The site a, mirrored if so wished, and turned by n quarters about its middle.
struct Turn {
    int n;
    bool flip;
    int hx, hy, tx, ty;                   // half lengths of both sites
    Turn(const World& a, const World& b, int quarters)
        : n(quarters % 4), flip(quarters >= 4), hx(a.grid.half_length_x_), hy(a.grid.half_length_y_), tx(b.grid.half_length_x_), ty(b.grid.half_length_y_) {}
    template <class T> void vec(T& x, T& y) const {
        if (flip) y = -y;
        for (int k = 0; k < n; k++) { T t = x; x = -y; y = t; }
    }
    void cell(int i, int j, int* u, int* v) const {
        int x = i - hx, y = j - hy;
        vec(x, y);
        *u = x + tx; *v = y + ty;
    }
    void area(const int s[2][2], int d[2][2]) const {       // half-open
        int x0 = s[0][0], y0 = s[1][0], x1 = s[0][1] - 1, y1 = s[1][1] - 1;
        cell(x0, y0, &x0, &y0); cell(x1, y1, &x1, &y1);
        d[0][0] = std::clamp(std::min(x0, x1), 0, 2 * tx); d[0][1] = std::clamp(std::max(x0, x1) + 1, 1, 2 * tx + 1);
        d[1][0] = std::clamp(std::min(y0, y1), 0, 2 * ty); d[1][1] = std::clamp(std::max(y0, y1) + 1, 1, 2 * ty + 1);
    }
    void pose(float p[3], float q[4]) const {
        vec(p[0], p[1]);
        // the library turns v into conj(q) v q
        const double h = std::sqrt(0.5);
        if (flip) { q[1] = -q[1]; q[3] = -q[3]; }
        for (int k = 0; k < n; k++) {
            double w = q[0], x = q[1], y = q[2], z = q[3];    // q * (h, 0, 0, -h)
            q[0] = (float)(h * (w + z)); q[1] = (float)(h * (x - y)); q[2] = (float)(h * (y + x)); q[3] = (float)(h * (z - w));
        }
    }
    Pose pose(Pose x) const { pose(x.p, x.q); return x; }
};
static bool Nowhere(const Body* b) {
    for (float x : b->ori_) if (x != 0) return false;
    return true;
}
static void TurnState(const World& a, World* b, const Turn& t) {
    SimOut& o = b->out;
    o = SimOut(b->grid);
    for (int i = 0; i < a.nx(); i++)
        for (int j = 0; j < a.ny(); j++) {
            int u, v;
            t.cell(i, j, &u, &v);
            o.terrain_[u][v] = a.out.terrain_[i][j];
            for (int l = 0; l < 4; l++) { o.body_[l][u][v] = a.out.body_[l][i][j]; o.body_soil_[l][u][v] = a.out.body_soil_[l][i][j]; }
        }
    o.body_soil_pos_ = a.out.body_soil_pos_;
    for (auto& q : o.body_soil_pos_) { int u, v; t.cell(q.ii, q.jj, &u, &v); q.ii = u; q.jj = v; if (t.flip) q.y_b = -q.y_b; }
    t.area(a.out.body_area_, o.body_area_); t.area(a.out.relax_area_, o.relax_area_); t.area(a.out.impact_area_, o.impact_area_);
    o.equilibrium_ = a.out.equilibrium_;
    if (b->tool != a.tool) b->SetTool(a.tool);
    b->body()->pos_ = a.body()->pos_; b->body()->ori_ = a.body()->ori_;
    if (!Nowhere(a.body())) t.pose(b->body()->pos_.data(), b->body()->ori_.data());
    b->rng = a.rng;
    b->sp = a.sp;
}
// the layers of a column from below; which of them is called the first one is
// left open (the mirror exchanges the left and the right wall)
struct Stack {
    int n = 0, l[2];
    float b[2][2], s[2][2];
    Stack(const SimOut& o, int i, int j) {
        for (int k = 0; k < 4; k += 2) if (BodyAt(o, i, j, k)) l[n++] = k;
        if (n == 2 && o.body_[2][i][j] < o.body_[0][i][j]) std::swap(l[0], l[1]);
        for (int k = 0; k < n; k++)
            for (int t = 0; t < 2; t++) { b[k][t] = o.body_[l[k] + t][i][j]; s[k][t] = o.body_soil_[l[k] + t][i][j]; }
    }
};
// soil: also what is carried and the ground
static std::string TurnDiffers(const World& a, const World& b, const Turn& t, bool soil) {
    double e = 0.3 * a.grid.cell_size_z_;
    auto off = [&](double x, double y) { return std::fabs(x - y) > e; };
    const SimOut &p = a.out, &q = b.out;
    for (int what = 0; what < (soil ? 2 : 1); what++)
        for (int i = 0; i < a.nx(); i++)
            for (int j = 0; j < a.ny(); j++) {
                int u, v;
                t.cell(i, j, &u, &v);
                if (what && off(p.terrain_[i][j], q.terrain_[u][v])) return Fmt("turn-ground|ground at (%d,%d) is %.6g, on the turned site %.6g", i, j, p.terrain_[i][j], q.terrain_[u][v]);
                Stack x(p, i, j), y(q, u, v);
                if (x.n != y.n) return Fmt("turn-machine|%d machine layers at (%d,%d), %d on the turned site", x.n, i, j, y.n);
                for (int k = 0; k < x.n; k++) {
                    auto &m = what ? x.s[k] : x.b[k], &o = what ? y.s[k] : y.b[k];
                    if (off(m[0], o[0]) || off(m[1], o[1]))
                        return Fmt(what ? "turn-carried|carried soil at (%d,%d), layer %d from below, is [%.6g,%.6g], on the turned site [%.6g,%.6g]"
                                        : "turn-machine|machine at (%d,%d), layer %d from below, is [%.6g,%.6g], on the turned site [%.6g,%.6g]", i, j, k, m[0], m[1], o[0], o[1]);
                }
            }
    if (!soil) return "";
    if (p.body_soil_pos_.size() != q.body_soil_pos_.size()) return Fmt("turn-records|%zu records of carried soil, on the turned site %zu", p.body_soil_pos_.size(), q.body_soil_pos_.size());
    for (size_t n = 0; n < p.body_soil_pos_.size(); n++) {
        auto &x = p.body_soil_pos_[n], &y = q.body_soil_pos_[n];
        int u, v;
        t.cell(x.ii, x.jj, &u, &v);
        double yb = t.flip ? -y.y_b : y.y_b;
        if (u != y.ii || v != y.jj || off(p.body_[x.ind][x.ii][x.jj], q.body_[y.ind][y.ii][y.jj]) || off(x.h_soil, y.h_soil) || std::fabs(x.x_b - y.x_b) + std::fabs(x.y_b - yb) + std::fabs(x.z_b - y.z_b) > e)
            return Fmt("turn-records|record %zu is at (%d,%d,%d) with %.6g, on the turned site at (%d,%d,%d) with %.6g instead of at (%d,%d)", n, x.ind, x.ii, x.jj, x.h_soil, y.ind, y.ii, y.jj, y.h_soil, u, v);
    }
    return "";
}
static void ExecTurn(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    Plan pb = p;
    std::swap(pb.c["gx"], pb.c["gy"]);
    World odd(pb), even(p), a(p);
    long same = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        ms.w.sp = ms.sp;
        Pose ps = PoseOf(o);
        int n = (int)o.a[7];
        // only a machine that is its own mirror image can be mirrored
        if (n > 3)
            for (auto& c : ms.w.made) if (std::fabs(c[1]) > 1e-12) n %= 4;
        bool deep = o.a[8] != 0;
        if (n == 0) n = 2;
        World& b = n % 2 ? odd : even;
        Turn t(ms.w, b, n);
        bool use = PoseInside(ms.w, ps, 5) && PoseInside(b, t.pose(ps), 5);
        // a tool just fitted under its load comes from no direction
        if (Nowhere(ms.w.body()) && !ms.w.out.body_soil_pos_.empty()) use = false;
        Checkpoint before(ms.w);
        ms.Step(o);
        CountShape(ms.w.out, 1e-5, cx);
        if (!use) { cx.hit("not_comparable"); continue; }
        SimParam sp = ms.sp;
        sp.max_iterations_ = 0;
        bool ruled = false, took = false, twice = false;
        // now and then the next step as well: it clears away the machine of this one
        Pose next = ps;
        for (size_t f = k + 1; k % 3 == 0 && f < p.ops.size() && !twice; f++)
            if (p.ops[f].k == "step") { next = PoseOf(p.ops[f]); twice = PoseInside(ms.w, next, 5) && PoseInside(b, t.pose(next), 5); break; }
        // the step without settling at a pose, on both sites, from the state before
        auto both = [&](const Pose& x, const Pose& y) -> std::string {
            before.Restore(&a);
            if (deep) {                    // nothing for the machine to run into
                double low = ms.w.grid.half_length_z_ * ms.cz * 0.9;
                for (auto& row : a.out.terrain_) for (float& h : row) h = (float)(ms.cz * std::round((h - low) / ms.cz));
            }
            a.sp = sp;
            TurnState(a, &b, t);
            auto was = a.rng;
            auto ra = a.Step(x, &sp), rb = b.Step(t.pose(x), &sp);
            took = ra.updated;
            if (ra.updated != rb.updated) return "turn-gate|the step is taken on one site only";
            ruled = a.rng == was;          // nothing was left to chance
            std::string d = TurnDiffers(a, b, t, ruled);
            if (d.empty() && ruled && ra.warn.size() != rb.warn.size()) d = "turn-log|the warnings differ";
            if (d.empty() && twice && took) {
                ra = a.Step(y, &sp); rb = b.Step(t.pose(y), &sp);
                if (ra.updated != rb.updated) return "turn-gate|the next step is taken on one site only";
                d = TurnDiffers(a, b, t, ruled && a.rng == was);
            }
            return d;
        };
        std::string d = both(ps, next);
        if (d.empty()) {
            same += took;
            if (took && twice) cx.hit("two_steps");
            if (took && n > 3) cx.hit("mirrored");
            if (took) cx.hit(ruled ? "soil_compared" : "machine_compared");
            if (took && ruled && !a.out.body_soil_pos_.empty()) cx.hit("load_compared");
            continue;
        }
        Rng nr(k * 7919 + 29);
        int still = 0, tries = 0;
        for (int s = 0; s < 8; s++) {
            auto nudged = [&](Pose pn) {
                for (int x = 0; x < 3; x++) pn.p[x] += (float)(nr.u(-1, 1) * 0.04 * (x == 2 ? ms.cz : (double)ms.w.grid.cell_size_xy_));
                for (int x = 0; x < 4; x++) pn.q[x] += (float)(nr.u(-1, 1) * 2e-4);
                double len = 0;
                for (float x : pn.q) len += (double)x * x;
                for (float& x : pn.q) x = (float)(x / std::sqrt(len));
                return pn;
            };
            Pose pn = nudged(ps), yn = nudged(next);
            if (!PoseInside(ms.w, pn, 4) || !PoseInside(b, t.pose(pn), 4)) continue;
            tries++;
            still += !both(pn, yn).empty();
        }
        cx.hit("rounding_coincidences");
        if (tries >= 6 && still >= tries - 1) {
            auto q = d.find('|');
            cx.fail(d.substr(0, q), d.substr(q + 1) + Fmt(" (%sturned by %d quarters; still there at %d of %d nearby poses)", n > 3 ? "mirrored, " : "", n % 4, still, tries));
        }
    }
    cx.hit("steps_compared", same);
    cx.nontrivial = same >= 5 && cx.n["load_compared"] >= 1;
}

const std::vector<Prop>& TurnProps() {
    static std::vector<Prop> v = {
        {"C24", GenTurn, ExecTurn, "One case = one seeded mission (as in C01): every step, without settling, is executed on the site and, from the same state, on the site turned by one to three quarters, in part with the ground far below; gate, machine, and, where nothing is left to chance, soil, records and warnings are compared cell by cell. Non-trivial: at least 5 steps compared equal, one of them with a load."},
    };
    return v;
}
