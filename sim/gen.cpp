#include "gen.hpp"
#include <algorithm>

Op StepOp(const double pos[3], const double q[4], const std::string& note) {
    Op o; o.k = "step";
    for (int i = 0; i < 3; i++) o.a.push_back((float)pos[i]);
    for (int i = 0; i < 4; i++) o.a.push_back((float)q[i]);
    o.note = note;
    return o;
}
Pose PoseOf(const Op& o) {
    Pose p;
    for (int i = 0; i < 3; i++) p.p[i] = (float)o.a[i];
    for (int i = 0; i < 4; i++) p.q[i] = (float)o.a[3 + i];
    return p;
}

// joint, base and teeth on one line have no side
static bool Flat(std::map<std::string, double>& c) {
    double ax = c["bx"] - c["jx"], az = c["bz"] - c["jz"], ex = c["tx"] - c["jx"], ez = c["tz"] - c["jz"];
    return std::fabs(ax * ez - az * ex) <= 0.1 * std::hypot(ax, az) * std::hypot(ex, ez);
}
void GenConfig(Rng& r, Plan* p, const Motion& m) {
    auto& c = p->c;
    double cxy = r.pick({0.1, 0.05, 0.2, 0.08, 0.125});
    double ratio = r.p(0.1) ? r.pick({1.5, 2.5, 8.0, 10.0, 1.28}) : r.pick({1.0, 2.0, 4.0, 5.0, 1.0, 2.0, 3.0});
    double cz = cxy / ratio;
    int hx = r.i(12, 22), hy = r.i(12, 22);
    if (r.p(0.05)) (r.p(0.5) ? hx : hy) = r.i(23, 70);       // long sites, and a few large ones
    if (r.p(0.02)) hx = r.i(30, 60), hy = r.i(30, 60);
    c["cxy"] = cxy; c["cz"] = (float)cz;
    c["gx"] = hx * cxy; c["gy"] = hy * cxy;
    c["gz"] = (float)cz * std::round(cxy * r.i(24, 40) / cz);
    if (r.p(0.1)) c["gz"] = std::max((double)c["gz"], (double)(float)cz * r.i(100, 1000));     // deep sites
    // sites that are no whole number of cells
    if (r.p(0.12)) for (const char* k : {"gx", "gy"}) c[k] += r.u(-0.4, 0.4) * cxy;
    if (r.p(0.12)) c["gz"] += r.u(-0.4, 0.4) * cz;
    c["repose"] = r.p(0.08) ? r.pick({0.15, 1.3, 1.4}) : r.pick({0.85, 0.3, 0.6, 1.1, 0.5, 0.95});
    // make sure the repose step is at least one cell unless asked otherwise
    if (cxy * std::tan(c["repose"]) / cz < 0.6) c["repose"] = 0.85;
    c["maxit"] = r.p(0.05) ? r.i(11, 30) : r.pick({1, 2, 3, 3, 5, 10});
    c["buffer"] = r.pick({2, 3, 4, 4, 6});
    c["tol"] = 1e-5;
    c["rng"] = (double)(r.next() & 0xFFFFFFFFu);
    c["rngmode"] = r.p(0.5) ? 0 : r.i(1, 5);
    bool blade = r.p(0.4);
    c["blade"] = blade;
    int half = std::min(hx, hy) - m.margin;      // room for the body, in cells
    double R = cxy * std::max(3.0, half * r.u(0.3, 0.62));
    c["ox"] = c["oy"] = c["oz"] = 0;
    if (blade) {
        double s = R / 1.2;
        c["jx"] = 0.3 * s; c["jy"] = 0; c["jz"] = 0.1 * s;
        c["bx"] = r.u(0.15, 0.35) * s; c["by"] = 0; c["bz"] = r.u(0.4, 0.8) * s;
        c["tx"] = r.u(0.4, 0.8) * s; c["ty"] = 0; c["tz"] = -r.u(0.05, 0.4) * s;
        while (Flat(c)) { c["bx"] = r.u(0.15, 0.35) * s; c["tx"] = r.u(0.4, 0.8) * s; }
        c["width"] = s * r.u(0.6, 1.5);
    } else {
        double s = R;
        c["jx"] = 0; c["jy"] = 0; c["jz"] = 0;
        c["bx"] = r.p(0.5) ? 0.0 : r.u(-0.2, 0.3) * s; c["by"] = 0; c["bz"] = -s * r.u(0.35, 0.7);
        c["tx"] = s * r.u(0.4, 0.9); c["ty"] = 0; c["tz"] = r.p(0.5) ? c["bz"] : -s * r.u(0.1, 0.8);
        while (Flat(c)) { c["bx"] = r.u(-0.2, 0.3) * s; c["tx"] = r.u(0.4, 0.9) * s; }
        c["width"] = s * r.u(0.4, 1.2);
        if (r.p(0.2)) { c["ox"] = s * r.u(-0.1, 0.1); c["oz"] = s * r.u(-0.1, 0.1); }
    }
    c["terrain"] = r.pick({0, 1, 2, 3, 4, 5, 6, 1, 3, 5});
    c["tseed"] = (double)(r.next() & 0xFFFFFF);
    c["tamp"] = r.i(1, (int)std::min(24.0, 5 * ratio + 2));
    c["noise"] = r.u(2, 12) * 40 * cz;
    // machines off the middle of their origin, drawn elsewhere, mounted askew
    double ext = std::fabs(c["bz"]) + std::fabs(c["tx"]);
    if (r.p(0.15)) { double a = r.u(-3.1, 3.1), d = std::cos(a), e = std::sin(a);
        for (std::string k : {"j", "b", "t"}) { double x = c[k + "x"]; c[k + "x"] = x * d; c[k + "y"] = x * e; } }
    if (r.p(0.2)) c["oy"] = ext * r.u(-0.15, 0.15);
    if (r.p(0.15)) { c["ox"] += ext * r.u(-0.1, 0.1); c["oz"] += ext * r.u(-0.1, 0.1); }
    if (r.p(0.15)) for (const char* k : {"x", "y", "z"}) {
        double d = ext * r.u(-0.4, 0.4);
        for (const char* q : {"o", "j", "b", "t"}) c[std::string(q) + k] += d; }
}

static bool Fits(const World& w, const double pos[3], const double q[4], int margin) {
    auto cs = Corners(w, pos, q);
    double mx = (w.grid.half_length_x_ - margin) * (double)w.grid.cell_size_xy_;
    double my = (w.grid.half_length_y_ - margin) * (double)w.grid.cell_size_xy_;
    // the back of a blade lies one horizontal cell behind its corners
    double mz = (w.grid.half_length_z_ - 3) * (double)w.grid.cell_size_z_ - w.grid.cell_size_xy_;
    for (auto& c : cs)
        if (std::fabs(c.x) > mx || std::fabs(c.y) > my || std::fabs(c.z) > mz) return false;
    return true;
}
bool PoseInside(const World& w, const Pose& p, int margin) {
    double pos[3] = {p.p[0], p.p[1], p.p[2]}, q[4] = {p.q[0], p.q[1], p.q[2], p.q[3]};
    return Fits(w, pos, q, margin);
}

namespace {
struct S6 { double x, y, z, yaw, pitch, roll; };
}

// A controller drives the machine through random work phases; the pose link
// between controller and simulator then drops, repeats, reorders, stalls or
// teleports.  The outcome is an explicit list of delivered poses.
void GenMission(Rng& r, Plan* p, const Motion& m) {
    World w(*p);
    double minc = std::min(w.grid.cell_size_xy_, w.grid.cell_size_z_);
    double Lx = w.grid.half_length_x_ * w.grid.cell_size_xy_, Ly = w.grid.half_length_y_ * w.grid.cell_size_xy_;
    double cxy = w.grid.cell_size_xy_, cz = w.grid.cell_size_z_;
    double ext = 0;
    for (auto& v : w.made) ext = std::max(ext, std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]));
    ext = std::max(ext, 0.5 * w.made_width);
    double deep = r.p(0.5) ? cxy * r.u(1, 6) : cxy * r.u(0, 2);
    S6 cur{r.u(-0.5, 0.5) * Lx * 0.4, r.u(-0.5, 0.5) * Ly * 0.4, ext * r.u(0.5, 1.6),
           m.yaw && r.p(0.5) ? r.u(-3.1, 3.1) : 0, r.u(-0.6, 0.6), m.roll && r.p(0.3) ? r.u(-0.3, 0.3) : 0};
    double tilt = m.roll && r.p(0.15) ? 1.6 : 0.4;          // a few machines lie on their side
    if (r.p(0.2)) cur.pitch = r.pick({0.0, 1.5707963267948966, -1.5707963267948966, 0.7853981633974483});
    // find a start that fits
    for (int k = 0; k < 200; k++) {
        double pos[3] = {cur.x, cur.y, cur.z}, q[4];
        EulerToQuat(cur.yaw, cur.pitch, cur.roll, q);
        if (Fits(w, pos, q, m.margin)) break;
        cur.x *= 0.8; cur.y *= 0.8; cur.z = ext * r.u(0.2, 1.2);
        if (k > 100) cur.roll = 0;
    }
    S6 tgt = cur;
    std::vector<std::pair<S6, std::string>> list;
    int mode = 0, guard = 0;
    double mv = r.u(m.mv_lo, m.mv_hi);
    int rngmode_left = 0, rngmode = -1;
    (void)rngmode;
    while ((int)list.size() < m.steps && guard++ < m.steps * 8) {
        double da = std::fabs(tgt.yaw - cur.yaw) + std::fabs(tgt.pitch - cur.pitch) + std::fabs(tgt.roll - cur.roll);
        double d = std::sqrt((tgt.x - cur.x) * (tgt.x - cur.x) + (tgt.y - cur.y) * (tgt.y - cur.y) + (tgt.z - cur.z) * (tgt.z - cur.z)) + 1.2 * ext * da;
        if (d < 0.2 * minc) {
            tgt = cur;
            mode = r.i(0, 9);
            mv = r.u(m.mv_lo, m.mv_hi);
            switch (mode) {
                case 0: tgt.z = -deep * r.u(-0.3, 1) + ext * r.u(0, 0.6); break;                       // plunge
                case 1: tgt.x = r.u(-0.6, 0.6) * Lx; break;                                            // drag
                case 2: tgt.y = r.u(-0.6, 0.6) * Ly; break;
                case 3: tgt.pitch = r.u(-1.6, 1.6); break;                                             // curl / dump
                case 4: tgt.z += cxy * r.u(1, 6); break;                                               // lift
                case 5: if (m.yaw) tgt.yaw += r.u(-1, 1); else tgt.x += cxy * r.u(-4, 4); break;       // swing
                case 6: tgt.x += cxy * r.u(-4, 4); tgt.z += cxy * r.u(-3, 3); tgt.pitch += r.u(-0.5, 0.5); break;
                case 7: if (m.roll) tgt.roll = r.u(-tilt, tilt); else tgt.pitch = r.u(-1.6, 1.6); break;
                case 8: tgt.x += r.u(-2, 2) * minc; tgt.y += r.u(-2, 2) * minc; tgt.z += r.u(-2, 2) * minc; break;  // jitter
                case 9: tgt.pitch = r.pick({0.0, 1.5707963267948966, -1.5707963267948966, 3.141592653589793, 0.7853981633974483}); break;
            }
            if (m.jump > 0 && r.p(m.jump)) {
                tgt.x = r.u(-0.6, 0.6) * Lx; tgt.y = r.u(-0.6, 0.6) * Ly; tgt.z = -deep + ext * r.u(0, 1.5);
                double pos[3] = {tgt.x, tgt.y, tgt.z}, q[4];
                EulerToQuat(tgt.yaw, tgt.pitch, tgt.roll, q);
                if (Fits(w, pos, q, m.margin)) { cur = tgt; list.push_back({cur, "jump"}); } else tgt = cur;
            }
            continue;
        }
        double f = std::min(1.0, mv * minc / d);
        S6 n = cur;
        n.x += (tgt.x - cur.x) * f; n.y += (tgt.y - cur.y) * f; n.z += (tgt.z - cur.z) * f;
        n.yaw += (tgt.yaw - cur.yaw) * f; n.pitch += (tgt.pitch - cur.pitch) * f; n.roll += (tgt.roll - cur.roll) * f;
        double pos[3] = {n.x, n.y, n.z}, q[4];
        EulerToQuat(n.yaw, n.pitch, n.roll, q);
        if (!Fits(w, pos, q, m.margin)) { tgt = cur; continue; }
        cur = n;
        list.push_back({cur, ""});
    }
    // ---- the link
    std::vector<std::pair<S6, std::string>> del;
    int stall = 0;
    for (size_t i = 0; i < list.size(); i++) {
        if (stall > 0) { stall--; continue; }
        if (r.p(m.stall)) { stall = r.i(1, 6); p->c["f_stall"]++; continue; }
        if (r.p(m.drop)) { p->c["f_drop"]++; continue; }
        del.push_back(list[i]);
        if (r.p(m.dup)) { del.push_back({list[i].first, "dup"}); p->c["f_dup"]++; }
        if (i > 0 && r.p(m.reorder) && del.size() > 1) {
            std::swap(del[del.size() - 1], del[del.size() - 2]);
            del.back().second = "reordered"; p->c["f_reorder"]++;
        }
    }
    for (auto& [s, note] : del) {
        if (note == "jump") p->c["f_jump"]++;
        if (rngmode_left-- <= 0 && r.p(0.08)) {
            rngmode_left = r.i(3, 20);
            Op o; o.k = "sched"; o.a = {(double)(r.p(0.4) ? 0 : r.i(1, 5))};
            p->ops.push_back(o);
        }
        if (m.pour && r.p(0.25)) {
            Op o; o.k = "pour";
            int ci = (int)std::lround(s.x / cxy + w.grid.half_length_x_), cj = (int)std::lround(s.y / cxy + w.grid.half_length_y_);
            int rad = (int)(ext / cxy) + 2;
            o.a = {(double)std::clamp(ci + r.i(-rad, rad), 1, w.nx() - 2), (double)std::clamp(cj + r.i(-rad, rad), 1, w.ny() - 2),
                   (double)r.i(1, (int)(6 * cxy / cz) + 1)};
            p->ops.push_back(o);
        }
        double pos[3] = {s.x, s.y, s.z}, q[4];
        EulerToQuat(s.yaw, s.pitch, s.roll, q);
        p->ops.push_back(StepOp(pos, q, note));
    }
}
// now and then the tool is exchanged for a smaller or the full-sized one
void AddTools(Rng& r, Plan* p, double rate) {
    std::vector<Op> out;
    for (auto& o : p->ops) {
        if (r.p(rate)) { Op q; q.k = "tool"; q.a = {r.pick({1.0, 0.9, 0.7, 0.5})}; out.push_back(q); }
        out.push_back(o);
    }
    p->ops = out;
}
// the operator changes the soil, the iterations granted and the cell buffer
void AddParams(Rng& r, Plan* p, double rate) {
    std::vector<Op> out;
    for (auto& o : p->ops) {
        if (r.p(rate)) {
            Op q; q.k = "param";
            double rep = r.pick({0.85, 0.3, 0.6, 1.1, 0.5, 0.95});
            if (p->c["cxy"] * std::tan(rep) / p->c["cz"] < 0.6) rep = 0.85;
            q.a = {rep, (double)r.pick({0, 1, 2, 3, 5, 12}), (double)r.pick({2, 3, 4, 6, 9})};
            out.push_back(q);
        }
        out.push_back(o);
    }
    p->ops = out;
}
