#include <algorithm>
#include "core.hpp"

Mission::Mission(const Plan& p, Ctx& c) : plan(p), cx(c), w(p), sp(w.sp), cz(w.grid.cell_size_z_) {
    w.InitTerrain();
    cx.log.w(w.StateHash());
}

bool Mission::Env(const Op& o) {
    if (o.k == "sched") { w.rng.mode = (int)o.a[0]; cx.hit("sched_switch"); return true; }
    if (o.k == "reseed") { w.rng.seed((uint32_t)o.a[0]); cx.hit("reseed"); return true; }
    if (o.k == "tool") { w.SetTool(o.a[0]); cx.hit("tool_change"); return true; }
    if (o.k == "param") {
        sp.repose_angle_ = (float)o.a[0]; sp.max_iterations_ = (int)o.a[1]; sp.cell_buffer_ = (int)o.a[2];
        cx.hit("param_change");
        return true;
    }
    if (o.k == "pour") {
        int i = (int)o.a[0], j = (int)o.a[1], n = (int)o.a[2];
        if (i < 0 || j < 0 || i >= w.nx() || j >= w.ny()) return true;
        if (BodyAt(w.out, i, j, 0) || BodyAt(w.out, i, j, 2)) return true;
        w.out.terrain_[i][j] = (float)(w.grid.cell_size_z_ * std::round(w.out.terrain_[i][j] / w.grid.cell_size_z_ + n));
        poured += n;
        cx.hit("pour");
        return true;
    }
    return false;
}

StepResult Mission::StepPose(const Pose& p, const SimParam& s) {
    StepResult r = w.Step(p, &s);
    t += 0.1;
    cx.sim_time += 0.1;
    cx.hit("steps");
    if (r.updated) { cx.hit("updates"); updates++; }
    if (Announced(r, "removed")) { cx.hit("announced_loss"); lost_steps++; }
    if (Announced(r, "could not be updated")) cx.hit("soil_left_behind");
    if (Announced(r, "Movement made")) cx.hit("big_move_warning");
    for (auto& m : r.warn) cx.log.s(m.substr(0, 40));
    uint64_t h = w.StateHash(false);
    cx.log.w(h);
    if (r.updated) cx.states.push_back(h);
    if (!w.out.body_soil_pos_.empty()) cx.hit("steps_carrying");
    return r;
}
StepResult Mission::Step(const Op& o) {
    if (!o.note.empty()) {
        if (o.note == "dup") cx.hit("fault_link_dup");
        if (o.note == "reordered") cx.hit("fault_link_reorder");
        if (o.note == "jump") cx.hit("fault_link_jump");
    }
    return StepPose(PoseOf(o), sp);
}

Footprint::Footprint(const SimOut& o) : nx((int)o.terrain_.size()), ny((int)o.terrain_[0].size()), m((size_t)nx * ny) {
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) m[(size_t)i * ny + j] = BodyAt(o, i, j, 0) || BodyAt(o, i, j, 2);
}

void CountShape(const SimOut& o, double tol, Ctx& cx) {
    int nx = (int)o.terrain_.size(), ny = (int)o.terrain_[0].size();
    bool two = false, low2 = false, soil0 = false, soil2 = false, filled = false, touch = false, under = false;
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            bool p0 = BodyAt(o, i, j, 0), p2 = BodyAt(o, i, j, 2);
            if (!p0 && !p2) continue;
            if (p0 && p2) { two = true; if (o.body_[2][i][j] < o.body_[0][i][j]) low2 = true; }
            bool s0 = o.body_soil_[0][i][j] != 0 || o.body_soil_[1][i][j] != 0;
            bool s2 = o.body_soil_[2][i][j] != 0 || o.body_soil_[3][i][j] != 0;
            soil0 |= s0; soil2 |= s2;
            if (p0 && p2 && s0 && std::fabs(o.body_soil_[1][i][j] - o.body_[2][i][j]) < tol * 10) filled = true;
            if (p0 && p2 && s2 && std::fabs(o.body_soil_[3][i][j] - o.body_[0][i][j]) < tol * 10) filled = true;
            float bot = p0 && p2 ? std::min(o.body_[0][i][j], o.body_[2][i][j]) : p0 ? o.body_[0][i][j] : o.body_[2][i][j];
            if (std::fabs(o.terrain_[i][j] - bot) < tol * 10) touch = true;
            else under = true;
        }
    if (two) cx.hit("probe_two_layers");
    if (low2) cx.hit("probe_second_layer_lower");
    if (soil0) cx.hit("probe_soil_layer1");
    if (soil2) cx.hit("probe_soil_layer2");
    if (filled) cx.hit("probe_gap_filled");
    if (touch) cx.hit("probe_body_on_ground");
    if (under) cx.hit("probe_air_under_body");
}

void AddSoil(World& w, int i, int j, int l, long n) {
    SimOut& s = w.out;
    double cz = w.grid.cell_size_z_, top = s.body_[l + 1][i][j];
    bool soil = s.body_soil_[l][i][j] != 0 || s.body_soil_[l + 1][i][j] != 0;
    double from = soil ? s.body_soil_[l + 1][i][j] : top;
    int u = 2 - l;
    if (BodyAt(s, i, j, u) && s.body_[u][i][j] > s.body_[l][i][j]) n = std::min(n, Cells(s.body_[u][i][j] - from, cz));
    if (n <= 0) return;
    const Body* b = w.body();
    double inv[4] = {b->ori_[0], -b->ori_[1], -b->ori_[2], -b->ori_[3]};
    s.body_soil_[l][i][j] = s.body_[l + 1][i][j];
    s.body_soil_[l + 1][i][j] = w.grid.cell_size_z_ * (float)Cells(from + n * cz, cz);
    V3d v = Rotate(inv, V3d{(i - w.grid.half_length_x_) * (double)w.grid.cell_size_xy_ - b->pos_[0],
                            (j - w.grid.half_length_y_) * (double)w.grid.cell_size_xy_ - b->pos_[1], top - b->pos_[2]});
    soil_simulator::body_soil rec;
    rec.ind = l; rec.ii = i; rec.jj = j; rec.x_b = (float)v.x; rec.y_b = (float)v.y; rec.z_b = (float)v.z; rec.h_soil = w.grid.cell_size_z_ * (float)n;
    s.body_soil_pos_.push_back(rec);
}
void DropSoil(World& w, int i, int j) {
    for (int l = 0; l < 4; l++) w.out.body_soil_[l][i][j] = 0;
    auto& v = w.out.body_soil_pos_;
    v.erase(std::remove_if(v.begin(), v.end(), [&](const soil_simulator::body_soil& b) { return b.ii == i && b.jj == j; }), v.end());
}
int LowBottom(const SimOut& s, int i, int j, double cz) {
    bool a = BodyAt(s, i, j, 0), b = BodyAt(s, i, j, 2);
    if (!a && !b) return NOWHERE;
    return (int)Cells(a && b ? std::min(s.body_[0][i][j], s.body_[2][i][j]) : a ? s.body_[0][i][j] : s.body_[2][i][j], cz);
}
void ExchangeLayers(World& w, Rng& r) {
    SimOut& s = w.out;
    int nx = w.nx(), ny = w.ny();
    std::vector<char> x((size_t)nx * ny);
    bool some = r.p(0.5);
    for (auto& c : x) c = !some || r.p(0.5);
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++)
            if (x[(size_t)i * ny + j])
                for (int l = 0; l < 2; l++) {
                    std::swap(s.body_[l][i][j], s.body_[l + 2][i][j]);
                    std::swap(s.body_soil_[l][i][j], s.body_soil_[l + 2][i][j]);
                }
    for (auto& b : s.body_soil_pos_) if (x[(size_t)b.ii * ny + b.jj]) b.ind = 2 - b.ind;
}
bool Placed(const World& w) {
    double n = 0;
    for (float x : w.body()->ori_) n += x * x;
    return std::fabs(n - 1) < 0.1;
}
void VaryMachine(World& w, Rng& r, int i0, int j0, int ni, int nj) {
    SimOut& s = w.out;
    double cz = w.grid.cell_size_z_;
    float fz = w.grid.cell_size_z_;
    // a second layer above or below a single one
    if (r.p(0.4))
        for (int i = i0; i < i0 + ni; i++)
            for (int j = j0; j < j0 + nj; j++) {
                bool p = BodyAt(s, i, j, 0), q = BodyAt(s, i, j, 2);
                if (p == q || r.p(0.4)) continue;
                int l = p ? 0 : 2, u = 2 - l;
                DropSoil(w, i, j);
                long bot = Cells(s.body_[l][i][j], cz), top = Cells(s.body_[l + 1][i][j], cz), gap = r.i(1, 7), thick = r.i(1, 3);
                if (r.p(0.6)) { s.body_[u][i][j] = fz * (float)(top + gap); s.body_[u + 1][i][j] = fz * (float)(top + gap + thick); }
                else if (Cells(s.terrain_[i][j], cz) <= bot - gap - thick) { s.body_[u][i][j] = fz * (float)(bot - gap - thick); s.body_[u + 1][i][j] = fz * (float)(bot - gap); }
                if (!BodyAt(s, i, j, u)) s.body_[u][i][j] = s.body_[u + 1][i][j] = 0;
            }
    // a surface that lies a little higher or lower
    if (r.p(0.4))
        for (int i = i0; i < i0 + ni; i++)
            for (int j = j0; j < j0 + nj; j++) {
                bool p = BodyAt(s, i, j, 0), q = BodyAt(s, i, j, 2);
                if (p == q || r.p(0.6)) continue;
                int l = p ? 0 : 2, by = r.i(-4, 6);
                DropSoil(w, i, j);
                for (int e = l; e < l + 2; e++) s.body_[e][i][j] = fz * (float)(Cells(s.body_[e][i][j], cz) + by);
                if (s.body_[l + 1][i][j] == 0) s.body_[l + 1][i][j] = fz;
                s.terrain_[i][j] = std::min(s.terrain_[i][j], s.body_[l][i][j]);
            }
}
