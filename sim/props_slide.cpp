// How soil slides: which way it takes and how much of it.  In the middle of a
// mission a few columns are varied and given to one relaxation pass of the
// ground or of the carried soil; the outcome has to be one of those that the
// documented rules allow for some order of columns and directions (a small
// nondeterministic reference model on whole cells).
#include <algorithm>
#include <set>
#include "core.hpp"

static void GenSlide(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(8, 30);
    m.yaw = r.p(0.7); m.roll = r.p(0.5);
    if (r.p(0.3)) { m.drop = r.p(0.5) ? r.u(0.02, 0.3) : 0; m.dup = r.p(0.2) ? r.u(0.02, 0.2) : 0; m.reorder = r.p(0.3) ? r.u(0.02, 0.2) : 0; }
    if (r.p(0.3)) m.jump = r.u(0.1, 0.4);
    m.pour = r.p(0.4);
    GenConfig(r, p, m);
    GenMission(r, p, m);
    if (r.p(0.15)) AddTools(r, p, 0.05);
    double rate = r.u(0.3, 0.8);
    std::vector<Op> out;
    for (auto& o : p->ops) {
        out.push_back(o);
        if (o.k == "step" && r.p(rate)) { Op q; q.k = "slide"; q.a = {(double)r.i(1, 1 << 30), (double)r.i(6, 20)}; out.push_back(q); }
    }
    p->ops = out;
}

namespace {
const int NONE = -(1 << 28), FAR = NOWHERE;
const int D4[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
typedef std::vector<int> St;                                 // per column t s0 s1 in0 in1, then records, then flag

struct Model {
    int i0, j0, ni, nj, dh, nrec;
    std::vector<std::array<int, 4>> b;                       // machine layers, NONE when absent
    std::vector<std::array<int, 3>> rec;                     // column, layer (0/1), amount
    int at(int i, int j) const { return (i - i0) * nj + (j - j0); }
    bool has(int c, int l) const { return b[c][2 * l] != NONE; }
    int flag() const { return ni * nj * 5 + nrec; }
    int top(const St& s, int c, int l) const { return s[c * 5 + 1 + l] != NONE ? s[c * 5 + 1 + l] : b[c][2 * l + 1]; }
    void put(St& s, int c, int l, int k) const {
        s[c * 5 + 1 + l] = top(s, c, l) + k;
        s[c * 5 + 3 + l] += k;
    }
    static int need(int from, int to, int dh) { int e = from - to - dh; return e <= 0 ? 0 : (e + 1) / 2; }
    // ground of column a towards column c
    void ground(St& s, int a, int c) const {
        int ta = s[a * 5], tc = s[c * 5];
        if (tc >= ta - dh) return;
        bool p = has(c, 0), q = has(c, 1);
        int l = -1, surf = tc, ceil = FAR;
        if (p || q) {
            int lo = p && q ? (b[c][0] < b[c][2] ? 0 : 1) : p ? 0 : 1, up = 1 - lo;
            if (tc < b[c][2 * lo]) ceil = b[c][2 * lo];
            else if (!(p && q)) { l = lo; surf = top(s, c, lo); }
            else if (s[c * 5 + 1 + lo] != NONE && s[c * 5 + 1 + lo] >= b[c][2 * up]) { l = up; surf = top(s, c, up); }
            else { l = lo; surf = top(s, c, lo); ceil = b[c][2 * up]; }
        }
        if (surf >= ta - dh) return;
        s[flag()] = 1;
        int k = std::min(need(ta, surf, dh), ceil - surf);
        if (k <= 0) return;
        s[a * 5] -= k;
        if (l < 0) s[c * 5] += k; else put(s, c, l, k);
    }
    // record n of the carried soil towards column c
    void carried(St& s, int n, int c) const {
        int a = rec[n][0], la = rec[n][1], ri = ni * nj * 5 + n;
        int tp = s[a * 5 + 1 + la], floor = b[a][2 * la + 1];
        bool p = has(c, 0), q = has(c, 1);
        int l = -1, surf = s[c * 5], ceil = FAR;
        if (p && q) {
            int lo = b[c][0] < b[c][2] ? 0 : 1, up = 1 - lo;
            bool room = s[c * 5 + 1 + lo] == NONE || s[c * 5 + 1 + lo] < b[c][2 * up];
            if (floor < b[c][2 * up] && room) { l = lo; ceil = b[c][2 * up]; }
            else l = up;
            surf = top(s, c, l);
        } else if (p || q) {
            int m = p ? 0 : 1;
            if (floor < b[c][2 * m]) ceil = b[c][2 * m];
            else { l = m; surf = top(s, c, m); }
        }
        if (surf >= tp - dh) return;
        s[flag()] = 1;
        int k = std::min({need(tp, surf, dh), s[ri], ceil - surf});
        if (k <= 0) return;
        s[ri] -= k;
        s[a * 5 + 1 + la] -= k;
        if (s[a * 5 + 1 + la] == floor) s[a * 5 + 1 + la] = NONE;
        if (l < 0) s[c * 5] += k; else put(s, c, l, k);
    }
};
}  // namespace

static void Trial(World& w, const SimParam& sp, int dh, Rng& r, Ctx& cx) {
    SimOut& s = w.out;
    int nx = w.nx(), ny = w.ny();
    double cz = w.grid.cell_size_z_;
    float fz = w.grid.cell_size_z_;
    bool carried = r.p(0.55);
    if (r.p(0.6)) ExchangeLayers(w, r);
    // where
    std::vector<std::pair<int, int>> on, by, two, lip;       // on the machine, next to it, next to two layers (and off the machine)
    for (int i = 2; i < nx - 3; i++)
        for (int j = 2; j < ny - 3; j++) {
            for (auto& d : D4) if (BodyAt(s, i + d[0], j + d[1], 0) && BodyAt(s, i + d[0], j + d[1], 2)) { (LowBottom(s, i, j, cz) == NOWHERE ? lip : two).push_back({i, j}); break; }
            if (LowBottom(s, i, j, cz) != FAR) { on.push_back({i, j}); continue; }
            for (auto& d : D4) if (LowBottom(s, i + d[0], j + d[1], cz) != FAR) { by.push_back({i, j}); break; }
        }
    if (on.empty() || by.empty()) return;
    auto pick = [&](const std::vector<std::pair<int, int>>& v) { return v[r.i(0, (int)v.size() - 1)]; };
    std::pair<int, int> A = carried ? pick(on) : r.p(0.75) ? pick(by) : r.p(0.8) ? pick(on) : std::make_pair(r.i(2, nx - 4), r.i(2, ny - 4));
    if (carried && !two.empty() && r.p(0.4)) A = pick(two);
    if (!carried && !lip.empty() && r.p(0.4)) A = pick(lip);
    int wi = 1, wj = 1;
    if (!carried && r.p(0.25)) (r.p(0.5) ? wi : wj) = 2;
    Model m;
    int rim = carried ? 2 : 1;                               // carried soil next door may slide, too
    m.i0 = std::max(0, A.first - rim); m.j0 = std::max(0, A.second - rim);
    m.ni = std::min(nx - 1, A.first + wi - 1 + rim) - m.i0 + 1;
    m.nj = std::min(ny - 1, A.second + wj - 1 + rim) - m.j0 + 1;
    m.dh = dh;
    auto inside = [&](int i, int j) { return i >= m.i0 && j >= m.j0 && i < m.i0 + m.ni && j < m.j0 + m.nj; };
    VaryMachine(w, r, m.i0, m.j0, m.ni, m.nj);
    // the ground and the load around
    int base = (int)Cells(s.terrain_[A.first][A.second], cz);
    double full = r.u(), rain = r.u(0, 0.7);
    auto col = [&](int i, int j, int from, int to) {
        int bot = LowBottom(s, i, j, cz);
        s.terrain_[i][j] = fz * (float)std::min(bot, bot != FAR && r.p(full) ? bot - (r.p(0.3) ? r.i(1, 4) : 0) : base + r.i(from, to));
    };
    if (r.p(0.85))
        for (int i = m.i0; i < m.i0 + m.ni; i++)
            for (int j = m.j0; j < m.j0 + m.nj; j++)
                if (r.p(0.7)) col(i, j, -2 * dh - 6, dh);
    if (carried) {
        // soil only on the column in question and (maybe) next to it
        bool near = r.p(0.5);
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                int d = std::abs(i - A.first) + std::abs(j - A.second);
                if (d > 1 || (d == 1 && (!near || r.p(0.3)))) DropSoil(w, i, j);
            }
    }
    for (int i = m.i0; i < m.i0 + m.ni; i++)
        for (int j = m.j0; j < m.j0 + m.nj; j++) {
            int d = std::abs(i - A.first) + std::abs(j - A.second);
            if (carried ? d != 1 : d == 0 || d > 2) continue;
            for (int l = 0; l < 4; l += 2)
                if (BodyAt(s, i, j, l) && r.p(rain)) {
                    long room = BodyAt(s, i, j, 2 - l) && s.body_[2 - l][i][j] > s.body_[l][i][j] ? Cells(s.body_[2 - l][i][j] - s.body_[l + 1][i][j], cz) : 0;
                    // a little, up to the upper layer, or nearly so
                    AddSoil(w, i, j, l, room > 0 && r.p(0.35) ? room : room > 4 && r.p(0.4) ? room - r.i(1, 4) : r.i(1, 6));
                }
        }
    if (carried) {
        int l = BodyAt(s, A.first, A.second, 0) && (r.p(0.5) || !BodyAt(s, A.first, A.second, 2)) ? 0 : 2;
        for (int k = r.i(1, 3); k > 0; k--) AddSoil(w, A.first, A.second, l, r.i(1, 2 * dh + 8));
        if (s.body_soil_pos_.size() > 9) return;
        for (int k = (int)s.body_soil_pos_.size() - 1; k > 0; k--) std::swap(s.body_soil_pos_[k], s.body_soil_pos_[r.i(0, k)]);
    } else {
        // a source that is about too steep for the place next to it
        for (int i = A.first; i < A.first + wi; i++)
            for (int j = A.second; j < A.second + wj; j++) {
                auto& d = D4[r.i(0, 3)];
                int a = i + d[0], b = j + d[1], surf = (int)Cells(s.terrain_[a][b], cz);
                for (int l = 0; l < 4; l += 2)
                    if (BodyAt(s, a, b, l) && r.p(0.7)) {
                        bool soil = s.body_soil_[l][a][b] != 0 || s.body_soil_[l + 1][a][b] != 0;
                        surf = (int)Cells(soil ? s.body_soil_[l + 1][a][b] : s.body_[l + 1][a][b], cz);
                    }
                s.terrain_[i][j] = fz * (float)std::min(LowBottom(s, i, j, cz), surf + dh + r.i(-2, 9));
            }
    }
    // the model's view of it
    m.b.resize(m.ni * m.nj);
    m.nrec = carried ? (int)s.body_soil_pos_.size() : 0;
    St st(m.ni * m.nj * 5 + m.nrec + 1, 0);
    auto see = [&](const SimOut& o, St& v) {
        for (int i = m.i0; i < m.i0 + m.ni; i++)
            for (int j = m.j0; j < m.j0 + m.nj; j++) {
                int c = m.at(i, j);
                v[c * 5] = (int)Cells(o.terrain_[i][j], cz);
                for (int l = 0; l < 2; l++) {
                    bool soil = o.body_soil_[2 * l][i][j] != 0 || o.body_soil_[2 * l + 1][i][j] != 0;
                    v[c * 5 + 1 + l] = soil ? (int)Cells(o.body_soil_[2 * l + 1][i][j], cz) : NONE;
                }
            }
    };
    see(s, st);
    for (int i = m.i0; i < m.i0 + m.ni; i++)
        for (int j = m.j0; j < m.j0 + m.nj; j++)
            for (int l = 0; l < 4; l++)
                m.b[m.at(i, j)][l] = BodyAt(s, i, j, l & 2) ? (int)Cells(s.body_[l][i][j], cz) : NONE;
    if (carried)
        for (int n = 0; n < m.nrec; n++) {
            auto& b = s.body_soil_pos_[n];
            if (!inside(b.ii, b.jj)) return;
            m.rec.push_back({m.at(b.ii, b.jj), b.ind / 2, (int)Cells(b.h_soil, cz)});
            st[m.ni * m.nj * 5 + n] = m.rec.back()[2];
        }
    // all outcomes
    std::set<St> all{st};
    auto turn = [&](const std::set<St>& from, const std::function<void(St&, int)>& go) {
        std::set<St> to;
        int o[4] = {0, 1, 2, 3};
        do {
            for (auto& x : from) { St y = x; for (int d : o) go(y, d); to.insert(y); }
        } while (std::next_permutation(o, o + 4));
        return to;
    };
    size_t most = 1500;
    if (carried) {
        for (int n = 0; n < m.nrec && all.size() <= most; n++) {
            auto& b = s.body_soil_pos_[n];
            if (m.rec[n][2] <= 0) continue;
            all = turn(all, [&](St& y, int d) { if (y[m.ni * m.nj * 5 + n] > 0) m.carried(y, n, m.at(b.ii + D4[d][0], b.jj + D4[d][1])); });
        }
    } else {
        std::vector<std::pair<int, int>> src;
        for (int i = A.first; i < A.first + wi; i++)
            for (int j = A.second; j < A.second + wj; j++) {
                bool steep = false;
                for (auto& d : D4) steep |= st[m.at(i + d[0], j + d[1]) * 5] < st[m.at(i, j) * 5] - dh;
                if (steep) src.push_back({i, j});
            }
        std::set<St> sum;
        for (int k = 0; k < 2; k++) {
            std::set<St> x{st};
            for (auto& c : src) x = turn(x, [&](St& y, int d) { m.ground(y, m.at(c.first, c.second), m.at(c.first + D4[d][0], c.second + D4[d][1])); });
            sum.insert(x.begin(), x.end());
            std::reverse(src.begin(), src.end());
        }
        all = sum;
    }
    if (all.size() > most) { cx.hit("too_many_outcomes"); return; }
    // the real pass
    SimOut was = s;
    s.equilibrium_ = true;
    if (!carried) {
        s.impact_area_[0][0] = A.first; s.impact_area_[0][1] = A.first + wi;
        s.impact_area_[1][0] = A.second; s.impact_area_[1][1] = A.second + wj;
    }
    w.Relax(carried, sp);
    cx.hit(carried ? "passes_carried" : "passes_ground");
    cx.hit("outcomes_allowed", (long)all.size());
    const char* what = carried ? "carried soil" : "ground";
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            bool in = inside(i, j);
            bool diff = !in && std::memcmp(&s.terrain_[i][j], &was.terrain_[i][j], sizeof(float));
            for (int l = 0; l < 4; l++) {
                diff |= std::memcmp(&s.body_[l][i][j], &was.body_[l][i][j], sizeof(float)) != 0;
                diff |= !in && std::memcmp(&s.body_soil_[l][i][j], &was.body_soil_[l][i][j], sizeof(float));
            }
            if (diff) cx.fail("slide-elsewhere", Fmt("a pass over the %s at (%d,%d) changed (%d,%d)", what, A.first, A.second, i, j));
        }
    if (s.body_soil_pos_.size() < was.body_soil_pos_.size()) cx.fail("slide-records", "records of carried soil disappeared");
    St end(st.size(), 0);
    see(s, end);
    for (int c = 0; c < m.ni * m.nj; c++)
        for (int l = 0; l < 2; l++) if (m.has(c, l) && end[c * 5 + 1 + l] == m.b[c][2 * l + 1]) end[c * 5 + 1 + l] = NONE;
    for (size_t n = 0; n < s.body_soil_pos_.size(); n++) {
        auto& b = s.body_soil_pos_[n];
        if (n < was.body_soil_pos_.size()) {
            auto& o = was.body_soil_pos_[n];
            if (b.ind != o.ind || b.ii != o.ii || b.jj != o.jj || b.x_b != o.x_b || b.y_b != o.y_b || b.z_b != o.z_b || (!carried && b.h_soil != o.h_soil))
                cx.fail("slide-records", Fmt("record %zu of carried soil was changed by settling the %s", n, what));
            if (carried) end[m.ni * m.nj * 5 + n] = (int)Cells(b.h_soil, cz);
            continue;
        }
        if (Cells(b.h_soil, cz) == 0) continue;
        if ((b.ind != 0 && b.ind != 2) || !inside(b.ii, b.jj)) cx.fail("slide-records", Fmt("a new record of carried soil at (%d,%d) layer %d", b.ii, b.jj, b.ind));
        end[m.at(b.ii, b.jj) * 5 + 3 + b.ind / 2] += (int)Cells(b.h_soil, cz);
        const Body* q = w.body();
        double ori[4] = {q->ori_[0], q->ori_[1], q->ori_[2], q->ori_[3]};
        V3d v = Rotate(ori, V3d{b.x_b, b.y_b, b.z_b});
        double cxy = w.grid.cell_size_xy_;
        double ex = (v.x + q->pos_[0]) / cxy - (b.ii - w.grid.half_length_x_), ey = (v.y + q->pos_[1]) / cxy - (b.jj - w.grid.half_length_y_);
        double ez = (v.z + q->pos_[2] - s.body_[b.ind + 1][b.ii][b.jj]) / cz;
        if (std::fabs(ex) > 0.02 || std::fabs(ey) > 0.02 || std::fabs(ez) > 0.05)
            cx.fail("slide-anchor", Fmt("soil that slid onto the machine at (%d,%d) is attached %.3g, %.3g, %.3g cells from there", b.ii, b.jj, ex, ey, ez));
        cx.hit("slid_onto_machine");
    }
    end[m.flag()] = s.equilibrium_ ? 0 : 1;
    for (int x : end) cx.log.w((uint64_t)x);
    if (all.count(end)) {
        St f = end, g = st; f[m.flag()] = g[m.flag()] = 0;
        if (f != g) { cx.hit("passes_with_slides"); cx.states.push_back(cx.log.h); }
        return;
    }
    end[m.flag()] ^= 1;
    if (all.count(end)) cx.fail("slide-flag", Fmt("settling the %s at (%d,%d) reported %s", what, A.first, A.second, s.equilibrium_ ? "rest although soil had to slide" : "unrest although nothing had to slide"));
    end[m.flag()] ^= 1;
    // describe the difference to the closest allowed outcome
    const St* best = nullptr; int bd = 1 << 30;
    for (auto& x : all) { int d = 0; for (size_t k = 0; k < x.size(); k++) d += x[k] != end[k]; if (d < bd) { bd = d; best = &x; } }
    std::string t;
    for (size_t k = 0; best && k + 1 < end.size() && t.size() < 300; k++) {
        if ((*best)[k] == end[k]) continue;
        static const char* nm[5] = {"ground", "soil on layer 1", "soil on layer 2", "arrived on layer 1", "arrived on layer 2"};
        auto show = [](int x) { return x == NONE ? std::string("none") : std::to_string(x); };
        if ((int)k < m.ni * m.nj * 5) t += Fmt(" %s at (%d,%d) is %s, was %s, should be %s;", nm[k % 5], m.i0 + (int)(k / 5) / m.nj, m.j0 + (int)(k / 5) % m.nj, show(end[k]).c_str(), show(st[k]).c_str(), show((*best)[k]).c_str());
        else t += Fmt(" record %d holds %d, should hold %d;", (int)k - m.ni * m.nj * 5, end[k], (*best)[k]);
    }
    cx.fail(carried ? "slide-carried" : "slide-ground", Fmt("settling the %s at (%d,%d), at most %d cells per column, took a way no order of slides explains:%s", what, A.first, A.second, dh, t.c_str()));
}

static void ExecSlide(const Plan& p, Ctx& cx) {
    Mission ms(p, cx);
    double cz = ms.cz;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (ms.Env(o)) continue;
        if (o.k == "step") { ms.Step(o); CountShape(ms.w.out, 1e-5, cx); continue; }
        if (o.k != "slide" || ms.updates == 0) continue;
        if (!Placed(ms.w)) continue;
        double exact = ms.w.grid.cell_size_xy_ * std::tan((double)ms.sp.repose_angle_) / cz;
        if (std::fabs(exact - std::floor(exact) - 0.5) < 1e-3) continue;
        int dh = (int)std::lround(exact);
        Checkpoint start(ms.w);
        Rng r((uint64_t)o.a[0]);
        for (int n = (int)o.a[1]; n > 0; n--) {
            Rng q(r.next());
            Trial(ms.w, ms.sp, dh, q, cx);
            auto g = ms.w.rng;
            start.Restore(&ms.w);
            ms.w.rng = g;
        }
        start.Restore(&ms.w);
    }
    cx.nontrivial = cx.n["passes_with_slides"] >= 10 && cx.n["slid_onto_machine"] >= 3;
}

const std::vector<Prop>& SlideProps() {
    static std::vector<Prop> v = {
        {"C23", GenSlide, ExecSlide, "One case = one seeded mission; between its steps up to twenty single relaxation passes of the ground or of the carried soil are run on one or two columns whose surroundings (ground, gaps under the machine, soil on both machine layers) are varied, under the seeded schedule of the library's shuffles, and compared with every outcome the reference model allows. Non-trivial: at least 10 passes in which soil slid and at least 3 slides onto the machine."},
    };
    return v;
}
