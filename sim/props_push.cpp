// What the machine displaces: ground in its way and carried soil squeezed
// between its layers go to the nearest room; soil is given up only when it is
// enclosed.  Judged on the displacement alone (a twin step granting no
// relaxation), before the mission itself takes the step.
#include <algorithm>
#include <functional>
#include <set>
#include "core.hpp"

static const int D8[8][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}};

static void GenPush(Rng& r, Plan* p) {
    Motion m;
    m.steps = r.i(10, 40);
    m.yaw = r.p(0.7); m.roll = r.p(0.5);
    if (r.p(0.4)) { m.drop = r.p(0.5) ? r.u(0.02, 0.3) : 0; m.dup = r.p(0.2) ? r.u(0.02, 0.2) : 0; m.reorder = r.p(0.3) ? r.u(0.02, 0.2) : 0; }
    if (r.p(0.4)) m.jump = r.u(0.1, 0.5);
    m.pour = r.p(0.4);
    if (r.p(0.3)) { m.mv_lo = 1; m.mv_hi = 8; }              // big strides squeeze more
    GenConfig(r, p, m);
    GenMission(r, p, m);
    if (r.p(0.2)) AddTools(r, p, 0.05);
    p->c["fair"] = 0;
    if (r.p(0.12)) {                                         // a machine buried in flat ground, many draws
        p->c["fair"] = 1;
        p->c["terrain"] = 0;
        p->c["rngmode"] = 0;
        p->c["draws"] = r.i(80, 160);
        p->c["dseed"] = r.i(1, 1 << 30);
        std::vector<Op> steps;
        for (auto& o : p->ops) if (o.k == "step") steps.push_back(o);
        p->ops.clear();
        if (!steps.empty()) p->ops.push_back(steps[r.i(0, (int)steps.size() - 1)]);
    }
    // load the machine: soil rains on it
    if (p->c["fair"] == 0 && r.p(0.7)) {
        double rate = r.u(0.05, 0.3);
        std::vector<Op> out;
        for (auto& o : p->ops) {
            if (o.k == "step" && r.p(rate)) { Op q; q.k = "load"; q.a = {(double)r.i(1, 1 << 30), (double)r.i(1, 6), r.u(0.1, 1), r.p(0.5) ? r.u() : 0}; out.push_back(q); }
            out.push_back(o);
        }
        p->ops = out;
    }
    if (p->c["fair"] == 0 && r.p(0.5)) {
        double rate = r.u(0.1, 0.4);
        std::vector<Op> out;
        for (auto& o : p->ops) {
            out.push_back(o);
            if (o.k == "step" && r.p(rate)) { Op q; q.k = "squeeze"; q.a = {(double)r.i(1, 1 << 30), (double)r.i(4, 15)}; out.push_back(q); }
        }
        p->ops = out;
    }
}

static bool Body(const SimOut& o, int i, int j) { return BodyAt(o, i, j, 0) || BodyAt(o, i, j, 2); }
static double Bottom(const SimOut& o, int i, int j) {
    bool a = BodyAt(o, i, j, 0), b = BodyAt(o, i, j, 2);
    return a && b ? std::min(o.body_[0][i][j], o.body_[2][i][j]) : a ? o.body_[0][i][j] : o.body_[2][i][j];
}

namespace {
struct Flow {                                                // Dinic
    struct E { int to; long cap; };
    std::vector<E> e;
    std::vector<std::vector<int>> g;
    std::vector<int> lv, it;
    explicit Flow(int n) : g(n) {}
    void add(int a, int b, long c) { g[a].push_back((int)e.size()); e.push_back({b, c}); g[b].push_back((int)e.size()); e.push_back({a, 0}); }
    bool bfs(int s, int t) {
        lv.assign(g.size(), -1);
        std::vector<int> q{s};
        lv[s] = 0;
        for (size_t h = 0; h < q.size(); h++)
            for (int k : g[q[h]]) if (e[k].cap > 0 && lv[e[k].to] < 0) { lv[e[k].to] = lv[q[h]] + 1; q.push_back(e[k].to); }
        return lv[t] >= 0;
    }
    long dfs(int v, int t, long f) {
        if (v == t) return f;
        for (int& k = it[v]; k < (int)g[v].size(); k++) {
            int x = g[v][k];
            if (e[x].cap > 0 && lv[e[x].to] == lv[v] + 1) {
                long d = dfs(e[x].to, t, std::min(f, e[x].cap));
                if (d > 0) { e[x].cap -= d; e[x ^ 1].cap += d; return d; }
            }
        }
        return 0;
    }
    long run(int s, int t) {
        long tot = 0;
        while (bfs(s, t)) { it.assign(g.size(), 0); while (long f = dfs(s, t, 1L << 40)) tot += f; }
        return tot;
    }
};
}  // namespace

static void JudgeGround(const std::vector<std::vector<float>>& t0, const SimOut& s, double cz, Ctx& cx) {
    int nx = (int)s.terrain_.size(), ny = (int)s.terrain_[0].size();
    if (!s.body_soil_pos_.empty()) cx.fail("push-carried", "displacing ground without settling put soil onto the machine");
    struct Col { int i, j; long n; };
    std::vector<Col> src, dst;
    std::map<std::pair<int, int>, int> rid;
    long out = 0, in = 0;
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            for (int l = 0; l < 4; l++)
                if (s.body_soil_[l][i][j] != 0) cx.fail("push-carried", Fmt("displacing ground without settling put soil onto the machine at (%d,%d)", i, j));
            long d = std::lround(((double)s.terrain_[i][j] - t0[i][j]) / cz);
            bool body = Body(s, i, j);
            double bot = body ? Bottom(s, i, j) : 1e30;
            if (body && t0[i][j] > bot + 0.5 * cz) {
                if (std::fabs(s.terrain_[i][j] - bot) > 0.3 * cz) cx.fail("push-source", Fmt("(%d,%d): ground reached %.5g, the machine starts at %.5g, but the ground is now at %.5g", i, j, (double)t0[i][j], bot, (double)s.terrain_[i][j]));
                src.push_back({i, j, -d}); out -= d;
            } else if (d < 0) cx.fail("push-dug", Fmt("(%d,%d): ground that is not in the machine's way was lowered by %ld cells", i, j, -d));
            else if (d > 0) {
                if (body && s.terrain_[i][j] > bot + 0.3 * cz) cx.fail("push-into", Fmt("(%d,%d): ground was pushed into the machine", i, j));
                rid[{i, j}] = (int)dst.size();
                dst.push_back({i, j, d}); in += d;
            }
        }
    if (out != in) cx.fail("push-amount", Fmt("%ld cells of ground in the machine's way, %ld cells arrived elsewhere", out, in));
    if (src.empty()) return;
    cx.hit("ground_columns_displaced", (long)src.size());
    Flow f((int)(src.size() + dst.size()) + 2);
    int S = (int)(src.size() + dst.size()), T = S + 1;
    for (size_t a = 0; a < src.size(); a++) {
        f.add(S, (int)a, src[a].n);
        for (int p = 1; p < nx + ny; p++) {
            bool full = true, any = false;
            for (auto& d : D8) {
                int i = src[a].i + p * d[0], j = src[a].j + p * d[1];
                if (i < 0 || j < 0 || i >= nx || j >= ny) continue;
                any = true;
                auto it = rid.find({i, j});
                if (it != rid.end()) f.add((int)a, (int)src.size() + it->second, 1L << 30);
                if (!Body(s, i, j) || s.terrain_[i][j] < Bottom(s, i, j) - 0.5 * cz) full = false;
            }
            if (!full || !any) break;
            cx.hit("rings_full");
        }
    }
    for (size_t b = 0; b < dst.size(); b++) f.add((int)(src.size() + b), T, dst[b].n);
    if (f.run(S, T) != in) {
        // name a receiver that cannot be explained
        std::string w;
        for (size_t b = 0; b < dst.size() && w.empty(); b++)
            for (int k : f.g[T]) if (f.e[k].to == (int)(src.size() + b) && f.e[k ^ 1].cap > 0) { w = Fmt("(%d,%d) received %ld cells", dst[b].i, dst[b].j, dst[b].n); break; }
        cx.fail("push-far", w + ", more than the columns it is the nearest room for were relieved of");
    }
}

// has soil leaving the column in direction d somewhere to go?
static bool CertainlyOpen(const SimOut& s, int i, int j, int low, const int d[2], double cz) {
    int nx = (int)s.terrain_.size(), ny = (int)s.terrain_[0].size();
    double lowtop = s.body_[low + 1][i][j], upper = s.body_[2 - low][i][j];
    for (int p = 1;; p++) {
        int a = i + p * d[0], b = j + p * d[1];
        if (a < 0 || b < 0 || a >= nx || b >= ny) return false;
        bool p0 = BodyAt(s, a, b, 0), p2 = BodyAt(s, a, b, 2);
        if (!p0 && !p2) return true;
        if (p0 != p2) {
            int l = p0 ? 0 : 2;
            return s.body_[l][a][b] > lowtop + 0.5 * cz || s.body_[l + 1][a][b] < upper - 0.5 * cz;
        }
        int lo = s.body_[0][a][b] < s.body_[2][a][b] ? 0 : 2;
        double top = s.body_[lo + 1][a][b];
        if (s.body_soil_[lo][a][b] != 0 || s.body_soil_[lo + 1][a][b] != 0) top = s.body_soil_[lo + 1][a][b];
        if (top < s.body_[2 - lo][a][b] - 0.5 * cz) return true;
        lowtop = s.body_[lo + 1][a][b]; upper = s.body_[2 - lo][a][b];
    }
}
typedef std::array<float, 3> A3;
static void JudgeLoad(const std::set<A3>& old, const World& w, double cz, bool gaveup, long lost, Ctx& cx) {
    const SimOut& s = w.out;
    int nx = w.nx(), ny = w.ny();
    std::vector<std::array<int, 3>> full;                    // columns filled up to their upper layer
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            if (!BodyAt(s, i, j, 0) || !BodyAt(s, i, j, 2)) continue;
            int lo = s.body_[0][i][j] < s.body_[2][i][j] ? 0 : 2;
            if (s.body_soil_[lo][i][j] == 0 && s.body_soil_[lo + 1][i][j] == 0) continue;
            if (s.body_soil_[lo + 1][i][j] > s.body_[2 - lo][i][j] - 0.5 * cz) full.push_back({i, j, lo});
        }
    if (gaveup || lost > 0) {
        cx.hit("soil_given_up");
        bool enclosed = false;
        for (auto& f : full) {
            bool open = false;
            for (auto& d : D8) open |= CertainlyOpen(s, f[0], f[1], f[2], d, cz);
            if (!open) { enclosed = true; break; }
        }
        if (!enclosed) cx.fail("push-giveup", Fmt("%ld cells of squeezed soil were removed although every filled column has a way out", lost));
    }
    std::set<std::pair<int, int>> reach;
    for (auto& f : full)
        for (auto& d : D8)
            for (int p = 1;; p++) {
                int i = f[0] + p * d[0], j = f[1] + p * d[1];
                if (i < 0 || j < 0 || i >= nx || j >= ny) break;
                reach.insert({i, j});
                if (!BodyAt(s, i, j, 0) || !BodyAt(s, i, j, 2)) break;
                int lo = s.body_[0][i][j] < s.body_[2][i][j] ? 0 : 2;
                double top = s.body_soil_[lo][i][j] != 0 || s.body_soil_[lo + 1][i][j] != 0 ? s.body_soil_[lo + 1][i][j] : s.body_[lo + 1][i][j];
                if (top < s.body_[2 - lo][i][j] - 0.5 * cz) break;
            }
    for (auto& b : s.body_soil_pos_) {
        if (b.h_soil < 0.5 * cz || old.count({b.x_b, b.y_b, b.z_b})) continue;
        cx.hit("squeezed_parcels");
        if (!reach.count({b.ii, b.jj})) cx.fail("push-squeezed", Fmt("squeezed soil landed on the machine at (%d,%d), out of reach of every filled column", b.ii, b.jj));
    }
}

// soil rains onto machine surfaces that have room above
static void Load(World& w, double cz, const Op& o, Ctx& cx) {
    Rng r((uint64_t)o.a[0]);
    int most = (int)o.a[1];
    SimOut& s = w.out;
    double q[4] = {w.body()->ori_[0], w.body()->ori_[1], w.body()->ori_[2], w.body()->ori_[3]};
    if (std::fabs(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] - 1) > 0.1) return;      // a tool not yet placed
    double inv[4] = {q[0], -q[1], -q[2], -q[3]};
    for (int i = 0; i < w.nx(); i++)
        for (int j = 0; j < w.ny(); j++)
            for (int l = 0; l < 4; l += 2) {
                if (!BodyAt(s, i, j, l) || !r.p(o.a[2])) continue;
                double top = s.body_[l + 1][i][j];
                bool soil = s.body_soil_[l][i][j] != 0 || s.body_soil_[l + 1][i][j] != 0;
                double from = soil ? s.body_soil_[l + 1][i][j] : top;
                long n = r.i(1, most);
                int u = 2 - l;
                if (BodyAt(s, i, j, u) && s.body_[u][i][j] > s.body_[l][i][j]) {
                    long room = std::lround((s.body_[u][i][j] - from) / cz);
                    n = o.a.size() > 3 && r.p(o.a[3]) ? room : std::min(n, room);
                }
                if (n <= 0) continue;
                if (!soil) { s.body_soil_[l][i][j] = s.body_[l + 1][i][j]; s.body_soil_[l + 1][i][j] = s.body_[l + 1][i][j]; }
                s.body_soil_[l + 1][i][j] = (float)(cz * std::round((from + n * cz) / cz));
                V3d v = Rotate(inv, V3d{(i - w.grid.half_length_x_) * (double)w.grid.cell_size_xy_ - w.body()->pos_[0],
                                        (j - w.grid.half_length_y_) * (double)w.grid.cell_size_xy_ - w.body()->pos_[1], top - w.body()->pos_[2]});
                soil_simulator::body_soil rec;
                rec.ind = l; rec.ii = i; rec.jj = j; rec.x_b = (float)v.x; rec.y_b = (float)v.y; rec.z_b = (float)v.z; rec.h_soil = (float)(n * cz);
                s.body_soil_pos_.push_back(rec);
                cx.hit("cells_loaded", n);
            }
}

// one column overfull between its two layers: exactly the outcomes that some
// order of the directions allows
namespace {
const int NONE = -(1 << 28);
typedef std::vector<int> St;
struct Ray { std::vector<int> c; };                          // column numbers outward
struct Squeezed {
    std::vector<std::pair<int, int>> at;                     // column 0 is the overfull one
    std::vector<std::array<int, 4>> b;
    Ray ray[8];
    int nrec, lo;
    int n() const { return (int)at.size(); }
    int flag() const { return n() * 5 + nrec; }
    bool has(int c, int l) const { return b[c][2 * l] != NONE; }
    static int top(const St& s, const std::vector<std::array<int, 4>>& b, int c, int l) { return s[c * 5 + 1 + l] != NONE ? s[c * 5 + 1 + l] : b[c][2 * l + 1]; }
    int walk(St& s, int d, int h) const {                    // returns what is left
        int floor = b[0][2 * lo + 1], wall = b[0][2 * (1 - lo)];
        for (int c : ray[d].c) {
            bool p = has(c, 0), q = has(c, 1);
            if (!p && !q) { s[c * 5] += h; return 0; }
            if (p != q) {
                int m = p ? 0 : 1;
                if (b[c][2 * m] > floor) { s[c * 5] += h; return 0; }
                if (b[c][2 * m + 1] >= wall) return h;
                s[c * 5 + 3 + m] += h;
                s[c * 5 + 1 + m] = top(s, b, c, m) + h;
                return 0;
            }
            int m = b[c][0] < b[c][2] ? 0 : 1, k = std::min(h, b[c][2 * (1 - m)] - top(s, b, c, m));
            if (k > 0) { s[c * 5 + 3 + m] += k; s[c * 5 + 1 + m] = top(s, b, c, m) + k; h -= k; }
            if (h == 0) return 0;
            floor = b[c][2 * m + 1]; wall = b[c][2 * (1 - m)];
        }
        return h;
    }
};
}  // namespace
static void SqueezeTrial(World& w, Rng& r, Ctx& cx) {
    SimOut& s = w.out;
    int nx = w.nx(), ny = w.ny();
    double cz = w.grid.cell_size_z_;
    float fz = w.grid.cell_size_z_;
    // records emptied by the last relaxation do not outlive the transport that precedes the squeezing
    auto& rec = s.body_soil_pos_;
    rec.erase(std::remove_if(rec.begin(), rec.end(), [&](const soil_simulator::body_soil& b) { return Cells(b.h_soil, cz) == 0; }), rec.end());
    if (r.p(0.6)) ExchangeLayers(w, r);
    std::vector<std::pair<int, int>> two;
    for (int i = 1; i < nx - 1; i++)
        for (int j = 1; j < ny - 1; j++) if (BodyAt(s, i, j, 0) && BodyAt(s, i, j, 2)) two.push_back({i, j});
    if (two.empty()) return;
    auto A = two[r.i(0, (int)two.size() - 1)];
    if (r.p(0.6)) {                                          // around it, too
        int e = r.i(1, 4), i0 = std::max(0, A.first - e), j0 = std::max(0, A.second - e);
        VaryMachine(w, r, i0, j0, std::min(nx - 1, A.first + e) - i0 + 1, std::min(ny - 1, A.second + e) - j0 + 1);
    }
    Squeezed m;
    auto add = [&](int i, int j) {
        m.at.push_back({i, j});
        std::array<int, 4> b;
        for (int l = 0; l < 4; l++) b[l] = BodyAt(s, i, j, l & 2) ? (int)Cells(s.body_[l][i][j], cz) : NONE;
        m.b.push_back(b);
        return (int)m.at.size() - 1;
    };
    add(A.first, A.second);
    m.lo = m.b[0][0] < m.b[0][2] ? 0 : 1;
    double full = r.p(0.3) ? 1 : r.u(), rain = r.p(0.3) ? 1 : r.u();
    for (int d = 0; d < 8; d++)
        for (int k = 1;; k++) {
            int i = A.first + k * D8[d][0], j = A.second + k * D8[d][1];
            if (i < 0 || j < 0 || i >= nx || j >= ny) return;
            m.ray[d].c.push_back(add(i, j));
            bool p = BodyAt(s, i, j, 0), q = BodyAt(s, i, j, 2);
            if (!p && !q) break;
            for (int l = 0; l < 4; l += 2)
                if (BodyAt(s, i, j, l) && r.p(rain)) {
                    long room = BodyAt(s, i, j, 2 - l) && s.body_[2 - l][i][j] > s.body_[l][i][j] ? Cells(s.body_[2 - l][i][j] - s.body_[l + 1][i][j], cz) : 0;
                    AddSoil(w, i, j, l, room > 0 && r.p(full) ? room : room > 4 && r.p(0.4) ? room - r.i(1, 4) : r.i(1, 6));
                }
        }
    // overfull
    int l = 2 * m.lo, u = 2 - l;
    DropSoil(w, A.first, A.second);
    long room = m.b[0][u] - m.b[0][l + 1], extra = r.i(1, r.p(0.5) ? 6 : 40), sum = 0;
    int parts = r.i(1, 3);
    for (int k = 0; k < parts; k++) {
        long want = k + 1 == parts ? room + extra - sum : r.i(0, (int)(room + extra - sum));
        if (want <= 0) continue;
        auto& v = s.body_soil_pos_;
        size_t n = v.size();
        float t = s.body_[u][A.first][A.second];
        s.body_[u][A.first][A.second] = 1e9f;                // lets the soil reach into the upper layer
        AddSoil(w, A.first, A.second, l, want);
        s.body_[u][A.first][A.second] = t;
        if (v.size() > n) sum += want;
    }
    for (int k = (int)s.body_soil_pos_.size() - 1; k > 0; k--) std::swap(s.body_soil_pos_[k], s.body_soil_pos_[r.i(0, k)]);
    // the model's view
    std::vector<int> mine;
    for (size_t k = 0; k < s.body_soil_pos_.size(); k++) {
        auto& b = s.body_soil_pos_[k];
        if (b.ii == A.first && b.jj == A.second && b.ind == l) mine.push_back((int)k);
    }
    m.nrec = (int)mine.size();
    St st(m.flag() + 1, 0);
    auto see = [&](const SimOut& o, St& v) {
        for (int c = 0; c < m.n(); c++) {
            int i = m.at[c].first, j = m.at[c].second;
            v[c * 5] = (int)Cells(o.terrain_[i][j], cz);
            for (int e = 0; e < 2; e++) {
                bool soil = o.body_soil_[2 * e][i][j] != 0 || o.body_soil_[2 * e + 1][i][j] != 0;
                v[c * 5 + 1 + e] = soil ? (int)Cells(o.body_soil_[2 * e + 1][i][j], cz) : NONE;
            }
        }
        for (int k = 0; k < m.nrec; k++) v[m.n() * 5 + k] = (int)Cells(o.body_soil_pos_[mine[k]].h_soil, cz);
    };
    see(s, st);
    std::set<St> all{st};
    long given = 0;
    for (int k = 0; k < m.nrec; k++) {
        std::set<St> to;
        std::set<std::pair<St, int>> seen;
        std::function<void(const St&, int, int)> go = [&](const St& x, int mask, int h) {
            St key = x; key.push_back(h);
            if (!seen.insert({key, mask}).second) return;
            if (h == 0) { to.insert(x); return; }
            if (mask == 255) { St y = x; y[m.flag()]++; to.insert(y); return; }
            for (int d = 0; d < 8; d++)
                if (!(mask >> d & 1)) { St y = x; int e = m.walk(y, d, h); go(y, mask | 1 << d, e); }
        };
        for (auto& x : all) {
            int over = x[1 + m.lo] - m.b[0][u], h = std::min(over, x[m.n() * 5 + k]);
            if (over <= 0) { to.insert(x); continue; }
            St y = x;
            y[1 + m.lo] -= h; y[m.n() * 5 + k] -= h;
            go(y, 0, h);
        }
        all = to;
        if (all.size() > 800) { cx.hit("too_many_outcomes"); return; }
    }
    SimOut was = s;
    auto warn = w.Squeeze();
    for (auto& x : warn) if (x.find("removed") != std::string::npos) given++;
    cx.hit("squeezes");
    std::vector<char> in((size_t)nx * ny);
    for (auto& c : m.at) in[(size_t)c.first * ny + c.second] = 1;
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            bool diff = !in[(size_t)i * ny + j] && std::memcmp(&s.terrain_[i][j], &was.terrain_[i][j], sizeof(float));
            for (int e = 0; e < 4; e++) {
                diff |= std::memcmp(&s.body_[e][i][j], &was.body_[e][i][j], sizeof(float)) != 0;
                diff |= !in[(size_t)i * ny + j] && std::memcmp(&s.body_soil_[e][i][j], &was.body_soil_[e][i][j], sizeof(float));
            }
            if (diff) cx.fail("squeeze-elsewhere", Fmt("squeezed soil of (%d,%d) changed (%d,%d)", A.first, A.second, i, j));
        }
    if (s.body_soil_pos_.size() < was.body_soil_pos_.size()) cx.fail("squeeze-records", "records of carried soil disappeared");
    St end(st.size(), 0);
    see(s, end);
    if (end[1 + m.lo] == m.b[0][l + 1]) end[1 + m.lo] = NONE;
    for (auto x = all.begin(); x != all.end();) {            // the same for the model
        St y = *x;
        if (y[1 + m.lo] != m.b[0][l + 1]) { ++x; continue; }
        y[1 + m.lo] = NONE;
        x = all.erase(x);
        all.insert(y);
    }
    end[m.flag()] = (int)given;
    for (size_t n = 0; n < s.body_soil_pos_.size(); n++) {
        auto& b = s.body_soil_pos_[n];
        if (n < was.body_soil_pos_.size()) {
            auto& o = was.body_soil_pos_[n];
            bool own = std::find(mine.begin(), mine.end(), (int)n) != mine.end();
            if (b.ind != o.ind || b.ii != o.ii || b.jj != o.jj || b.x_b != o.x_b || b.y_b != o.y_b || b.z_b != o.z_b || (!own && b.h_soil != o.h_soil))
                cx.fail("squeeze-records", Fmt("record %zu was changed by soil squeezed elsewhere", n));
            continue;
        }
        if (Cells(b.h_soil, cz) == 0) continue;
        int c = -1;
        for (int k = 0; k < m.n(); k++) if (m.at[k] == std::make_pair(b.ii, b.jj)) c = k;
        if (c < 0 || (b.ind != 0 && b.ind != 2)) cx.fail("squeeze-records", Fmt("a new record of carried soil at (%d,%d) layer %d", b.ii, b.jj, b.ind));
        end[c * 5 + 3 + b.ind / 2] += (int)Cells(b.h_soil, cz);
        auto* q = w.body();
        double ori[4] = {q->ori_[0], q->ori_[1], q->ori_[2], q->ori_[3]};
        V3d v = Rotate(ori, V3d{b.x_b, b.y_b, b.z_b});
        double cxy = w.grid.cell_size_xy_;
        double ex = (v.x + q->pos_[0]) / cxy - (b.ii - w.grid.half_length_x_), ey = (v.y + q->pos_[1]) / cxy - (b.jj - w.grid.half_length_y_);
        double ez = (v.z + q->pos_[2] - s.body_[b.ind + 1][b.ii][b.jj]) / cz;
        if (std::fabs(ex) > 0.02 || std::fabs(ey) > 0.02 || std::fabs(ez) > 0.05)
            cx.fail("squeeze-anchor", Fmt("soil squeezed onto the machine at (%d,%d) is attached %.3g, %.3g, %.3g cells from there", b.ii, b.jj, ex, ey, ez));
        cx.hit("squeezed_onto_machine");
    }
    for (int x : end) cx.log.w((uint64_t)x);
    cx.states.push_back(cx.log.h);
    if (given) cx.hit("squeezes_given_up");
    if (all.count(end)) return;
    const St* best = nullptr; int bd = 1 << 30;
    for (auto& x : all) { int d = 0; for (size_t k = 0; k < x.size(); k++) d += x[k] != end[k]; if (d < bd) { bd = d; best = &x; } }
    std::string t;
    auto show = [](int x) { return x == NONE ? std::string("none") : std::to_string(x); };
    for (size_t k = 0; best && k < end.size() && t.size() < 300; k++) {
        if ((*best)[k] == end[k]) continue;
        static const char* nm[5] = {"ground", "soil on layer 1", "soil on layer 2", "arrived on layer 1", "arrived on layer 2"};
        if ((int)k < m.n() * 5) t += Fmt(" %s at (%d,%d) is %s, was %s, should be %s;", nm[k % 5], m.at[k / 5].first, m.at[k / 5].second, show(end[k]).c_str(), show(st[k]).c_str(), show((*best)[k]).c_str());
        else if ((int)k < m.flag()) t += Fmt(" record %d holds %d, should hold %d;", mine[k - m.n() * 5], end[k], (*best)[k]);
        else t += Fmt(" given up %d times, should be %d;", end[k], (*best)[k]);
    }
    cx.fail("squeeze-way", Fmt("soil squeezed out of (%d,%d) went a way that no order of directions explains:%s", A.first, A.second, t.c_str()));
}

static void ExecFair(const Plan& p, Ctx& cx) {
    if (p.ops.empty()) return;
    World w(p);
    double cz = w.grid.cell_size_z_;
    Pose ps = PoseOf(p.ops[0]);
    double top = -1e30, pos[3] = {ps.p[0], ps.p[1], ps.p[2]}, q[4] = {ps.q[0], ps.q[1], ps.q[2], ps.q[3]};
    for (auto& c : Corners(w, pos, q)) top = std::max(top, c.z);
    float level = (float)(cz * std::round((top + 4 * w.grid.cell_size_xy_) / cz));
    for (auto& c : w.out.terrain_) std::fill(c.begin(), c.end(), level);
    SimParam none = w.sp;
    none.max_iterations_ = 0;
    Checkpoint start(w);
    int nx = w.nx(), ny = w.ny(), N = (int)p.g("draws");
    Rng r((uint64_t)p.g("dseed"));
    std::vector<double> sum((size_t)nx * ny), mean(sum), var(sum);
    for (int k = 0; k < N; k++) {
        start.Restore(&w);
        w.rng.seed((uint32_t)r.next());
        cx.op = 0;
        w.Step(ps, &none);
        cx.hit("steps");
        if (k == 0) {
            for (int i = 0; i < nx; i++)
                for (int j = 0; j < ny; j++) {
                    if (!Body(w.out, i, j)) continue;
                    double a = std::round((level - Bottom(w.out, i, j)) / cz);
                    if (a <= 0) return;
                    std::vector<std::pair<int, int>> d;
                    for (int pp = 1; pp < nx + ny && d.empty(); pp++)
                        for (auto& e : D8) {
                            int x = i + pp * e[0], y = j + pp * e[1];
                            if (x < 0 || y < 0 || x >= nx || y >= ny) continue;
                            if (!Body(w.out, x, y)) d.push_back({x, y});
                        }
                    for (auto& e : d) {
                        double f = 1.0 / d.size();
                        mean[(size_t)e.first * ny + e.second] += a * f;
                        var[(size_t)e.first * ny + e.second] += a * a * f * (1 - f);
                    }
                }
        }
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++)
                if (!Body(w.out, i, j)) sum[(size_t)i * ny + j] += std::round((w.out.terrain_[i][j] - level) / cz);
        cx.log.w(w.StateHash());
    }
    long cols = 0;
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            size_t x = (size_t)i * ny + j;
            double sd = std::sqrt(N * var[x]);
            if (mean[x] > 0) cols++;
            if (std::fabs(sum[x] - N * mean[x]) > 7.5 * sd + 0.5)
                cx.fail("push-unfair", Fmt("(%d,%d) received %.2f cells on average over %d draws, an even choice among the nearest columns gives %.2f (%.1f standard deviations)", i, j, sum[x] / N, N, mean[x], std::fabs(sum[x] - N * mean[x]) / std::max(sd, 1e-9)));
        }
    cx.hit("fair_columns", cols);
    cx.nontrivial = cols >= 8;
}

static void ExecPush(const Plan& p, Ctx& cx) {
    if (p.g("fair") != 0) { ExecFair(p, cx); return; }
    Mission ms(p, cx);
    double cz = ms.cz;
    long judged = 0;
    for (size_t k = 0; k < p.ops.size(); k++) {
        cx.op = (int)k;
        auto& o = p.ops[k];
        if (o.k == "load") { Load(ms.w, cz, o, cx); continue; }
        if (o.k == "squeeze") {
            if (ms.updates == 0 || !Placed(ms.w)) continue;
            Checkpoint start(ms.w);
            Rng r((uint64_t)o.a[0]);
            for (int n = (int)o.a[1]; n > 0; n--) {
                Rng q(r.next());
                SqueezeTrial(ms.w, q, cx);
                auto g = ms.w.rng;
                start.Restore(&ms.w);
                ms.w.rng = g;
            }
            start.Restore(&ms.w);
            continue;
        }
        if (ms.Env(o)) continue;
        if (o.k != "step") continue;
        Pose ps = PoseOf(o);
        SimParam none = ms.sp;
        none.max_iterations_ = 0;
        Checkpoint before(ms.w);
        std::set<A3> old;
        for (auto& b : ms.w.out.body_soil_pos_) old.insert({b.x_b, b.y_b, b.z_b});
        if (!old.empty()) {
            long m0 = MeasureMass(ms.w.out, cz).cells;
            auto r = ms.w.Step(ps, &none);
            if (r.updated) JudgeLoad(old, ms.w, cz, Announced(r, "removed"), m0 - MeasureMass(ms.w.out, cz).cells, cx);
            before.Restore(&ms.w);
        }
        // the ground alone
        ms.w.out.body_soil_pos_.clear();
        for (auto& l : ms.w.out.body_soil_) for (auto& c : l) std::fill(c.begin(), c.end(), 0.f);
        auto t0 = ms.w.out.terrain_;
        auto r = ms.w.Step(ps, &none);
        if (r.updated) {
            JudgeGround(t0, ms.w.out, cz, cx);
            judged++;
        }
        before.Restore(&ms.w);
        ms.Step(o);
        CountShape(ms.w.out, 1e-5, cx);
    }
    cx.nontrivial = judged >= 3 && cx.n["ground_columns_displaced"] >= 10;
}

const std::vector<Prop>& PushProps() {
    static std::vector<Prop> v = {
        {"C22", GenPush, ExecPush, "One case = one seeded mission with pose losses, jumps, big strides, poured soil and soil rained onto the machine; at every step the displacement is observed in a twin step that grants no relaxation, once without and once with the carried load; or (one case in eight) a machine appearing in the ground, repeated with 80 to 160 seeds of the random source. Non-trivial: at least 10 ground columns displaced over at least 3 steps, or at least 8 receiving columns compared with an even choice."},
    };
    return v;
}
