#include "model.hpp"
#include <algorithm>

V3d Rotate(const double q[4], V3d v) {
    double n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
    // matrix of conj(q) v q / |q|^2
    double w = q[0], x = -q[1], y = -q[2], z = -q[3];
    double a00 = w * w + x * x - y * y - z * z, a01 = 2 * (x * y - w * z), a02 = 2 * (x * z + w * y);
    double a10 = 2 * (x * y + w * z), a11 = w * w - x * x + y * y - z * z, a12 = 2 * (y * z - w * x);
    double a20 = 2 * (x * z - w * y), a21 = 2 * (y * z + w * x), a22 = w * w - x * x - y * y + z * z;
    return {(a00 * v.x + a01 * v.y + a02 * v.z) / n, (a10 * v.x + a11 * v.y + a12 * v.z) / n,
            (a20 * v.x + a21 * v.y + a22 * v.z) / n};
}
void EulerToQuat(double yaw, double pitch, double roll, double q[4]) {
    double s0 = std::sin(yaw / 2), s1 = std::sin(pitch / 2), s2 = std::sin(roll / 2);
    double c0 = std::cos(yaw / 2), c1 = std::cos(pitch / 2), c2 = std::cos(roll / 2);
    q[0] = c0 * c1 * c2 + s0 * s1 * s2;
    q[1] = c0 * c1 * s2 - s0 * s1 * c2;
    q[2] = c0 * s1 * c2 + s0 * c1 * s2;
    q[3] = s0 * c1 * c2 - c0 * s1 * s2;
    if (q[0] < 0) for (int i = 0; i < 4; i++) q[i] = -q[i];
}
std::array<V3d, 6> Corners(const World& w, const double pos[3], const double q[4]) {
    V3d o{pos[0], pos[1], pos[2]};
    auto get = [&](const double* v) { return Rotate(q, V3d{v[0], v[1], v[2]}); };
    V3d j = get(w.made[0]), bb = get(w.made[1]), t = get(w.made[2]);
    V3d n = Cross(bb - j, t - j);
    double l = Norm(n);
    V3d h = (0.5 * w.made_width / l) * n;
    return {o + j + h, o + j - h, o + bb + h, o + bb - h, o + t + h, o + t - h};
}

bool BodyAt(const SimOut& o, int i, int j, int l) {
    return o.body_[l][i][j] != 0.0f || o.body_[l + 1][i][j] != 0.0f;
}
static bool SoilAt(const SimOut& o, int i, int j, int l) {
    return o.body_soil_[l][i][j] != 0.0f || o.body_soil_[l + 1][i][j] != 0.0f;
}

Mass MeasureMass(const SimOut& o, double cz) {
    Mass m;
    for (size_t i = 0; i < o.terrain_.size(); i++)
        for (size_t j = 0; j < o.terrain_[0].size(); j++) {
            m.raw += o.terrain_[i][j];
            m.terrain += std::lround(o.terrain_[i][j] / cz);
            for (int l = 0; l < 4; l += 2) {
                double h = (double)o.body_soil_[l + 1][i][j] - o.body_soil_[l][i][j];
                m.raw += h;
                m.carried += std::lround(h / cz);
            }
        }
    m.cells = m.terrain + m.carried;
    return m;
}

std::string OracleLedger(const SimOut& o, double cz) {
    int nx = (int)o.terrain_.size(), ny = (int)o.terrain_[0].size();
    std::map<std::array<int, 3>, double> sum;
    for (size_t n = 0; n < o.body_soil_pos_.size(); n++) {
        auto& r = o.body_soil_pos_[n];
        if ((r.ind != 0 && r.ind != 2) || r.ii < 0 || r.jj < 0 || r.ii >= nx || r.jj >= ny)
            return Fmt("ledger-index|record %zu points at layer %d cell (%d,%d)", n, r.ind, r.ii, r.jj);
        if (!std::isfinite(r.h_soil) || r.h_soil < -0.05 * cz)
            return Fmt("ledger-negative|record %zu at (%d,%d) holds %g", n, r.ii, r.jj, r.h_soil);
        if (!std::isfinite(r.x_b) || !std::isfinite(r.y_b) || !std::isfinite(r.z_b))
            return Fmt("ledger-anchor|record %zu has a non-finite anchor", n);
        sum[{r.ind, r.ii, r.jj}] += r.h_soil;
    }
    for (int l = 0; l < 4; l += 2)
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                double h = (double)o.body_soil_[l + 1][i][j] - o.body_soil_[l][i][j];
                auto it = sum.find({l, i, j});
                double s = it == sum.end() ? 0 : it->second;
                if (std::fabs(h - s) > 0.1 * cz)
                    return Fmt("ledger-mismatch|layer %d cell (%d,%d): column holds %.6g, records sum to %.6g (cell height %g)",
                               l, i, j, h, s, cz);
            }
    return "";
}

// docs/utils.rst + comments of the audit: the eight conventions, evaluated on
// the whole grid and with a small absolute slack
std::string OracleConventions(const SimOut& o, double tol) {
    int nx = (int)o.terrain_.size(), ny = (int)o.terrain_[0].size();
    double e = tol * 2;
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            double t = o.terrain_[i][j];
            if (!std::isfinite(t)) return Fmt("conv-nonfinite|terrain (%d,%d) is not finite", i, j);
            bool p[2], s[2];
            double b0[2], b1[2], s0[2], s1[2];
            for (int l = 0; l < 2; l++) {
                p[l] = BodyAt(o, i, j, 2 * l); s[l] = SoilAt(o, i, j, 2 * l);
                b0[l] = o.body_[2 * l][i][j]; b1[l] = o.body_[2 * l + 1][i][j];
                s0[l] = o.body_soil_[2 * l][i][j]; s1[l] = o.body_soil_[2 * l + 1][i][j];
            }
            for (int l = 0; l < 2; l++) {
                int m = 1 - l;
                if (p[l] && t > b0[l] + e) return Fmt("conv-terrain-in-body|(%d,%d): terrain %.6g above body layer %d bottom %.6g", i, j, t, l, b0[l]);
                if (p[l] && b0[l] > b1[l] + e) return Fmt("conv-body-inverted|(%d,%d): body layer %d from %.6g to %.6g", i, j, l, b0[l], b1[l]);
                if (s[l] && s0[l] > s1[l] + e) return Fmt("conv-soil-inverted|(%d,%d): soil layer %d from %.6g to %.6g", i, j, l, s0[l], s1[l]);
                if (s[l] && s1[l] - s0[l] < 0.5 * tol) return Fmt("conv-soil-empty|(%d,%d): soil layer %d without soil: from %.6g to %.6g", i, j, l, s0[l], s1[l]);
                if (s[l] && !p[l]) return Fmt("conv-soil-without-body|(%d,%d): soil layer %d without its body layer", i, j, l);
                if (s[l] && p[l] && std::fabs(s0[l] - b1[l]) > e) return Fmt("conv-soil-floating|(%d,%d): soil layer %d starts at %.6g, body top %.6g", i, j, l, s0[l], b1[l]);
                if (p[m] && s[l] && b1[m] - e > s0[l] && s1[l] - e > b0[m])
                    return Fmt("conv-soil-in-body|(%d,%d): soil layer %d [%.6g,%.6g] crosses body layer %d [%.6g,%.6g]", i, j, l, s0[l], s1[l], m, b0[m], b1[m]);
            }
            if (p[0] && p[1] && b1[0] + e > b0[1] && b1[1] + e > b0[0])
                return Fmt("conv-body-layers-touch|(%d,%d): [%.6g,%.6g] and [%.6g,%.6g]", i, j, b0[0], b1[0], b0[1], b1[1]);
        }
    return "";
}

std::string OracleGrid(const SimOut& o, double cz) {
    int nx = (int)o.terrain_.size(), ny = (int)o.terrain_[0].size();
    auto off = [&](double h) { double k = h / cz; return std::fabs(k - std::round(k)); };
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            if (off(o.terrain_[i][j]) > 0.003)
                return Fmt("grid-terrain|terrain (%d,%d) = %.7g is %.3f cells off the height grid", i, j, o.terrain_[i][j], off(o.terrain_[i][j]));
            for (int l = 0; l < 4; l++) {
                if (off(o.body_soil_[l][i][j]) > 0.003)
                    return Fmt("grid-soil|soil bound %d at (%d,%d) = %.7g is %.3f cells off the height grid", l, i, j, o.body_soil_[l][i][j], off(o.body_soil_[l][i][j]));
                if (off(o.body_[l][i][j]) > 0.003)
                    return Fmt("grid-body|body bound %d at (%d,%d) = %.7g is %.3f cells off the height grid", l, i, j, o.body_[l][i][j], off(o.body_[l][i][j]));
            }
        }
    for (auto& r : o.body_soil_pos_)
        if (off(r.h_soil) > 0.003)
            return Fmt("grid-record|record at (%d,%d) holds %.7g, %.3f cells off", r.ii, r.jj, r.h_soil, off(r.h_soil));
    return "";
}

int DhCells(const Grid& g, double repose) {
    return (int)std::lround(g.cell_size_xy_ * std::tan(repose) / g.cell_size_z_);
}

bool TerrainPairUnstable(const SimOut& o, int i, int j, int c, int d, double dh, double tol) {
    double hmin = o.terrain_[i][j] - dh;
    if (o.terrain_[c][d] + tol >= hmin) return false;
    bool p0 = BodyAt(o, c, d, 0), p1 = BodyAt(o, c, d, 2);
    if (!p0 && !p1) return true;
    int lo = !p0 ? 2 : !p1 ? 0 : (o.body_[0][c][d] < o.body_[2][c][d] ? 0 : 2);
    int hi = 2 - lo;
    if (o.terrain_[c][d] + tol < o.body_[lo][c][d]) return true;       // room under the body
    double top = SoilAt(o, c, d, lo) ? o.body_soil_[lo + 1][c][d] : o.body_[lo + 1][c][d];
    if (p0 && p1 && SoilAt(o, c, d, lo) && o.body_soil_[lo + 1][c][d] + tol > o.body_[hi][c][d])
        top = SoilAt(o, c, d, hi) ? o.body_soil_[hi + 1][c][d] : o.body_[hi + 1][c][d];
    return top + tol < hmin;
}
long UnstableTerrain(const SimOut& o, double dh, double tol, int* ai, int* aj) {
    int nx = (int)o.terrain_.size(), ny = (int)o.terrain_[0].size();
    static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    long n = 0;
    for (int i = 1; i < nx - 1; i++)
        for (int j = 1; j < ny - 1; j++)
            for (auto& d : D)
                if (TerrainPairUnstable(o, i, j, i + d[0], j + d[1], dh, tol)) {
                    if (n++ == 0) { *ai = i; *aj = j; }
                    break;
                }
    return n;
}

// carried soil: a parcel is unstable when one of the four adjacent columns
// offers a surface lower than the repose slope allows (docs/relax.rst)
static bool CarriedPairUnstable(const SimOut& o, int l, int i, int j, int c, int d, double dh, double tol) {
    double hmin = o.body_soil_[l + 1][i][j] - dh;
    double src = o.body_[l + 1][i][j];
    bool p0 = BodyAt(o, c, d, 0), p1 = BodyAt(o, c, d, 2);
    double top;
    if (!p0 && !p1) top = o.terrain_[c][d];
    else if (p0 != p1) {
        int k = p0 ? 0 : 2;
        if (src + tol < o.body_[k][c][d]) top = o.terrain_[c][d];
        else top = SoilAt(o, c, d, k) ? o.body_soil_[k + 1][c][d] : o.body_[k + 1][c][d];
    } else {
        int lo = o.body_[0][c][d] < o.body_[2][c][d] ? 0 : 2, hi = 2 - lo;
        top = SoilAt(o, c, d, hi) ? o.body_soil_[hi + 1][c][d] : o.body_[hi + 1][c][d];
        if (src + tol < o.body_[hi][c][d]) {
            if (!SoilAt(o, c, d, lo)) top = o.body_[lo + 1][c][d];
            else if (o.body_soil_[lo + 1][c][d] + tol < o.body_[hi][c][d]) top = o.body_soil_[lo + 1][c][d];
        }
    }
    return top + tol < hmin;
}
long UnstableCarried(const SimOut& o, double dh, double tol, std::string* why) {
    static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    long n = 0;
    for (auto& r : o.body_soil_pos_) {
        if (r.h_soil < tol * 2) continue;
        if (r.ii < 1 || r.jj < 1 || r.ii + 1 >= (int)o.terrain_.size() || r.jj + 1 >= (int)o.terrain_[0].size()) continue;
        for (auto& d : D)
            if (CarriedPairUnstable(o, r.ind, r.ii, r.jj, r.ii + d[0], r.jj + d[1], dh, tol)) {
                if (n++ == 0) *why = Fmt("parcel on layer %d at (%d,%d) towards (%d,%d)", r.ind, r.ii, r.jj, r.ii + d[0], r.jj + d[1]);
                break;
            }
    }
    return n;
}
double Energy(const SimOut& o, double cz) {
    double e = 0;
    for (size_t i = 0; i < o.terrain_.size(); i++)
        for (size_t j = 0; j < o.terrain_[0].size(); j++) {
            double t = std::round(o.terrain_[i][j] / cz);
            e += t * t;
            for (int l = 0; l < 4; l += 2) {
                double a = std::round(o.body_soil_[l][i][j] / cz), b = std::round(o.body_soil_[l + 1][i][j] / cz);
                e += b * b - a * a;
            }
        }
    return e / 2;
}
// the harness' own settling, used only to build stable starting terrains
void SettleTerrain(SimOut* o, double cz, int dh) {
    int nx = (int)o->terrain_.size(), ny = (int)o->terrain_[0].size();
    std::vector<std::vector<int>> h(nx, std::vector<int>(ny));
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) h[i][j] = (int)std::lround(o->terrain_[i][j] / cz);
    static const int D[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
    for (int pass = 0; pass < 20000; pass++) {
        bool moved = false;
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++)
                for (auto& d : D) {
                    int c = i + d[0], e = j + d[1];
                    if (c < 0 || e < 0 || c >= nx || e >= ny) continue;
                    int ex = h[i][j] - h[c][e] - dh;
                    if (ex > 0) { int k = (ex + 1) / 2; h[i][j] -= k; h[c][e] += k; moved = true; }
                }
        if (!moved) break;
    }
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) o->terrain_[i][j] = (float)((float)cz * (float)h[i][j]);
}
