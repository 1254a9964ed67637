// Independent reference computations (no code shared with the library).
#pragma once
#include <array>
#include "world.hpp"

struct V3d { double x, y, z; };
inline V3d operator+(V3d a, V3d b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3d operator-(V3d a, V3d b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3d operator*(double k, V3d a) { return {k * a.x, k * a.y, k * a.z}; }
inline double Dot(V3d a, V3d b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3d Cross(V3d a, V3d b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double Norm(V3d a) { return std::sqrt(Dot(a, a)); }

// rotation used by the library: conj(q)/|q|^2 * v * q, i.e. the inverse of the
// usual active rotation by q
V3d Rotate(const double q[4], V3d v);
void EulerToQuat(double yaw, double pitch, double roll, double q[4]);
// the six corners J_r J_l B_r B_l T_r T_l of the body for a pose
std::array<V3d, 6> Corners(const World& w, const double pos[3], const double q[4]);

struct Mass { long cells = 0, terrain = 0, carried = 0; double raw = 0; };
Mass MeasureMass(const SimOut& o, double cz);

// each returns "" when the state is fine, otherwise "class|message"
std::string OracleLedger(const SimOut& o, double cz);
std::string OracleConventions(const SimOut& o, double tol);
std::string OracleGrid(const SimOut& o, double cz);

// stability reference (docs/relax.rst)
int DhCells(const Grid& g, double repose);
bool TerrainPairUnstable(const SimOut& o, int i, int j, int ic, int jc, double dh, double tol);
// number of unstable terrain columns in the interior; first one in *at
long UnstableTerrain(const SimOut& o, double dh, double tol, int* ai, int* aj);
long UnstableCarried(const SimOut& o, double dh, double tol, std::string* why);

bool BodyAt(const SimOut& o, int i, int j, int layer);   // layer 0 or 2

double Energy(const SimOut& o, double cz);               // potential energy, in cell units
void SettleTerrain(SimOut* o, double cz, int dh_cells);  // harness-side, for starting states
