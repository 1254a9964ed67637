// Shared pieces of the per-property executors.
#pragma once
#include <functional>
#include "props.hpp"

inline bool Announced(const StepResult& r, const char* needle) {
    for (auto& s : r.warn) if (s.find(needle) != std::string::npos) return true;
    return false;
}
inline void Raise(Ctx& cx, const std::string& v) {     // "class|message"
    if (v.empty()) return;
    auto k = v.find('|');
    cx.fail(v.substr(0, k), v.substr(k + 1));
}

// A running mission: one world, driven op by op.
struct Mission {
    const Plan& plan;
    Ctx& cx;
    World w;
    SimParam sp;
    double cz;
    long poured = 0;
    long updates = 0, lost_steps = 0;
    double t = 0;
    Mission(const Plan& p, Ctx& c);
    // environment-side ops; true when o was one of them
    bool Env(const Op& o);
    StepResult Step(const Op& o);                       // counts coverage
    StepResult StepPose(const Pose& p, const SimParam& s);
};
struct Footprint {                                       // body presence mask
    int nx, ny;
    std::vector<char> m;
    explicit Footprint(const SimOut& o);
    bool at(int i, int j) const { return m[(size_t)i * ny + j]; }
};
void CountShape(const SimOut& o, double tol, Ctx& cx);   // rare-condition probes

// varying a state in mid-mission
const int NOWHERE = 1 << 28;
inline long Cells(double v, double cz) { return std::lround(v / cz); }
void AddSoil(World& w, int i, int j, int l, long n);     // up to the layer above
void DropSoil(World& w, int i, int j);
int LowBottom(const SimOut& s, int i, int j, double cz); // of the machine, NOWHERE without one
void ExchangeLayers(World& w, Rng& r);                   // which layer is called the first one must not matter
void VaryMachine(World& w, Rng& r, int i0, int j0, int ni, int nj);   // other surfaces: second layers, steps
bool Placed(const World& w);                             // the tool has been given a pose
