#pragma once
#include "model.hpp"
struct Motion {             // how missions are generated
    double mv_lo = 0.3, mv_hi = 1.0;   // displacement per pose, in min cells
    double drop = 0, dup = 0, reorder = 0, stall = 0, jump = 0;  // link faults
    int margin = 5;          // cells kept between body and grid edge
    int steps = 120;
    bool yaw = true, roll = true;
    bool pour = false;
};
void GenConfig(Rng& r, Plan* p, const Motion& m);
void GenMission(Rng& r, Plan* p, const Motion& m);
Op StepOp(const double pos[3], const double q[4], const std::string& note = "");
Pose PoseOf(const Op& o);
bool PoseInside(const World& w, const Pose& p, int margin);
void AddTools(Rng& r, Plan* p, double rate);
void AddParams(Rng& r, Plan* p, double rate);
