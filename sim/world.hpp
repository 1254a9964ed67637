// The simulated environment: allocator, logger, clocks, disk, and the World
// (one simulation instance of the system under test).
#pragma once
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "soil_simulator/body_pos.hpp"
#include "soil_simulator/body_soil.hpp"
#include "soil_simulator/intersecting_cells.hpp"
#include "soil_simulator/relax.hpp"
#include "soil_simulator/soil_dynamics.hpp"
#include "soil_simulator/types.hpp"
#include "soil_simulator/utils.hpp"

// ---------------------------------------------------------------- allocator
namespace env {

struct AllocCtl {
    bool in_sut = false;        // inside a call into the system under test
    int guard = 0;              // >0: inside logging, faults are off
    long count = 0;             // allocations since BeginSut
    long fail_at = -1;          // 0-based index of the allocation that throws
    long fail_len = 1;          // how many consecutive allocations throw
    long fired = 0;             // faults that actually fired
    long limit = -1;            // hang detector: allocations per call
    unsigned char poison = 0xA5;
    long live = 0;              // live allocations made while in_sut
};
extern AllocCtl alloc;

// RAII window around every call into the system under test.
struct Sut {
    Sut() { alloc.in_sut = true; alloc.count = 0; }
    ~Sut() { alloc.in_sut = false; }
};
// Harness code that must run inside the window without being counted.
struct Pause {
    bool was;
    Pause() : was(alloc.in_sut) { alloc.in_sut = false; }
    ~Pause() { alloc.in_sut = was; }
};

void StackPollute(unsigned char b);   // dirty ~256 kB of stack below the caller
void HeapShuffle(uint64_t seed);      // perturb the addresses malloc returns
void HeapShuffleDrop();

// ---------------------------------------------------------------- clock / OS
struct ClockCtl {
    uint64_t now_ns = 1700000000ull * 1000000000ull;
    uint64_t step_ns = 1000;      // advance per reading
    uint64_t device = 88172645463325252ull;   // random_device / rand stream
    long reads = 0;
};
extern ClockCtl clk;
double WallNow();                 // real time, for budgets only

// ---------------------------------------------------------------- log
void LogInit(const char* argv0);
std::vector<std::string>& Warnings();     // messages of severity >= WARNING
void ClearWarnings();
int CountWarnings(const char* needle);

// ---------------------------------------------------------------- disk
// Real files in a scratch directory below the current directory; the seam
// decides which operations fail.  Operations are numbered within one window.
enum DiskKind { D_OPEN_R, D_OPEN_W, D_WRITE, D_CLOSE, D_META, D_KINDS };
struct DiskCtl {
    bool on = false;              // counting / faulting window
    long ops[D_KINDS] = {0};      // seen in this window
    long total = 0;
    // fault plan
    int fault = 0;                // see DiskFault
    long at = -1;                 // index of the operation hit (within class)
    long len = 1;                 // how many consecutive operations are hit
    int err = 0;
    long fired = 0;
    int fired_kind[D_KINDS] = {0};
};
enum DiskFault {
    DF_NONE, DF_OPENW_FAIL, DF_OPENR_FAIL, DF_WRITE_ERR, DF_WRITE_SHORT,
    DF_WRITE_EINTR, DF_CLOSE_ERR, DF_CRASH, DF_FULL, DF_OPENW_EINTR
};
extern DiskCtl disk;
void DiskBegin();
void DiskEnd();

}  // namespace env

// ---------------------------------------------------------------- hashing
struct Hash {
    uint64_t h = 1469598103934665603ull;
    void u(uint64_t x) { for (int i = 0; i < 8; i++) { h ^= (x & 255); h *= 1099511628211ull; x >>= 8; } }
    void w(uint64_t x) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    void f(float x) { uint32_t b; std::memcpy(&b, &x, 4); w(b); }
    void d(double x) { uint64_t b; std::memcpy(&b, &x, 8); w(b); }
    void s(const std::string& t) { for (char c : t) w((unsigned char)c); w(t.size()); }
};

// ---------------------------------------------------------------- plan
struct Op {
    std::string k;                // kind
    std::vector<double> a;        // arguments
    std::string note;             // how the op came about (fault trace)
};
struct Plan {
    std::string prop;
    std::string cls;              // violation class a replay must reproduce
    uint64_t seed = 0, idx = 0;
    std::map<std::string, double> c;
    std::vector<Op> ops;
    double g(const char* k, double d = 0) const {
        auto it = c.find(k); return it == c.end() ? d : it->second;
    }
    std::string str() const;
    static Plan parse(const std::string& text);
};

struct Violation {
    std::string cls, msg;
    int op;
};

struct Ctx {
    Hash log;                                 // event log hash
    std::map<std::string, long> n;            // measured counters
    std::vector<uint64_t> states;             // distinct-state measure
    bool nontrivial = false;
    int op = -1;
    double sim_time = 0;                      // simulated seconds
    bool trace = false;
    void fail(const std::string& cls, const std::string& msg) {
        throw Violation{cls, msg, op};
    }
    void hit(const std::string& k, long d = 1) { n[k] += d; }
};

// ---------------------------------------------------------------- rng
struct Rng {                                  // the simulator's own PRNG
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u(double a = 0, double b = 1) { return a + (b - a) * (double)(next() >> 11) * 0x1p-53; }
    int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
    bool p(double q) { return u() < q; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, (int)l.size() - 1)); }
};

// ---------------------------------------------------------------- world
using soil_simulator::Blade;
using soil_simulator::Body;
using soil_simulator::Bucket;
using soil_simulator::Grid;
using soil_simulator::SimOut;
using soil_simulator::SimParam;

struct Pose { float p[3]; float q[4]; };

struct StepResult {
    bool updated = false;
    bool threw = false;
    std::vector<std::string> warn;
};

struct World {
    Plan const* plan;
    Grid grid;
    SimParam sp;
    float tol;
    SimOut out;
    std::unique_ptr<Bucket> bucket;
    std::unique_ptr<Blade> blade;
    simseam::Engine rng;          // the schedule of this instance
    soil_simulator::SoilDynamics sim;
    double tool = 1;              // size of the fitted tool
    double made[3][3], made_width;    // joint, base and teeth seen from the origin
    explicit World(const Plan& p);
    void SetTool(double size);    // fits another tool; soil on the machine stays
    Body* body() { return bucket ? (Body*)bucket.get() : (Body*)blade.get(); }
    const Body* body() const { return bucket ? (Body*)bucket.get() : (Body*)blade.get(); }
    void InitTerrain();           // by plan
    StepResult Step(const Pose& p, const SimParam* override_sp = nullptr);
    // the same step assembled from the library's stages, with the two machine
    // layers exchanged in some columns (which of them is called the first one
    // must not matter)
    bool MirroredStep(const std::vector<float>& pos, const std::vector<float>& ori, const SimParam& p);
    // one relaxation pass of the carried soil or of the ground
    void Relax(bool carried, const SimParam& p);
    // makes room for the machine in the soil it carries
    std::vector<std::string> Squeeze();
    // observers; false when the call threw bad_alloc
    bool Check(int init_volume, std::vector<std::string>* warn = nullptr);
    bool WriteOutputs();
    uint64_t StateHash(bool with_rng = true) const;
    int nx() const { return (int)out.terrain_.size(); }
    int ny() const { return (int)out.terrain_[0].size(); }
};

// deep copy of everything a user would persist in a checkpoint
struct Checkpoint {
    SimOut out;
    std::vector<float> bpos, bori;
    simseam::Engine rng;
    double tool;
    explicit Checkpoint(const World& w)
        : out(w.out), bpos(w.body()->pos_), bori(w.body()->ori_), rng(w.rng), tool(w.tool) {}
    void Restore(World* w) const {
        if (w->tool != tool) w->SetTool(tool);
        w->out = out; w->body()->pos_ = bpos; w->body()->ori_ = bori; w->rng = rng;
    }
};

std::string Fmt(const char* f, ...);
