#include "world.hpp"
#include "model.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <new>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#endif

namespace env {
AllocCtl alloc;
ClockCtl clk;
DiskCtl disk;
}  // namespace env

// ============================================================ allocator seam
struct HangDetected {};
namespace {
constexpr uint64_t kTagSut = 0x51AC0DE5AC0FFEE1ull;
constexpr uint64_t kTagEnv = 0x0E17C0DE5AC0FFEEull;
constexpr size_t kHdr = 16;

void* DoNew(size_t n) {
    bool counted = env::alloc.in_sut && env::alloc.guard == 0;
    if (counted) {
        long k = env::alloc.count++;
        if (env::alloc.limit >= 0 && k > env::alloc.limit) {
            // the call does not terminate; unwinding is not safe, so report
            // deterministically and leave
            static const char m[] = "\nSIM-HANG allocation limit exceeded\n";
            (void)!syscall(SYS_write, 1, m, sizeof(m) - 1);
            _exit(97);
        }
        if (env::alloc.fail_at >= 0 && k >= env::alloc.fail_at &&
            k < env::alloc.fail_at + env::alloc.fail_len) {
            env::alloc.fired++;
            throw std::bad_alloc();
        }
    }
#ifdef SIM_ASAN
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    memset(p, env::alloc.poison, n);
    return p;
#else
    char* p = (char*)malloc(n + kHdr);
    if (!p) throw std::bad_alloc();
    ((uint64_t*)p)[0] = counted ? kTagSut : kTagEnv;
    ((uint64_t*)p)[1] = n;
    if (counted) env::alloc.live++;
    memset(p + kHdr, env::alloc.poison, n);
    return p + kHdr;
#endif
}
void DoDelete(void* v) {
    if (!v) return;
#ifdef SIM_ASAN
    free(v);
#else
    char* p = (char*)v - kHdr;
    uint64_t t = ((uint64_t*)p)[0];
    if (t != kTagSut && t != kTagEnv) {
        static const char m[] = "\nSIM-HEAP invalid or double delete\n";
        (void)!syscall(SYS_write, 1, m, sizeof(m) - 1);
        abort();
    }
    if (t == kTagSut) env::alloc.live--;
    ((uint64_t*)p)[0] = 0xDEADDEADDEADDEADull;
    size_t n = ((uint64_t*)p)[1];
    memset(p + kHdr, 0xDD ^ env::alloc.poison, n);
    free(p);
#endif
}
}  // namespace

void* operator new(size_t n) { return DoNew(n); }
void* operator new[](size_t n) { return DoNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    try { return DoNew(n); } catch (...) { return nullptr; }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
    try { return DoNew(n); } catch (...) { return nullptr; }
}
void operator delete(void* p) noexcept { DoDelete(p); }
void operator delete[](void* p) noexcept { DoDelete(p); }
void operator delete(void* p, size_t) noexcept { DoDelete(p); }
void operator delete[](void* p, size_t) noexcept { DoDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { DoDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { DoDelete(p); }

namespace simseam {
void LogEnter() { env::alloc.guard++; }
void LogLeave() { env::alloc.guard--; }
uint32_t NextDevice() {
    env::clk.reads++;
    uint64_t& x = env::clk.device;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return (uint32_t)(x >> 16);
}
}  // namespace simseam

namespace env {
__attribute__((noinline)) void StackPollute(unsigned char b) {
    volatile unsigned char buf[256 * 1024];
    for (size_t i = 0; i < sizeof(buf); i += 1) buf[i] = b;
    asm volatile("" ::: "memory");
}
static std::vector<void*> g_junk;
void HeapShuffle(uint64_t seed) {
    HeapShuffleDrop();
    Rng r(seed);
    std::vector<void*> tmp;
    for (int i = 0; i < 400; i++) tmp.push_back(malloc(16 + r.i(0, 1500)));
    for (auto p : tmp) { if (r.p(0.5)) g_junk.push_back(p); else free(p); }
}
void HeapShuffleDrop() { for (auto p : g_junk) free(p); g_junk.clear(); }

double WallNow() {
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

// ============================================================ log seam
struct Sink : google::LogSink {
    std::vector<std::string> m;
    void send(google::LogSeverity sev, const char*, const char*, int,
              const struct tm*, const char* msg, size_t n) override {
        if (sev >= google::GLOG_WARNING) m.emplace_back(msg, n);
    }
};
static Sink* g_sink;
void LogInit(const char* argv0) {
    google::InitGoogleLogging(argv0);
    FLAGS_stderrthreshold = 4;
    FLAGS_logtostderr = false;
    for (int i = 0; i < 4; i++) google::SetLogDestination(i, "");
    g_sink = new Sink;
    google::AddLogSink(g_sink);
}
std::vector<std::string>& Warnings() { return g_sink->m; }
void ClearWarnings() { g_sink->m.clear(); }
int CountWarnings(const char* needle) {
    int c = 0;
    for (auto& s : g_sink->m) c += s.find(needle) != std::string::npos;
    return c;
}
}  // namespace env

// ============================================================ clock / rand seam
extern "C" {
time_t time(time_t* t) {
    env::clk.reads++;
    env::clk.now_ns += env::clk.step_ns;
    time_t v = (time_t)(env::clk.now_ns / 1000000000ull);
    if (t) *t = v;
    return v;
}
int clock_gettime(clockid_t, struct timespec* ts) {
    env::clk.reads++;
    env::clk.now_ns += env::clk.step_ns;
    ts->tv_sec = (time_t)(env::clk.now_ns / 1000000000ull);
    ts->tv_nsec = (long)(env::clk.now_ns % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    env::clk.reads++;
    env::clk.now_ns += env::clk.step_ns;
    tv->tv_sec = (time_t)(env::clk.now_ns / 1000000000ull);
    tv->tv_usec = (long)(env::clk.now_ns / 1000 % 1000000);
    return 0;
}
clock_t clock(void) {
    env::clk.reads++;
    env::clk.now_ns += env::clk.step_ns;
    return (clock_t)(env::clk.now_ns / 1000);
}
int rand(void) noexcept { return (int)(simseam::NextDevice() & 0x7FFFFFFF); }
long random(void) noexcept { return (long)(simseam::NextDevice() & 0x7FFFFFFF); }
double drand48(void) noexcept { return simseam::NextDevice() / 4294967296.0; }
}

// ============================================================ disk seam
namespace {
using env::disk;
bool g_isfd[4096];

bool Ours(const char* path) { return path && strstr(path, "results/"); }

template <class F> F Next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

[[noreturn]] void Crash() { disk.fired++; _exit(98); }

// returns true when the operation must fail; errno set
bool Hit(env::DiskKind k) {
    if (!disk.on) return false;
    long i = disk.ops[k]++;
    long t = disk.total++;
    auto in = [&](long x) { return x >= disk.at && x < disk.at + disk.len; };
    bool f = false;
    switch (disk.fault) {
        case env::DF_CRASH: if (t == disk.at) { if (k != env::D_WRITE) Crash(); } break;
        case env::DF_OPENW_FAIL: f = k == env::D_OPEN_W && in(i); break;
        case env::DF_OPENR_FAIL: f = (k == env::D_OPEN_R || k == env::D_META) && in(i); break;
        case env::DF_CLOSE_ERR: f = k == env::D_CLOSE && in(i); break;
        default: break;
    }
    if (f) { disk.fired++; disk.fired_kind[k]++; errno = disk.err; }
    return f;
}
// decides a write; returns bytes allowed, or -1 (errno set)
ssize_t HitWrite(size_t n) {
    if (!disk.on) return (ssize_t)n;
    long i = disk.ops[env::D_WRITE]++;
    long t = disk.total++;
    auto in = [&](long x) { return x >= disk.at && x < disk.at + disk.len; };
    switch (disk.fault) {
        case env::DF_CRASH:
            if (t == disk.at) return -2 - (ssize_t)(n / 2);   // torn, then die
            break;
        case env::DF_WRITE_ERR: case env::DF_FULL:
            if (disk.fault == env::DF_FULL ? i >= disk.at : in(i)) {
                disk.fired++; disk.fired_kind[env::D_WRITE]++; errno = disk.err; return -1;
            }
            break;
        case env::DF_WRITE_EINTR:
            if (in(i)) { disk.fired++; disk.fired_kind[env::D_WRITE]++; errno = EINTR; return -1; }
            break;
        case env::DF_WRITE_SHORT:
            if (in(i) && n > 1) { disk.fired++; disk.fired_kind[env::D_WRITE]++; return (ssize_t)(1 + (n - 1) / 3); }
            break;
        default: break;
    }
    return (ssize_t)n;
}
bool Writable(const char* mode) { return strpbrk(mode, "wa+") != nullptr; }
}  // namespace

namespace env {
void DiskBegin() {
    for (auto& x : disk.ops) x = 0;
    for (auto& x : disk.fired_kind) x = 0;
    disk.total = 0; disk.fired = 0; disk.on = true;
}
void DiskEnd() { disk.on = false; }
}  // namespace env

extern "C" {
static FILE* OpenF(const char* sym, const char* path, const char* mode) {
    static auto r64 = Next<FILE* (*)(const char*, const char*)>("fopen64");
    static auto r = Next<FILE* (*)(const char*, const char*)>("fopen");
    bool ours = Ours(path);
    if (ours && Hit(Writable(mode) ? env::D_OPEN_W : env::D_OPEN_R)) return nullptr;
    FILE* f = (strcmp(sym, "fopen64") == 0 ? r64 : r)(path, mode);
    if (f && ours && fileno(f) < 4096) g_isfd[fileno(f)] = true;
    return f;
}
FILE* fopen64(const char* p, const char* m) { return OpenF("fopen64", p, m); }
FILE* fopen(const char* p, const char* m) { return OpenF("fopen", p, m); }
static int OpenI(const char* sym, const char* path, int fl, mode_t md) {
    static auto r64 = Next<int (*)(const char*, int, ...)>("open64");
    bool ours = Ours(path);
    if (ours && Hit((fl & O_ACCMODE) == O_RDONLY ? env::D_OPEN_R : env::D_OPEN_W)) return -1;
    (void)sym;
    int fd = r64(path, fl, md);
    if (fd >= 0 && fd < 4096 && ours) g_isfd[fd] = true;
    return fd;
}
int open64(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); mode_t md = va_arg(ap, unsigned); va_end(ap);
    return OpenI("open64", p, fl, md);
}
int open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); mode_t md = va_arg(ap, unsigned); va_end(ap);
    return OpenI("open", p, fl, md);
}
ssize_t write(int fd, const void* b, size_t n) {
    static auto r = Next<ssize_t (*)(int, const void*, size_t)>("write");
    if (fd >= 0 && fd < 4096 && g_isfd[fd]) {
        ssize_t a = HitWrite(n);
        if (a == -1) return -1;
        if (a < -1) { (void)!r(fd, b, (size_t)(-2 - a)); Crash(); }
        return r(fd, b, (size_t)a);
    }
    return r(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    static auto r = Next<ssize_t (*)(int, const struct iovec*, int)>("writev");
    if (fd >= 0 && fd < 4096 && g_isfd[fd]) {
        size_t n = 0;
        for (int i = 0; i < c; i++) n += v[i].iov_len;
        ssize_t a = HitWrite(n);
        if (a == -1) return -1;
        size_t allow = a < -1 ? (size_t)(-2 - a) : (size_t)a;
        if (allow < n) {
            std::string s;
            { env::Pause p; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); }
            static auto w = Next<ssize_t (*)(int, const void*, size_t)>("write");
            ssize_t k = w(fd, s.data(), allow);
            if (a < -1) Crash();
            return k;
        }
    }
    return r(fd, v, c);
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
    static auto r = Next<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
    if (f && env::disk.on && fileno(f) >= 0 && fileno(f) < 4096 && g_isfd[fileno(f)]) {
        ssize_t a = HitWrite(s * n);
        if (a == -1) return 0;
        if (a < -1) { r(b, 1, (size_t)(-2 - a), f); fflush(f); Crash(); }
        return s ? r(b, 1, (size_t)a, f) / s : 0;
    }
    return r(b, s, n, f);
}
int fclose(FILE* f) {
    static auto r = Next<int (*)(FILE*)>("fclose");
    int fd = f ? fileno(f) : -1;
    bool ours = fd >= 0 && fd < 4096 && g_isfd[fd];
    if (ours) g_isfd[fd] = false;
    bool bad = ours && Hit(env::D_CLOSE);
    int e = errno;
    int k = r(f);
    if (bad) { errno = e; return EOF; }
    return k;
}
int close(int fd) {
    static auto r = Next<int (*)(int)>("close");
    bool ours = fd >= 0 && fd < 4096 && g_isfd[fd];
    if (ours) g_isfd[fd] = false;
    bool bad = ours && Hit(env::D_CLOSE);
    int e = errno;
    int k = r(fd);
    if (bad) { errno = e; return -1; }
    return k;
}
int stat(const char* p, struct stat* s) noexcept {
    static auto r = Next<int (*)(const char*, struct stat*)>("stat");
    if (Ours(p) && Hit(env::D_META)) return -1;
    return r(p, s);
}
int stat64(const char* p, struct stat64* s) noexcept {
    static auto r = Next<int (*)(const char*, struct stat64*)>("stat64");
    if (Ours(p) && Hit(env::D_META)) return -1;
    return r(p, s);
}
int lstat(const char* p, struct stat* s) noexcept {
    static auto r = Next<int (*)(const char*, struct stat*)>("lstat");
    if (Ours(p) && Hit(env::D_META)) return -1;
    return r(p, s);
}
int access(const char* p, int m) noexcept {
    static auto r = Next<int (*)(const char*, int)>("access");
    if (Ours(p) && Hit(env::D_META)) return -1;
    return r(p, m);
}
int rename(const char* a, const char* b) noexcept {
    static auto r = Next<int (*)(const char*, const char*)>("rename");
    if ((Ours(a) || Ours(b)) && Hit(env::D_META)) return -1;
    return r(a, b);
}
}

// ============================================================ plan text
std::string Fmt(const char* f, ...) {
    char b[1024];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
static std::string Num(double x) {
    if (x == std::floor(x) && std::fabs(x) < 1e15) return Fmt("%.0f", x);
    return Fmt("%a", x);
}
std::string Plan::str() const {
    std::string s = "simplan 1\n";
    s += "prop " + prop + "\n";
    if (!cls.empty()) s += "class " + cls + "\n";
    s += Fmt("seed %llu idx %llu\n", (unsigned long long)seed, (unsigned long long)idx);
    for (auto& [k, v] : c) s += "cfg " + k + " " + Num(v) + "\n";
    for (auto& o : ops) {
        s += "op " + o.k;
        for (double x : o.a) s += " " + Num(x);
        if (!o.note.empty()) s += " # " + o.note;
        s += "\n";
    }
    return s;
}
Plan Plan::parse(const std::string& text) {
    Plan p;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w)) continue;
        if (w == "prop") l >> p.prop;
        else if (w == "class") l >> p.cls;
        else if (w == "seed") { std::string x; l >> p.seed >> x >> p.idx; }
        else if (w == "cfg") { std::string k, v; l >> k >> v; p.c[k] = strtod(v.c_str(), nullptr); }
        else if (w == "op") {
            Op o; l >> o.k;
            std::string t;
            while (l >> t) {
                if (t == "#") { std::getline(l, o.note); while (!o.note.empty() && o.note[0] == ' ') o.note.erase(0, 1); break; }
                o.a.push_back(strtod(t.c_str(), nullptr));
            }
            p.ops.push_back(o);
        }
    }
    return p;
}

// ============================================================ world
std::mt19937 soil_simulator::rng;

static std::vector<float> V3(double a, double b, double c) { return {(float)a, (float)b, (float)c}; }

World::World(const Plan& p)
    : plan(&p),
      grid((float)p.g("gx"), (float)p.g("gy"), (float)p.g("gz"), (float)p.g("cxy"), (float)p.g("cz")),
      sp((float)p.g("repose"), (int)p.g("maxit"), (int)p.g("buffer")),
      tol((float)p.g("tol", 1e-5)), out(grid) {
    SetTool(1);
    rng.seed((uint32_t)p.g("rng"));
    rng.mode = (int)p.g("rngmode");
}

void World::SetTool(double f) {
    auto& p = *plan;
    tool = f;
    auto o = V3(p.g("ox") * f, p.g("oy") * f, p.g("oz") * f), j = V3(p.g("jx") * f, p.g("jy") * f, p.g("jz") * f),
         b = V3(p.g("bx") * f, p.g("by") * f, p.g("bz") * f), t = V3(p.g("tx") * f, p.g("ty") * f, p.g("tz") * f);
    if (p.g("blade") != 0) blade = std::make_unique<Blade>(o, j, b, t, (float)(p.g("width") * f));
    else bucket = std::make_unique<Bucket>(o, j, b, t, (float)(p.g("width") * f));
    // what was asked for, kept apart from what the library made of it
    for (int a = 0; a < 3; a++) {
        made[0][a] = (double)j[a] - o[a]; made[1][a] = (double)b[a] - o[a]; made[2][a] = (double)t[a] - o[a];
    }
    made_width = (float)(p.g("width") * f);
}

void World::InitTerrain() {
    int kind = (int)plan->g("terrain");
    Rng r((uint64_t)plan->g("tseed") + 77);
    float cz = grid.cell_size_z_;
    double amp = plan->g("tamp", 4);    // in cells
    if (kind == 1) {
        soil_simulator::rng = rng;
        { env::Sut s; sim.Init(&out, grid, (float)plan->g("noise")); }
        rng = soil_simulator::rng;
        if (plan->g("settled") != 0) SettleTerrain(&out, cz, DhCells(grid, plan->g("repose")));
        return;
    }
    double px = r.u(0, 6.28), py = r.u(0, 6.28), fx = r.u(0.1, 0.5), fy = r.u(0.1, 0.5);
    int ridge = r.i(3, nx() - 4), rx = r.i(0, 1);
    for (int i = 0; i < nx(); i++)
        for (int j = 0; j < ny(); j++) {
            double c = 0;
            switch (kind) {
                case 0: c = 0; break;
                case 2: c = std::floor(r.u(-amp, amp + 1)); break;                    // noise columns
                case 3: c = std::round(amp * std::sin(fx * i + px) * std::cos(fy * j + py)); break;
                case 4: c = (rx ? i : j) > ridge % (rx ? nx() : ny()) ? amp : -amp; c = std::round(c); break;  // cliff
                case 5: c = r.p(0.06) ? std::floor(r.u(1, 2.5 * amp + 2)) : 0; break;  // spikes
                case 6: c = std::round(amp * ((rx ? i : j) / (double)(nx()) * 4 - 2)); break;   // slope
                default: c = 0;
            }
            out.terrain_[i][j] = (float)(cz * c);
        }
    if (plan->g("settled") != 0) SettleTerrain(&out, cz, DhCells(grid, plan->g("repose")));
}

bool World::MirroredStep(const std::vector<float>& pos, const std::vector<float>& ori, const SimParam& p) {
    namespace S = soil_simulator;
    if (!S::CheckBodyMovement(pos, ori, grid, body())) return false;
    if (bucket) S::CalcBodyPos(&out, pos, ori, grid, bucket.get(), p, tol);
    else S::CalcBodyPos(&out, pos, ori, grid, blade.get(), p, tol);
    uint64_t salt = (uint64_t)plan->g("mirror");
    for (int i = 0; i < nx(); i++)
        for (int j = 0; j < ny(); j++) {
            uint64_t h = (salt * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)(i / 3) * 0xD1B54A32D192ED03ull) ^ ((uint64_t)(j / 2) * 0x94D049BB133111EBull);
            h = (h ^ (h >> 31)) * 0xBF58476D1CE4E5B9ull;
            if (h >> 40 & (salt & 1 ? 1 : 3)) {
                std::swap(out.body_[0][i][j], out.body_[2][i][j]);
                std::swap(out.body_[1][i][j], out.body_[3][i][j]);
            }
        }
    S::UpdateBodySoil(&out, pos, ori, grid, body(), tol);
    S::MoveIntersectingCells(&out, grid, body(), tol);
    out.equilibrium_ = false;
    for (int it = 0; !out.equilibrium_ && it < p.max_iterations_; it++) {
        for (int a = 0; a < 2; a++) {
            out.impact_area_[a][0] = std::min(out.body_area_[a][0], out.relax_area_[a][0]);
            out.impact_area_[a][1] = std::max(out.body_area_[a][1], out.relax_area_[a][1]);
        }
        S::RelaxTerrain(&out, grid, body(), p, tol);
        for (int a = (int)out.body_soil_pos_.size() - 1; a > 0; a--) {
            std::uniform_int_distribution<int> d(0, a);
            std::swap(out.body_soil_pos_[a], out.body_soil_pos_[d(S::rng)]);
        }
        S::RelaxBodySoil(&out, grid, body(), p, tol);
    }
    return true;
}
StepResult World::Step(const Pose& p, const SimParam* osp) {
    StepResult res;
    env::ClearWarnings();
    std::vector<float> pos(p.p, p.p + 3), ori(p.q, p.q + 4);
    // no spare room: the next record that is added moves the list
    if (plan->g("tight") != 0) out.body_soil_pos_.shrink_to_fit();
    soil_simulator::rng = rng;
    {
        env::Sut s;
        try {
            if (plan->g("mirror") != 0) res.updated = MirroredStep(pos, ori, osp ? *osp : sp);
            else if (bucket) res.updated = sim.Step(&out, pos, ori, grid, bucket.get(), osp ? *osp : sp, tol);
            else res.updated = sim.Step(&out, pos, ori, grid, blade.get(), osp ? *osp : sp, tol);
        } catch (const std::bad_alloc&) {
            res.threw = true;
        }
    }
    rng = soil_simulator::rng;
    res.warn = env::Warnings();
    env::ClearWarnings();
    return res;
}
void World::Relax(bool carried, const SimParam& p) {
    soil_simulator::rng = rng;
    {
        env::Sut s;
        if (carried) soil_simulator::RelaxBodySoil(&out, grid, body(), p, tol);
        else soil_simulator::RelaxTerrain(&out, grid, body(), p, tol);
    }
    rng = soil_simulator::rng;
    env::ClearWarnings();
}
std::vector<std::string> World::Squeeze() {
    env::ClearWarnings();
    soil_simulator::rng = rng;
    { env::Sut s; soil_simulator::MoveIntersectingBodySoil(&out, grid, body(), tol); }
    rng = soil_simulator::rng;
    auto v = env::Warnings();
    env::ClearWarnings();
    return v;
}
bool World::Check(int init_volume, std::vector<std::string>* warn) {
    bool ok = true;
    env::ClearWarnings();
    soil_simulator::rng = rng;
    {
        env::Sut s;
        try { sim.Check(&out, init_volume, grid, tol); } catch (const std::bad_alloc&) { ok = false; }
    }
    rng = soil_simulator::rng;
    if (warn) *warn = env::Warnings();
    env::ClearWarnings();
    return ok;
}
bool World::WriteOutputs() {
    bool ok = true;
    soil_simulator::rng = rng;
    {
        env::Sut s;
        try {
            if (bucket) sim.WriteOutputs(&out, grid, bucket.get());
            else sim.WriteOutputs(&out, grid, blade.get());
        } catch (const std::bad_alloc&) { ok = false; }
    }
    rng = soil_simulator::rng;
    return ok;
}

uint64_t World::StateHash(bool with_rng) const {
    Hash h;
    for (auto& r : out.terrain_) for (float x : r) h.f(x);
    for (auto& l : out.body_) for (auto& r : l) for (float x : r) h.f(x);
    for (auto& l : out.body_soil_) for (auto& r : l) for (float x : r) h.f(x);
    for (auto& b : out.body_soil_pos_) {
        h.w(b.ind); h.w(b.ii); h.w(b.jj);
        h.f(b.x_b); h.f(b.y_b); h.f(b.z_b); h.f(b.h_soil);
    }
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
        h.w(out.body_area_[a][b]); h.w(out.relax_area_[a][b]); h.w(out.impact_area_[a][b]);
    }
    h.w(out.equilibrium_);
    for (float x : body()->pos_) h.f(x);
    for (float x : body()->ori_) h.f(x);
    if (with_rng) {
        simseam::Engine e = rng;
        e.mode = 0;
        for (int i = 0; i < 4; i++) h.w(e());
        h.w(rng.mode); h.w(rng.k); h.w(rng.held); h.w(rng.left);
    }
    return h.h;
}
