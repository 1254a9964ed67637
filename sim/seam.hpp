// Force-included (-include) in front of every translation unit of the system
// under test and of the harness.  It puts every source of nondeterminism the
// library can reach behind a seam owned by the simulator:
//   * std::mt19937 (the library's one RNG)      -> simseam::Engine (scheduler)
//   * std::random_device                        -> simulated stream
//   * glog's LOG macros                         -> wrapped so that allocation
//                                                  faults never hit the logger
// The remaining seams (operator new/delete, files, clocks, rand) are link-time
// interpositions in world.cpp.  No file of /repo is edited.
#pragma once
#include <cstdint>
#include <glog/logging.h>
#include <random>

namespace simseam {

// A schedule is the sequence of draws the library's shuffles consume.  mode 0
// is the real generator; other modes bias the high bits (legal outcomes of an
// ideal generator, just unlikely ones) while the low bits stay scrambled so
// that rejection sampling always terminates.
struct Engine : std::mt19937 {
    using base = std::mt19937;
    int mode = 0;
    uint32_t k = 0;       // schedule position used by the biased modes
    uint32_t held = 0;    // sticky mode: bits being repeated
    uint32_t left = 0;
    uint64_t draws = 0;   // not part of the state that is compared
    Engine() {}
    explicit Engine(result_type s) : base(s) {}
    template <class S>
    requires (!std::is_convertible_v<S, result_type> &&
              !std::is_same_v<std::remove_cvref_t<S>, Engine>)
    explicit Engine(S& s) : base(s) {}
    result_type operator()() {
        ++draws;
        uint32_t r = base::operator()();
        switch (mode) {
            case 1: r = 0xFFFF0000u | (r & 0xFFFFu); break;
            case 2: r = r & 0xFFFFu; break;
            case 3:
                r = (k++ & 1) ? (0xFFFF0000u | (r & 0xFFFFu)) : (r & 0xFFFFu);
                break;
            case 4:
                if (left == 0) { held = r & 0xFFFF0000u; left = 1 + (r & 15u); }
                --left;
                r = held | (r & 0xFFFFu);
                break;
            case 5: {
                uint32_t sel = (r >> 16) & 3u;
                if (sel == 0) r = 0xFFFF0000u | (r & 0xFFFFu);
                else if (sel == 1) r = r & 0xFFFFu;
                break;
            }
            default: break;
        }
        return r;
    }
    bool same(const Engine& o) const {
        return static_cast<const base&>(*this) == static_cast<const base&>(o) &&
            mode == o.mode && k == o.k && held == o.held && left == o.left;
    }
};
inline bool operator==(const Engine& a, const Engine& b) { return a.same(b); }

uint32_t NextDevice();
struct RandomDevice {
    using result_type = unsigned int;
    RandomDevice() {}
    template <class T> explicit RandomDevice(const T&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xFFFFFFFFu; }
    result_type operator()() { return NextDevice(); }
    double entropy() const { return 32.0; }
};

void LogEnter();
void LogLeave();
struct LogGuard {
    LogGuard() { LogEnter(); }
    ~LogGuard() { LogLeave(); }
};
// The guard is a base so that it outlives the LogMessage it protects.
struct GuardedLog : LogGuard, google::LogMessage {
    GuardedLog(const char* f, int l, google::LogSeverity s)
        : google::LogMessage(f, l, s) {}
};

}  // namespace simseam

namespace std {
using sim_mt19937 = ::simseam::Engine;
using sim_random_device = ::simseam::RandomDevice;
}  // namespace std
#define mt19937 sim_mt19937
#define random_device sim_random_device

#undef COMPACT_GOOGLE_LOG_INFO
#undef COMPACT_GOOGLE_LOG_WARNING
#undef COMPACT_GOOGLE_LOG_ERROR
#define COMPACT_GOOGLE_LOG_INFO \
    simseam::GuardedLog(__FILE__, __LINE__, google::GLOG_INFO)
#define COMPACT_GOOGLE_LOG_WARNING \
    simseam::GuardedLog(__FILE__, __LINE__, google::GLOG_WARNING)
#define COMPACT_GOOGLE_LOG_ERROR \
    simseam::GuardedLog(__FILE__, __LINE__, google::GLOG_ERROR)
