#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include "props.hpp"

static uint64_t Mix(const std::string& prop, uint64_t seed, uint64_t idx) {
    Hash h; h.s(prop); h.u(seed); h.u(idx);
    return h.h;
}
static Plan MakePlan(const Prop& pr, uint64_t seed, uint64_t idx) {
    Plan p;
    p.prop = pr.id; p.seed = seed; p.idx = idx;
    Rng r(Mix(pr.id, seed, idx));
    pr.gen(r, &p);
    return p;
}
struct Outcome { bool bad = false; Violation v; Ctx cx; };
static Outcome RunPlan(const Prop& pr, const Plan& p) {
    Outcome o;
    env::alloc = env::AllocCtl();
    env::clk = env::ClockCtl();
    env::alloc.limit = 400000000L;
    try {
        pr.exec(p, o.cx);
    } catch (const Violation& v) {
        o.bad = true; o.v = v;
    } catch (const std::exception& e) {
        o.bad = true; o.v = {"exception", e.what(), o.cx.op};
    }
    env::alloc.in_sut = false;
    env::alloc.fail_at = -1;
    env::disk.on = false;
    for (const char* f : {"f_drop", "f_stall"}) if (p.g(f) > 0) o.cx.n[std::string("fault_link_") + (f + 2)] += (long)p.g(f);
    o.cx.log.w(o.bad);
    if (o.bad) o.cx.log.s(o.v.cls);
    return o;
}
static std::string Js(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += ' '; continue; } r += c; }
    return r;
}
static std::string Slurp(const char* f) {
    std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str();
}

int main(int argc, char** argv) {
    // address-dependent behaviour has to repeat too: run without address
    // space randomisation (where the sandbox permits it)
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    env::LogInit(argv[0]);
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    if (cmd == "list") { for (auto& p : Props()) printf("%s\t%s\n", p.id, p.rule); return 0; }
    if (cmd == "gen") {
        auto* pr = FindProp(argv[2]);
        std::cout << MakePlan(*pr, strtoull(argv[3], 0, 0), strtoull(argv[4], 0, 0)).str();
        return 0;
    }
    if (cmd == "plan") {                                   // run a plan file, print the outcome
        Plan p = Plan::parse(Slurp(argv[2]));
        auto* pr = FindProp(p.prop);
        if (!pr) return 2;
        if (p.prop == "C05") StartCleanTemplate();
        auto o = RunPlan(*pr, p);
        printf("H %016llx\n", (unsigned long long)o.cx.log.h);
        if (o.bad) { printf("V %s %d %s\n", o.v.cls.c_str(), o.v.op, Js(o.v.msg).c_str()); return 1; }
        printf("OK\n");
        return 0;
    }
    if (cmd == "run") {                                    // run PROP seed start stride max secs dupcheck
        auto* pr = FindProp(argv[2]);
        if (!pr) return 2;
        if (cmd == "run" && !strcmp(argv[2], "C05")) StartCleanTemplate();
        uint64_t seed = strtoull(argv[3], 0, 0), start = strtoull(argv[4], 0, 0), stride = strtoull(argv[5], 0, 0);
        long max = atol(argv[6]);
        double secs = atof(argv[7]);
        long dup = atol(argv[8]);                          // re-execute every dup-th run
        double t0 = env::WallNow();
        std::map<std::string, long> n;
        std::set<uint64_t> states;
        double simt = 0;
        long runs = 0, dups = 0;
        auto flush = [&]() {
            std::string s = "A {";
            for (auto& [k, v] : n) s += "\"" + k + "\":" + std::to_string(v) + ",";
            printf("%s\"runs\":%ld,\"dup_checks\":%ld,\"states\":%zu,\"sim_time\":%.3f}\n", s.c_str(), runs, dups, states.size(), simt);
            fflush(stdout);
        };
        for (long k = 0; k < max; k++) {
            if (env::WallNow() - t0 > secs) break;
            uint64_t idx = start + (uint64_t)k * stride;
            printf("S %llu\n", (unsigned long long)idx);
            fflush(stdout);
            Plan p = MakePlan(*pr, seed, idx);
            auto o = RunPlan(*pr, p);
            runs++;
            for (auto& [a, b] : o.cx.n) n[a] += b;
            if (states.size() < 3000000) states.insert(o.cx.states.begin(), o.cx.states.end());
            simt += o.cx.sim_time;
            printf("R %llu %016llx %d\n", (unsigned long long)idx, (unsigned long long)o.cx.log.h, (int)o.cx.nontrivial);
            if (o.bad) printf("V %llu %s %d %s\n", (unsigned long long)idx, o.v.cls.c_str(), o.v.op, Js(o.v.msg).c_str());
            else if (dup > 0 && k % dup == 0) {
                auto o2 = RunPlan(*pr, p);
                dups++;
                if (o2.cx.log.h != o.cx.log.h) printf("N %llu\n", (unsigned long long)idx);
            }
            if (k % 64 == 63) flush();
        }
        flush();
        printf("END\n");
        return 0;
    }
    return 2;
}
