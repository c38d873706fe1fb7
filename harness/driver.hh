// Common main function of the episode based harnesses.
// usage: BIN <property> <seed> <first episode> <number of episodes> <seconds>
#pragma once
#include <chrono>
#include <cstdlib>
#include <iostream>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>
#ifndef HAVE_VIOLATION
struct Violation;
#endif
static void report(std::string const &what);
extern "C" __attribute__((visibility("default"))) void __assert_fail(char const *e, char const *f, unsigned l, char const *) noexcept {
    report(std::string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l));
    std::_Exit(1);
}
static std::string prop_id;
static std::vector<std::string> trace_log;
static void note(std::string s) { trace_log.push_back(std::move(s)); }
static long cur_episode = 0;
static unsigned cur_seed = 0;
static long evals = 0, nontrivial = 0;
static void report(std::string const &what) {
    std::cout << "FAIL episode " << cur_episode << " seed " << cur_seed << ": " << what << "\n";
    for (auto &s : trace_log) { std::cout << "  " << s << "\n"; }
    std::cout.flush();
}
[[noreturn]] static void fail(std::string const &msg) { throw Violation(msg); }
static bool on(char const *p) { return prop_id == p; }
static void episode(std::mt19937 &rng, int size);

int main(int argc, char **argv) {
    if (argc < 6) { return 2; }
    prop_id = argv[1];
    unsigned seed = (unsigned)std::strtoul(argv[2], nullptr, 10);
    long first = std::atol(argv[3]), num = std::atol(argv[4]);
    double secs = std::atof(argv[5]);
    auto start = std::chrono::steady_clock::now();
    long episodes = 0;
    for (long i = first; i < first + num; ++i) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > secs) { break; }
        trace_log.clear();
        std::mt19937 rng;
        rng.seed(seed * 1000003U + (unsigned)i);
        ++episodes;
        cur_episode = i;
        cur_seed = seed;
        std::string what;
        try {
            episode(rng, (int)std::min<long>(1 + i / 200, 14));
        } catch (Violation const &e) { what = e.what();
        } catch (std::exception const &e) { what = std::string("unexpected exception: ") + e.what(); }
        if (!what.empty()) { report(what); return 1; }
        if (i < first + 3 && !trace_log.empty()) { std::cout << "SAMPLE " << trace_log.back() << "\n"; }
    }
    std::cout << "OK episodes=" << episodes << " evaluations=" << evals << " nontrivial=" << nontrivial << "\n";
    return 0;
}
