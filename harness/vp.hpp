// Support for the concrete harnesses: they run the real code from /repo and stop at the first failing input.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <random>
#include <csignal>
#include <unistd.h>
#include <functional>
#include <chrono>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
namespace vp
{
static char g_cur[4096] = "(start)";
static volatile bool g_done = false;
static long g_cases = 0;
static bool g_deep = false;
static unsigned g_seed = 1;
static double g_budget = 10;
static std::chrono::steady_clock::time_point g_t0;
inline void cur(const std::string& s)
{
    size_t n = s.size() < sizeof(g_cur) - 1 ? s.size() : sizeof(g_cur) - 1;
    memcpy(g_cur, s.data(), n); g_cur[n] = 0; g_cases++;
}
inline void out(const char *s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
inline void report(const char *kind)
{
    if (g_done) return;
    g_done = true;
    out("\nFAIL "); out(kind); out(": input "); out(g_cur); out("\n");
}
inline void death() { report("crash (sanitizer report)"); }
inline void onsig(int s)
{
    char b[64]; snprintf(b, sizeof b, s == SIGALRM ? "hang (no result within the time limit)" : "crash (signal %d)", s);
    report(b); _exit(1);
}
inline void watch(unsigned secs) { alarm(secs); }
inline void fail(const std::string& msg)
{
    if (!g_done) { g_done = true; fflush(stdout); out("\nFAIL "); out(msg.c_str()); out(": input "); out(g_cur); out("\n"); }
    _exit(1);
}
inline bool time_left() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count() < g_budget; }
inline void init(int argc, char **argv)
{
    g_t0 = std::chrono::steady_clock::now();
    for (int i = 1; i < argc; i++)
    {
        if (!strcmp(argv[i], "--deep")) g_deep = true;
        if (!strncmp(argv[i], "--seed=", 7)) g_seed = (unsigned)atoi(argv[i] + 7);
        if (!strncmp(argv[i], "--budget=", 9)) g_budget = atof(argv[i] + 9);
    }
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
    sigaction(SIGALRM, &sa, 0); sigaction(SIGABRT, &sa, 0);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(death);
#else
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGBUS, &sa, 0);
#endif
    setvbuf(stdout, 0, _IOLBF, 0);
    watch(120);
}
inline int finish() { if (!g_done) { g_done = true; fflush(stdout); printf("OK cases=%ld\n", g_cases); fflush(stdout); } _exit(0); }
template<class A> std::string str(const A& a) { std::ostringstream o; o << a; return o.str(); }
inline std::string narrow(const std::wstring& w)
{
    std::string s;
    for (wchar_t c : w) { if (c >= 32 && c < 127 && c != '\\') s += (char)c; else { char b[16]; snprintf(b, sizeof b, "\\u%04x", (unsigned)c); s += b; } }
    return s;
}
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
};
}
#define VP_CHECK(c, msg) do { if (!(c)) vp::fail(msg); } while (0)
