// P16: the shared windows of the real runners with recording stand-ins for mmap, ftruncate and shm_open.
#include "vp.hpp"
#include <vector>
#include <atomic>
#include <ctime>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#include <iostream>
#include <tuple>
#include <cassert>
struct Map { uint64_t addr, len, off; bool live; };
static std::vector<Map> g_maps; static uint64_t g_size = 0, g_next = 0; static bool g_shm = false; static std::string g_err;
static void *g_sub = 0; static size_t g_sublen = 0;
static int vp_shm_open(const char *, int, int) { g_shm = true; return 77; }
static int vp_shm_unlink(const char *) { return 0; }
static int vp_ftruncate(int fd, off_t n) { if (fd == 77) g_size = n; return 0; }
static void *vp_mmap(void *, size_t len, int, int, int fd, off_t off)
{
    if (fd != 77) return (void *)0x1000;
    if (off % 4096) g_err = "mapping does not start on a page";
    if (!len || off + len > g_size || off + len < len) g_err = "mapping outside the shared object";
    uint64_t a;
    if (off == 0 && len <= (1u << 24)) { free(g_sub); g_sub = calloc(1, len); g_sublen = len; a = (uint64_t)g_sub; }
    else { a = g_next; g_next += len + 4096; }
    g_maps.push_back({ a, len, (uint64_t)off, true });
    return (void *)a;
}
static int vp_munmap(void *p, size_t len)
{
    if ((uint64_t)p == 0x1000) return 0;
    for (auto& m : g_maps) if (m.live && m.addr == (uint64_t)p) { if (m.len != len) g_err = "unmaps another length than was mapped"; m.live = false; return 0; }
    g_err = "unmaps something not mapped"; return 0;
}
static sem_t g_sem;
static sem_t *vp_sem_open(const char *, int, ...) { return &g_sem; }
#define shm_open vp_shm_open
#define shm_unlink vp_shm_unlink
#define ftruncate vp_ftruncate
#define mmap vp_mmap
#define munmap vp_munmap
#define sem_open vp_sem_open
#define sem_close(x) 0
#define sem_unlink(x) 0
#define sem_wait(x) 0
#define sem_post(x) 0
#include "Stage1Runner.hpp"
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
using namespace Centaurus;
typedef BaseRunner::WindowBankState St;
static void parts(BaseRunner& r, uint64_t size, int num)
{
    const uint64_t page = 8 * 1024 * 1024;
    VP_CHECK(g_err.empty(), g_err.c_str());
    unsigned __int128 main = r.get_main_window_size(), sub = r.get_sub_window_size();
    VP_CHECK(main % page == 0 && sub % page == 0, "part is not a multiple of the page size");
    VP_CHECK(main >= (unsigned __int128)size * num, "data part too small for the banks");
    VP_CHECK(sub >= (unsigned __int128)sizeof(BaseRunner::WindowBankEntry) * num, "control part too small");
    VP_CHECK(r.get_window_size() == main + sub, "total is not the sum of the parts");
    VP_CHECK(g_size >= main + sub, "shared object smaller than the parts");
    Map *s = 0, *m = 0;
    for (auto& x : g_maps) { if (x.live && x.addr == (uint64_t)r.m_sub_window) s = &x; if (x.live && x.addr == (uint64_t)r.m_main_window) m = &x; }
    VP_CHECK(s && m && s != m, "parts are not mapped");
    VP_CHECK(s->len == sub && m->len == main, "mapped length differs from the part");
    VP_CHECK(s->off + s->len <= m->off || m->off + m->len <= s->off, "parts overlap in the shared object");
}
template<class R> void banks(R& r, uint64_t size, int num, St from, bool setnum)
{
    auto *b = (BaseRunner::WindowBankEntry *)r.m_sub_window;
    std::vector<uint64_t> got;
    for (int i = 0; i < num; i++) { for (int j = 0; j < num; j++) { b[j].state.store(i == j ? from : St::Stage1_Locked); if (setnum) b[j].number = i == j ? i : -1; }
        uint64_t a = (uint64_t)r.acquire_bank();
        VP_CHECK(a >= (uint64_t)r.m_main_window && a - (uint64_t)r.m_main_window + size <= r.get_main_window_size(), "bank lies outside the data part");
        got.push_back(a); }
    for (int i = 0; i < num; i++) for (int j = 0; j < i; j++) VP_CHECK(got[i] >= got[j] + size || got[j] >= got[i] + size, "banks overlap");
}
int g_banks = 40;
static void config(uint64_t size, int num)
{
    char b[96]; snprintf(b, sizeof b, "bank_size %llu bank_num %d", (unsigned long long)size, num); vp::cur(b);
    g_maps.clear(); g_size = 0; g_err.clear(); g_next = 0x100000000000ull;
    {
        Stage1Runner s1("/dev/null", nullptr, size, num);
        auto shared = g_size;
        parts(s1, size, num);
        if (num <= g_banks) banks(s1, size, num, St::Free, false);
        {
            Stage2Runner s2("/dev/null", size, num, 1); parts(s2, size, num);
            VP_CHECK(g_size == shared, "stages disagree on the size");
            if (num <= g_banks) banks(s2, size, num, St::Stage1_Unlocked, true);
        }
        s1.m_sub_window = (void *)0; (void)s1;
        Stage3Runner s3("/dev/null", size, num, 1); parts(s3, size, num);
        VP_CHECK(g_size == shared, "stages disagree on the size");
        if (num <= g_banks) { s3.m_counter = 0; banks(s3, size, num, St::Stage2_Unlocked, true); }
        for (auto& m : g_maps) if (m.off == 0) { s1.m_sub_window = (void *)m.addr; break; }
    }
    VP_CHECK(g_err.empty(), g_err.c_str());
    for (auto& m : g_maps) VP_CHECK(!m.live, "part still mapped at the end");
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    const uint64_t P = 8 * 1024 * 1024;
    for (int num : { 1, 2, 3, 4, 7, 8, 16, 33 })
        for (uint64_t size : { (uint64_t)1, (uint64_t)2, (uint64_t)8, (uint64_t)4095, (uint64_t)4096, P / 2, P / 2 + 1, P - 8, P - 1, P, P + 1, P + 8, 2 * P - 1, 2 * P, 2 * P + 1, 3 * P + 5, (uint64_t)1 << 31, ((uint64_t)1 << 32) - 1, ((uint64_t)1 << 32), ((uint64_t)1 << 32) + 1, (uint64_t)1 << 36 })
            config(size, num);
    for (int num : { 1000, 1048575, 1048576, 1048577, 2097151, 2097152 }) config(8, num);
    vp::Rng r(vp::g_seed); long n = vp::g_deep ? 200000 : 2000;
    for (long i = 0; i < n && vp::time_left(); i++) { int k = 1 + r.below(38); config(1 + r.next() % (1ull << (1 + k)), 1 + r.below(24)); }
    return vp::finish();
}
