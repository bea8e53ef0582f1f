// P14: the real runners of all three stages under a controlled scheduler.  Every operation on an atomic, every semaphore
// operation, every word the parser writes and every action call is a point where another stage may be scheduled.
#include "vp.hpp"
#include <vector>
#include <deque>
#include <atomic>
#include <ctime>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#include <ucontext.h>
#include <iostream>
#include <tuple>
#include <memory>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <algorithm>
#include <cassert>
#include <sanitizer/common_interface_defs.h>

// ---- the scheduler
struct Fiber { ucontext_t uc; char *stack; void *fake; int role, no; bool done, blocked, started; void *(*fn)(void *); void *arg; };
static std::vector<Fiber *> g_f; static Fiber *g_me = 0; static ucontext_t g_main; static void *g_mainfake; static const void *g_mainstack; static size_t g_mainsize;
static const size_t STK = 1 << 18;
static vp::Rng *g_rng; static long g_steps, g_limit; static int g_mode, g_hold, g_sem, g_victim;
static std::vector<char *> g_stacks;
static void yield()
{
    if (!g_me) return;
    Fiber *me = g_me;
    if (g_hold > 0) { g_hold--; return; }
    __sanitizer_start_switch_fiber(&me->fake, g_mainstack, g_mainsize);
    swapcontext(&me->uc, &g_main);
    __sanitizer_finish_switch_fiber(me->fake, 0, 0);
}
static void entry()
{
    Fiber *me = g_me;
    __sanitizer_finish_switch_fiber(0, &g_mainstack, &g_mainsize);
    me->fn(me->arg);
    me->done = true;
    __sanitizer_start_switch_fiber(0, g_mainstack, g_mainsize);
    swapcontext(&me->uc, &g_main);
}
static void resume(Fiber *f)
{
    g_me = f;
    if (!f->started)
    {
        f->started = true; getcontext(&f->uc);
        if (g_stacks.empty()) g_stacks.push_back((char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        f->stack = g_stacks.back(); g_stacks.pop_back();
        f->uc.uc_stack.ss_sp = f->stack; f->uc.uc_stack.ss_size = STK; f->uc.uc_link = 0;
        makecontext(&f->uc, entry, 0);
    }
    __sanitizer_start_switch_fiber(&g_mainfake, f->stack, STK);
    swapcontext(&g_main, &f->uc);
    __sanitizer_finish_switch_fiber(g_mainfake, 0, 0);
    g_me = 0;
    if (f->done && f->stack) { g_stacks.push_back(f->stack); f->stack = 0; }
}
// ---- the monitor
static char *g_sub; static uint64_t *g_data; static size_t g_entry, g_stateoff; static int g_nb; static size_t g_words; static bool g_dry;
static std::vector<int> g_st, g_own, g_seq; static int g_published, g_taken, g_freed, g_b1, g_b3; static bool g_fin;
static int bank_of(const void *p) { if (!g_sub || (char *)p < g_sub || (char *)p >= g_sub + g_entry * g_nb) return -1; return (int)(((char *)p - g_sub) / g_entry); }
static void move(const void *p, int o, int n)
{
    int b = bank_of(p); if (b < 0 || !g_me) return;
    std::ostringstream w; w << "stage " << g_me->role << (g_me->role == 2 ? " worker " + std::to_string(g_me->no) : "") << " moves bank " << b << " from state " << o << " to " << n << " after " << g_steps << " steps: ";
    auto bad = [&](const char *m) { vp::fail(w.str() + m); };
    if (g_st[b] != o) bad("the state was changed behind an atomic");
    int me = g_me->no;
    if (g_me->role == 1)
    {
        if (o == 0 && n == 0) return;
        if (o == 0 && n == 1) { if (g_fin) bad("after the end signal"); if (g_b1 >= 0) bad("stage 1 already holds a bank"); g_b1 = b; }
        else if (o == 1 && n == 2) { if (g_dry) bad("a dry run publishes"); g_b1 = -1; g_seq[b] = g_published++; }
        else if (o == 1 && n == 0) { if (!g_dry) bad("a written chunk is thrown away"); g_b1 = -1; }
        else if ((o == 0 || o == 6) && n == 6) { for (int i = 0; i < g_nb; i++) if (g_st[i] != 0 && g_st[i] != 6) bad("the end signal is given before all banks are free"); g_fin = true; }
        else bad("not a move of stage 1");
    }
    else if (g_me->role == 2)
    {
        if (o == 2 && n == 3) { for (int i = 0; i < g_nb; i++) if (g_st[i] == 3 && g_own[i] == me) bad("the worker already holds a bank"); g_own[b] = me; }
        else if (o == 3 && n == 4) { if (g_own[b] != me) bad("the worker does not hold this bank"); }
        else bad("not a move of stage 2");
    }
    else
    {
        if (o == 4 && n == 5) { if (g_b3 >= 0) bad("stage 3 already holds a bank"); if (g_seq[b] != g_taken) bad("chunks are not taken in the order they were written"); g_taken++; g_b3 = b; }
        else if (o == 5 && n == 0) { if (g_b3 != b) bad("stage 3 does not hold this bank"); g_b3 = -1; g_freed++; }
        else bad("not a move of stage 3");
    }
    g_st[b] = n;
}
namespace std
{
template<class T> struct vp_atomic
{
    T v;
    vp_atomic() noexcept : v() {}
    constexpr vp_atomic(T x) noexcept : v(x) {}
    vp_atomic(const vp_atomic&) = delete; vp_atomic& operator=(const vp_atomic&) = delete;
    T set(T x) { T o = v; ::move(this, (int)o, (int)x); v = x; return o; }
    T load(std::memory_order = std::memory_order_seq_cst) const { ::yield(); T r = v; ::yield(); return r; }
    void store(T x, std::memory_order = std::memory_order_seq_cst) { ::yield(); set(x); ::yield(); }
    T exchange(T x, std::memory_order = std::memory_order_seq_cst) { ::yield(); T o = set(x); ::yield(); return o; }
    bool cas(T& e, T x, bool weak)
    {
        ::yield(); bool r = false;
        if (v == e) { if (!(weak && ::g_rng && ::g_rng->below(8) == 0)) { set(x); r = true; } } else e = v;
        ::yield(); return r;
    }
    bool compare_exchange_weak(T& e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) { return cas(e, x, true); }
    bool compare_exchange_strong(T& e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) { return cas(e, x, false); }
    bool is_lock_free() const { return true; }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    T fetch_add(T d, std::memory_order = std::memory_order_seq_cst) { ::yield(); T o = v; v = o + d; ::yield(); return o; }
    T fetch_sub(T d, std::memory_order = std::memory_order_seq_cst) { ::yield(); T o = v; v = o - d; ::yield(); return o; }
    T operator++() { return fetch_add(1) + 1; } T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; } T operator--(int) { return fetch_sub(1); }
    T operator+=(T d) { return fetch_add(d) + d; } T operator-=(T d) { return fetch_sub(d) - d; }
};
template<class T> T atomic_load(const vp_atomic<T> *a) { return a->load(); }
template<class T> T atomic_load_explicit(const vp_atomic<T> *a, std::memory_order) { return a->load(); }
template<class T> void atomic_store(vp_atomic<T> *a, T x) { a->store(x); }
template<class T> void atomic_store_explicit(vp_atomic<T> *a, T x, std::memory_order) { a->store(x); }
template<class T> T atomic_exchange(vp_atomic<T> *a, T x) { return a->exchange(x); }
template<class T> bool atomic_compare_exchange_weak(vp_atomic<T> *a, T *e, T x) { return a->cas(*e, x, true); }
template<class T> bool atomic_compare_exchange_strong(vp_atomic<T> *a, T *e, T x) { return a->cas(*e, x, false); }
}
// ---- the environment
static int vp_shm_open(const char *, int, int) { return 77; }
static int vp_ftruncate(int, off_t) { return 0; }
static size_t g_sublen;
static void *vp_mmap(void *, size_t len, int, int, int fd, off_t off) { if (fd != 77) return (void *)0x1000; if (off == 0) { g_sublen = len; return g_sub; } return g_data; }
static int vp_munmap(void *, size_t) { return 0; }
static sem_t g_semobj;
static sem_t *vp_sem_open(const char *, int, ...) { return &g_semobj; }
static int vp_sem_wait(sem_t *) { yield(); while (g_sem <= 0) { if (!g_me) return 0; g_me->blocked = true; g_hold = 0; yield(); } g_me->blocked = false; g_sem--; yield(); return 0; }
static int vp_sem_post(sem_t *) { yield(); g_sem++; for (auto f : g_f) f->blocked = false; yield(); return 0; }
static int vp_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    Fiber *f = new Fiber(); f->fn = fn; f->arg = arg; f->role = 0; f->no = (int)g_f.size(); f->done = f->blocked = f->started = false; f->stack = 0; f->fake = 0;
    *t = (pthread_t)(g_f.size() + 1); g_f.push_back(f); return 0;
}
#define shm_open vp_shm_open
#define shm_unlink(x) 0
#define ftruncate vp_ftruncate
#define mmap vp_mmap
#define munmap vp_munmap
#define sem_open vp_sem_open
#define sem_close(x) 0
#define sem_unlink(x) 0
#define sem_wait vp_sem_wait
#define sem_post vp_sem_post
#define pthread_create vp_pthread_create
#define pthread_join(a, b) 0
#define atomic vp_atomic
#include "Stage1Runner.hpp"
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
#undef atomic
#undef mmap
using namespace Centaurus;
typedef BaseRunner::WindowBankEntry Entry;

// ---- trace and action (a serial reference, as in reduction.cpp)
struct Call { int id; uint64_t s, e; std::vector<uint64_t> v; bool operator<(const Call& o) const { return std::tie(id, s, e, v) < std::tie(o.id, o.s, o.e, o.v); } bool operator==(const Call& o) const { return std::tie(id, s, e, v) == std::tie(o.id, o.s, o.e, o.v); } };
static uint64_t action(const Call& c)
{
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](uint64_t x) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; };
    mix(c.id); mix(c.s); mix(c.e); mix(c.v.size()); for (auto x : c.v) mix(x);
    return (h >> 7) % 4 == 0 ? 0 : h | 1;
}
static std::vector<Call> g_calls;
static long listener(const SymbolEntry *sym, uint64_t *values, int n, void *)
{
    yield();
    Call c{ (int)sym->id, (uint64_t)sym->start, (uint64_t)sym->end, {} };
    for (int i = 0; i < n; i++) c.v.push_back(values[i]);
    g_calls.push_back(c);
    yield();
    return (long)action(c);
}
struct Tok { int kind; uint64_t v; };
static void serial(std::vector<Tok>& st, const std::vector<uint64_t>& w, std::vector<Call>& calls)
{
    for (uint64_t x : w)
    {
        if (x >> 63) { st.push_back({ 0, x }); continue; }
        int b = -1;
        for (int i = (int)st.size() - 1; i >= 0; i--) if (st[i].kind == 0) { b = i; break; }
        if (b < 0) { st.push_back({ 1, x }); continue; }
        Call c{ (int)((x >> 48) & 0x7fff), st[b].v & 0xffffffffffffull, x & 0xffffffffffffull, {} };
        for (size_t i = b + 1; i < st.size(); i++) c.v.push_back(st[i].v);
        st.resize(b); calls.push_back(c);
        uint64_t r = action(c); if (r) st.push_back({ 2, r });
    }
}
struct Feeder : IParser
{
    std::vector<std::vector<uint64_t>> ch;
    const void *operator()(BaseListener *c, const void *input) override
    {
        for (size_t k = 0; k < ch.size(); k++)
        {
            uint64_t *p = (uint64_t *)c->feed_callback();
            if (g_b1 < 0) vp::fail("stage 1 hands out a bank it does not hold");
            if (p != g_data + g_words * g_b1) vp::fail("stage 1 hands out the place of another bank");
            for (size_t i = 0; i < g_words; i++) { p[i] = i < ch[k].size() ? ch[k][i] : i == ch[k].size() ? 0 : 0xdeadbeefdeadbeefull; if (i < ch[k].size() || i < 2) yield(); }
        }
        return input;
    }
};
static void run(const std::vector<uint64_t>& w, int maxlen, int nb, int workers, bool dry, bool capture, vp::Rng& rng)
{
    Feeder fd; fd.ch.resize(1);
    for (uint64_t x : w) { if ((int)fd.ch.back().size() >= maxlen || (!fd.ch.back().empty() && rng.below(3) == 0)) fd.ch.push_back({}); fd.ch.back().push_back(x); }
    g_words = maxlen + rng.below(2); g_nb = nb; g_dry = dry; g_sem = 0; g_hold = 0; g_steps = 0; g_published = g_taken = g_freed = 0; g_b1 = g_b3 = -1; g_fin = false;
    g_entry = sizeof(Entry);
    g_st.assign(nb, 0); g_own.assign(nb, -1); g_seq.assign(nb, -1);
    memset(g_sub, 0, g_entry * nb); for (size_t i = 0; i < g_words * nb; i++) g_data[i] = 0xa5a5a5a5a5a5a5a5ull;
    g_mode = rng.below(5); g_victim = rng.below(workers + 2); const uint64_t sched = rng.next();
    std::ostringstream o; o << fd.ch.size() << " chunks of"; for (auto& c : fd.ch) o << " " << c.size(); o << " words, " << nb << " banks of " << g_words << " words, " << workers << " workers" << (dry ? ", dry run" : "") << ", schedule " << sched << " mode " << g_mode << " victim " << g_victim;
    vp::cur(o.str());
    vp::Rng sr(sched); g_rng = &sr;
    g_calls.clear();
    for (auto f : g_f) delete f; g_f.clear();
    std::unique_ptr<Stage1Runner> s1(new Stage1Runner("/dev/null", &fd, g_words * 8, nb, dry, capture));
    std::vector<std::unique_ptr<Stage2Runner>> s2; std::unique_ptr<Stage3Runner> s3;
    s1->start(); g_f[0]->role = 1;
    if (!dry)
    {
        for (int i = 0; i < workers; i++) { s2.emplace_back(new Stage2Runner("/dev/null", g_words * 8, nb, 1)); s2.back()->register_listener(listener); s2.back()->start(); g_f.back()->role = 2; }
        s3.reset(new Stage3Runner("/dev/null", g_words * 8, nb, 1)); s3->register_listener(listener); s3->start(); g_f.back()->role = 3;
    }
    g_limit = 400000 + 4000L * (long)w.size();
    Fiber *last = 0;
    while (true)
    {
        std::vector<Fiber *> run; for (auto f : g_f) if (!f->done && !f->blocked) run.push_back(f);
        if (run.empty()) break;
        if (++g_steps > g_limit) vp::fail("no progress: a chunk or the end signal is never delivered");
        Fiber *n = run[sr.below((int)run.size())];
        if (g_mode == 1 && last && !last->done && !last->blocked && sr.below(6)) n = last;
        if (g_mode == 2 && n == g_f[std::min<size_t>(g_victim, g_f.size() - 1)] && sr.below(40)) n = run[sr.below((int)run.size())];
        if (g_mode == 3) g_hold = sr.below(5);
        if (g_mode == 4) { g_hold = sr.below(12) == 0 ? 40 : 0; }
        last = n; resume(n);
    }
    g_rng = 0;
    VP_CHECK(g_f[0]->done, "stage 1 never ends");
    for (int i = 0; i < nb; i++) VP_CHECK(g_st[i] == 6, "stage 1 ends without the end signal on every bank");
    if (dry) VP_CHECK(g_calls.empty(), "a dry run reduces");
    else
    {
        VP_CHECK(g_f.back()->done, "stage 3 never ends");
        VP_CHECK(g_published == (int)fd.ch.size(), "the number of chunks published differs from the number written");
        VP_CHECK(g_taken == g_published && g_freed == g_published, "a chunk is not combined exactly once");
        std::vector<Tok> st; std::vector<Call> all; serial(st, w, all);
        std::sort(all.begin(), all.end()); std::sort(g_calls.begin(), g_calls.end());
        VP_CHECK(all == g_calls, "the reductions differ from a serial pass: a bank was touched by a stage that did not own it");
        int stuck = 0; for (auto f : g_f) if (!f->done) stuck++;
        VP_CHECK(stuck <= (workers > nb ? workers - nb : 0), "a worker never gets the end signal");
    }
    if (capture)
    {
        auto& rc = s1->result_chunks();
        VP_CHECK(rc.size() == fd.ch.size(), "captured chunks differ in number");
        for (size_t k = 0; k < rc.size(); k++) { VP_CHECK(rc[k].size() == g_words, "captured chunk has another size"); for (size_t i = 0; i < fd.ch[k].size(); i++) VP_CHECK(rc[k][i].m_value == fd.ch[k][i], "captured chunk differs"); delete[] (char *)rc[k].ptr; }
    }
    for (auto f : g_f) if (f->stack) { g_stacks.push_back(f->stack); f->stack = 0; }
}
static uint64_t S(int id, uint64_t off) { return (1ull << 63) | ((uint64_t)id << 48) | off; }
static uint64_t E(int id, uint64_t off) { return ((uint64_t)id << 48) | off; }
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    vp::Rng r(vp::g_seed);
    g_sub = (char *)calloc(1, 4096); g_data = (uint64_t *)calloc(8, 4096);
    while (vp::time_left())
    {
        alarm(60);
        int n = 1 + r.below(vp::g_deep ? 12 : 8); std::vector<uint64_t> w; std::vector<int> open; uint64_t off = 0;
        for (int begun = 0; begun < n || !open.empty();)
        {
            bool b = begun == 0 || (begun < n && !open.empty() && r.below(2)) ;
            if (!b && open.size() == 1 && begun < n) b = true;
            if (b) { int id = 1 + r.below(9); open.push_back(id); begun++; w.push_back(S(id, off)); } else { w.push_back(E(open.back(), off)); open.pop_back(); }
            off++;
        }
        bool dry = r.below(12) == 0;
        run(w, 1 + r.below(4), 1 + r.below(4), 1 + r.below(4), dry, r.below(6) == 0, r);
    }
    return vp::finish();
}
