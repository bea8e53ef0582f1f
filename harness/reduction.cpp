// P12/P13: the real chunk reduction and combination against a serial reduction of the same trace.
#include "vp.hpp"
#include <vector>
#include <atomic>
#include <thread>
#include <ctime>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#include <iostream>
#include <tuple>
#include <cassert>
static int vp_shm_open(const char *, int, int) { return 77; }
static int vp_ftruncate(int, off_t) { return 0; }
static void *vp_mmap(void *, size_t, int, int, int, off_t) { return (void *)0x1000; }
static int vp_munmap(void *, size_t) { return 0; }
static sem_t g_sem;
static sem_t *vp_sem_open(const char *, int, ...) { return &g_sem; }
#define shm_open vp_shm_open
#define shm_unlink(x) 0
#define ftruncate vp_ftruncate
#define mmap vp_mmap
#define munmap vp_munmap
#define sem_open vp_sem_open
#define sem_close(x) 0
#define sem_unlink(x) 0
#define sem_wait(x) 0
#define sem_post(x) 0
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
using namespace Centaurus;
typedef BaseRunner::WindowBankState St;
typedef BaseRunner::WindowBankEntry Entry;
static bool g_stage3 = true;

struct Call { int id; uint64_t s, e; std::vector<uint64_t> v; bool operator==(const Call& o) const { return id == o.id && s == o.s && e == o.e && v == o.v; } };
static std::string show(const Call& c) { std::ostringstream o; o << "(id " << c.id << " " << c.s << ".." << c.e << " values"; for (auto x : c.v) o << " " << x; o << ")"; return o.str(); }
static std::string show(const std::vector<Call>& v) { std::string s; for (auto& c : v) s += show(c) + " "; return s; }
static int g_zero = 3;     // how often the action returns zero (1 in g_zero, 0: never, -1: always)
static uint64_t action(const Call& c)
{
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](uint64_t x) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; };
    mix(c.id); mix(c.s); mix(c.e); mix(c.v.size()); for (auto x : c.v) mix(x);
    if (g_zero < 0) return 0;
    if (g_zero > 0 && (h >> 7) % g_zero == 0) return 0;
    return h ? h : 1;
}
static std::vector<Call> g_calls;
static long listener(const SymbolEntry *sym, uint64_t *values, int n, void *ctx)
{
    VP_CHECK(ctx == (void *)&g_calls, "the action gets another context");
    VP_CHECK(n >= 0, "negative number of values");
    Call c{ sym->id, (uint64_t)sym->start, (uint64_t)sym->end, {} };
    for (int i = 0; i < n; i++) c.v.push_back(values[i]);
    g_calls.push_back(c);
    return (long)action(c);
}
// ---- trace words
static uint64_t S(int id, uint64_t off) { return (1ull << 63) | ((uint64_t)id << 48) | off; }
static uint64_t E(int id, uint64_t off) { return ((uint64_t)id << 48) | off; }
struct Tok { int kind; uint64_t v; };   // 0 begin, 1 end, 2 value
// the serial reduction: a plain stack machine over tokens, `strict` demands that every end finds its begin
static void serial(std::vector<Tok>& st, const std::vector<Tok>& w, std::vector<Call>& calls)
{
    for (auto& t : w)
    {
        if (t.kind != 1) { st.push_back(t); continue; }
        int b = -1;
        for (int i = (int)st.size() - 1; i >= 0; i--) if (st[i].kind == 0) { b = i; break; }
        if (b < 0) { st.push_back(t); continue; }
        Call c{ (int)((t.v >> 48) & 0x7fff), st[b].v & 0xffffffffffffull, t.v & 0xffffffffffffull, {} };
        for (size_t i = b + 1; i < st.size(); i++) c.v.push_back(st[i].v);
        st.resize(b);
        calls.push_back(c);
        uint64_t r = action(c);
        if (r) st.push_back({ 2, r });
    }
}
static std::vector<Tok> toks(const std::vector<uint64_t>& w) { std::vector<Tok> t; for (auto x : w) t.push_back({ (x >> 63) ? 0 : 1, x }); return t; }
typedef std::tuple<std::vector<CSTMarker>, std::vector<CSTMarker>, std::vector<uint64_t>, std::vector<detail::StackEntryTag>> Stacks;
static void render(Stacks& s, std::vector<Tok>& out)
{
    size_t a = 0, b = 0, c = 0;
    for (auto t : std::get<3>(s))
    {
        int x = (int)t;
        if (x == -1) { VP_CHECK(a < std::get<0>(s).size(), "more begin tags than begin markers"); out.push_back({ 0, std::get<0>(s)[a++].m_value }); }
        else if (x == 0) { VP_CHECK(b < std::get<1>(s).size(), "more end tags than end markers"); out.push_back({ 1, std::get<1>(s)[b++].m_value }); }
        else { VP_CHECK(x > 0, "unknown tag"); for (int i = 0; i < x; i++) { VP_CHECK(c < std::get<2>(s).size(), "more value tags than values"); out.push_back({ 2, std::get<2>(s)[c++] }); } }
    }
    VP_CHECK(a == std::get<0>(s).size() && b == std::get<1>(s).size() && c == std::get<2>(s).size(), "entries without a tag are left");
}
static std::string show(const std::vector<Tok>& w) { std::ostringstream o; for (auto& t : w) o << (t.kind == 0 ? "B" : t.kind == 1 ? "E" : "V") << (t.kind == 2 ? (long)t.v % 10000 : (long)((t.v >> 48) & 0x7fff)) << " "; return o.str(); }

// stage 1 stand-in: gives the end signal once every bank is free again
static std::atomic<Entry *> g_watch(nullptr); static std::atomic<int> g_watch_n(0); static std::atomic<bool> g_stop(false);
static void closer()
{
    while (!g_stop)
    {
        Entry *b = g_watch.load(); if (!b) { std::this_thread::yield(); continue; }
        int n = g_watch_n.load(); bool all = true;
        for (int i = 0; i < n && all; i++) if (b[i].state.load() != St::Free) all = false;
        if (all) { g_watch.store(nullptr); for (int i = 0; i < n; i++) b[i].state.store(St::YouAreDone); }
    }
}
static void run(const std::vector<uint64_t>& w, const std::vector<int>& cuts, int spare, vp::Rng& rng)
{
    std::vector<std::vector<uint64_t>> ch(1);
    { size_t c = 0; for (size_t i = 0; i <= w.size(); i++) { while (c < cuts.size() && cuts[c] == (int)i) { ch.push_back({}); c++; } if (i < w.size()) ch.back().push_back(w[i]); } }
    std::ostringstream o; o << "trace " << show(toks(w)) << "cut at"; for (int c : cuts) o << " " << c; o << " spare words " << spare << " zero " << g_zero;
    vp::cur(o.str());
    size_t cap = 1; for (auto& c : ch) cap = std::max(cap, c.size()); cap += spare;
    std::vector<Tok> st; std::vector<Call> all; serial(st, toks(w), all);
    std::atomic<int> counter(0);
    const int n = (int)ch.size();
    Stage2Runner s2("/dev/null", cap * 8, n, 1, &g_calls, &counter); s2.register_listener(listener);
    Stage3Runner s3("/dev/null", cap * 8, n, 1, &g_calls, &counter); s3.register_listener(listener);
    std::vector<uint64_t> publ;
    std::vector<Call> own, comb;
    std::vector<Tok> left;
    for (auto& c : ch)
    {
        std::vector<Tok> r; std::vector<Call> e; serial(r, toks(c), e);
        uint64_t *bank = new uint64_t[cap];
        for (size_t i = 0; i < cap; i++) bank[i] = i < c.size() ? c[i] : i == c.size() ? 0 : rng.next();
        g_calls.clear();
        s2.reduce_bank(bank);
        VP_CHECK(g_calls == e, ("chunk reduction makes other calls, expected " + show(e) + "got " + show(g_calls)).c_str());
        own.insert(own.end(), e.begin(), e.end());
        Stacks *s = (Stacks *)bank[0];
        std::vector<Tok> got; render(*s, got);
        VP_CHECK(show(got) == show(r), ("what is left of a chunk differs, expected " + show(r) + "got " + show(got)).c_str());
        for (size_t i = 0; i < got.size(); i++) VP_CHECK(got[i].kind == r[i].kind && got[i].v == r[i].v, "what is left of a chunk differs");
        for (size_t i = 1; i < cap; i++) VP_CHECK(bank[i] == (i < c.size() ? c[i] : i == c.size() ? 0 : bank[i]), "chunk words changed");
        publ.push_back(bank[0]); delete[] bank;
        std::vector<Call> x; serial(left, r, x); comb.insert(comb.end(), x.begin(), x.end());
    }
    VP_CHECK(counter == (int)own.size(), "reduction counter differs");
    if (!g_stage3) { for (auto p : publ) delete (Stacks *)p; return; }
    uint64_t *main = new uint64_t[cap * n]; memset(main, 0xa5, cap * n * 8);
    Entry *banks = (Entry *)calloc(n, sizeof(Entry));
    std::vector<int> place(n); for (int i = 0; i < n; i++) place[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(place[i], place[rng.below(i + 1)]);
    for (int i = 0; i < n; i++) { banks[place[i]].number = i; banks[place[i]].state.store(St::Stage2_Unlocked); main[cap * place[i]] = publ[i]; }
    s3.m_main_window = main; s3.m_sub_window = banks; s3.m_current_bank = -1; s3.m_counter = 0;
    g_watch_n = n; g_watch.store(banks);
    g_calls.clear();
    uint64_t res = s3.reduce();
    VP_CHECK(g_calls == comb, ("combination makes other calls, expected " + show(comb) + "got " + show(g_calls)).c_str());
    VP_CHECK(counter == (int)all.size(), "reductions counted do not match the serial pass");
    VP_CHECK(res == (st.empty() ? 0 : st[0].v), "final value differs from the serial one");
    for (int i = 0; i < n; i++) { St z = banks[i].state.load(); VP_CHECK(z == St::YouAreDone || z == St::Free, "a partial result was not consumed"); }
    VP_CHECK(g_watch.load() == nullptr, "combination ended before the end signal");
    // all calls: same instances with the same arguments as the serial pass
    std::vector<Call> both(own); both.insert(both.end(), comb.begin(), comb.end());
    std::vector<char> used(both.size());
    for (auto& c : all) { bool f = false; for (size_t i = 0; i < both.size() && !f; i++) if (!used[i] && both[i] == c) { used[i] = 1; f = true; } VP_CHECK(f, ("serial call missing: " + show(c)).c_str()); }
    VP_CHECK(both.size() == all.size(), "extra calls");
    while (banks[n - 1].state.load() != St::YouAreDone) std::this_thread::yield();
    delete[] main; free(banks);
}
static std::vector<uint64_t> word(unsigned bits, int n, int ids, vp::Rng& r)
{   // bits: balanced bracket sequence
    std::vector<uint64_t> w; std::vector<int> open; uint64_t off = r.below(3);
    for (int i = 0; i < n; i++)
    {
        if (bits >> i & 1) { int id = ids == 0 ? 1 + (int)open.size() % 3 : ids == 1 ? 1 : 1 + r.below(32767); open.push_back(id); w.push_back(S(id, off)); }
        else { w.push_back(E(open.back(), off)); open.pop_back(); }
        off += r.below(3); if (r.below(20) == 0) off += 1ull << (8 + r.below(38)); off &= 0xffffffffffffull;
    }
    return w;
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--chunks-only")) g_stage3 = false;
    std::thread th(closer);
    vp::Rng r(vp::g_seed);
    int maxn = vp::g_deep ? 12 : 10;
    for (int n = 0; n <= maxn && vp::time_left(); n += 2)
        for (unsigned bits = 0; bits < (1u << n); bits++)
        {
            int d = 0, roots = 0; bool ok = true;
            for (int i = 0; i < n && ok; i++) { d += bits >> i & 1 ? 1 : -1; if (d < 0) ok = false; if (d == 0) roots++; }
            if (!ok || d || roots > 1) continue;
            for (unsigned cm = 0; cm < (1u << (n ? n - 1 : 0)); cm++)
            {
                if (n > 8 && !vp::g_deep && (cm * 2654435761u >> 8) % 4) continue;
                std::vector<int> cuts; for (int i = 1; i < n; i++) if (cm >> (i - 1) & 1) cuts.push_back(i);
                g_zero = (int[]){ 3, 0, -1, 2 }[r.below(4)];
                run(word(bits, n, r.below(3), r), cuts, (cm + n) % 3 == 0 ? 0 : 1 + r.below(3), r);
            }
        }
    while (vp::time_left())
    {
        int n = 2 * (1 + r.below(vp::g_deep ? 60 : 30)); unsigned d = 0; std::vector<uint64_t> w; std::vector<int> open; uint64_t off = 0; int deep = r.below(3);
        for (int i = 0; i < n; i++)
        {
            bool b = open.empty() || (int)open.size() < n - i && (r.below(deep == 0 ? 2 : deep == 1 ? 3 : 5) != 0 ? true : open.size() <= 1);
            if (i && open.empty()) break;
            if (b && i == n - 1) b = false;
            if (b) { int id = 1 + r.below(r.below(2) ? 3 : 32767); open.push_back(id); w.push_back(S(id, off)); }
            else { w.push_back(E(open.back(), off)); open.pop_back(); }
            off += r.below(5);
        }
        while (!open.empty()) { w.push_back(E(open.back(), off)); open.pop_back(); off += r.below(2); }
        std::vector<int> cuts; int p = 1 + r.below(6); for (int i = 0; i <= (int)w.size(); i++) { while (r.below(p + 1) == 0 && r.below(3)) { if (i > 0 && i < (int)w.size() && (cuts.empty() || cuts.back() != i)) cuts.push_back(i); else if (r.below(30) == 0 && i > 0) cuts.push_back(i); else break; } }
        g_zero = (int[]){ 3, 0, -1, 2 }[r.below(4)]; (void)d;
        run(w, cuts, r.below(2) * r.below(4), r);
    }
    g_stop = true; th.join();
    return vp::finish();
}
