// P10: names, paths, priority chains and closure elements against the laws they must satisfy.
#include "vp.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
using namespace Centaurus;
typedef std::wstring W;
typedef std::pair<W, int> St;
typedef std::vector<St> Pv;
struct El { W id; int ix; int pr; };
typedef std::vector<El> Cv;
static std::string show(const Pv& p) { std::string s = "/"; for (auto& x : p) s += vp::narrow(x.first) + "." + vp::str(x.second) + "/"; return s; }
static std::string show(const Cv& p) { std::string s = "{"; for (auto& x : p) s += vp::narrow(x.id) + ":" + vp::str(x.ix) + "=" + vp::str(x.pr) + " "; return s + "}"; }
static ATNPath mk(const Pv& p) { ATNPath r; for (auto& x : p) r.push(Identifier(x.first), x.second); return r; }
static PriorityChain mkc(const Cv& c) { PriorityChain r; for (auto& x : c) r.push(Identifier(x.id), x.ix, x.pr); return r; }
static int refcmp(const Pv& p, const Pv& q)
{
    if (p.size() != q.size()) return p.size() < q.size() ? -1 : 1;
    for (size_t i = 0; i < p.size(); i++)
    {
        if (p[i].first != q[i].first) return std::lexicographical_compare(p[i].first.begin(), p[i].first.end(), q[i].first.begin(), q[i].first.end()) ? -1 : 1;
        if (p[i].second != q[i].second) return p[i].second < q[i].second ? -1 : 1;
    }
    return 0;
}
static int refchain(const Cv& p, const Cv& q)
{
    for (size_t i = 0; i < p.size() && i < q.size(); i++)
        if (p[i].id == q[i].id && p[i].ix == q[i].ix && p[i].pr != q[i].pr) return p[i].pr < q[i].pr ? -1 : 1;
    return 0;
}
static int sg(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
static bool same(const ATNPath& a, const Pv& p)
{
    if (a.size() != p.size()) return false;
    for (size_t i = 0; i < p.size(); i++) if (a[i].first.str() != p[i].first || a[i].second != p[i].second) return false;
    return true;
}
static void unary(const Pv& p)
{
    vp::cur("path " + show(p));
    ATNPath a = mk(p);
    VP_CHECK(same(a, p) && a.depth() == (int)p.size(), "push() built a different path");
    VP_CHECK(same(ATNPath(a), p), "copy differs");
    const W N[] = { L"A", L"AB", L"B" };
    for (auto& n : N) for (int i = -1; i < 3; i++)
    {
        Pv q = p; q.push_back(St(n, i));
        ATNPath b = a.add(Identifier(n), i);
        VP_CHECK(same(b, q) && same(a, p), "add() is not the path extended by one step");
        VP_CHECK(same(b.parent_path(), p), "parent_path() of the extended path is not the path");
        VP_CHECK(b.leaf_index() == i && b.leaf_id().str() == n && b.leaf().second == i, "leaf of the extended path is not the added step");
        int c = 0; for (auto& x : p) c += x.first == n && x.second == i;
        VP_CHECK(a.count(Identifier(n), i) == c, "count() is not the number of occurrences");
        VP_CHECK(a.find(Identifier(n), i) == (c > 0), "find() is wrong");
        if (!p.empty())
        {
            Pv r = p; r.back().second = i;
            VP_CHECK(same(a.replace_index(i), r) && same(a, p), "replace_index() changes something else than the last index");
        }
    }
    if (!p.empty()) { ATNPath b = a; b.pop(); Pv q = p; q.pop_back(); VP_CHECK(same(b, q), "pop() does not drop the last step"); }
}
static void binary(const Pv& p, const Pv& q)
{
    vp::cur("paths " + show(p) + " and " + show(q));
    ATNPath a = mk(p), b = mk(q);
    int c = refcmp(p, q);
    VP_CHECK(sg(a.compare(b)) == c, "compare() has the wrong sign");
    VP_CHECK((a == b) == (c == 0), "== is not element-wise equality");
    VP_CHECK(std::equal_to<ATNPath>()(a, b) == (c == 0), "equal_to is not element-wise equality");
    if (c == 0) VP_CHECK(a.hash() == b.hash() && std::hash<ATNPath>()(a) == std::hash<ATNPath>()(b), "equal paths hash differently");
    for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++)
    {
        CATNClosureElement x(a, k + 1), y(b, l + 1, PriorityChain(L"A", 1, 2));
        VP_CHECK((x < y) == (c < 0 || (c == 0 && k < l)), "closure elements are not ordered by path, then colour");
        VP_CHECK((x == y) == (c == 0 && k == l), "closure element equality is wrong");
        std::pair<ATNPath, int> u(a, k), v(b, l);
        VP_CHECK((std::equal_to<std::pair<ATNPath, int> >()(u, v)) == (c == 0 && k == l), "equality of (path, colour) is wrong");
        if (c == 0 && k == l) VP_CHECK((std::hash<std::pair<ATNPath, int> >()(u) == std::hash<std::pair<ATNPath, int> >()(v)), "equal (path, colour) pairs hash differently");
    }
}
static void chains(const Cv& p, const Cv& q)
{
    vp::cur("chains " + show(p) + " and " + show(q));
    PriorityChain a = mkc(p), b = mkc(q);
    int c = refchain(p, q);
    VP_CHECK(a.is_superior_to(b) == (c < 0), "superiority is not decided by the first differing decision");
    VP_CHECK(a.is_inferior_to(b) == (c > 0), "inferiority is not decided by the first differing decision");
    VP_CHECK(b.is_inferior_to(a) == a.is_superior_to(b), "superior and inferior are not converse");
    VP_CHECK(!(a.is_superior_to(b) && b.is_superior_to(a)), "two chains are superior to each other");
}
static void names(const W& s, const W& t)
{
    vp::cur("names \"" + vp::narrow(s) + "\" and \"" + vp::narrow(t) + "\"");
    Identifier a(s), b(t);
    VP_CHECK((a == b) == (s == t), "name equality is not equality of the texts");
    VP_CHECK(std::equal_to<Identifier>()(a, b) == (s == t), "equal_to on names is wrong");
    VP_CHECK((a == t) == (s == t), "name and text equality is wrong");
    VP_CHECK((a == t.c_str()) == (s == t), "name and text equality is wrong");
    VP_CHECK((bool)a == !s.empty(), "emptiness of a name is wrong");
    if (s == t) VP_CHECK(std::hash<Identifier>()(a) == std::hash<Identifier>()(b), "equal names hash differently");
    Identifier c(a), d; d = a; Identifier e(std::move(c)); c = b; VP_CHECK(d.str() == s && e.str() == s && c.str() == t && a.str() == s, "copying or moving a name changes it");
}
static void classes(vp::Rng& r)
{
    // the same set of characters built in different orders: equal classes must hash equally
    int n = 1 + r.below(4); std::vector<std::pair<int, int> > v; int at = 1;
    for (int i = 0; i < n; i++) { int s = at + r.below(9) + 1, e = s + 1 + r.below(9); v.push_back(std::make_pair(s, e)); at = e; }
    std::string t; for (auto& x : v) t += "[" + vp::str(x.first) + "," + vp::str(x.second) + ")";
    vp::cur("class " + t);
    CharClass<char> a, b, c;
    for (auto& x : v) a |= Range<char>(x.first, x.second);
    for (size_t i = v.size(); i-- > 0;) b |= Range<char>(v[i].first, v[i].second);
    c = ~~a;
    VP_CHECK(a == b && b == a, "the same class built in another order is not equal");
    VP_CHECK(a.hash() == b.hash() && std::hash<CharClass<char> >()(a) == std::hash<CharClass<char> >()(b), "equal classes hash differently");
    if (a == c) VP_CHECK(a.hash() == c.hash(), "equal classes hash differently");
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    const W N[] = { L"A", L"AB", L"B", L"" };
    std::vector<Pv> ps; ps.push_back(Pv());
    { std::vector<St> st; for (int i = 0; i < 4; i++) for (int k = -1; k < 2; k++) st.push_back(St(N[i], k));
      for (auto& s : st) ps.push_back(Pv(1, s));
      for (auto& s : st) for (auto& t : st) { Pv p; p.push_back(s); p.push_back(t); ps.push_back(p); } }
    for (auto& p : ps) unary(p);
    for (auto& p : ps) for (auto& q : ps) binary(p, q);
    std::vector<Cv> cs; cs.push_back(Cv());
    { std::vector<El> el; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) for (int p = 0; p < 3; p++) el.push_back(El{ i ? L"B" : L"A", k, p });
      for (auto& s : el) cs.push_back(Cv(1, s));
      for (auto& s : el) for (auto& t : el) { Cv c; c.push_back(s); c.push_back(t); cs.push_back(c); } }
    for (auto& p : cs) for (auto& q : cs) chains(p, q);
    const W T[] = { L"", L"A", L"a", L"AB", L"B", L"_x1", L"ABC", L"\x1234", L"A\x1234" };
    for (auto& s : T) for (auto& t : T) names(s, t);
    vp::Rng r(vp::g_seed);
    long lim = vp::g_deep ? 2000000 : 60000;
    for (long k = 0; k < lim && vp::time_left(); k++)
    {
        auto rp = [&](const Pv *base) { Pv p; if (base && r.below(3)) { p = *base; int m = r.below(3); while (m-- > 0) { if (p.empty() || r.below(2)) p.push_back(St(N[r.below(4)], r.below(4) - 1)); else if (r.below(2)) p[r.below(p.size())].second += r.below(3) - 1; else p[r.below(p.size())].first = N[r.below(4)]; } } else { int n = r.below(6); while (n-- > 0) p.push_back(St(N[r.below(4)], r.below(1 << r.below(30)))); } return p; };
        Pv p = rp(0), q = rp(&p), s = rp(&q);
        binary(p, q); binary(q, s); binary(p, s); unary(p);
        auto rc = [&](const Cv *base) { Cv c; if (base && r.below(4)) { c = *base; for (int m = r.below(3); m >= 0 && !c.empty(); m--) { El& e = c[r.below(c.size())]; if (r.below(4)) e.pr = r.below(4); else e.ix = r.below(3); } if (r.below(3) == 0) c.push_back(El{ N[r.below(3)], r.below(3), r.below(4) }); } else { int n = r.below(6); while (n-- > 0) c.push_back(El{ N[r.below(3)], r.below(3), r.below(4) }); } return c; };
        Cv a = rc(0), b = rc(&a); chains(a, b); chains(b, a);
        vp::cur("chain " + show(a) + " extended");
        PriorityChain x = mkc(a), y = x.add(Identifier(L"Q"), 3, 1), z = x.add(Identifier(L"Q"), 3, 2);
        VP_CHECK(y.is_superior_to(z) && z.is_inferior_to(y) && !x.is_superior_to(y) && !x.is_inferior_to(y), "extending a chain does not append the decision");
        classes(r);
    }
    return vp::finish();
}
