// P01: character-class algebra against a membership oracle, on the real CharClass.
#include "vp.hpp"
#include "CharClass.hpp"
using namespace Centaurus;
typedef std::vector<std::pair<long, long> > RV;

template<class T> CharClass<T> mk(const RV& v)
{
    CharClass<T> c;
    // built range by range through append() of separated ranges is itself under test, so build by direct storage
    for (auto& p : v) c.m_ranges.push_back(Range<T>((T)p.first, (T)p.second));
    return c;
}
static bool in(const RV& v, long c) { for (auto& p : v) if (p.first <= c && c < p.second) return true; return false; }
template<class T> bool inc(const CharClass<T>& k, long c)
{
    for (auto i = k.cbegin(); i != k.cend(); ++i) if ((long)i->start() <= c && c < (long)i->end()) return true;
    return false;
}
static std::string show(const RV& v)
{
    std::string s = "{";
    for (auto& p : v) s += "[" + vp::str(p.first) + "," + vp::str(p.second) + ")";
    return s + "}";
}
template<class T> std::string showc(const CharClass<T>& k)
{
    RV v; for (auto i = k.cbegin(); i != k.cend(); ++i) v.push_back(std::make_pair((long)i->start(), (long)i->end()));
    return show(v);
}
template<class T> bool wf(const CharClass<T>& k)
{
    long e = -1;
    for (auto i = k.cbegin(); i != k.cend(); ++i)
    {
        if (!((long)i->start() < (long)i->end())) return false;
        if (e >= 0 && (long)i->start() < e) return false;
        e = (long)i->end();
    }
    return true;
}
static std::set<long> pts(const RV& a, const RV& b, long maxc)
{
    std::set<long> s; s.insert(0); s.insert(1); s.insert(maxc - 1); s.insert(2);
    for (const RV *v : { &a, &b }) for (auto& p : *v) for (long d = -1; d <= 1; d++) { s.insert(p.first + d); s.insert(p.second + d); }
    std::set<long> r; for (long x : s) if (x >= 0 && x < maxc) r.insert(x);
    return r;
}
template<class T> void unary(const RV& a, const char *tn)
{
    const long maxc = (long)std::numeric_limits<T>::max();
    CharClass<T> A = mk<T>(a);
    vp::cur(std::string(tn) + " " + show(a));
    CharClass<T> N = ~A;
    VP_CHECK(wf(N), "complement is not a canonical list of ranges, got " + showc(N));
    for (long c : pts(a, a, maxc))
    {
        VP_CHECK(A.includes((T)c) == in(a, c), "membership test wrong for " + vp::str(c));
        VP_CHECK(inc(N, c) == (c >= 1 && !in(a, c)), "complement wrong at " + vp::str(c) + ", got " + showc(N));
    }
    VP_CHECK(A.is_epsilon() == a.empty() && (bool)A == !a.empty(), "emptiness test wrong");
    VP_CHECK(A.size() == (int)a.size(), "size wrong");
    for (int i = -1; i <= (int)a.size(); i++)
    {
        Range<T> r = A[i];
        if (i >= 0 && i < (int)a.size()) VP_CHECK((long)r.start() == a[i].first && (long)r.end() == a[i].second, "operator[] wrong");
        else VP_CHECK(r.empty(), "operator[] outside the list is not empty");
    }
    CharClass<T> cp(A), as; as = A;
    VP_CHECK(cp == A && as == A && A == cp, "copy differs");
    std::set<T> bs; A.collect_borders(bs);
    std::set<long> want, got; for (auto& p : a) { want.insert(p.first); want.insert(p.second); }
    for (T x : bs) got.insert((long)x);
    VP_CHECK(got == want, "borders (set) wrong");
    IndexVector iv = A.collect_borders(); std::set<long> g2;
    for (int x : iv) g2.insert(x);
    if ((long)std::numeric_limits<T>::max() <= 0x7fffffff) VP_CHECK(g2 == want, "borders wrong");
    // appending in order rebuilds the class
    CharClass<T> b; for (auto& p : a) b.append(Range<T>((T)p.first, (T)p.second));
    VP_CHECK(wf(b), "append gives a non-canonical list " + showc(b));
    for (long c : pts(a, a, maxc)) VP_CHECK(inc(b, c) == in(a, c), "append loses or gains " + vp::str(c) + ", got " + showc(b));
}
template<class T> void withrange(const RV& a, long s, long e, const char *tn)
{
    const long maxc = (long)std::numeric_limits<T>::max();
    CharClass<T> A = mk<T>(a);
    RV r(1, std::make_pair(s, e));
    vp::cur(std::string(tn) + " " + show(a) + " with range " + show(r));
    Range<T> R((T)s, (T)e);
    CharClass<T> U = A | R, V = A; V |= R;
    VP_CHECK(wf(U), "union with a range is not canonical, got " + showc(U));
    VP_CHECK(wf(V), "in-place union with a range is not canonical, got " + showc(V));
    std::set<long> ps = pts(a, r, maxc);
    for (long c : ps)
    {
        VP_CHECK(inc(U, c) == (in(a, c) || in(r, c)), "union with a range wrong at " + vp::str(c) + ", got " + showc(U));
        VP_CHECK(inc(V, c) == (in(a, c) || in(r, c)), "in-place union with a range wrong at " + vp::str(c));
    }
    bool one = false, all = true;
    for (auto& p : a) if (p.first <= s && e <= p.second) one = true;
    for (long c : ps) if (in(r, c) && !in(a, c)) all = false;
    bool got = A.includes(R);
    if (one) VP_CHECK(got, "range inside one run is not reported as included");
    if (got) VP_CHECK(all, "range reported as included but it is not");
    bool lone = false, ls = false;
    (void)lone; (void)ls;
}
template<class T> void binary(const RV& a, const RV& b, const char *tn)
{
    const long maxc = (long)std::numeric_limits<T>::max();
    CharClass<T> A = mk<T>(a), B = mk<T>(b);
    vp::cur(std::string(tn) + " " + show(a) + " and " + show(b));
    CharClass<T> U = A | B, I = A & B, W = A; W |= B;
    std::array<CharClass<T>, 3> D = A.diff_and_int(B);
    VP_CHECK(wf(U), "union is not canonical, got " + showc(U));
    VP_CHECK(wf(I), "intersection is not canonical, got " + showc(I));
    for (int k = 0; k < 3; k++) VP_CHECK(wf(D[k]), "difference/intersection part " + vp::str(k) + " is not canonical, got " + showc(D[k]));
    bool common = false;
    for (long c : pts(a, b, maxc))
    {
        bool x = in(a, c), y = in(b, c);
        common |= x && y;
        VP_CHECK(inc(U, c) == (x || y), "union wrong at " + vp::str(c) + ", got " + showc(U));
        VP_CHECK(inc(W, c) == (x || y), "in-place union wrong at " + vp::str(c) + ", got " + showc(W));
        VP_CHECK(inc(I, c) == (x && y), "intersection wrong at " + vp::str(c) + ", got " + showc(I));
        VP_CHECK(inc(D[0], c) == (x && !y), "difference wrong at " + vp::str(c) + ", got " + showc(D[0]));
        VP_CHECK(inc(D[1], c) == (!x && y), "reverse difference wrong at " + vp::str(c) + ", got " + showc(D[1]));
        VP_CHECK(inc(D[2], c) == (x && y), "common part wrong at " + vp::str(c) + ", got " + showc(D[2]));
    }
    VP_CHECK(A.overlaps(B) == common, "overlap test wrong");
    VP_CHECK((A == B) == (a == b), "equality wrong");
    if (a == b) VP_CHECK(A.hash() == B.hash() && std::hash<CharClass<T> >()(A) == std::hash<CharClass<T> >()(B), "equal classes hash differently");
}
static void enumerate(const std::vector<long>& p, size_t i, RV& cur, size_t maxn, std::vector<RV>& out)
{
    out.push_back(cur);
    if (cur.size() == maxn) return;
    for (size_t s = i; s < p.size(); s++) for (size_t e = s + 1; e < p.size(); e++)
    {
        cur.push_back(std::make_pair(p[s], p[e]));
        enumerate(p, e, cur, maxn, out);
        cur.pop_back();
    }
}
template<class T> void all(const char *tn, vp::Rng& rng)
{
    const long maxc = (long)std::numeric_limits<T>::max();
    std::vector<long> p = { 0, 1, 2, 3, 5, 6, maxc - 1, maxc };
    std::vector<RV> cs; RV c;
    enumerate(p, 0, c, vp::g_deep ? 4 : 3, cs);
    for (auto& a : cs) unary<T>(a, tn);
    for (auto& a : cs) for (size_t s = 0; s < p.size(); s++) for (size_t e = s + 1; e < p.size(); e++) withrange<T>(a, p[s], p[e], tn);
    std::vector<RV> small; RV d;
    std::vector<long> q = { 0, 1, 2, 4, 5, maxc };
    enumerate(q, 0, d, 3, small);
    for (auto& a : small) for (auto& b : small) binary<T>(a, b, tn);
    auto rnd = [&](int maxn) {
        RV v; long pos = rng.below(4);
        int n = rng.below(maxn + 1);
        for (int i = 0; i < n; i++)
        {
            long s = pos + rng.below(4) * (rng.below(3) ? 1 : 0), e = s + 1 + rng.below(5);
            if (e > maxc) break;
            v.push_back(std::make_pair(s, e)); pos = e;
        }
        return v;
    };
    for (int it = 0; it < (vp::g_deep ? 200000 : 12000); it++)
    {
        RV a = rnd(6), b = rnd(6);
        unary<T>(a, tn); binary<T>(a, b, tn);
        long s = rng.below(30), e = s + 1 + rng.below(12);
        withrange<T>(a, s, e, tn);
    }
    // constructors and constants
    for (long s : p)
    {
        if (s >= maxc) continue;
        vp::cur(std::string(tn) + " constructors " + vp::str(s));
        CharClass<T> one((wchar_t)s);
        for (long x : pts(RV(1, std::make_pair(s, s + 1)), RV(), maxc)) VP_CHECK(inc(one, x) == (x == s), "one-character class wrong at " + vp::str(x));
        for (long e : p) if (s < e)
        {
            CharClass<T> two((wchar_t)s, (wchar_t)e), three(Range<T>((T)s, (T)e));
            for (long x : pts(RV(1, std::make_pair(s, e)), RV(), maxc))
                VP_CHECK(inc(two, x) == (s <= x && x < e) && inc(three, x) == (s <= x && x < e), "interval class wrong at " + vp::str(x));
        }
    }
    for (int i = 0; i < 200; i++)
    {
        wchar_t l[4]; for (auto& c : l) c = rng.below(4) ? (wchar_t)(97 + rng.below(6)) : (wchar_t)p[rng.below(p.size())];
        for (auto& c : l) if ((long)c >= maxc) c = 98;
        vp::cur(std::string(tn) + " list " + vp::str(l[0]) + " " + vp::str(l[1]) + " " + vp::str(l[2]) + " " + vp::str(l[3]));
        CharClass<T> q{l[0], l[1], l[2], l[3]}; RV r; for (auto c : l) r.push_back(std::make_pair((long)c, (long)c + 1));
        VP_CHECK(wf(q), "class of a list is not in canonical form");
        for (long x : pts(r, RV(), maxc)) VP_CHECK(inc(q, x) == (x == l[0] || x == l[1] || x == l[2] || x == l[3]), "class of a list wrong at " + vp::str(x));
    }
    vp::cur(std::string(tn) + " star");
    CharClass<T> st = CharClass<T>::make_star();
    for (long x : pts(RV(), RV(), maxc)) VP_CHECK(inc(st, x), "star misses " + vp::str(x));
    VP_CHECK(CharClass<T>().is_epsilon(), "default class is not empty");
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    vp::Rng rng(vp::g_seed);
    all<char>("char", rng); all<unsigned char>("unsigned char", rng); all<wchar_t>("wchar_t", rng);
    return vp::finish();
}
