// P02: the bracket notation of character classes against an independent reading of it.
#include "vp.hpp"
#include <stdexcept>
#include "CharClass.hpp"
using namespace Centaurus;
typedef std::wstring W;
struct Item { long lo, hi; };
// what the text written after the opening bracket means; false: not well-formed
struct Note { bool neg = false; std::vector<Item> items; size_t end = 0; };
static wchar_t rd(const W& s, size_t& i)
{
    if (i >= s.size()) return 0;
    wchar_t c = s[i++];
    if (c == L'\r') { if (i >= s.size()) return L'\n'; if (s[i] == L'\n') { i++; return L'\n'; } }
    return c;
}
static bool token(const W& s, size_t& i, wchar_t& c)   // one written character; not ']', not a bare '-'
{
    size_t k = i; c = rd(s, k);
    if (c == 0 || c == 0xFFFF || c == L']' || c == L'-') return false;
    if (c == L'\\')
    {
        c = rd(s, k);
        if (c == L't' || c == L'T') c = L'\t'; else if (c == L'r' || c == L'R') c = L'\r'; else if (c == L'n' || c == L'N') c = L'\n';
        else if (!(c == L'\\' || c == L'-' || c == L'[' || c == L']')) return false;
    }
    i = k; return true;
}
static bool read_note(const W& s, Note& n)
{
    size_t i = 0, k = 0;
    if (rd(s, k) == L'^') { n.neg = true; i = k; }
    while (true)
    {
        size_t j = i;
        if (rd(s, j) == L']') { n.end = j; return true; }
        wchar_t a, b; if (!token(s, i, a)) return false;
        j = i;
        if (rd(s, j) != L'-') { n.items.push_back(Item{a, a}); continue; }
        if (!token(s, j, b) || b < a) return false;
        n.items.push_back(Item{a, b}); i = j;
    }
}
template<class T> bool inc(const CharClass<T>& k, long c)
{
    for (auto i = k.cbegin(); i != k.cend(); ++i) if ((long)i->start() <= c && c < (long)i->end()) return true;
    return false;
}
template<class T> void one(const W& text, const char *tn)
{
    vp::cur(std::string(tn) + " notation after '[': \"" + vp::narrow(text) + "\"");
    const long maxc = (long)std::numeric_limits<T>::max();
    Note n; bool ok = read_note(text, n), got = true;
    Stream st(text); CharClass<T> cc;
    try { CharClass<T> x(st); cc = x; } catch (const StreamException&) { got = false; }
    VP_CHECK(ok == got, ok ? "well-formed notation was rejected" : "notation that is not well-formed was accepted");
    if (!ok) return;
    VP_CHECK((size_t)(st.m_cur - st.m_str.begin()) == n.end, "the reader is not behind the closing bracket");
    std::set<long> pts; pts.insert(1); pts.insert(maxc - 1); pts.insert(2);
    for (auto& it : n.items) for (long d = -1; d <= 1; d++) { pts.insert(it.lo + d); pts.insert(it.hi + d); }
    for (long c = 1; c < 128; c++) pts.insert(c);
    for (long c : pts)
    {
        if (c < 1 || c >= maxc) continue;
        bool w = false; for (auto& it : n.items) w |= it.lo <= c && c <= it.hi;
        VP_CHECK(inc(cc, c) == (w != n.neg), std::string("character ") + vp::str(c) + (w != n.neg ? " is missing from the class" : " is wrongly in the class"));
    }
    VP_CHECK(!inc(cc, 0), "NUL is in the class");
    long e = -1;
    for (auto i = cc.cbegin(); i != cc.cend(); ++i)
    {
        VP_CHECK((long)i->start() < (long)i->end() && (long)i->start() >= e, "the class is not a sorted list of disjoint ranges");
        e = (long)i->end();
    }
}
static void both(const W& t)
{
    one<char>(t, "char"); one<wchar_t>(t, "wchar_t");
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    // every short notation
    const wchar_t A[] = { L'a', L'b', L'd', L'-', L'\\', L']', L'^', L'n', L'\r', L'\n' };
    int N = vp::g_deep ? 6 : 4;
    for (int n = 0; n <= N && vp::time_left(); n++)
    {
        long tot = 1; for (int i = 0; i < n; i++) tot *= 10;
        for (long v = 0; v < tot; v++)
        {
            W t; long x = v; for (int i = 0; i < n; i++) { t += A[x % 10]; x /= 10; }
            both(t); both(t + L"]");
        }
    }
    // every escape character
    for (wchar_t c = 0; c < 255; c++) { both(W(L"\\") + c + L"]"); both(W(L"a-\\") + c + L"]"); both(W(1, c) + L"]"); both(W(L"b") + c + L"]"); both(W(L"b-") + c + L"]"); }
    // random longer ones, biased to neighbouring and overlapping items; every order of three items gives one class
    vp::Rng rng(vp::g_seed);
    long lim = vp::g_deep ? 3000000 : 100000;
    for (long k = 0; k < lim && vp::time_left(); k++)
    {
        W t; if (rng.below(4) == 0) t += L'^';
        int n = 1 + rng.below(8);
        auto ch = [&]() -> W {
            int b = rng.below(24);
            if (b < 14) return W(1, (wchar_t)(L'a' + rng.below(10)));
            if (b < 16) return W(1, (wchar_t)(1 + rng.below(10)));
            if (b < 18) return W(1, (wchar_t)(245 + rng.below(10)));
            if (b < 22) { const wchar_t E[] = L"\\-[]tTrRnN"; return W(L"\\") + E[rng.below(10)]; }
            return W(1, L"[^ \"/|$"[rng.below(7)]);
        };
        for (int i = 0; i < n; i++)
        {
            if (rng.below(40) == 0) t += L'-';
            t += ch(); if (rng.below(3) == 0) { t += L'-'; t += ch(); }
            if (rng.below(60) == 0) t += L'\\';
        }
        if (rng.below(30)) t += L']';
        t += W(rng.below(3), L'x');
        both(t);
        if (k % 8 == 0) { W u; for (wchar_t c : t) u += (c > 200 ? (wchar_t)(c * 37) : c); one<wchar_t>(u, "wchar_t"); }
    }
    return vp::finish();
}
