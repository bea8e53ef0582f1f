// P03, P04, P05: patterns, non-deterministic, deterministic and minimised automata against independent references.
// --mode=nfa   pattern text -> NFA              (reference: matching on the syntax tree)
// --mode=det   NFA -> DFA without minimisation  (reference: simulation of the NFA's transition table)
// --mode=min   DFA -> minimised DFA             (reference: simulation of the DFA's transition table)
#include "vp.hpp"
#include <memory>
#include "DFA.hpp"
using namespace Centaurus;
typedef std::string S;
struct Re { int k; std::vector<std::shared_ptr<Re>> kids; std::set<int> cc; S text; };   // k: 0 class, 1 sequence, 2 choice, 3 plus, 4 star, 5 optional
typedef std::shared_ptr<Re> R;
static R mk(int k, std::vector<R> kids, const S& t) { R r(new Re); r->k = k; r->kids = kids; r->text = t; return r; }
static R cls(std::set<int> cc, const S& t) { R r(new Re); r->k = 0; r->cc = cc; r->text = t; return r; }
static std::set<int> match(const R& r, const S& s, const std::set<int>& from)
{
    std::set<int> o;
    switch (r->k)
    {
    case 0: for (int p : from) if (p < (int)s.size() && r->cc.count((unsigned char)s[p])) o.insert(p + 1); return o;
    case 1: o = from; for (auto& x : r->kids) o = match(x, s, o); return o;
    case 2: for (auto& x : r->kids) { std::set<int> q = match(x, s, from); o.insert(q.begin(), q.end()); } return o;
    case 5: o = match(r->kids[0], s, from); o.insert(from.begin(), from.end()); return o;
    default:
        {
            std::set<int> all = r->k == 4 ? from : std::set<int>(), cur = from;
            while (true)
            {
                std::set<int> n = match(r->kids[0], s, cur), fresh;
                for (int p : n) if (all.insert(p).second) fresh.insert(p);
                if (fresh.empty()) return all;
                cur = fresh;
            }
        }
    }
}
static std::set<int> chr(const S& cs) { std::set<int> o; for (char c : cs) o.insert((unsigned char)c); return o; }
static std::set<int> compl_(const std::set<int>& a) { std::set<int> o; for (int c = 1; c < 255; c++) if (!a.count(c)) o.insert(c); return o; }
static R rep(const R& u, int k, const char *suffix) { return mk(k, {u}, u->text + suffix); }
static const char *SUF[] = { "+", "++", "+?", "+*", "*", "*+", "*?", "**", "?", "??", "?*" };
static const int SUFK[] = { 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5 };
static R gen(vp::Rng& g, int depth);
static R atom(vp::Rng& g, int depth)
{
    int x = g.below(depth > 0 ? 14 : 9);
    switch (x)
    {
    case 0: case 1: return cls(chr("a"), "a");
    case 2: return cls(chr("b"), "b");
    case 3: return cls(chr("c"), "c");
    case 4: { std::set<int> all = compl_(std::set<int>()); all.insert(0); return cls(all, "."); }   // every character but the reserved largest
    case 5: return cls(chr("ab"), "[a-b]");
    case 6: return cls(compl_(chr("ac")), "[^ac]");
    case 7: { static const char *E[] = { "[", "]", "+", "*", "{", "}", "?", "\\", "|", "(", ")", "." }; int i = g.below(12); return cls(chr(E[i]), S("\\") + E[i]); }
    case 8: return cls(chr("bc"), "[cb]");
    default: { R i = gen(g, depth - 1); return mk(1, {i}, "(" + i->text + ")"); }
    }
}
static R unit(vp::Rng& g, int depth)
{
    R a = atom(g, depth);
    if (g.below(2)) { int i = g.below(11); return rep(a, SUFK[i], SUF[i]); }
    return a;
}
static R join(int k, const std::vector<R>& v, const char *sep)
{
    S t; for (size_t i = 0; i < v.size(); i++) t += (i ? sep : "") + v[i]->text;
    return mk(k, v, t);
}
static R gen(vp::Rng& g, int depth)
{
    std::vector<R> seq; int n = g.below(12) == 0 ? 0 : 1 + g.below(3);
    for (int i = 0; i < n; i++)
    {
        std::vector<R> alt; int m = g.below(3) ? 1 : 2 + g.below(2);
        for (int j = 0; j < m; j++) alt.push_back(unit(g, depth));
        seq.push_back(m == 1 ? alt[0] : join(2, alt, "|"));
    }
    return join(1, seq, "");
}
// ---- independent reading of the automata
template<class ST> struct Tab
{
    const std::vector<ST>& st; 
    explicit Tab(const std::vector<ST>& s) : st(s) {}
    template<class L> static bool has(const L& l, int c) { for (auto i = l.cbegin(); i != l.cend(); ++i) if ((int)i->start() <= c && c < (int)i->end()) return true; return false; }
    std::set<int> close(std::set<int> q) const
    {
        std::vector<int> w(q.begin(), q.end());
        while (!w.empty()) { int i = w.back(); w.pop_back(); for (auto& t : st[i].get_transitions()) if (t.label().cbegin() == t.label().cend() && q.insert(t.dest()).second) w.push_back(t.dest()); }
        return q;
    }
    std::set<int> after(const S& s) const
    {
        std::set<int> q = close(std::set<int>{0});
        for (unsigned char c : s) { std::set<int> n; for (int i : q) for (auto& t : st[i].get_transitions()) if (has(t.label(), c)) n.insert(t.dest()); q = close(n); }
        return q;
    }
};
static bool nfa_acc(const NFA<char>& n, const S& s) { return Tab<NFAState<char>>(n.m_states).after(s).count((int)n.m_states.size() - 1) > 0; }
static bool dfa_acc(const DFA<char>& d, const S& s) { for (int i : Tab<DFAState<char>>(d.m_states).after(s)) if (d.m_states[i].is_accept()) return true; return false; }
template<class D> void shape(const D& d)
{
    for (auto& s : d.m_states)
    {
        auto& t = s.get_transitions();
        for (size_t i = 0; i < t.size(); i++)
        {
            VP_CHECK(t[i].dest() >= 0 && t[i].dest() < (int)d.m_states.size(), "a transition leads outside the automaton");
            VP_CHECK(t[i].label().cbegin() != t[i].label().cend(), "an empty move in a deterministic automaton");
            for (size_t j = 0; j < i; j++)
                for (auto a = t[i].label().cbegin(); a != t[i].label().cend(); ++a) for (auto b = t[j].label().cbegin(); b != t[j].label().cend(); ++b)
                    VP_CHECK(a->end() <= b->start() || b->end() <= a->start(), "two transitions of one state share a character");
        }
    }
}
static S desc;
static std::vector<S> words(int len, const S& al)
{
    std::vector<S> w(1, S()); size_t b = 0;
    for (int l = 0; l < len; l++) { size_t e = w.size(); for (; b < e; b++) for (char c : al) w.push_back(w[b] + c); }
    return w;
}
static int mode;   // 0 nfa 1 det 2 min
static std::vector<S> W2, W3, WE, WX;
static const S& show(const S& s) { static S o; o.clear(); for (unsigned char c : s) { if (c >= 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }
static void automata(const NFA<char>& n, const std::vector<S>& ws)
{
    vp::cur(desc + (mode == 1 ? ", determinised" : ", determinised and minimised"));
    DFA<char> d(n, false);
    if (mode == 1)
    {
        shape(d);
        for (auto& w : ws)
        {
            bool e = nfa_acc(n, w);
            vp::cur(desc + " (as NFA and DFA), string \"" + show(w) + "\"");
            VP_CHECK(n.run(w) == e, "running the NFA gives the wrong answer");
            VP_CHECK(dfa_acc(d, w) == e, e ? "the DFA rejects a string the NFA accepts" : "the DFA accepts a string the NFA rejects");
            VP_CHECK(d.run(w) == e, "running the DFA gives the wrong answer");
        }
    }
    else
    {
        DFA<char> m(n, true); shape(m);
        VP_CHECK(m.m_states.size() <= d.m_states.size(), "minimising added states");
        for (auto& w : ws)
        {
            bool e = dfa_acc(d, w);
            vp::cur(desc + " (DFA minimised), string \"" + show(w) + "\"");
            VP_CHECK(dfa_acc(m, w) == e, e ? "minimising lost a string" : "minimising added a string");
            VP_CHECK(m.run(w) == e, "running the minimised DFA gives the wrong answer");
        }
    }
}
static std::wstring wide(const S& s) { std::wstring w; for (unsigned char c : s) w += (wchar_t)c; return w; }
static void pattern(const R& r, const std::vector<S>& ws)
{
    desc = "pattern /" + show(r->text) + "/";
    vp::cur(desc);
    Stream st(wide(r->text) + L"/");
    NFA<char> n; n.parse(st);
    if (mode == 0)
    {
        VP_CHECK((size_t)(st.m_cur - st.m_str.begin()) == r->text.size() + 1, "the reader is not behind the closing slash");
        for (auto& w : ws)
        {
            bool e = match(r, w, std::set<int>{0}).count((int)w.size()) > 0;
            vp::cur(desc + ", string \"" + show(w) + "\"");
            VP_CHECK(nfa_acc(n, w) == e, e ? "the automaton rejects a string the pattern describes" : "the automaton accepts a string the pattern does not describe");
        }
    }
    else automata(n, ws);
}
static void bad(const S& t)
{
    vp::cur("pattern /" + show(t) + "/");
    Stream st(wide(t) + L"/"); bool thrown = false;
    try { NFA<char> n; n.parse(st); } catch (const StreamException&) { thrown = true; }
    VP_CHECK(thrown, "an unsupported escape was accepted");
}
static void random_nfa(vp::Rng& g)
{
    int k = 2 + g.below(5); NFA<char> n; n.m_states.clear();
    std::ostringstream o; o << "NFA with " << k << " states:";
    for (int i = 0; i < k; i++) n.m_states.emplace_back();
    int m = 1 + g.below(2 * k); const char *ae = g.below(3) ? 0 : "abe";   // a and e: different classes, equal hash values
    int b = 0;
    for (int i = 0; i < m; i++)
    {
        int a = g.below(k); if (!ae || g.below(2)) b = g.below(k); CharClass<char> cc;
        if (ae) { if (g.below(4)) { char x = ae[g.below(3)]; cc |= Range<char>(x, (char)(x + 1)); } }
        else if (g.below(3)) { int rs = 1 + g.below(2); for (int j = 0; j < rs; j++) { int x = 'a' + g.below(4); int y = x + 1 + g.below(2); cc |= Range<char>((char)x, (char)y); } }
        o << " " << a << "-"; if (cc.cbegin() == cc.cend()) o << "empty"; for (auto r = cc.cbegin(); r != cc.cend(); ++r) o << "[" << (char)r->start() << "-" << (char)(r->end() - 1) << "]"; o << "->" << b;
        if (g.below(2)) n.m_states[a].add_transition(cc, b); else n.m_states[a].m_transitions.emplace_back(cc, b);
    }
    desc = o.str();
    automata(n, ae ? WE : W3);
}
static void random_dfa(vp::Rng& g)   // mostly single-letter transitions, over letters of which two have the same hash value
{
    int k = 4 + g.below(2); NFA<char> n; n.m_states.clear(); desc = "automaton:";
    for (int i = 0; i < k; i++) n.m_states.emplace_back();
    for (int i = 0; i < k; i++) for (char c : { 'a', 'b', 'e' }) if (g.below(2))
    {
        int b = g.below(k); n.m_states[i].m_transitions.emplace_back(CharClass<char>(c), b);
        desc += " " + std::to_string(i) + "-" + S(1, c) + "->" + std::to_string(b);
    }
    automata(n, WE);
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "--mode=", 7)) mode = !strcmp(argv[i] + 7, "det") ? 1 : !strcmp(argv[i] + 7, "min") ? 2 : 0;
    W2 = words(vp::g_deep ? 6 : 5, "ab"); W3 = words(vp::g_deep ? 5 : 4, "abc"); WE = words(vp::g_deep ? 5 : 4, "abe");
    WX = words(vp::g_deep ? 4 : 3, S("abc.")); for (const char *x : { "[", "]", "+", "*", "{", "}", "?", "\\", "|", "(", ")", "\x01", "\xfe", "\xff" }) { WX.push_back(x); WX.push_back(S("a") + x); WX.push_back(S(x) + "b"); WX.push_back(S("b") + x + "a"); WX.push_back(S(x) + x); }
    WX.push_back(S(1, '\0')); WX.push_back(S("a") + S(1, '\0'));
    if (mode == 0) for (const char *e : { "\\a", "\\n", "\\/", "\\-", "a\\d", "(\\x)", "[a-]", "[b-a]", "\\", "[\\q]", "a|\\^", "[-a]" }) bad(e);
    std::vector<R> us;
    for (const char *c : { "a", "b" }) { R a = cls(chr(c), c); us.push_back(a); us.push_back(rep(a, 3, "+")); us.push_back(rep(a, 4, "*")); us.push_back(rep(a, 5, "?")); }
    std::vector<R> small;
    for (auto& x : us) { small.push_back(x); for (auto& y : us) { small.push_back(join(1, {x, y}, "")); small.push_back(join(2, {x, y}, "|")); } }
    for (auto& x : small)
    {
        pattern(x, W2);
        R gr = mk(1, {x}, "(" + x->text + ")");
        for (int i = 0; i < 11; i++) if (i % 4 == 0 || vp::g_deep || vp::time_left()) pattern(join(1, {rep(gr, SUFK[i], SUF[i]), us[i % 8]}, ""), W2);
        if (!vp::time_left() && !vp::g_deep) break;
    }
    for (unsigned seed = 1; vp::time_left() || seed < 60; seed++)
    {
        vp::Rng g(vp::g_seed * 1000003u + seed); vp::watch(60);
        if (mode == 2 && seed % 3 == 1) { for (int i = 0; i < 6; i++) random_dfa(g); continue; }
        if (mode && seed % 3 == 0) { random_nfa(g); continue; }
        R r = gen(g, 1 + g.below(3));
        if (r->text.size() > 60) continue;
        pattern(r, WX);
    }
    return vp::finish();
}
