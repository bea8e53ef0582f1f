// P05: minimising and running lookahead automata against a simulation of the transition table.
#include "vp.hpp"
#include <memory>
#include "LookaheadDFA.hpp"
using namespace Centaurus;
typedef std::string S;
typedef LookaheadDFA<char> L;
static std::unique_ptr<L> proto;
static std::unique_ptr<CompositeATN<char>> catn; static std::unique_ptr<Grammar<char>> gram;
static void make()
{
    gram.reset(new Grammar<char>()); Stream st(std::wstring(L": 'a' 'x' | 'b' | 'c' ;"));
    Identifier id(L"A"); gram->m_networks.insert(std::pair<Identifier, ATNMachine<char>>(id, ATNMachine<char>(1, st)));
    catn.reset(new CompositeATN<char>(*gram)); 
    proto.reset(new L(*catn, catn->convert_atn_path(ATNPath(L"A", 1)), false));
}
struct Tab { std::vector<std::map<char, int>> t; };   // state, character -> destination (negative: choice)
static int ref(const Tab& t, const S& w) { int s = 0; for (char c : w) { auto i = t.t[s].find(c); if (i == t.t[s].end()) return -1; if (i->second < 0) return -i->second; s = i->second; } return -1; }
static std::vector<S> words(int len, const S& al)
{
    std::vector<S> w(1, S()); size_t b = 0;
    for (int l = 0; l < len; l++) { size_t e = w.size(); for (; b < e; b++) for (char c : al) w.push_back(w[b] + c); }
    return w;
}
static void check(const Tab& t, const std::vector<S>& ws, const S& desc)
{
    vp::cur(desc);
    L d(*proto); CATNClosure lab = d.m_states[0].label(); d.m_states.clear();
    for (auto& m : t.t) { d.m_states.emplace_back(lab); for (auto& e : m) d.m_states.back().m_transitions.emplace_back(CharClass<char>(e.first), e.second); }
    L m(d); m.minimize();
    VP_CHECK(m.m_states.size() <= d.m_states.size(), "minimising added states");
    for (auto& s : m.m_states) for (auto& e : s.get_transitions()) VP_CHECK(e.dest() < (int)m.m_states.size(), "a transition leads outside the automaton");
    for (auto& w : ws)
    {
        vp::cur(desc + ", input \"" + w + "\"");
        VP_CHECK(d.run(w) == ref(t, w), "running the lookahead automaton chooses another alternative");
        VP_CHECK(m.run(w) == ref(t, w), "minimising changed the alternative chosen");
    }
}
int main(int argc, char **argv)
{
    vp::init(argc, argv); make();
    auto W = words(vp::g_deep ? 6 : 5, "abe");
    for (unsigned seed = 1; vp::time_left() || seed < 60; seed++)
    {
        vp::Rng g(vp::g_seed * 77003u + seed); vp::watch(60);
        int k = 1 + g.below(6); Tab t; t.t.resize(k); std::ostringstream o; o << "lookahead automaton with " << k << " states:";
        int alts = 1 + g.below(3), dens = 1 + g.below(3);
        for (int i = 0; i < k; i++) for (char c : { 'a', 'b', 'e' }) if (g.below(4) < dens)
        {
            int b = g.below(2) ? -1 - (int)g.below(alts) : (int)g.below(k);
            if (i && g.below(3) == 0 && t.t[i - 1].count(c)) b = t.t[i - 1][c];   // look-alike states
            t.t[i][c] = b; o << " " << i << "-" << c << "->"; if (b < 0) o << "choose " << -b; else o << b;
        }
        check(t, W, o.str());
    }
    return vp::finish();
}
