// P15: the character network made from a rule network, against a direct simulation of the rule network.
#include "vp.hpp"
#include <set>
#include "CompositeATN.hpp"
using namespace Centaurus;
typedef std::string S;               // words: a, b, blank are characters, X and Y are uses of the rules X and Y
typedef ATNMachine<char> A;
typedef CATNMachine<char> C;
typedef std::set<std::pair<int, int>> Cfg;
static S narrow(const std::wstring& w) { return S(w.begin(), w.end()); }
// ---- rule network: (node, position); a node is done at position -1 (blank, rule use, white space), at its length (literal), in the last state (pattern)
static bool done(const A& a, int i, int p)
{
    const ATNNode<char>& n = a.m_nodes[i];
    if (n.m_type == ATNNodeType::LiteralTerminal) return p == (int)n.m_literal.size();
    if (n.m_type == ATNNodeType::RegularTerminal) return p == (int)n.m_nfa.get_state_num() - 1;
    return p == -1;
}
static void put(const A& a, Cfg& c, int i, int p)
{
    if (!c.insert(std::make_pair(i, p)).second) return;
    const ATNNode<char>& n = a.m_nodes[i];
    if (n.m_type == ATNNodeType::RegularTerminal) for (auto& t : n.m_nfa.get_state(p).get_transitions()) if (t.is_epsilon()) put(a, c, i, t.dest());
    if (done(a, i, p)) for (auto& t : n.m_transitions)
    {
        ATNNodeType y = a.m_nodes[t.dest()].m_type;
        put(a, c, t.dest(), y == ATNNodeType::Blank || y == ATNNodeType::WhiteSpace ? -1 : 0);
    }
}
static Cfg step(const A& a, const Cfg& c, char ch)
{
    Cfg r;
    for (auto& q : c)
    {
        const ATNNode<char>& n = a.m_nodes[q.first];
        switch (n.m_type)
        {
        case ATNNodeType::Nonterminal: if (q.second == 0 && narrow(n.m_invoke.str()) == S(1, ch)) put(a, r, q.first, -1); break;
        case ATNNodeType::WhiteSpace: if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') put(a, r, q.first, -1); break;
        case ATNNodeType::LiteralTerminal: if (q.second < (int)n.m_literal.size() && n.m_literal[q.second] == ch) put(a, r, q.first, q.second + 1); break;
        case ATNNodeType::RegularTerminal: if (ch != 'X' && ch != 'Y') for (auto& t : n.m_nfa.get_state(q.second).get_transitions()) if (t.label().includes(ch)) put(a, r, q.first, t.dest()); break;
        default: break;
        }
    }
    return r;
}
// ---- character network: nodes after having consumed their rule use
static void putc(const C& c, std::set<int>& s, std::set<int>& wait, int x, bool used)
{
    if (!used && !c[x].is_terminal()) { wait.insert(x); return; }
    if (!s.insert(x).second) return;
    for (auto& t : c[x].get_transitions()) if (t.is_epsilon()) putc(c, s, wait, t.dest(), false);
}
struct CS { std::set<int> s, wait; };
static CS cstep(const C& c, const CS& k, char ch)
{
    CS r;
    if (ch == 'X' || ch == 'Y') { for (int x : k.wait) if (narrow(c[x].get_submachine().str()) == S(1, ch)) putc(c, r.s, r.wait, x, true); }
    else for (int x : k.s) for (auto& t : c[x].get_transitions()) if (t.label().includes(ch)) putc(c, r.s, r.wait, t.dest(), false);
    return r;
}
static S show(const A& a)
{
    std::ostringstream o;
    for (int i = 0; i < (int)a.m_nodes.size(); i++)
    {
        auto& n = a.m_nodes[i]; o << " " << i << ":";
        switch (n.m_type) { case ATNNodeType::Blank: o << "-"; break; case ATNNodeType::WhiteSpace: o << "ws"; break; case ATNNodeType::LiteralTerminal: o << "'" << n.m_literal << "'"; break;
            case ATNNodeType::Nonterminal: o << narrow(n.m_invoke.str()); break; case ATNNodeType::RegularTerminal: o << "/pattern of " << n.m_nfa.get_state_num() << " states/"; break; }
        for (auto& t : n.m_transitions) o << "->" << t.dest() << "(" << t.tag() << ")";
    }
    return o.str();
}
static void walk(const A& a, const C& c, const Cfg& p, const CS& q, int left, const S& w, const S& desc, int last)
{
    int clast = c.convert_atn_index(last);
    bool acc = p.count(std::make_pair(last, -1)) > 0;
    VP_CHECK(acc == (q.s.count(clast) > 0), acc ? "\"" + w + "\" is generated by the rule network but not by the character network" : "\"" + w + "\" is generated by the character network but not by the rule network");
    VP_CHECK(p.empty() == (q.s.empty() && q.wait.empty()), "after \"" + w + "\" one of the networks cannot continue and the other can");
    if (!left || p.empty()) return;
    for (char ch : S("ab XY")) walk(a, c, step(a, p, ch), cstep(c, q, ch), left - 1, w + ch, desc, last);
}
static void check(const A& a, const S& desc, int depth)
{
    vp::cur(desc + "; network:" + show(a)); vp::watch(60);
    C c(a); int last = (int)a.m_nodes.size() - 1;
    for (int i = 0; i < c.get_num_nodes(); i++) for (auto& t : c[i].get_transitions()) VP_CHECK(t.dest() >= 0 && t.dest() < c.get_num_nodes(), "a transition leads outside the character network");
    std::set<int> reach; std::vector<int> todo(1, 0);
    while (!todo.empty()) { int i = todo.back(); todo.pop_back(); if (!reach.insert(i).second) continue; for (auto& t : a.m_nodes[i].m_transitions) todo.push_back(t.dest()); }
    if (!reach.count(last)) return;
    for (int i : reach)
    {
        int x = c.convert_atn_index(i); std::ostringstream o; o << "node " << i << " of the rule network ";
        VP_CHECK(x >= 0 && x < c.get_num_nodes(), o.str() + "is not represented");
        VP_CHECK(c[x].get_source() == i, o.str() + "is represented by a node of another index");
        auto& ct = c[x].get_transitions(); auto& at = a.m_nodes[i].m_transitions;
        VP_CHECK(ct.size() >= at.size(), o.str() + "lost a transition");
        for (size_t k = 0; k < at.size(); k++) VP_CHECK(ct[ct.size() - at.size() + k].tag() == at[k].tag(), o.str() + "lost the order or ranking of its alternatives");
        Cfg p; const ATNNode<char>& n = a.m_nodes[i];
        put(a, p, i, n.m_type == ATNNodeType::LiteralTerminal ? (int)n.m_literal.size() : n.m_type == ATNNodeType::RegularTerminal ? (int)n.m_nfa.get_state_num() - 1 : -1);
        CS q; putc(c, q.s, q.wait, x, true);
        walk(a, c, p, q, i ? depth - 1 : depth, "", desc, last);
    }
}
static S gen(vp::Rng& g, int d);
static S atom(vp::Rng& g, int d)
{
    static const char *L[] = { "'a'", "'b'", "'ab'", "''", "'aba'", "X", "Y", "/a*b/", "/[ab]/", "/a+/", "/(a|bb)*/" }; S r;
    if (d > 0 && g.below(3) == 0) r = "(" + gen(g, d - 1) + ")"; else r = L[g.below(11)];
    switch (g.below(6)) { case 0: r += "*"; break; case 1: r += "+"; break; case 2: r += "?"; break; }
    return r + " ";
}
static S seq(vp::Rng& g, int d) { S r; int n = g.below(4); for (int i = 0; i < n; i++) r += atom(g, d); return r; }
static S gen(vp::Rng& g, int d) { S r = seq(g, d); for (int n = g.below(3); n > 0; n--) r += (g.below(2) ? "| " : "|> ") + seq(g, d); return r; }
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    for (unsigned seed = 1; vp::time_left() || seed < 60; seed++)
    {
        vp::Rng g(vp::g_seed * 91009u + seed);
        if (seed % 3)
        {
            S t = ": " + gen(g, 2) + ";"; vp::cur("rule " + t); Stream st(std::wstring(t.begin(), t.end())); A a(1, st);
            if (seed % 2) a.drop_passthrough_nodes();
            check(a, "rule " + t + (seed % 2 ? " (simplified)" : ""), vp::g_deep ? 5 : 4);
        }
        else
        {
            A a(1); int n = 2 + g.below(6); std::set<int> lits;
            for (int i = 0; i < n; i++)
            {
                int k = i == 0 || i == n - 1 ? 0 : g.below(6); ATNNodeType y[] = { ATNNodeType::Blank, ATNNodeType::Nonterminal, ATNNodeType::LiteralTerminal, ATNNodeType::RegularTerminal, ATNNodeType::WhiteSpace, ATNNodeType::LiteralTerminal };
                a.m_nodes.emplace_back(y[k]);
                if (k == 1) a.m_nodes[i].m_invoke = Identifier(g.below(2) ? L"X" : L"Y");
                if (k == 2 || k == 5) { const char *l[] = { "", "a", "ab", "bba" }; a.m_nodes[i].m_literal = l[g.below(4)]; lits.insert(i); }
                if (k == 3) { const wchar_t *l[] = { L"a/", L"a*/", L"ab|b/", L"(ab)+/" }; Stream st{std::wstring(l[g.below(4)])}; a.m_nodes[i].m_nfa.parse(st); }
            }
            for (int i = 0; i < n - 1; i++) for (int k = 1 + g.below(3); k > 0; k--)
            {
                int d = g.below(n); if (lits.count(d)) { lits.erase(d); if (a.m_nodes[d].m_literal.empty()) lits.insert(d); } else if (a.m_nodes[d].m_type == ATNNodeType::LiteralTerminal) continue;
                a.m_nodes[i].add_transition(d, g.below(3));
            }
            check(a, "hand-made network", vp::g_deep ? 5 : 4);
        }
    }
    return vp::finish();
}
