// P09: decision automata, against a direct simulation of the character networks from every alternative.
#include "vp.hpp"
#include <set>
#include <algorithm>
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
using namespace Centaurus;
typedef std::string S;
typedef std::vector<std::pair<int, int>> Path;      // (rule, node), the innermost last
struct Link { int rule, node, tag; bool operator==(const Link& o) const { return rule == o.rule && node == o.node && tag == o.tag; } bool operator<(const Link& o) const { return rule != o.rule ? rule < o.rule : node != o.node ? node < o.node : tag < o.tag; } };
typedef std::vector<Link> Chain;                    // the alternatives taken on the way
static std::vector<Identifier> names;
struct Sim
{
    const CompositeATN<char> *c; std::vector<const CATNMachine<char> *> m; bool bad, ranked;
    const CATNNode<char>& at(const Path& p) const { return (*m[p.back().first])[p.back().second]; }
    int idx(const Identifier& i) const { for (size_t k = 0; k < names.size(); k++) if (names[k] == i) return (int)k; return -1; }
    typedef std::map<Path, std::vector<Chain>> Set;
    void clos(Set& s, std::set<std::pair<Path, Chain>>& used, const Path& p, bool after, const Chain& ch)
    {
        if (bad) return;
        if (p.size() > 9 || used.size() > 4000) { bad = true; return; }
        const CATNNode<char>& n = at(p);
        if (!after && !n.is_terminal()) { Path q = p; q.push_back(std::make_pair(idx(n.get_submachine()), 0)); clos(s, used, q, false, ch); return; }
        Chain key = ranked ? ch : Chain();
        if (n.is_terminal()) { std::vector<Chain>& v = s[p]; if (std::find(v.begin(), v.end(), key) != v.end()) return; if (ranked && v.size() >= 12) { bad = true; return; } v.push_back(key); }
        else if (!used.insert(std::make_pair(p, key)).second) return;
        if (ranked && ch.size() > 60) { bad = true; return; }
        if (n.is_stop_node())
        {
            Path q = p; q.pop_back();
            if (!q.empty()) clos(s, used, q, true, ch);
            else for (size_t r = 0; r < m.size(); r++) for (int i = 0; i < m[r]->get_num_nodes(); i++)
                if (!(*m[r])[i].is_terminal() && idx((*m[r])[i].get_submachine()) == p.back().first) clos(s, used, Path(1, std::make_pair((int)r, i)), true, ch);
            return;
        }
        for (auto& t : n.get_transitions()) if (t.is_epsilon())
        {
            Path q = p; q.back().second = t.dest(); Chain d = ch; Link l = { p.back().first, p.back().second, t.tag() }; if (ranked) d.push_back(l);
            clos(s, used, q, false, d);
        }
    }
    Set step(const Set& s, char ch)
    {
        Set r; std::set<std::pair<Path, Chain>> used;
        for (auto& e : s) for (auto& t : at(e.first).get_transitions()) if (t.label().includes(ch))
            for (auto& k : e.second) { Path q = e.first; q.back().second = t.dest(); clos(r, used, q, false, k); }
        return r;
    }
};
static int order(const Chain& a, const Chain& b)
{
    for (size_t i = 0; i < std::min(a.size(), b.size()); i++)
        if (a[i].rule == b[i].rule && a[i].node == b[i].node) { if (a[i].tag < b[i].tag) return -1; if (a[i].tag > b[i].tag) return 1; }
    return 0;
}
static S text;
static void walk(Sim& s, const LookaheadDFA<char>& d, const std::vector<Sim::Set>& alts, const S& w, int left, const S& where)
{
    for (char ch : S("ab "))
    {
        std::vector<Sim::Set> next; int alive = 0, which = -1;
        for (size_t k = 0; k < alts.size(); k++) { next.push_back(s.step(alts[k], ch)); if (!next.back().empty()) { alive++; which = (int)k + 1; } }
        if (s.bad) return;
        S v = w + ch; int r = d.run(v); std::ostringstream o; o << where << ", input \"" << v << "\": the automaton picks " << r << ", ";
        VP_CHECK(r == -1 || (r > 0 && r <= (int)alts.size()), o.str() + "not an alternative");
        if (alive == 0) { VP_CHECK(r == -1 || s.ranked, o.str() + "but no alternative can match"); continue; }
        if (!s.ranked)
        {
            if (alive == 1) { VP_CHECK(r == which, o.str() + "but the only possible alternative is " + std::to_string(which)); continue; }
            VP_CHECK(r == -1, o.str() + "but several alternatives are possible");
        }
        else
        {
            if (r > 0) for (size_t k = 0; k < alts.size(); k++) if ((int)k + 1 != r)
                for (auto& e : next[k]) for (auto& x : e.second)
                {
                    bool lower = false;
                    for (size_t j = 0; j < alts.size() && !lower; j++) if (j != k) for (auto& f : next[j]) for (auto& y : f.second) if (order(x, y) > 0) lower = true;
                    VP_CHECK(lower, o.str() + "but alternative " + std::to_string(k + 1) + " can continue and is not ranked lower");
                }
            if (alive == 1 && r != which && w.empty()) { VP_CHECK(false, o.str() + "but the only possible alternative is " + std::to_string(which)); }
            if (r > 0) continue;
        }
        if (left > 1) walk(s, d, next, v, left - 1, where);
    }
}
// the groups leaving a closure: disjoint, each uniform in its characters, and together exactly the departures
static void departures(const CompositeATN<char>& c, const CATNClosure& cl, const S& where)
{
    auto ds = c.build_departure_set(cl);
    for (int ch = 1; ch < 255; ch++)
    {
        std::set<std::pair<std::vector<std::pair<std::wstring, int>>, int>> want, got; int n = 0;
        for (auto& e : cl) for (auto& t : c.get_node(e.path()).get_transitions()) if (!t.is_epsilon() && t.label().includes((char)ch))
        {
            ATNPath p = e.path().replace_index(t.dest()); std::vector<std::pair<std::wstring, int>> q; for (auto& x : p) q.push_back(std::make_pair(x.first.str(), x.second));
            want.insert(std::make_pair(q, e.color()));
        }
        for (auto& i : ds) if (i.first.includes((char)ch))
        {
            n++; for (auto& e : i.second) { std::vector<std::pair<std::wstring, int>> q; for (auto& x : e.path()) q.push_back(std::make_pair(x.first.str(), x.second)); got.insert(std::make_pair(q, e.color())); }
        }
        VP_CHECK(n <= 1, where + ": two groups of continuations share a character");
        VP_CHECK(want == got, where + ": the group of continuations at a character is not the set of those that can consume it");
    }
}
static S gen(vp::Rng& g, int d, int rule);
static int nrules; static bool ordered;
static S atom(vp::Rng& g, int d, int rule)
{
    static const char *L[] = { "'a'", "'b'", "'ab'", "'ba'", "''", "/a+/", "/[ab]/", "/a?b/", "/a*/", "'aa'" }; S r;
    if (d > 0 && g.below(4) == 0) r = "(" + gen(g, d - 1, rule) + ")";
    else if (rule + 1 < nrules && g.below(3) == 0) r = std::string("R") + char('A' + rule + 1 + g.below(nrules - rule - 1));
    else if (g.below(25) == 0) r = std::string("R") + char('A' + g.below(nrules));
    else r = L[g.below(10)];
    switch (g.below(7)) { case 0: r += "*"; break; case 1: r += "+"; break; case 2: r += "?"; break; }
    return r + " ";
}
static S seq(vp::Rng& g, int d, int rule) { S r; int n = g.below(3); for (int i = 0; i < n; i++) r += atom(g, d, rule); return r; }
static S gen(vp::Rng& g, int d, int rule) { S r = seq(g, d, rule); for (int n = g.below(3); n > 0; n--) r += (ordered && g.below(2) ? "|> " : "| ") + seq(g, d, rule); return r; }
static void check(const std::vector<S>& rules, int depth, bool simplify)
{
    text = ""; names.clear(); bool rank = false;
    for (size_t k = 0; k < rules.size(); k++) { text += S("R") + char('A' + k) + " : " + rules[k] + "; "; if (rules[k].find("|>") != S::npos) rank = true; wchar_t nm[] = { L'R', wchar_t(L'A' + k), 0 }; names.push_back(Identifier(nm)); }
    if (simplify) text += "(simplified) "; vp::cur("grammar " + text); vp::watch(60);
    Grammar<char> G; std::vector<std::vector<int>> calls(rules.size());
    for (size_t k = 0; k < rules.size(); k++)
    {
        S t = ": " + rules[k] + ";"; Stream st(std::wstring(t.begin(), t.end()));
        G.m_networks.insert(std::pair<Identifier, ATNMachine<char>>(names[k], ATNMachine<char>((int)k + 1, st))); G.m_identifiers.push_back(names[k]);
    }
    if (simplify) G.optimize();
    CompositeATN<char> c(G); bool rec = false; Sim s; s.c = &c; s.ranked = rank; for (auto& n : names) s.m.push_back(&c[n]);
    for (size_t k = 0; k < rules.size(); k++) for (int i = 0; i < s.m[k]->get_num_nodes(); i++) if (!(*s.m[k])[i].is_terminal()) calls[k].push_back(s.idx((*s.m[k])[i].get_submachine()));
    for (size_t k = 0; k < rules.size(); k++) { std::set<int> seen; std::vector<int> todo = calls[k]; while (!todo.empty()) { int x = todo.back(); todo.pop_back(); if (x == (int)k) rec = true; if (seen.insert(x).second) todo.insert(todo.end(), calls[x].begin(), calls[x].end()); } }
    for (size_t k = 0; k < rules.size(); k++)
    {
        const ATNMachine<char>& a = G.m_networks.at(names[k]);
        for (int i = 0; i < a.get_node_num(); i++) if (a.get_node(i).get_transitions().size() > 1)
        {
            std::ostringstream o; o << "decision at node " << i << " of rule R" << char('A' + k); S where = o.str(); vp::cur(where + " of grammar " + text); vp::watch(60);
            ATNPath p = c.convert_atn_path(ATNPath(names[k], i));
            try
            {
                LookaheadDFA<char> d(c, p, true), plain(c, p, false);
                s.bad = false; std::vector<Sim::Set> alts; auto& tr = c.get_transitions(p); auto& at = a.get_node(i).get_transitions();
                for (size_t j = 0; j < at.size(); j++)
                {
                    auto& t = tr[tr.size() - at.size() + j]; std::set<std::pair<Path, Chain>> used; Sim::Set st; Chain ch; Link l = { (int)k, p.leaf_index(), t.tag() }; if (rank) ch.push_back(l);
                    s.clos(st, used, Path(1, std::make_pair((int)k, t.dest())), false, ch); alts.push_back(st);
                }
                if (!rank)
                {
                    std::set<CATNClosureElement> rc = c.build_root_closure(p); departures(c, rc, where);
                    if (!s.bad)
                    {
                        size_t n = 0; for (auto& x : alts) n += x.size();
                        VP_CHECK(n == rc.size(), where + ": the closure at the decision point does not hold exactly the reachable continuations");
                    }
                    if (plain.get_state_num() > 1) departures(c, plain[plain.get_state_num() - 1].label(), where);
                }
                if (!s.bad) walk(s, d, alts, "", depth, where);
            }
            catch (const SimpleException& e) { VP_CHECK(rec, where + ": refused although no rule uses itself"); }
        }
    }
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    for (unsigned seed = 1; vp::time_left() || seed < 30; seed++)
    {
        vp::Rng g(vp::g_seed * 77003u + seed); nrules = 1 + g.below(3); ordered = seed % 3 == 0;
        std::vector<S> rules; for (int k = 0; k < nrules; k++) rules.push_back(gen(g, 1 + g.below(2), k));
        size_t len = 0; for (auto& r : rules) len += r.size();
        if (len > (ordered ? 40 : 60)) continue;
        check(rules, vp::g_deep ? 5 : 4, seed % 7 > 3);
    }
    return vp::finish();
}
