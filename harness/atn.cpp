// P08: the network built from a rule text against the words of the rule, and networks before and after simplification.
#include "vp.hpp"
#include <set>
#include <map>
#include <memory>
#include "CompositeATN.hpp"
using namespace Centaurus;
typedef std::string S;
typedef ATNMachine<char> A;
typedef std::vector<S> W;                       // a word: labels of terminals and rule uses
typedef std::vector<std::pair<int, int> > Tr;   // decisions taken: (choice, rank)
struct Walk { W w; Tr d; };
static S narrow(const std::wstring& w) { return S(w.begin(), w.end()); }
static S show(const W& w) { S r; for (auto& x : w) r += x + " "; return "[" + r + "]"; }
// ---- the rule, as generated
struct T { int kind; S text, label; char mark; std::vector<std::pair<int, std::vector<std::shared_ptr<T> > > > alts; };   // kind 0: terminal or rule use, 1: group
typedef std::shared_ptr<T> P;
typedef std::vector<std::pair<int, std::vector<P> > > Alts;
static S label(const ATNNode<char>& n)
{
    S id = n.m_localid >= 0 ? "{" + std::to_string(n.m_localid) + "}" : "";
    switch (n.m_type)
    {
    case ATNNodeType::Nonterminal: return narrow(n.m_invoke.str()) + id;
    case ATNNodeType::LiteralTerminal: return "'" + n.m_literal + "'" + id;
    case ATNNodeType::RegularTerminal: return "/" + std::to_string(n.m_nfa.get_state_num()) + "/" + id;
    default: return "";
    }
}
static bool g_plain;   // no loop around something that may be empty
static bool nullable(const std::vector<P>& s);
static bool nullable(const P& t) { if (t->mark == '*' || t->mark == '?') return true; if (t->kind == 0) return false; for (auto& a : t->alts) if (nullable(a.second)) return true; return false; }
static bool nullable(const std::vector<P>& s) { for (auto& t : s) if (!nullable(t)) return false; return true; }
static S sp(vp::Rng& g) { static const char *B[] = { "", " ", "", "\n", " /* | */ ", "", "// ;\n", " " }; return B[g.below(8)]; }
static S seltext(const Alts& a, vp::Rng& g);
static Alts gensel(vp::Rng& g, int depth, int size)
{
    Alts r; int n = 1 + (g.below(2) ? g.below(3) : 0), pr = 0;
    for (int i = 0; i < n; i++)
    {
        if (i && g.below(2)) pr++;
        std::vector<P> s; int m = g.below(8) ? 1 + g.below(size) : 0;
        for (int k = 0; k < m; k++)
        {
            P t(new T()); t->kind = depth > 0 && g.below(3) == 0; t->mark = g.below(3) ? 0 : "*+?"[g.below(3)];
            if (t->kind) t->alts = gensel(g, depth - 1, 2);
            else
            {
                static const char *X[][2] = { { "'a'", "'a'" }, { "\"b\"", "'b'" }, { "'|;('", "'|;('" }, { "''", "''" }, { "X", "X" }, { "Yy_1", "Yy_1" }, { "/c/", "/2/" }, { "/c+d/", "/5/" }, { "'q'", "'q'" } };
                int k2 = g.below(9); t->text = X[k2][0]; t->label = X[k2][1]; if (X[k2][1][0] == '/') { Stream st(std::wstring(X[k2][0] + 1, X[k2][0] + strlen(X[k2][0]))); NFA<char> nfa; nfa.parse(st); t->label = "/" + std::to_string(nfa.get_state_num()) + "/"; }
                if (g.below(6) == 0) { int v = g.below(100); t->text += sp(g) + "{" + sp(g) + std::to_string(v) + sp(g) + "}"; t->label += "{" + std::to_string(v) + "}"; }
            }
            if (g_plain && (t->mark == '*' || t->mark == '+')) { std::vector<P> b(1, P(new T(*t))); b[0]->mark = 0; if (nullable(b)) t->mark = 0; }
            s.push_back(t);
        }
        r.push_back(std::make_pair(pr, s));
    }
    return r;
}
static S seltext(const Alts& a, vp::Rng& g)
{
    S r; int pr = 0;
    for (size_t i = 0; i < a.size(); i++)
    {
        if (i) { r += a[i].first > pr ? "|>" : "|"; pr = a[i].first; }
        r += sp(g);
        for (auto& t : a[i].second) { r += t->kind ? "(" + seltext(t->alts, g) + ")" : t->text; r += sp(g); if (t->mark) r += S(1, t->mark) + sp(g); else if (!t->kind) r += " "; }
    }
    return r;
}
// ---- words of the rule up to length L
typedef std::set<W> Ws;
static Ws cat(const Ws& a, const Ws& b, size_t L) { Ws r; for (auto& x : a) for (auto& y : b) if (x.size() + y.size() <= L) { W z = x; z.insert(z.end(), y.begin(), y.end()); r.insert(z); } return r; }
static Ws words(const Alts& a, size_t L);
static Ws words(const P& t, size_t L)
{
    Ws b; if (t->kind) b = words(t->alts, L); else if (L) b.insert(W(1, t->label));
    if (t->mark == '?') b.insert(W());
    if (t->mark == '*' || t->mark == '+') { Ws r; r.insert(W()); for (;;) { Ws q = cat(r, b, L); q.insert(r.begin(), r.end()); if (q == r) break; r = q; } return t->mark == '*' ? r : cat(b, r, L); }
    return b;
}
static Ws words(const Alts& a, size_t L) { Ws r; for (auto& s : a) { Ws q; q.insert(W()); for (auto& t : s.second) q = cat(q, words(t, L), L); r.insert(q.begin(), q.end()); } return r; }
// ---- derivations with the decisions taken
typedef std::vector<Walk> Ds;
static Ds dcat(const Ds& a, const Ds& b, size_t L) { Ds r; for (auto& x : a) for (auto& y : b) if (x.w.size() + y.w.size() <= L) { Walk z = x; z.w.insert(z.w.end(), y.w.begin(), y.w.end()); z.d.insert(z.d.end(), y.d.begin(), y.d.end()); r.push_back(z); } return r; }
static Ds pre(int c, int rank, Ds d) { for (auto& x : d) x.d.insert(x.d.begin(), std::make_pair(c, rank)); return d; }
static Ds derivs(const Alts& a, size_t L);
static Ds app(Ds a, const Ds& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static Ds loop(const Ds& b, size_t L, size_t fuel)   // behind a body: again or leave
{
    Ds out = pre(1, 0, Ds(1)); if (fuel) out = app(out, pre(0, 0, dcat(b, loop(b, L, fuel - 1), L))); return out;
}
static Ds derivs(const P& t, size_t L)
{
    Ds b; if (t->kind) b = derivs(t->alts, L); else { Walk w; w.w.push_back(t->label); if (L) b.push_back(w); }
    if (t->mark == '?') return app(pre(0, 0, b), pre(1, 0, Ds(1)));
    if (t->mark == '*') return app(pre(0, 0, dcat(b, loop(b, L, L), L)), pre(1, 0, Ds(1)));
    if (t->mark == '+') return dcat(b, loop(b, L, L), L);
    return b;
}
static Ds derivs(const Alts& a, size_t L) { Ds r; for (size_t i = 0; i < a.size(); i++) { Ds q(1); for (auto& t : a[i].second) q = dcat(q, derivs(t, L), L); r = app(r, pre((int)i, a[i].first, q)); } return r; }
// ---- the network
static S show(const A& a)
{
    std::ostringstream o;
    for (int i = 0; i < (int)a.m_nodes.size(); i++) { auto& n = a.m_nodes[i]; S l = label(n); o << " " << i << ":" << (n.m_type == ATNNodeType::WhiteSpace ? "ws" : l.empty() ? "-" : l); for (auto& t : n.m_transitions) o << "->" << t.dest() << "(" << t.tag() << ")"; }
    return o.str();
}
static Ws networds(const A& a, size_t L)
{
    Ws r; std::set<std::pair<int, W> > seen; std::vector<std::pair<int, W> > todo(1, std::make_pair(0, W())); seen.insert(todo[0]);
    while (!todo.empty())
    {
        auto q = todo.back(); todo.pop_back(); if (q.first == (int)a.m_nodes.size() - 1) r.insert(q.second);
        for (auto& t : a.m_nodes[q.first].m_transitions) { auto n = std::make_pair(t.dest(), q.second); S l = label(a.m_nodes[t.dest()]); if (!l.empty()) n.second.push_back(l); if (n.second.size() <= L && seen.insert(n).second) todo.push_back(n); }
    }
    return r;
}
static bool netwalks(const A& a, size_t L, Ds& out, int i, Walk& w, int blank)
{
    if (blank > (int)a.m_nodes.size() || out.size() > 150) return false;
    if (i == (int)a.m_nodes.size() - 1) out.push_back(w);
    auto& ts = a.m_nodes[i].m_transitions;
    for (int k = 0; k < (int)ts.size(); k++)
    {
        S l = label(a.m_nodes[ts[k].dest()]); if (!l.empty() && w.w.size() == L) continue;
        if (!l.empty()) w.w.push_back(l); if (ts.size() > 1) w.d.push_back(std::make_pair(k, ts[k].tag()));
        bool ok = netwalks(a, L, out, ts[k].dest(), w, l.empty() ? blank + 1 : 0);
        if (!l.empty()) w.w.pop_back(); if (ts.size() > 1) w.d.pop_back();
        if (!ok) return false;
    }
    return true;
}
typedef std::multiset<std::pair<std::pair<W, W>, int> > Rank;
static Rank ranks(const Ds& d)
{
    Rank r;
    for (auto& x : d) for (auto& y : d)
    {
        int s = 0; for (size_t k = 0; k < x.d.size() && k < y.d.size(); k++) if (x.d[k].first != y.d[k].first) { s = x.d[k].second < y.d[k].second ? -1 : x.d[k].second > y.d[k].second; break; }
        r.insert(std::make_pair(std::make_pair(x.w, y.w), s));
    }
    return r;
}
static S diff(const Ws& a, const Ws& b) { for (auto& x : a) if (!b.count(x)) return show(x); return ""; }
static S diff(const Rank& a, const Rank& b)
{
    for (auto& x : a) if (a.count(x) != b.count(x)) return show(x.first.first) + (x.second < 0 ? " preferred to " : x.second > 0 ? " ranked below " : " ranked like ") + show(x.first.second);
    return "";
}
static void inside(const A& a) { for (auto& n : a.m_nodes) for (auto& t : n.m_transitions) VP_CHECK(t.dest() >= 0 && t.dest() < (int)a.m_nodes.size(), "a transition leads outside the network"); }
static void simplify(A& a, size_t L)
{
    S before = show(a); Ws w0 = networds(a, L); Ds d0; Walk w; bool r0 = netwalks(a, L, d0, 0, w, 0);
    a.drop_passthrough_nodes(); inside(a); Ws w1 = networds(a, L);
    VP_CHECK(diff(w0, w1).empty(), "simplification loses " + diff(w0, w1)); VP_CHECK(diff(w1, w0).empty(), "simplification adds " + diff(w1, w0));
    Ds d1; Walk v; if (!r0 || !netwalks(a, L, d1, 0, v, 0)) return;
    Rank k0 = ranks(d0), k1 = ranks(d1);
    VP_CHECK(k0 == k1, "simplification changes the preference: before, " + diff(k0, k1) + "; after, " + diff(k1, k0));
}
static bool closed_blank_loop(const A& a)
{
    for (int s = 0; s < (int)a.m_nodes.size(); s++)
    {
        std::set<int> seen; std::vector<int> todo(1, s);
        while (!todo.empty()) { int i = todo.back(); todo.pop_back(); for (auto& t : a.m_nodes[i].m_transitions) { if (!label(a.m_nodes[t.dest()]).empty()) continue; if (t.dest() == s) return true; if (seen.insert(t.dest()).second) todo.push_back(t.dest()); } }
    }
    return false;
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    size_t L = vp::g_deep ? 4 : 3;
    for (unsigned seed = 1; vp::time_left() || seed < 200; seed++)
    {
        vp::Rng g(vp::g_seed * 70001u + seed);
        if (seed % 3)
        {
            g_plain = seed % 2; Alts s = gensel(g, 2, 3); S t = sp(g) + ":" + seltext(s, g) + ";"; int id = g.below(4) ? 1 : 0;
            vp::cur("rule " + t); vp::watch(60); Stream st(std::wstring(t.begin(), t.end()));
            std::unique_ptr<A> p; try { p.reset(new A(id, st)); } catch (const std::exception&) {} VP_CHECK(p, "a well-formed rule is rejected"); A& a = *p;
            VP_CHECK(st.get() == 0, "the text behind the rule is read");
            vp::cur("rule " + t + "; network:" + show(a)); inside(a);
            Ws w0 = words(s, L), w1 = networds(a, L);
            VP_CHECK(diff(w0, w1).empty(), "the network does not generate " + diff(w0, w1)); VP_CHECK(diff(w1, w0).empty(), "the network generates " + diff(w1, w0));
            for (int i = 0; i < (int)a.m_nodes.size(); i++) { bool term = a.m_nodes[i].m_type == ATNNodeType::LiteralTerminal || a.m_nodes[i].m_type == ATNNodeType::RegularTerminal; for (auto& n : a.m_nodes) for (auto& tr : n.m_transitions) if (tr.dest() == i && term) VP_CHECK((n.m_type == ATNNodeType::WhiteSpace) == (id > 0), "white space before a terminal is not skipped as it should"); }
            if (g_plain)
            {
                Ds d0 = derivs(s, L), d1; Walk w; if (d0.size() < 100 && netwalks(a, L, d1, 0, w, 0))
                { Rank k0 = ranks(d0), k1 = ranks(d1); VP_CHECK(k0 == k1, "the network's preference is not the rule's: rule, " + diff(k0, k1) + "; network, " + diff(k1, k0)); }
            }
            simplify(a, L);
            // damaged text: an error or a network that stays inside itself
            if (g.below(2)) t = t.substr(0, g.below(t.size() + 1)); else t[g.below(t.size())] = "|;()*'/ {"[g.below(9)];
            vp::cur("rule text " + t); Stream s2(std::wstring(t.begin(), t.end())); try { A b(1, s2); inside(b); b.drop_passthrough_nodes(); inside(b); } catch (const std::exception&) {}
        }
        else
        {
            A a(1); int n = 3 + g.below(6);
            for (int i = 0; i < n; i++) { int k = i == 0 || i == n - 1 ? 0 : g.below(4); a.m_nodes.emplace_back(k == 3 ? ATNNodeType::Nonterminal : ATNNodeType::Blank); if (k == 3) a.m_nodes[i].m_invoke = Identifier(std::wstring(1, L'A' + g.below(3))); }
            int e = n - 1 + g.below(n); for (int k = 0; k < e; k++) a.m_nodes[k < n - 1 && g.below(3) ? k : g.below(n - 1)].add_transition(g.below(4) ? 1 + g.below(n - 1) : g.below(n), g.below(3));
            vp::cur("network:" + show(a)); vp::watch(60);
            if (closed_blank_loop(a)) { Ws w0 = networds(a, L); a.drop_passthrough_nodes(); inside(a); Ws w1 = networds(a, L); VP_CHECK(w0 == w1, "simplification changes the words: " + diff(w0, w1) + diff(w1, w0)); }
            else simplify(a, L);
        }
    }
    return vp::finish();
}
