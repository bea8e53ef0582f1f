// P07: reading grammars from files: rule names, ids, order across included files, errors, moves, reference check.
#include "vp.hpp"
#include <fstream>
#include <sys/stat.h>
#include <memory>
#include <algorithm>
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
#include "Grammar.hpp"
using namespace Centaurus;
typedef std::string S;
typedef Grammar<char> G;
static S g_dir; static std::vector<S> g_files;
static S path(const S& n) { return g_dir + "/" + n; }
static void write(const S& n, const S& t) { if (std::find(g_files.begin(), g_files.end(), n) == g_files.end()) g_files.push_back(n); std::ofstream f(path(n).c_str(), std::ios::out | std::ios::trunc); f << t; }
static void cleanup() { for (auto& f : g_files) unlink(path(f).c_str()); rmdir(path("sub").c_str()); rmdir(g_dir.c_str()); }
static S narrow(const std::wstring& w) { return S(w.begin(), w.end()); }
static std::wstring wide(const S& w) { return std::wstring(w.begin(), w.end()); }
static std::vector<std::pair<S, int>> g_enum;
static void CENTAURUS_CALLBACK collect(const wchar_t *name, int id) { g_enum.push_back(std::make_pair(narrow(name), id)); }
struct Exp { std::vector<S> names; std::set<S> used; bool dup; Exp() : dup(false) {} };
static void same(const G& g, const Exp& e, const char *when)
{
    S w(when);
    g_enum.clear(); g.enum_machines(collect);
    VP_CHECK(g_enum.size() == e.names.size(), "the rules are not listed once each" + w);
    VP_CHECK(g.get_machine_num() == (int)e.names.size() && g.get_machines().size() == e.names.size(), "not one network per rule" + w);
    for (size_t k = 0; k < e.names.size(); k++)
    {
        VP_CHECK(g_enum[k].first == e.names[k] && g_enum[k].second == (int)k + 1, "rule number " + std::to_string(k + 1) + " is listed as \"" + g_enum[k].first + "\" with id " + std::to_string(g_enum[k].second) + w);
        VP_CHECK(narrow(g.lookup_id((int)k).str()) == e.names[k], "looking up rule number " + std::to_string(k + 1) + " gives another name" + w);
        VP_CHECK(g.get_machine_id(Identifier(wide(e.names[k]))) == (int)k + 1, "rule \"" + e.names[k] + "\" has another id" + w);
        VP_CHECK(g[Identifier(wide(e.names[k]))].get_unique_id() == (int)k + 1, "the network of rule \"" + e.names[k] + "\" has another id" + w);
    }
    VP_CHECK(narrow(g.get_root_id().str()) == (e.names.empty() ? "" : e.names[0]), "the root is not the first rule" + w);
    bool ok = true; for (auto& p : g.get_machines()) if (!p.second.verify_invocations(g.get_machines())) ok = false;
    bool def = true; for (auto& u : e.used) if (std::find(e.names.begin(), e.names.end(), u) == e.names.end()) def = false;
    VP_CHECK(ok == def, def ? "a defined rule name is reported as undefined" + w : "an undefined rule name is not reported" + w);
    if (!def) { std::wcerr.setstate(std::ios::failbit); VP_CHECK(!g.verify(), "checking the grammar succeeds though a rule name is undefined" + w); }
}
static S blank(vp::Rng& g) { static const char *B[] = { " ", "\n", "\t", " /* note ; */ ", " // note\n", "\r\n", "" }; return B[g.below(6)]; }
static S name(vp::Rng& g) { static const char *N[] = { "A", "B", "Rule", "r_1", "_x", "a9", "Include", "grammars", "x", "Y0", "include1" }; return N[g.below(11)]; }
static S sp(vp::Rng& g) { return g.below(3) ? "" : blank(g); }
static S body(vp::Rng& g, Exp& e)
{
    S r; int n = g.below(4);
    for (int i = 0; i < n; i++)
    {
        switch (g.below(5)) { case 0: r += "'a'"; break; case 1: r += "/b+/"; break; case 2: r += "('c' | 'd')"; break; default: { S u = g.below(4) && !e.names.empty() ? e.names[g.below(e.names.size())] : name(g); e.used.insert(u); r += u; } }
        r += " " + sp(g);
    }
    return r;
}
static S text(vp::Rng& g, Exp& e, int depth, int& file, bool dups)
{
    S t = sp(g); int n = g.below(depth ? 4 : 6);
    for (int i = 0; i < n; i++)
    {
        int k = g.below(8);
        if (k == 0) t += "grammar" + S(" ") + sp(g) + name(g) + sp(g) + ";";
        else if (k <= 2 && depth < 3)
        {
            S f = (g.below(3) ? "" : "sub/") + S("g") + std::to_string(file++) + ".cgr";
            S body = text(g, e, depth + 1, file, dups);
            S rel = f; write(f, body);
            t += "include " + sp(g) + "\"" + path(rel) + "\"" + sp(g) + ";";
        }
        else
        {
            S nm = name(g); bool d = std::find(e.names.begin(), e.names.end(), nm) != e.names.end();
            if (d && !dups) { nm += "_" + std::to_string(e.names.size()) + "z"; d = std::find(e.names.begin(), e.names.end(), nm) != e.names.end(); }
            if (d) e.dup = true; else e.names.push_back(nm);
            t += nm + " " + sp(g) + ":" + sp(g) + body(g, e) + ";";
        }
        t += blank(g);
    }
    return t;
}
static void run(const S& t, const Exp& e)
{
    vp::cur("grammar text: " + t); vp::watch(30); write("main.cgr", t);
    bool threw = false; std::unique_ptr<G> g(new G());
    try { int r = g->parse(path("main.cgr")); VP_CHECK(r == (int)e.names.size() + 1, "the number of rules read is wrong"); } catch (const std::exception&) { threw = true; }
    VP_CHECK(!e.dup || threw, "a rule defined twice is accepted");
    VP_CHECK(e.dup || !threw, "a well-formed grammar is rejected");
    if (threw) return;
    same(*g, e, "");
    G h(std::move(*g)); g.reset(); same(h, e, " (after a move)");
    Exp e0(e);
    G o(path("main.cgr").c_str()); same(o, e, " (after simplification)");
}
static void names(vp::Rng& g)
{
    S al = "aZ_09 -:"; S t; int n = g.below(6); for (int i = 0; i < n; i++) t += al[g.below(al.size())];
    vp::cur("name text: " + t); vp::watch(10);
    size_t k = 0; auto lead = [](char c) { return c == '_' || isalpha(c); };
    if (!t.empty() && lead(t[0])) while (k < t.size() && (lead(t[k]) || isdigit(t[k]))) k++;
    Stream st(wide(t)); bool threw = false; Identifier id; try { id.parse(st); } catch (const std::exception&) { threw = true; }
    VP_CHECK(threw == (k == 0), k ? "a name is rejected" : "something that is not a name is accepted");
    if (k) { VP_CHECK(narrow(id.str()) == t.substr(0, k), "the name read is \"" + narrow(id.str()) + "\""); VP_CHECK(st.get() == (k < t.size() ? (wchar_t)t[k] : 0), "the reader does not stand behind the name"); }
}
static void anytext(vp::Rng& g, S t)   // cut or damaged texts: an error or a consistent grammar
{
    if (g.below(2)) t = t.substr(0, g.below(t.size() + 1)); else for (int i = 1 + g.below(3); i > 0 && !t.empty(); i--) { static const S al = ";:|(){}'\"/*ai \n"; t[g.below(t.size())] = al[g.below(al.size())]; }
    vp::cur("grammar text: " + t); vp::watch(30); write("main.cgr", t); G h; int r;
    try { r = h.parse(path("main.cgr")); } catch (const std::exception&) { return; }
    VP_CHECK(r == h.get_machine_num() + 1, "ids and networks disagree"); g_enum.clear(); h.enum_machines(collect); VP_CHECK((int)g_enum.size() == r - 1, "the rules are not listed once each");
    for (auto& p : g_enum) VP_CHECK(h.get_machine_id(Identifier(wide(p.first))) == p.second, "rule \"" + p.first + "\" has another id");
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    char d[] = "./vpgXXXXXX"; if (!mkdtemp(d)) return 3; { char *r = realpath(d, nullptr); g_dir = r; free(r); } mkdir(path("sub").c_str(), 0700);
    {
        // the largest rule id has 15 bits; relative includes; a name used before its definition
        write("inc.cgr", "B: 'b' ;"); write("sub/inc.cgr", "C: 'c' ; include \"../inc.cgr\";"); Exp e; e.names = { "A", "C", "B" }; e.used = { "B" };
        run("A: B ; include \"sub/inc.cgr\" ;", e);
        for (int extra = 0; extra < 2; extra++)
        {
            std::string t; for (int i = 0; i < 32767 + extra; i++) t += "r" + std::to_string(i) + ":;";
            vp::cur(std::to_string(32767 + extra) + " rules"); vp::watch(60); write("main.cgr", t); G h; bool threw = false; try { h.parse(path("main.cgr")); } catch (const std::exception&) { threw = true; }
            VP_CHECK(threw == (extra > 0), extra ? "more rules than 15-bit ids are accepted" : "32767 rules are rejected");
        }
    }
    for (unsigned seed = 1; vp::time_left() || seed < 100; seed++)
    {
        vp::Rng g(vp::g_seed * 60013u + seed); Exp e; int file = 0;
        S t = text(g, e, 0, file, seed % 4 == 0); run(t, e); anytext(g, t); for (int i = 0; i < 5; i++) names(g);
    }
    cleanup(); return vp::finish();
}
