// P06: the grammar text reader against an independent scanner.
#include "vp.hpp"
#include <stdexcept>
#include "Stream.hpp"
using namespace Centaurus;
typedef std::wstring W;
static bool isnl(wchar_t c) { return c == L'\n' || c == 0x85 || c == 0x2028 || c == 0x2029; }
struct Ref
{
    W s; size_t i = 0;
    wchar_t at(size_t k) const { return k < s.size() ? s[k] : 0; }
    wchar_t get()
    {
        if (i >= s.size()) return 0;
        wchar_t c = s[i++];
        if (c == L'\r') { if (i >= s.size()) return L'\n'; if (s[i] == L'\n') { i++; return L'\n'; } }
        return c;
    }
    // returns false: unterminated block comment
    bool skip()
    {
        while (true)
        {
            if (i < s.size() && std::iswspace(s[i])) i++;
            else if (at(i) == L'/' && at(i + 1) == L'*')
            {
                size_t k = i + 2; bool ok = false;
                for (; k < s.size() && s[k]; k++) if (s[k] == L'*' && at(k + 1) == L'/') { ok = true; break; }
                if (!ok) return false;
                i = k + 2;
            }
            else if (at(i) == L'/' && at(i + 1) == L'/')
            {
                i += 2;
                while (i < s.size()) { wchar_t c = s[i++]; if (c == L'\n' || c == 0) break; }
            }
            else return true;
        }
    }
    int line() const { int n = 1; for (size_t k = 0; k < i; k++) if (isnl(s[k]) && !(k + 1 == i)) n++; return n; }
};
static int line_of(Stream& st)
{
    std::string m = st.unexpected(L'x').what();
    int l = -1; sscanf(m.c_str(), "Line %d", &l); return l;
}
static void one(const W& text, const std::string& ops)
{
    vp::cur("text \"" + vp::narrow(text) + "\" calls " + ops);
    Stream st(text); Ref r; r.s = text;
    Stream::Sentry s0 = st.sentry(); size_t i0 = 0;
    for (char o : ops)
    {
        if (o == 'g') { wchar_t a = st.get(), b = r.get(); VP_CHECK(a == b, "get() delivered a wrong character"); }
        else if (o == 'p') VP_CHECK(st.peek() == r.at(r.i), "peek() is not the next character");
        else if (o >= '1' && o <= '9') VP_CHECK(st.peek(o - '0') == r.at(r.i + (o - '0') - 1), "peek(n) is not the n-th next character");
        else if (o == 'd') { st.discard(); r.get(); }
        else if (o == 'D') { st.discard(2); r.get(); r.get(); }
        else if (o == 'c') { VP_CHECK(st.cut(s0) == text.substr(i0, r.i - i0), "cut() is not the text since the mark"); }
        else if (o == 'm') { s0 = st.sentry(); i0 = r.i; }
        else if (o == 'a' || o == 's')
        {
            size_t k = r.i; bool ok = r.skip(), got = true; wchar_t c = 0;
            try { c = o == 's' ? st.skip_whitespace() : st.after_whitespace(); } catch (const StreamException&) { got = false; }
            VP_CHECK(ok == got, ok ? "a well-formed gap was rejected" : "an unterminated comment was not reported");
            if (!ok) return;
            if (o == 's') VP_CHECK(c == r.at(r.i), "skip_whitespace() stopped at the wrong character");
            else { wchar_t e = r.get(); VP_CHECK(c == e, "after_whitespace() delivered the wrong character"); }
        }
        VP_CHECK(st.cut(s0) == text.substr(i0, r.i - i0), "wrong position after the calls");
        VP_CHECK(line_of(st) == r.line(), "wrong line number");
    }
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    const wchar_t A[] = { L'/', L'*', L'\n', L'\r', L' ', L'a', 0x2028 };
    const char *seqs[] = { "ggggggg", "sgsgsgs", "p12345gp12345g12345gggg", "agmgsccg", "dDsgDp123", "gsgagmgcg" };
    int N = vp::g_deep ? 7 : 5;
    for (int n = 0; n <= N; n++)
    {
        long tot = 1; for (int i = 0; i < n; i++) tot *= 7;
        for (long v = 0; v < tot; v++)
        {
            W t; long x = v; for (int i = 0; i < n; i++) { t += A[x % 7]; x /= 7; }
            if (n == N) { one(t, seqs[v % 6]); one(t, "ssgssgsgs"); } else for (auto q : seqs) one(t, q);
        }
        if (!vp::time_left()) break;
    }
    vp::Rng rng(vp::g_seed);
    const wchar_t B[] = { L'/', L'*', L'\n', L'\r', L' ', L'a', 0x2028, L'\t', L':', 0x85, L'/', L'*', 0x3000, 0 };
    const char O[] = "gpdDacms123456789gs";
    long lim = vp::g_deep ? 2000000 : 60000;
    for (long k = 0; k < lim && vp::time_left(); k++)
    {
        W t; int n = rng.below(24); for (int i = 0; i < n; i++) t += B[rng.below(14)];
        std::string o; int m = 1 + rng.below(14); for (int i = 0; i < m; i++) o += O[rng.below(sizeof O - 1)];
        one(t, o);
    }
    return vp::finish();
}
