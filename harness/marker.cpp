// P11: trace words against an independent decoder, and the ready made encodings of markers.
#include "vp.hpp"
#include <vector>
#include <atomic>
#include <ctime>
#include "BaseRunner.hpp"
using namespace Centaurus;
static uint64_t bits(uint64_t w, int lo, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) if ((w / (1ull << (lo + i))) % 2) r += 1ull << i; return r; }
static void word(uint64_t w)
{
    char b[64]; snprintf(b, sizeof b, "word 0x%016llx", (unsigned long long)w); vp::cur(b);
    CSTMarker m(w);
    uint64_t id = bits(w, 48, 15), off = bits(w, 0, 48); bool s = bits(w, 63, 1);
    VP_CHECK((uint64_t)m.get_machine_id() == id, "wrong rule id");
    VP_CHECK(m.get_offset() == off, "wrong offset");
    VP_CHECK(m.get_sign_bit() == s, "wrong kind bit");
    bool st = s && id, en = !s && id, sv = s && !id;
    VP_CHECK(m.is_start_marker() == st, "start marker misjudged");
    VP_CHECK(m.is_end_marker() == en, "end marker misjudged");
    VP_CHECK(m.is_sv_marker() == sv, "value marker misjudged");
    VP_CHECK((int)m.is_start_marker() + (int)m.is_end_marker() + (int)m.is_sv_marker() + (id == 0 && !s) == 1, "not exactly one kind");
    const char *win = (const char *)0x10000;
    VP_CHECK((uint64_t)m.offset_ptr(win) == (uint64_t)win + off, "wrong input position");
    SVCapsule c(win, w, w * 3 + 1);
    VP_CHECK((uint64_t)c.get_next_ptr() == (uint64_t)win + off && (uint64_t)c.get_machine_id() == id && c.get_tag() == w * 3 + 1, "wrong capsule");
}
int main(int argc, char **argv)
{
    vp::init(argc, argv);
    std::vector<uint64_t> v = { 0, 1, ~0ull };
    for (int i = 0; i < 64; i++) { uint64_t p = 1ull << i; for (uint64_t q : { p, p - 1, p + 1, ~p, ~p + 1, 0 - p }) v.push_back(q); for (int j = 0; j < i; j++) v.push_back(p | (1ull << j)), v.push_back(~(p | (1ull << j))), v.push_back(p - (1ull << j)); }
    for (uint64_t w : v) word(w);
    for (int id : { 0, 1, 2, 127, 128, 255, 256, 16383, 16384, 32766, 32767 })
        for (uint64_t off : { 0ull, 1ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffull, 0x800000000000ull, 0xffffffffffffull })
            for (int s = 0; s < 2; s++) { CSTMarker m(((uint64_t)s << 63) | ((uint64_t)id << 48) | off); word(m.m_value);
                VP_CHECK(m.get_machine_id() == id && m.get_offset() == off && m.get_sign_bit() == (s == 1), "marker does not give back what was put in"); }
    for (int id = 0; id < 32768; id++) word(((uint64_t)(id & 1) << 63) | ((uint64_t)id << 48) | (uint64_t)id * 8589934583ull % (1ull << 48));
    vp::Rng r(vp::g_seed); long n = vp::g_deep ? 50000000 : 300000;
    for (long i = 0; i < n && vp::time_left(); i++) word(r.next());
    return vp::finish();
}
