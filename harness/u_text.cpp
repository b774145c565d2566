// C19, C20, C21: text primitives against independent definitions. argv: mode seed tier [shard shards]
#include "unit.hpp"
#include <bitset>
#include "ulight/impl/ascii_algorithm.hpp"
#include "ulight/impl/ascii_chars.hpp"
#include "ulight/impl/charset.hpp"
#include "ulight/impl/strings.hpp"
#include "ulight/impl/unicode.hpp"
#include "ulight/impl/unicode_algorithm.hpp"
#include "ulight/impl/unicode_chars.hpp"
using namespace unit;
using u8v = std::u8string_view;
namespace u8n = ulight::utf8;

// ---- reference: table 3-7 of the Unicode standard, row by row
struct Row { unsigned lo, hi; int n; unsigned r[3][2]; };
static const Row rows[] = {
    { 0x00, 0x7f, 1, {} },
    { 0xc2, 0xdf, 2, { { 0x80, 0xbf } } },
    { 0xe0, 0xe0, 3, { { 0xa0, 0xbf }, { 0x80, 0xbf } } },
    { 0xe1, 0xec, 3, { { 0x80, 0xbf }, { 0x80, 0xbf } } },
    { 0xed, 0xed, 3, { { 0x80, 0x9f }, { 0x80, 0xbf } } },
    { 0xee, 0xef, 3, { { 0x80, 0xbf }, { 0x80, 0xbf } } },
    { 0xf0, 0xf0, 4, { { 0x90, 0xbf }, { 0x80, 0xbf }, { 0x80, 0xbf } } },
    { 0xf1, 0xf3, 4, { { 0x80, 0xbf }, { 0x80, 0xbf }, { 0x80, 0xbf } } },
    { 0xf4, 0xf4, 4, { { 0x80, 0x8f }, { 0x80, 0xbf }, { 0x80, 0xbf } } },
};
static const Row* row_of(unsigned b) { for (const Row& r : rows) if (b >= r.lo && b <= r.hi) return &r; return nullptr; }
static const Row* row_table[256];
struct Ref { char32_t cp; int len; bool ok; int need; }; // len: of the sequence, or of the maximal subpart
static Ref ref(const unsigned char* p, std::size_t n)
{
    if (n == 0) return { 0xFFFD, 0, false, 0 };
    const Row* r = row_table[p[0]];
    if (!r) return { 0xFFFD, 1, false, 0 };
    char32_t v = r->n == 1 ? p[0] : r->n == 2 ? p[0] - 0xc0u : r->n == 3 ? p[0] - 0xe0u : p[0] - 0xf0u;
    for (int i = 1; i < r->n; ++i) {
        if (std::size_t(i) >= n || p[i] < r->r[i - 1][0] || p[i] > r->r[i - 1][1]) return { 0xFFFD, i, false, r->n };
        v = v * 64 + (p[i] - 0x80u);
    }
    return { v, r->n, true, r->n };
}
static std::string d(const Ref& r) { char b[64]; std::snprintf(b, sizeof b, "U+%04X length %d %s", unsigned(r.cp), r.len, r.ok ? "well-formed" : "ill-formed"); return b; }

static void check_array(std::array<char8_t, 4> a)
{
    unsigned char p[4] = { a[0], a[1], a[2], a[3] };
    const Ref r = ref(p, 4);
    static auto &n_all = stats["arrays"], &n_ok = stats["arrays_wellformed"];
    ++n_all;
    n_ok += r.ok;
    auto bad = [&](const char* f, std::string got) { fail(f, std::string(f) + " of " + hex(p, 4) + ": got " + got + ", want " + d(r)); };
    const auto x = u8n::decode_and_length_or_replacement(a);
    if (x.code_point != r.cp || x.length != r.len) bad("decode_and_length_or_replacement(array)", d({ x.code_point, x.length, true, 0 }));
    if (u8n::decode_or_replacement(a) != r.cp) bad("decode_or_replacement(array)", std::to_string(unsigned(u8n::decode_or_replacement(a))));
    for (int n = 1; n <= 4; ++n) {
        const bool v = r.ok && r.len == n;
        if (u8n::is_valid(a, n) != v) bad("is_valid(array)", std::to_string(n));
        const auto e = u8n::decode(a, n);
        if (e.has_value() != v || (v && *e != r.cp) || (!v && e.error() != u8n::Error_Code::illegal_bits)) bad("decode(array)", std::to_string(n));
        if (u8n::decode_or_replacement(a, n) != (v ? r.cp : 0xFFFD)) bad("decode_or_replacement(array,length)", std::to_string(n));
        if (v && u8n::decode_unchecked(a, n) != r.cp) bad("decode_unchecked(array)", std::to_string(unsigned(u8n::decode_unchecked(a, n))));
    }
}
static void check_view(u8v s)
{
    const Exact e(s);
    const u8v v = e.view();
    const Ref r = ref(reinterpret_cast<const unsigned char*>(v.data()), v.size());
    ++stats["views"];
    auto bad = [&](const char* f, std::string got) { fail(f, std::string(f) + " of " + hex(s) + ": got " + got + ", want " + d(r)); };
    const auto x = u8n::decode_and_length_or_replacement(v);
    if (x.code_point != r.cp || x.length != r.len) bad("decode_and_length_or_replacement(view)", d({ x.code_point, x.length, true, 0 }));
    if (u8n::decode_or_replacement(v) != r.cp) bad("decode_or_replacement(view)", "");
    const auto y = u8n::decode_and_length(v);
    if (y.has_value() != r.ok) bad("decode_and_length", y ? "a value" : "an error");
    else if (r.ok) { if (y->code_point != r.cp || y->length != r.len) bad("decode_and_length", d({ y->code_point, y->length, true, 0 })); }
    else {
        const auto c = y.error();
        if (s.empty() ? c != u8n::Error_Code::no_data : c == u8n::Error_Code::no_data) bad("decode_and_length", "error " + std::to_string(int(c)));
        if (r.need && s.size() < std::size_t(r.need) && std::size_t(r.len) == s.size() && c != u8n::Error_Code::missing_units) bad("decode_and_length", "error " + std::to_string(int(c)));
        if (s.size() >= 4 && c != u8n::Error_Code::illegal_bits) bad("decode_and_length", "error " + std::to_string(int(c)));
    }
    const auto z = u8n::decode(v);
    if (z.has_value() != r.ok || (r.ok && *z != r.cp)) bad("decode(view)", "");
    bool threw = false; char32_t got = 0; int gl = 0;
    static unsigned skip = 0;
    if (!r.ok && s.size() > 2 && ++skip % 16) return; // exceptions are slow
    try { const auto t = u8n::decode_and_length_or_throw(v); got = t.code_point; gl = t.length; } catch (const u8n::Unicode_Error&) { threw = true; }
    if (threw == r.ok || (r.ok && (got != r.cp || gl != r.len))) bad("decode_and_length_or_throw", threw ? "an exception" : "a value");
    if (r.ok) {
        const Exact only(s.substr(0, std::size_t(r.len)));
        const auto u = u8n::decode_and_length_unchecked(only.view().data());
        if (u.code_point != r.cp || u.length != r.len) bad("decode_and_length_unchecked", d({ u.code_point, u.length, true, 0 }));
        if (u8n::decode_unchecked(only.view().data()) != r.cp) bad("decode_unchecked(pointer)", "");
    }
}
static void check_text(u8v s)
{
    const Exact e(s);
    const u8v v = e.view();
    ++stats["texts"];
    std::vector<char32_t> cps;
    std::size_t i = 0; bool ok = true;
    while (i < v.size()) {
        const Ref r = ref(reinterpret_cast<const unsigned char*>(v.data()) + i, v.size() - i);
        if (!r.ok) { ok = false; break; }
        cps.push_back(r.cp); i += std::size_t(r.len);
    }
    stats[ok ? "texts_wellformed" : "texts_illformed"]++;
    if (u8n::is_valid(v).has_value() != ok) fail("is_valid(view)", "is_valid of " + hex(s));
    std::vector<char32_t> got; bool threw = false;
    try { for (char32_t c : u8n::Code_Point_View { v }) got.push_back(c); } catch (const u8n::Unicode_Error&) { threw = true; }
    if (threw == ok || got != cps) fail("Code_Point_View", "iteration of " + hex(s) + (threw ? " throws" : "") + " after " + std::to_string(got.size()) + " code points, want " + std::to_string(cps.size()));
    if (ok && u8n::code_points_unchecked(v) != cps.size()) fail("code_points_unchecked", hex(s));
}
static std::u8string random_text(Rng& r, int bad_percent, std::size_t max)
{
    static const std::vector<char32_t> b = { 0, 1, 0x20, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xf8ff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f4a9, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff };
    static const std::vector<unsigned> by = { 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xfe, 0xff, 0x9f, 0xa0, 0x90, 0x8f, 0x41 };
    std::u8string s;
    const std::size_t n = r.below(max);
    while (s.size() < n) {
        if (r.chance(bad_percent)) { s += char8_t(r.pick(by)); if (r.chance(40)) s += char8_t(0x80 + r.below(64)); continue; }
        char32_t c = r.chance(40) ? r.pick(b) : r.chance(50) ? char32_t(r.below(0x80)) : char32_t(r.below(0x110000));
        if (c >= 0xd800 && c < 0xe000) c = 0x20ac;
        s += u8n::encode8_unchecked(c).as_string();
    }
    if (bad_percent && r.chance(30) && !s.empty()) s.resize(s.size() - 1);
    return s;
}
static void utf8(Rng& r, bool thorough, unsigned shard, unsigned shards)
{
    for (unsigned b = shard; b < 256; b += shards) {
        const Row* w = row_table[b];
        const int len = w ? w->n : 0;
        if (u8n::sequence_length(char8_t(b)) != len || u8n::sequence_length(char8_t(b), 7) != (len ? len : 7)) fail("sequence_length", "sequence_length of " + std::to_string(b));
        const int ones = b < 0x80 ? 1 : b < 0xc0 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : 0;
        if (u8n::unchecked_sequence_length(char8_t(b)) != ones || u8n::unchecked_sequence_length(char8_t(b), 9) != (ones ? ones : 9)) fail("unchecked_sequence_length", "unchecked_sequence_length of " + std::to_string(b));
        static const unsigned edge[] = { 0x00, 0x01, 0x20, 0x3f, 0x40, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xa1, 0xbe, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xf0, 0xf4, 0xff };
        unsigned extra[6];
        for (unsigned& x : extra) x = unsigned(r.below(256));
        if (thorough) {
            for (unsigned k = 0; k < 1u << 24; ++k) check_array({ char8_t(b), char8_t(k >> 16), char8_t(k >> 8), char8_t(k) });
        } else {
            auto run = [&](unsigned c1, unsigned c2, unsigned c3) { check_array({ char8_t(b), char8_t(c1), char8_t(c2), char8_t(c3) }); };
            for (unsigned c1 = 0; c1 < 256; ++c1) {
                for (unsigned c2 : edge) for (unsigned c3 : edge) run(c1, c2, c3);
                for (unsigned c2 : extra) for (unsigned c3 : extra) run(c1, c2, c3);
            }
        }
    }
    // a view longer than an int can count; only the first bytes exist
    if (shard == 0) {
        static const char8_t text[] = u8"\U0001F4A9\u20acx";
        for (std::size_t n : { std::size_t(0x7fffffff), std::size_t(0x80000000), std::size_t(0x80000001), std::size_t(0xffffffff), std::size_t(0x100000000), std::size_t(0x100000001), std::size_t(1) << 40 }) {
            const auto x = u8n::decode_and_length_or_replacement(u8v { text, n });
            if (x.code_point != 0x1F4A9 || x.length != 4) fail("decode_and_length_or_replacement(long view)", "a view of length " + std::to_string(n) + " decodes to length " + std::to_string(x.length));
            const auto y = u8n::decode_and_length(u8v { text, n });
            if (!y || y->code_point != 0x1F4A9) fail("decode_and_length(long view)", std::to_string(n));
            ++stats["long_views"];
        }
    }
    for (char32_t c = shard; c < 0x110000; c += shards) {
        if (c >= 0xd800 && c < 0xe000) continue;
        ++stats["scalars"];
        unsigned char w[4]; int n;
        if (c < 0x80) { w[0] = c; n = 1; }
        else if (c < 0x800) { w[0] = 192 + c / 64; w[1] = 128 + c % 64; n = 2; }
        else if (c < 0x10000) { w[0] = 224 + c / 4096; w[1] = 128 + c / 64 % 64; w[2] = 128 + c % 64; n = 3; }
        else { w[0] = 240 + c / 262144; w[1] = 128 + c / 4096 % 64; w[2] = 128 + c / 64 % 64; w[3] = 128 + c % 64; n = 4; }
        const auto e = u8n::encode8_unchecked(c);
        if (e.length != n || std::memcmp(e.code_units.data(), w, n) != 0 || e.as_string().size() != std::size_t(n) || e.end() - e.begin() != n) fail("encode8_unchecked", "encoding of " + std::to_string(unsigned(c)) + " is " + hex(e.as_string()));
        check_view(u8v { reinterpret_cast<char8_t*>(w), std::size_t(n) });
    }
}
static void views(Rng& r, bool thorough, unsigned shard, unsigned shards)
{
    static const unsigned b3[] = { 0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe2, 0xff };
    if (shard == 0) check_view({});
    for (unsigned a = shard; a < 256; a += shards) {
        char8_t w[6] = { char8_t(a) };
        check_view({ w, 1 });
        for (unsigned b = 0; b < 256; ++b) {
            w[1] = char8_t(b); check_view({ w, 2 });
            for (unsigned c : b3) {
                w[2] = char8_t(c); check_view({ w, 3 });
                if (a >= 0xc0) for (unsigned x : b3) { w[3] = char8_t(x); w[4] = u8'a'; check_view({ w, 4 }); if (thorough) check_view({ w, 5 }); }
            }
        }
    }
    for (int i = 0; i < (thorough ? 400000 : 30000); ++i) {
        const std::u8string s = random_text(r, i % 3 ? 0 : 15, i % 7 ? 12 : 80);
        check_text(s);
        std::size_t k = r.below(s.size() + 1);
        check_view(u8v(s).substr(k));
        if (i < 2) sample(hex(s));
    }
}

// ---- C20
static std::vector<unsigned char> db; // bit 0 assigned in 15.0, bit 1 XID_Start, bit 2 XID_Continue, bit 3 Co, bit 4 Cs, bit 5 noncharacter
template <class F> static void search(u8v v, const char* name, F f)
{
    std::size_t first[2] = { std::size_t(-1), std::size_t(-1) };
    std::size_t i = 0, n = 0;
    while (i < v.size()) {
        const Ref r = ref(reinterpret_cast<const unsigned char*>(v.data()) + i, v.size() - i);
        const bool b = f(r.cp);
        if (first[b] == std::size_t(-1)) first[b] = i;
        i += std::size_t(r.len); ++n;
    }
    const std::size_t t = first[1], z = first[0], np = u8v::npos;
    ++stats["searches"];
    auto bad = [&](const char* fn, std::size_t got, std::size_t want) { fail(fn, std::string(fn) + "(" + name + ") of " + hex(v) + ": got " + std::to_string((long long)got) + ", want " + std::to_string((long long)want)); };
#define EQ(fn, got, want) if ((got) != (want)) bad(fn, std::size_t(got), std::size_t(want))
    EQ("find_if", u8n::find_if(v, f), t == np ? np : t);
    EQ("find_if_not", u8n::find_if_not(v, f), z);
    EQ("length_if", u8n::length_if(v, f), z == np ? v.size() : z);
    EQ("length_if_not", u8n::length_if_not(v, f), t == np ? v.size() : t);
    EQ("all_of", u8n::all_of(v, f), z == np);
    EQ("any_of", u8n::any_of(v, f), t != np);
    EQ("none_of", u8n::none_of(v, f), t == np);
    EQ("any_not_of", u8n::any_not_of(v, f), z != np);
    (void)n;
}
static void classes(Rng& r, bool thorough, unsigned shard, unsigned shards)
{
    auto want = [&](char32_t c, const char* name, bool got, bool w) { if (got != w) { char b[128]; std::snprintf(b, sizeof b, "%s(U+%04X) is %d", name, unsigned(c), got); fail(name, b); } };
    for (char32_t c = shard; c < 0x110000; c += shards) {
        const unsigned f = db[c];
        ++stats["code_points"];
        const bool special = c == 0x30fb || c == 0xff65 || c == 0x19da || c == 0x200c || c == 0x200d; // changed between versions
        if (f & 1) {
            if (!special || !(f & 64)) { want(c, "is_xid_start", ulight::is_xid_start(c), f & 2); }
            if (!special) want(c, "is_xid_continue", ulight::is_xid_continue(c), f & 4);
        }
        want(c, "is_code_point", ulight::is_code_point(c), true);
        want(c, "is_surrogate", ulight::is_surrogate(c), f & 16);
        want(c, "is_leading_surrogate", ulight::is_leading_surrogate(c), (f & 16) && c < 0xdc00);
        want(c, "is_trailing_surrogate", ulight::is_trailing_surrogate(c), (f & 16) && c >= 0xdc00);
        want(c, "is_scalar_value", ulight::is_scalar_value(c), !(f & 16));
        want(c, "is_noncharacter", ulight::is_noncharacter(c), f & 32);
        if (!(f & 32)) want(c, "is_private_use_area_character", ulight::is_private_use_area_character(c), f & 8);
    }
    const char32_t beyond[] = { 0x110000, 0x110001, 0x11fffd, 0x120000, 0x1fffff, 0x200041, 0x7fffffff, 0x80000041, 0xd800d800, 0xffffffff, char32_t(0x110000 + r.below(0x1000000)) };
    for (char32_t c : beyond) {
        want(c, "is_code_point", ulight::is_code_point(c), false);
        want(c, "is_scalar_value", ulight::is_scalar_value(c), false);
        want(c, "is_surrogate", ulight::is_surrogate(c), false);
        want(c, "is_xid_start", ulight::is_xid_start(c), false);
        want(c, "is_xid_continue", ulight::is_xid_continue(c), false);
        want(c, "is_private_use_area_character", ulight::is_private_use_area_character(c), false);
    }
    for (int i = 0; i < (thorough ? 300000 : 25000); ++i) {
        const std::u8string s = random_text(r, i % 2 ? 0 : 20, i % 5 ? 14 : 60);
        const Exact e(s);
        const u8v v = e.view();
        const char32_t bound = char32_t(1) << r.below(21);
        search(v, "c < bound", [=](char32_t c) noexcept { return c < bound; });
        search(v, "c == U+FFFD", [](char32_t c) noexcept { return c == 0xFFFD; });
        search(v, "c != U+FFFD", [](char32_t c) noexcept { return c != 0xFFFD; });
        search(v, "is_xid_continue", [](char32_t c) noexcept { return ulight::is_xid_continue(c); });
        search(v, "even", [](char32_t c) noexcept { return c % 2 == 0; });
        if (!s.empty()) {
            const Ref t = ref(reinterpret_cast<const unsigned char*>(v.data()) + (v.size() - 1), 1);
            search(v, "c == last", [=](char32_t c) noexcept { return c == t.cp; });
        }
        if (i < 2) sample(hex(s));
    }
}

// ---- C21
template <std::size_t N> static void charset_history(Rng& r)
{
    using C = ulight::Charset<N>;
    C a = C(), b = C(); std::bitset<N> x, y;
    std::string hist;
    auto ch = [&] { return char8_t(r.below(N)); };
    auto same = [&](const C& c, const std::bitset<N>& m, const std::string& op) {
        for (std::size_t i = 0; i < N; ++i)
            if (c(char8_t(i)) != m[i] || c(char32_t(i)) != m[i]) { fail("charset:" + op.substr(0, op.find(' ')), "after" + hist + " the set has the wrong answer for " + std::to_string(i)); return; }
        if (N >= 256) for (char32_t i : { char32_t(0x100), char32_t(0x141), char32_t(0xff41), char32_t(0x10ffff), char32_t(0xffffffff) }) if (c(i)) fail("charset:beyond", "contains " + std::to_string(unsigned(i)));
    };
    const int ops = 4 + int(r.below(20));
    for (int k = 0; k < ops; ++k) {
        std::string op;
        const char8_t c = ch();
        switch (r.below(20)) {
        case 0: a.insert(c); x.set(c); op = "insert"; break;
        case 1: a.remove(c); x.reset(c); op = "remove"; break;
        case 2: a |= b; x |= y; op = "|="; break;
        case 3: a &= b; x &= y; op = "&="; break;
        case 4: a -= b; x &= ~y; op = "-="; break;
        case 5: a |= c; x.set(c); op = "|=c"; break;
        case 6: a -= c; x.reset(c); op = "-=c"; break;
        case 7: a = ~a; x = ~x; op = "~"; break;
        case 8: { C t = a | b; a = b; b = t; auto u = x | y; x = y; y = u; op = "|"; break; }
        case 9: { C t = a & b; a = b; b = t; auto u = x & y; x = y; y = u; op = "&"; break; }
        case 10: { C t = a - b; a = b; b = t; auto u = x & ~y; x = y; y = u; op = "-"; break; }
        case 11: a = a | c; x.set(c); op = "|c"; break;
        case 12: a = a - c; x.reset(c); op = "-c"; break;
        case 13: if (r.chance(30)) { a.clear(); x.reset(); op = "clear"; } else { a = C(c); x.reset(); x.set(c); op = "set(c)"; } break;
        case 14: { std::u8string s; x.reset(); for (std::size_t i = r.below(12); i--;) { char8_t q = ch(); s += q; x.set(q); } a = C(u8v(s)); op = "set(s)"; break; }
        case 15: case 16: {
            std::size_t i = r.chance(30) ? (r.below(N / 64) * 64 + r.below(3)) : r.below(N), j = i + r.below(N - i + 1);
            if (r.chance(30)) j = r.chance(50) ? N : (i / 64 + 1) * 64;
            a = C::range_before(i, j); x.reset(); for (std::size_t q = i; q < j; ++q) x.set(q);
            op = "range_before"; break; }
        case 17: {
            std::size_t i = r.below(N), j = i + r.below(N - i); if (r.chance(20)) j = N - 1;
            a = C::range_until(i, j); x.reset(); for (std::size_t q = i; q <= j; ++q) x.set(q);
            op = "range_until"; break; }
        default: { std::swap(a, b); std::swap(x, y); op = "swap"; }
        }
        hist += " " + op;
        same(a, x, op); same(b, y, op);
        if ((a == b) != (x == y) || (a != b) != (x != y)) fail("charset:==", "equality after" + hist);
        ++stats["charset_operations"];
    }
}
static bool in(unsigned c, const char* s) { return c && c < 128 && std::strchr(s, int(c)); }
template <class F> static void pred(const char* name, F f, bool (*want)(unsigned))
{
    for (unsigned c = 0; c < 256; ++c) {
        ++stats["predicate_values"];
        if (bool(f(char8_t(c))) != want(c)) fail(std::string("predicate:") + name, std::string(name) + " of unit " + std::to_string(c));
        if (bool(f(char32_t(c))) != want(c)) fail(std::string("predicate:") + name, std::string(name) + " of code point " + std::to_string(c));
    }
    for (char32_t c = 0x100; c < 0x11000; c += c < 0x400 ? 1 : 37)
        if (f(c)) fail(std::string("predicate:") + name, std::string(name) + " of code point " + std::to_string(unsigned(c)));
    for (char32_t c : { char32_t(0x10ffff), char32_t(0x80000041), char32_t(0xffffffff), char32_t(0x100000030), char32_t(0x10041), char32_t(0x10061) })
        if (c > 0xff && f(c)) fail(std::string("predicate:") + name, std::string(name) + " of code point " + std::to_string(unsigned(c)));
}
template <class S> static void setp(const char* name, const S& s, bool (*want)(unsigned)) { pred(name, s, want); }
static unsigned low(unsigned c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static unsigned up(unsigned c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool dig(unsigned c) { return c >= '0' && c <= '9'; }
static bool alp(unsigned c) { return low(c) >= 'a' && low(c) <= 'z' && c < 128; }
static bool punct(unsigned c) { return (c > 32 && c < 127) && !alp(c) && !dig(c); }
template <class F> static void asearch(u8v v, std::size_t start, F f)
{
    namespace A = ulight::ascii;
    auto scan = [&](bool want, std::size_t from) { for (std::size_t i = from; i < v.size(); ++i) if (bool(f(v[i])) == want) return i; return u8v::npos; };
    auto len = [&](std::size_t x) { return x == u8v::npos ? v.size() : x; };
    ++stats["ascii_searches"];
    auto bad = [&](const char* fn, std::size_t got, std::size_t want) { fail(std::string("ascii:") + fn, std::string(fn) + " of " + hex(v) + " from " + std::to_string(start) + ": got " + std::to_string((long long)got) + ", want " + std::to_string((long long)want)); };
    EQ("find_if", A::find_if(v, f, start), scan(true, start));
    EQ("find_if_not", A::find_if_not(v, f, start), scan(false, start));
    EQ("length_if", A::length_if(v, f, start), len(scan(false, start)));
    EQ("length_if_not", A::length_if_not(v, f, start), len(scan(true, start)));
    if (start == 0) {
        EQ("find_if", A::find_if(v, f), scan(true, 0));
        EQ("length_if", A::length_if(v, f), len(scan(false, 0)));
        auto alpha = [](char8_t c) { return alp(c); };
        EQ("length_if_head_tail", A::length_if_head_tail(v, alpha, f), v.empty() || !alp(v[0]) ? 0 : len(scan(false, 1)));
    }
}
static void sets(Rng& r, bool thorough, unsigned, unsigned)
{
    for (int i = 0; i < (thorough ? 60000 : 4000); ++i) { charset_history<256>(r); charset_history<128>(r); }
    for (std::size_t i = 0; i < 256; ++i) for (std::size_t j = i; j <= 256; ++j) {
        const auto c = ulight::Charset256::range_before(i, j);
        for (unsigned q = 0; q < 256; ++q) if (c(char8_t(q)) != (q >= i && q < j)) { fail("charset:range_before", std::to_string(i) + ".." + std::to_string(j)); break; }
        ++stats["ranges"];
    }
    using namespace ulight;
    pred("is_ascii", is_ascii, [](unsigned c) { return c < 128; });
    pred("is_ascii_set", is_ascii_set, [](unsigned c) { return c < 128; });
    pred("is_ascii_digit", is_ascii_digit, dig);
    pred("is_ascii_digit_set", is_ascii_digit_set, dig);
    pred("is_ascii_binary_digit", is_ascii_binary_digit, [](unsigned c) { return c == '0' || c == '1'; });
    pred("is_ascii_binary_digit_set", is_ascii_binary_digit_set, [](unsigned c) { return c == '0' || c == '1'; });
    pred("is_ascii_octal_digit", is_ascii_octal_digit, [](unsigned c) { return c >= '0' && c <= '7'; });
    pred("is_ascii_octal_digit_set", is_ascii_octal_digit_set, [](unsigned c) { return c >= '0' && c <= '7'; });
    pred("is_ascii_hex_digit", is_ascii_hex_digit, [](unsigned c) { return dig(c) || (low(c) >= 'a' && low(c) <= 'f'); });
    pred("is_ascii_lower_hex_digit", is_ascii_lower_hex_digit, [](unsigned c) { return dig(c) || (c >= 'a' && c <= 'f'); });
    pred("is_ascii_upper_hex_digit", is_ascii_upper_hex_digit, [](unsigned c) { return dig(c) || (c >= 'A' && c <= 'F'); });
    pred("is_ascii_upper_alpha", is_ascii_upper_alpha, [](unsigned c) { return c >= 'A' && c <= 'Z'; });
    pred("is_ascii_upper_alpha_set", is_ascii_upper_alpha_set, [](unsigned c) { return c >= 'A' && c <= 'Z'; });
    pred("is_ascii_lower_alpha", is_ascii_lower_alpha, [](unsigned c) { return c >= 'a' && c <= 'z'; });
    pred("is_ascii_lower_alpha_set", is_ascii_lower_alpha_set, [](unsigned c) { return c >= 'a' && c <= 'z'; });
    pred("is_ascii_alpha", is_ascii_alpha, alp);
    pred("is_ascii_alphanumeric", is_ascii_alphanumeric, [](unsigned c) { return alp(c) || dig(c); });
    pred("is_ascii_punctuation", is_ascii_punctuation, punct);
    pred("is_ascii_printing", is_ascii_printing, [](unsigned c) { return c >= 32 && c < 127; });
    pred("is_ascii_xid_start", is_ascii_xid_start, alp);
    pred("is_ascii_xid_continue", is_ascii_xid_continue, [](unsigned c) { return alp(c) || dig(c) || c == '_'; });
    pred("is_character_name", is_character_name, [](unsigned c) { return (c >= 'A' && c <= 'Z') || dig(c) || c == ' ' || c == '-'; });
    for (int base = 1; base <= 36; ++base)
        for (unsigned c = 0; c < 256; ++c) {
            const int val = dig(c) ? int(c - '0') : alp(c) ? int(low(c) - 'a' + 10) : 99;
            if (is_ascii_digit_base(char8_t(c), base) != (val < base) || is_ascii_digit_base(char32_t(c), base) != (val < base) || is_ascii_digit_base(char32_t(c + 0x100), base))
                fail("predicate:is_ascii_digit_base", "character " + std::to_string(c) + " in base " + std::to_string(base));
        }
    for (unsigned c = 0; c < 0x11000; ++c) {
        if (c < 256 && (to_ascii_upper(char8_t(c)) != up(c) || to_ascii_lower(char8_t(c)) != low(c))) fail("case", "unit " + std::to_string(c));
        if (to_ascii_upper(char32_t(c)) != up(c) || to_ascii_lower(char32_t(c)) != low(c)) fail("case", "code point " + std::to_string(c));
    }
    // searches and comparisons
    const std::u8string alphabet = u8"aAbBzZ@[`{01 _\x7f\t-\u00c1\u00e1";
    auto word = [&](std::size_t m) { std::u8string s; for (std::size_t n = r.below(m + 1); n--;) s += alphabet[r.below(alphabet.size())]; return s; };
    for (int i = 0; i < (thorough ? 400000 : 30000); ++i) {
        const std::u8string s = word(i % 9 ? 9 : 40);
        const Exact e(s);
        const u8v v = e.view();
        const char8_t c = alphabet[r.below(alphabet.size())];
        const std::size_t start = r.below(v.size() + 1);
        for (std::size_t st : { std::size_t(0), start, v.size() }) {
            asearch(v, st, [](char8_t x) { return alp(x); });
            asearch(v, st, [=](char8_t x) { return x == c; });
            asearch(v, st, [=](char8_t x) { return x != c; });
            namespace A = ulight::ascii;
            std::size_t f = v.find(c, st), n = u8v::npos;
            for (std::size_t k = st; k < v.size(); ++k) if (v[k] != c) { n = k; break; }
            auto bad = [&](const char* fn, std::size_t got, std::size_t want) { fail(std::string("ascii:") + fn, std::string(fn) + " of " + hex(v) + " from " + std::to_string(st) + ": got " + std::to_string(got) + ", want " + std::to_string(want)); };
            EQ("length_before", A::length_before(v, c, st), f == u8v::npos ? v.size() : f);
            EQ("length_before_not", A::length_before_not(v, c, st), n == u8v::npos ? v.size() : n);
            EQ("length_until", A::length_until(v, c, st), f == u8v::npos ? v.size() : f + 1);
            EQ("length_until_not", A::length_until_not(v, c, st), n == u8v::npos ? v.size() : n + 1);
        }
        std::u8string t = r.chance(50) ? word(9) : s;
        for (char8_t& q : t) if (r.chance(30)) q = r.chance(50) ? char8_t(up(q)) : char8_t(low(q));
        if (r.chance(30)) t = t.substr(0, r.below(t.size() + 1));
        if (r.chance(20)) t += word(2);
        auto lo = [](u8v x) { std::u8string o(x); for (char8_t& q : o) q = char8_t(low(q)); return o; };
        const std::u8string ls = lo(s), lt = lo(t);
        const Exact et(t);
        const u8v w = et.view();
        namespace A = ulight::ascii;
        auto rep = [&](const char* fn) { fail(std::string("ascii:") + fn, std::string(fn) + " of " + hex(v) + " and " + hex(w)); };
        if (A::equals_ignore_case(v, w) != (ls == lt)) rep("equals_ignore_case");
        if (A::starts_with_ignore_case(v, w) != ls.starts_with(lt)) rep("starts_with_ignore_case");
        if (A::contains_ignore_case(v, w) != (ls.find(lt) != ls.npos)) rep("contains_ignore_case");
        const int cmp = ls < lt ? -1 : ls == lt ? 0 : 1; const auto o = A::compare_to_lower(v, w);
        if ((o < 0 ? -1 : o == 0 ? 0 : 1) != cmp) rep("compare_to_lower");
        bool asc = true; for (char8_t q : s) asc = asc && q < 128;
        if (ulight::is_all_ascii(v) != asc) rep("is_all_ascii");
        if (ulight::contains(v, c) != (s.find(c) != s.npos)) rep("contains");
        ++stats["comparisons"];
        if (i < 2) sample(hex(s) + " / " + hex(t));
    }
}
int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    mon::install();
    for (unsigned b = 0; b < 256; ++b) row_table[b] = row_of(b);
    const std::string mode = argv[1];
    const unsigned shard = argc > 4 ? unsigned(std::atoi(argv[4])) : 0, shards = argc > 5 ? unsigned(std::atoi(argv[5])) : 1;
    Rng r(std::strtoull(argv[2], nullptr, 10) * 64 + shard);
    const bool th = std::string(argv[3]) == "thorough";
    try {
        if (mode == "utf8") utf8(r, th, shard, shards);
        else if (mode == "views") views(r, th, shard, shards);
        else if (mode == "sets") sets(r, th, shard, shards);
        else if (mode == "classes") {
            db.resize(0x110000);
            if (std::fread(db.data(), 1, db.size(), stdin) != db.size()) return 2;
            classes(r, th, shard, shards);
        } else return 2;
    } catch (const ulight::Assertion_Error&) {
        fail("assert", "internal assertion failed: " + mon::assert_message);
    }
    done();
}
