// C22: shared matchers against naive references. argv: mode seed tier shard shards
#include "unit.hpp"
#include <algorithm>
#include <limits>
#include "ulight/impl/escapes.hpp"
#include "ulight/impl/numbers.hpp"
#include "ulight/impl/parse_utils.hpp"
#include "ulight/impl/assert.hpp"
using namespace unit;
using namespace ulight;
using SV = std::u8string_view; using S = std::u8string;
static std::string show(SV s) { std::string r = "'"; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) r += char(c); else { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r + "'"; }
static int digit_of(char8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static bool is_digit(char8_t c, int base) { return digit_of(c) < base; }

// ---- digits: the longest run of digits and separators
static std::size_t run(SV s, int base, char8_t sep) { std::size_t n = 0; while (n < s.size() && (is_digit(s[n], base) || (sep && s[n] == sep))) ++n; return n; }
static bool badsep(SV d, char8_t sep) { if (!sep || d.empty()) return false; if (d.front() == sep || d.back() == sep) return true; for (std::size_t i = 1; i < d.size(); ++i) if (d[i] == sep && d[i - 1] == sep) return true; return false; }

static S random_text(Rng& r, SV alphabet, std::size_t max) { S s; for (std::size_t n = r.below(max + 1); n; --n) s += alphabet[r.below(alphabet.size())]; return s; }

struct Opt { std::vector<S> prefix_s, exp_s, suffix_s; std::vector<Number_Prefix> prefixes; std::vector<Exponent_Separator> exps; std::vector<SV> suffixes; Common_Number_Options o; bool fn = false; std::string name; };
static std::size_t letters(SV s) { std::size_t n = 0; while (n < s.size() && (s[n] == 'n' || s[n] == 'u' || s[n] == 'L')) ++n; return n; }
static void random_options(Rng& r, Opt& q)
{
    static const std::vector<S> ps { u8"0x", u8"0X", u8"0b", u8"0o", u8"$", u8"0d" }, es { u8"e+", u8"e-", u8"e", u8"E+", u8"E-", u8"E", u8"p" }, ss { u8"n", u8"u", u8"ul", u8"ull", u8"L", u8"i", u8"f32", u8"f" };
    const auto base = [](SV p) { return p.ends_with(u8'b') ? 2 : p.ends_with(u8'o') ? 8 : p.ends_with(u8'd') ? 10 : 16; };
    for (auto& p : ps) if (r.chance(60)) q.prefix_s.push_back(p);
    for (auto& e : es) if (r.chance(60)) q.exp_s.push_back(e);
    for (auto& s : ss) if (r.chance(50)) q.suffix_s.push_back(s);
    for (std::size_t i = q.suffix_s.size(); i > 1; --i) std::swap(q.suffix_s[i - 1], q.suffix_s[r.below(i)]);
    if (r.chance(30)) q.suffix_s.clear();
    for (auto& p : q.prefix_s) q.prefixes.push_back({ p, base(p), r.chance(30) });
    for (auto& e : q.exp_s) q.exps.push_back({ e, 10 });
    for (auto& s : q.suffix_s) q.suffixes.push_back(s);
    q.o.signs = Matched_Signs(r.below(4));
    q.o.prefixes = q.prefixes; q.o.exponent_separators = q.exps; q.o.suffixes = q.suffixes;
    static constexpr auto match = [](SV s) { return letters(s); };
    if (q.suffixes.empty() && r.chance(50)) { q.fn = true; q.o.match_suffix = match; }
    q.o.default_base = r.chance(80) ? 10 : 16; q.o.default_leading_zero_base = r.chance(60) ? q.o.default_base : 8;
    q.o.digit_separator = r.chance(50) ? u8'_' : r.chance(30) ? u8'\'' : 0;
    q.o.nonempty_integer = r.chance(30); q.o.nonempty_fraction = r.chance(30);
}
static Common_Number_Result ref_number(SV s, const Opt& q)
{
    const auto& o = q.o; Common_Number_Result R {};
    std::size_t i = 0;
    if (i < s.size() && ((s[i] == '-' && (int(o.signs) & 1)) || (s[i] == '+' && (int(o.signs) & 2)))) { R.sign = 1; ++i; }
    int base = 0; bool fl = true;
    for (auto& p : o.prefixes) if (s.substr(i).starts_with(p.str)) { R.prefix = p.str.size(); base = p.base; fl = p.floating_point; break; }
    i += R.prefix;
    if (!base) base = i < s.size() && s[i] == '0' ? o.default_leading_zero_base : o.default_base;
    R.integer = run(s.substr(i), base, o.digit_separator);
    if (!R.prefix && R.integer && o.digit_separator && s[i] == o.digit_separator) return {};
    bool err = badsep(s.substr(i, R.integer), o.digit_separator) || (o.nonempty_integer && !R.integer);
    i += R.integer;
    if (fl && i < s.size() && s[i] == '.') {
        R.fractional = run(s.substr(i + 1), R.prefix ? base : o.default_base, o.digit_separator);
        if (!R.prefix && !R.integer && !(i + 1 < s.size() && is_digit(s[i + 1], 10))) return {};
        R.radix_point = 1;
        err |= badsep(s.substr(i + 1, R.fractional), o.digit_separator) || (o.nonempty_fraction && !R.fractional);
        i += 1 + R.fractional;
    }
    if (i == R.sign) return {};
    if (fl) for (auto& e : o.exponent_separators) if (s.substr(i).starts_with(e.str)) {
        R.exponent_sep = e.str.size(); i += R.exponent_sep;
        R.exponent_digits = run(s.substr(i), 10, o.digit_separator); err |= R.exponent_digits == 0 || badsep(s.substr(i, R.exponent_digits), o.digit_separator); i += R.exponent_digits; break;
    }
    if (!o.suffixes.empty()) { for (auto x : o.suffixes) if (s.substr(i).starts_with(x)) R.suffix = std::max(R.suffix, x.size()); }
    else if (q.fn) R.suffix = letters(s.substr(i));
    i += R.suffix;
    R.length = i; R.erroneous = err || (R.prefix && !R.integer && !R.fractional);
    return R;
}
static std::string str(const Common_Number_Result& x) { char b[160]; std::snprintf(b, sizeof b, "{len %zu sign %zu prefix %zu int %zu point %zu frac %zu esep %zu edig %zu suffix %zu%s}", x.length, x.sign, x.prefix, x.integer, x.radix_point, x.fractional, x.exponent_sep, x.exponent_digits, x.suffix, x.erroneous ? " erroneous" : ""); return b; }

static void numbers(Rng& r, bool th)
{
    static const SV alpha = u8"0011279.._'eE+-xXboacfFnuL$lpi3 z";
    for (int k = 0; k < (th ? 4000 : 150); ++k) {
        Opt q; random_options(r, q);
        for (int j = 0; j < 1500; ++j) {
            S t;
            if (r.chance(60)) { // assembled
                if (r.chance(40)) t += r.chance(50) ? u8"-" : u8"+";
                if (!q.prefix_s.empty() && r.chance(35)) t += r.pick(q.prefix_s);
                t += random_text(r, u8"00112789_afAF'", 5);
                if (r.chance(50)) { t += u8"."; t += random_text(r, u8"0019_a'", 4); }
                if (!q.exp_s.empty() && r.chance(40)) { t += r.pick(q.exp_s); t += random_text(r, u8"0019_", 3); }
                if (!q.suffix_s.empty() && r.chance(50)) t += r.pick(q.suffix_s);
                if (r.chance(40)) t += random_text(r, alpha, 4);
                if (r.chance(20) && !t.empty()) t.erase(r.below(t.size()), 1);
            } else t = random_text(r, alpha, 9);
            const Exact e(t);
            const auto got = match_common_number(e.view(), q.o); const auto want = ref_number(t, q);
            ++stats["numbers"]; if (want) ++stats["numbers_matched"]; if (want.erroneous) ++stats["numbers_erroneous"];
            if (!(got == want)) { const char* part = got.length != want.length ? "length" : got.erroneous != want.erroneous ? "erroneous" : "parts"; fail(std::string("number:") + part, show(t) + " gives " + str(got) + ", want " + str(want)); }
            if (got.length > t.size() || got.length != got.sign + got.prefix + got.integer + got.radix_point + got.fractional + got.exponent_sep + got.exponent_digits + got.suffix) fail("number:sum", show(t) + " gives " + str(got));
            if (got.length) {
                const bool nonint = got.radix_point || got.exponent_sep || got.exponent_digits;
                if (got.is_non_integer() != nonint || got.is_integer() == nonint || got.extract_sign(t) != SV(t).substr(0, got.sign) || got.extract_prefix(t) != SV(t).substr(got.sign, got.prefix) || got.extract_integer(t) != SV(t).substr(got.sign + got.prefix, got.integer) || got.extract_suffix(t) != SV(t).substr(got.length - got.suffix, got.suffix)) fail("number:extract", show(t));
            }
        }
    }
    // digits
    for (int k = 0; k < (th ? 2000000 : 200000); ++k) {
        const int base = 2 + int(r.below(35)); const char8_t sep = r.chance(30) ? 0 : r.chance(50) ? u8'_' : u8'\'';
        const S t = random_text(r, k % 2 ? u8"01_1'0_9" : u8"0129afAFgzZ_' .\xc3", 8);
        const Exact e(t);
        ++stats["digits"];
        const std::size_t n = run(t, base, 0);
        if (match_digits(e.view(), base) != n) fail("digits", show(t));
        const auto d = match_digits_as_result(e.view(), base); if (d.length != n || d.erroneous) fail("digits:result", show(t));
        const auto g = match_separated_digits(e.view(), base, sep);
        const std::size_t m = run(t, base, sep);
        if (g.length != m || g.erroneous != badsep(SV(t).substr(0, m), sep)) fail("digits:separated", show(t) + " base " + std::to_string(base) + " separator " + show(S(1, sep)) + " gives " + std::to_string(g.length) + (g.erroneous ? " erroneous" : ""));
    }
    // numbers with suffixes: letters h (16), b (2), o/q (8), d (10)
    for (int k = 0; k < (th ? 2000000 : 200000); ++k) {
        const char8_t sep = r.chance(60) ? u8'_' : 0;
        const S t = random_text(r, u8"0011279_afAFhhbBodq gz+", 8);
        const Exact e(t);
        std::size_t calls = 0; S seen;
        auto det = [&](SV x) -> Base_Suffix { ++calls; seen = S(x); if (x.empty()) return {}; switch (x.back()) { case 'h': return { 1, 16 }; case 'b': return x.ends_with(u8"bb") ? Base_Suffix { 2, 2 } : Base_Suffix { 1, 2 }; case 'o': case 'q': return { 1, 8 }; case 'd': return { 1, 10 }; default: return {}; } };
        const auto got = match_suffix_number(e.view(), det, sep);
        Suffix_Number_Result want {};
        if (sep) { // without separators the extent is not documented
            std::size_t n = 0; while (n < t.size() && (digit_of(t[n]) < 36 || t[n] == sep)) ++n;
            if (n > 1) {
                const SV x = SV(t).substr(0, n); const Base_Suffix bs = [&] { std::size_t c = calls; auto v = det(x); calls = c; return v; }();
                if (bs.length && bs.length < n) {
                    bool err = false;
                    for (std::size_t i = 0; i + bs.length < n; ++i) { if (x[i] == sep) { err |= i > 0 && x[i - 1] == sep; } else err |= digit_of(x[i]) >= bs.base; }
                    if (!err || is_digit(x[0], 10)) want = { n - bs.length, bs.length, bs.base, err };
                }
            }
            ++stats["suffix_numbers"]; if (want) ++stats["suffix_numbers_matched"];
            const bool judged = t.empty() || (t[0] != sep && !(want.digits && t[want.digits - 1] == sep) && !(got.digits && t[got.digits - 1] == sep)); // leading and trailing separators are not documented
            if (judged && !(got == want)) fail("suffix-number", show(t) + " gives " + std::to_string(got.digits) + "+" + std::to_string(got.suffix) + " base " + std::to_string(got.base) + (got.erroneous ? " erroneous" : "") + ", want " + std::to_string(want.digits) + "+" + std::to_string(want.suffix) + (want.erroneous ? " erroneous" : ""));
            if (calls > 1) fail("suffix-number:calls", show(t));
        }
        if (got.digits + got.suffix > t.size()) fail("suffix-number:length", show(t));
    }
    // literal values
    for (int k = 0; k < (th ? 2000000 : 200000); ++k) {
        S digits; const int b = int(r.below(4)); const int base = b == 0 ? 2 : b == 1 ? 16 : b == 2 ? 8 : 10;
        const bool neg = r.chance(40);
        unsigned __int128 v = 0;
        if (r.chance(40)) { v = r.next() >> r.below(64); if (r.chance(30)) v = r.chance(50) ? (unsigned __int128)(1) << 63 : ((unsigned __int128)(1) << 64); v = v + r.below(3) - (v ? r.below(2) : 0); }
        else { v = r.below(300); }
        unsigned __int128 w = v; do { const int d = int(w % base); digits.insert(digits.begin(), char8_t(d < 10 ? '0' + d : (r.chance(50) ? 'a' : 'A') + d - 10)); w /= base; } while (w);
        S t = (neg ? u8"-" : u8"") + S(b == 0 ? u8"0b" : b == 1 ? u8"0x" : b == 2 ? u8"0" : u8"") + digits;
        const Exact e(t); ++stats["literals"];
        const auto u = parse_uinteger_literal(e.view()); const auto i = parse_integer_literal(e.view());
        const unsigned __int128 lim = (unsigned __int128)(1) << 64, half = lim >> 1;
        if (neg ? u.has_value() : u.has_value() != (v < lim) || (u && *u != (unsigned long long)(v))) fail("literal:unsigned", show(t));
        const bool fits = neg ? v <= half : v < half;
        if (i.has_value() != fits || (i && *i != (neg ? (long long)(-(unsigned long long)(v)) : (long long)(v)))) fail("literal:signed", show(t) + (i ? " gives " + std::to_string(*i) : " is rejected"));
        for (SV bad : { SV(u8""), SV(u8"-"), SV(u8"x"), SV(u8"0x"), SV(u8"0b"), SV(u8"+1"), SV(u8"--1"), SV(u8"0b2"), SV(u8"0xg"), SV(u8" 1") }) if (parse_integer_literal(bad) || parse_uinteger_literal(bad)) fail("literal:malformed", show(bad));
        if (k > 1000 && r.chance(90)) continue;
    }
}

template <Common_Escape type> static void escape_one(SV t, const char* name)
{
    using enum Common_Escape;
    const Exact e(t);
    const Escape_Result g = match_common_escape<type>(e.view());
    std::size_t len = 0; bool err = false, exact = true; // exact: the length is documented
    auto oct = [&](std::size_t max) { std::size_t n = 0; while (n < t.size() && n < max && is_digit(t[n], 8)) ++n; return n; };
    auto hex = [&](std::size_t max) { std::size_t n = 0; while (n < t.size() && n < max && is_digit(t[n], 16)) ++n; return n; };
    auto braced = [&](int base) {
        if (t.empty() || t[0] != '{') { err = true; len = 0; return; }
        const auto close = t.find_first_of(u8"}\"'`\\\n\r");
        if (close == t.npos || t[close] != '}') { // an unterminated escape takes up its digits at least
            err = true; exact = false; len = 1;
            if (base) while (len < t.size() && is_digit(t[len], base)) ++len;
            return;
        }
        len = close + 1; bool ok = close > 1;
        if (base) for (std::size_t i = 1; i < close; ++i) ok = ok && is_digit(t[i], base);
        err = !ok;
        exact = ok;
        if (err) len = 1;
    };
    switch (type) {
    case octal_1_to_2: len = oct(2); err = !len; break;
    case octal_1_to_3: len = oct(3); err = !len; break;
    case octal_3: len = oct(3); err = len != 3; exact = !err; break;
    case hex_1_to_2: len = hex(2); err = !len; break;
    case hex_1_to_inf: len = hex(t.size()); err = !len; break;
    case hex_2: len = hex(2); err = len != 2; exact = !err; break;
    case hex_4: len = hex(4); err = len != 4; exact = !err; break;
    case hex_8: len = hex(8); err = len != 8; exact = !err; break;
    case octal_braced: braced(8); break;
    case hex_braced: braced(16); break;
    case nonempty_braced: braced(0); break;
    case lf_cr_crlf: len = t.starts_with(u8"\r\n") ? 2 : !t.empty() && (t[0] == '\r' || t[0] == '\n') ? 1 : 0; err = len == 0; break;
    }
    ++stats["escapes"]; if (!err) ++stats["escapes_valid"];
    if (g.erroneous != err) fail(std::string("escape:") + name + ":erroneous", show(t) + (g.erroneous ? " is" : " is not") + " erroneous");
    if (g.length > t.size()) fail(std::string("escape:") + name + ":overrun", show(t));
    else if (exact && g.length != len) fail(std::string("escape:") + name + ":length", show(t) + " gives " + std::to_string(g.length) + ", want " + std::to_string(len));
    else if (err && g.length < len && !exact) fail(std::string("escape:") + name + ":short", show(t) + " gives " + std::to_string(g.length) + ", less than its digits");
    if (g.erroneous && g.length <= t.size() && t.substr(0, g.length).find_first_of(u8"\"'`\\\n\r") != t.npos) fail(std::string("escape:") + name + ":swallow", show(t) + " gives " + std::to_string(g.length) + ", which takes up the end of the string");
    const std::size_t cap = type == octal_3 ? 3 : type == hex_2 ? 2 : type == hex_4 ? 4 : type == hex_8 ? 8 : 0;
    if (cap) { // never more than the documented length, up to completing a code point
        std::size_t m = std::min(cap, t.size()); while (m < t.size() && (t[m] & 0xc0) == 0x80) ++m;
        if (g.length > m) fail(std::string("escape:") + name + ":long", show(t) + " gives " + std::to_string(g.length));
    }
    for (std::size_t p : { std::size_t(1), std::size_t(2) }) {
        const S u = S(p, u8'\\') + S(t); const Exact f(u);
        const Escape_Result h = match_common_escape<type>(f.view(), p);
        if (h.length != g.length + p || h.erroneous != g.erroneous) fail(std::string("escape:") + name + ":prefix", show(u));
    }
    if ((escape_type_max_length(type) && !g.erroneous && g.length > escape_type_max_length(type)) || (!g.erroneous && g.length < escape_type_min_length(type))) fail(std::string("escape:") + name + ":bounds", show(t));
}
static void escapes(Rng& r, bool th)
{
    for (int k = 0; k < (th ? 600000 : 60000); ++k) {
        S t;
        if (r.chance(50)) t = random_text(r, u8"01789afAFg{} \\\"\r\n", 10);
        else { if (r.chance(50)) t = u8"{"; t += random_text(r, r.chance(50) ? u8"01234567" : u8"0189afAF", 9); if (r.chance(60)) t += u8"}"; t += random_text(r, u8"0a}\n", 2); if (r.chance(10)) t.insert(r.below(t.size() + 1), u8"\u00e9"); if (r.chance(5)) t.insert(r.below(t.size() + 1), u8"\U0001F600"); }
        using enum Common_Escape;
#define E1(x) escape_one<x>(t, #x)
        E1(octal_1_to_2); E1(octal_1_to_3); E1(octal_3); E1(octal_braced); E1(hex_1_to_2); E1(hex_1_to_inf); E1(hex_2); E1(hex_4); E1(hex_8); E1(nonempty_braced); E1(hex_braced); E1(lf_cr_crlf);
        // backslash and the code point after it
        S u = u8"\\"; static const std::vector<S> cps { u8"", u8"n", u8"\u00e9", u8"\u20ac", u8"\U0001F600", u8"\xff", u8"\xe2\x82", u8"\n" }; const S& cp = r.pick(cps); u += cp; const bool whole = cp != u8"\xe2\x82"; u += whole ? random_text(r, u8"ab\\", 3) : S();
        const Exact e(u); const std::size_t n = length_with_escaped_code_point(e.view());
        if (n != 1 + (cp.empty() ? u.size() > 1 : cp.size())) fail("escape:code-point", show(u) + " gives " + std::to_string(n));
    }
    if (length_with_escaped_code_point(u8"") != 0) fail("escape:code-point", "of an empty string");
}

static void lines(Rng& r, bool th)
{
    auto ws = [](char8_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'; };
    for (int k = 0; k < (th ? 4000000 : 200000); ++k) {
        const S t = random_text(r, k % 3 ? u8"\n\n \t\rx" : u8"\n\r\n ab\v\f\xc3\xa9", 3 + k % 14);
        const Exact e(t);
        ++stats["texts"];
        // blank lines: the maximal run of blank lines (each ends in \n) at the first blank line
        std::size_t b = t.size(), en = 0, at = 0; bool found = false;
        while (at < t.size()) {
            const auto nl = t.find(u8'\n', at);
            if (nl == t.npos) break;
            const bool blank = std::all_of(t.begin() + long(at), t.begin() + long(nl), ws);
            if (blank) { if (!found) b = at; found = true; en = nl + 1; } else if (found) break;
            at = nl + 1;
        }
        const auto g = find_blank_line_sequence(e.view());
        if (found) ++stats["blank_lines"];
        if (bool(g) != found || (found && (g.begin != b || g.length != en - b))) fail("blank-lines", show(t) + " gives " + std::to_string(g.begin) + "+" + std::to_string(g.length) + ", want " + std::to_string(found ? b : 0) + "+" + std::to_string(found ? en - b : 0));
        // the first line
        std::size_t c = 0; while (c < t.size() && t[c] != '\r' && t[c] != '\n') ++c;
        const std::size_t term = c == t.size() ? 0 : t[c] == '\r' && c + 1 < t.size() && t[c + 1] == '\n' ? 2 : 1;
        const auto l = match_crlf_line(e.view());
        if (l.content_length != c || l.terminator_length != term) fail("line", show(t) + " gives " + std::to_string(l.content_length) + "+" + std::to_string(l.terminator_length));
        // enclosed text
        static const std::vector<S> marks { u8"a", u8"ab", u8"aa", u8"(", u8")", u8"*)", u8"(*", u8"aba" };
        const S& p = r.pick(marks); const S& q = r.pick(marks);
        S x = (r.chance(80) ? p : S()) + random_text(r, u8"ab(*)", 8) + (r.chance(60) ? q : S()) + random_text(r, u8"ab*)", 3);
        const Exact ex(x);
        std::size_t want = 0; bool term2 = false;
        if (SV(x).starts_with(p)) { want = x.size(); for (std::size_t i = p.size(); i + q.size() <= x.size(); ++i) if (SV(x).substr(i, q.size()) == q) { want = i + q.size(); term2 = true; break; } }
        const auto en1 = match_enclosed(ex.view(), SV(p), SV(q)); ++stats["enclosed"];
        if (en1.length != want || en1.is_terminated != term2) fail("enclosed", show(x) + " in " + show(p) + " and " + show(q) + " gives " + std::to_string(en1.length));
        if (p.size() == 1 && q.size() == 1) { const auto en2 = match_enclosed(ex.view(), p[0], q[0]); ++stats["enclosed_units"]; if (en2.length != want || en2.is_terminated != term2) fail("enclosed:unit", show(x)); }
    }
}

int main(int argc, char** argv)
{
    if (argc < 6) return 2;
    mon::install();
    const std::string mode = argv[1];
    Rng r(std::strtoull(argv[2], nullptr, 10) * 64 + std::strtoull(argv[4], nullptr, 10));
    const bool th = std::string(argv[3]) == "thorough";
    try {
        if (mode == "numbers") numbers(r, th);
        else if (mode == "escapes") escapes(r, th);
        else if (mode == "lines") lines(r, th);
        else return 2;
    } catch (const ulight::Assertion_Error&) { fail("assert", "internal assertion failed: " + mon::assert_message); }
    done();
}
