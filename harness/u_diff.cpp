// C23: string diffs. argv: mode(-) seed tier shard
#include "unit.hpp"
#include <algorithm>
#include <sstream>
#include "ulight/impl/string_diff.hpp"
using namespace unit;
using namespace ulight;
using SV = std::u8string_view; using S = std::u8string; using Lines = std::vector<SV>;

static std::string show(const Lines& l) { std::string r = "["; for (auto x : l) { r += r.size() > 1 ? "|" : ""; for (unsigned char c : x) { char b[8]; if (c >= 32 && c < 127) r += char(c); else { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; } } } return r + "]"; }
static std::size_t lcs(const Lines& a, const Lines& b)
{   // top-down over prefixes, one row at a time
    std::vector<std::size_t> row(b.size() + 1, 0);
    for (auto x : a) { std::size_t diag = 0; for (std::size_t j = 1; j <= b.size(); ++j) { const std::size_t up = row[j]; row[j] = x == b[j - 1] ? diag + 1 : std::max(row[j], row[j - 1]); diag = up; } }
    return row[b.size()];
}
static void script(const Lines& a, const Lines& b)
{
    ++stats["scripts"];
    const auto s = shortest_edit_script(a, b);
    const std::string d = show(a) + " to " + show(b);
    std::size_t i = 0, j = 0, changes = 0;
    bool seen_ins = false;
    Lines out;
    for (auto e : s) {
        if (e == Edit_Type::del) { if (i >= a.size()) { fail("script:apply", d); return; } ++i; ++changes; if (seen_ins) fail("script:order", "an insertion precedes a deletion: " + d); }
        else if (e == Edit_Type::ins) { if (j >= b.size()) { fail("script:apply", d); return; } out.push_back(b[j++]); ++changes; seen_ins = true; }
        else if (e == Edit_Type::common) { if (i >= a.size() || j >= b.size() || a[i] != b[j]) { fail("script:apply", d); return; } out.push_back(a[i]); ++i; ++j; seen_ins = false; }
        else { fail("script:type", d); return; }
    }
    if (i != a.size() || j != b.size() || out != b) fail("script:apply", d);
    const std::size_t best = a.size() + b.size() - 2 * lcs(a, b);
    if (changes != best) fail("script:minimal", d + ": " + std::to_string(changes) + " edits instead of " + std::to_string(best));
    if (changes) ++stats["scripts_changed"];
}
static std::string esc(SV l) { std::string r; for (char8_t c : l) { if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else if (c == '\v') r += "\\v"; else r += char(c); } return r; }
static std::string strip(const std::string& s) { std::string r; for (std::size_t i = 0; i < s.size();) { if (s[i] == 0x1b && i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && s[i] != 'm') ++i; ++i; } else r += s[i++]; } return r; }

static void printed(const Lines& a, const Lines& b, std::size_t ctx, const std::string& text, const std::string& coloured)
{
    ++stats["printed"];
    const std::string d = show(a) + " to " + show(b) + ", context " + std::to_string(ctx) + ": " + text.substr(0, 400);
    if (strip(coloured) != text) fail("print:colour", d);
    if (a == b) { if (!text.empty()) fail("print:equal", d); return; }
    std::vector<std::string> l; { std::istringstream is(text); for (std::string x; std::getline(is, x);) l.push_back(x); }
    if (text.empty() || text.back() != '\n') { fail("print:end", d); return; }
    std::size_t k = 0, fi = 0, ti = 0; // consumed lines of both sides
    std::size_t changes = 0, hunks = 0;
    std::size_t gap_before = 0;
    while (k < l.size()) {
        std::size_t fs, fc, ts, tc; int used = 0;
        if (std::sscanf(l[k].c_str(), "@@ -%zu,%zu +%zu,%zu @@%n", &fs, &fc, &ts, &tc, &used) != 4 || std::size_t(used) != l[k].size()) { fail("print:header", d); return; }
        ++k; ++hunks;
        const std::size_t f0 = fc ? fs - 1 : fs, t0 = tc ? ts - 1 : ts; // without lines the start is that of the line before, or of the one after
        std::size_t f = f0, t = t0;
        if (fc == 0 && t0 >= ti && t0 - ti + fi != f) f = fs - 1;
        if (tc == 0 && f0 >= fi && f0 - fi + ti != t) t = ts - 1;
        if (f < fi || t < ti || f - fi != t - ti) { fail("print:position", d); return; }
        for (; fi < f; ++fi, ++ti) if (fi >= a.size() || ti >= b.size() || a[fi] != b[ti]) { fail("print:skipped", d); return; }
        if (hunks > 1) gap_before = f;
        std::vector<char> kinds;
        std::size_t nf = 0, nt = 0;
        while (k < l.size() && l[k].rfind("@@ ", 0) != 0) {
            const char c = l[k].empty() ? '?' : l[k][0]; const std::string body = l[k].empty() ? "" : l[k].substr(1);
            if (c == ' ' || c == '-') { if (fi >= a.size() || esc(a[fi]) != body) { fail("print:line", d); return; } }
            if (c == ' ' || c == '+') { if (ti >= b.size() || esc(b[ti]) != body) { fail("print:line", d); return; } }
            if (c == ' ') { ++fi; ++ti; ++nf; ++nt; } else if (c == '-') { ++fi; ++nf; ++changes; } else if (c == '+') { ++ti; ++nt; ++changes; } else { fail("print:marker", d); return; }
            kinds.push_back(c); ++k;
        }
        if (nf != fc || nt != tc) fail("print:counts", d);
        // context: exactly ctx lines before the first and after the last change, unless the file ends; no longer gap of common lines inside
        std::size_t lead = 0, trail = 0, runlen = 0, maxrun = 0;
        while (lead < kinds.size() && kinds[lead] == ' ') ++lead;
        while (trail < kinds.size() && kinds[kinds.size() - 1 - trail] == ' ') ++trail;
        if (lead == kinds.size()) { fail("print:empty-hunk", d); return; }
        for (std::size_t q = lead; q + trail < kinds.size(); ++q) { runlen = kinds[q] == ' ' ? runlen + 1 : 0; maxrun = std::max(maxrun, runlen); }
        if (lead > ctx || (lead < ctx && f != 0)) fail("print:context-before", d);
        if (trail > ctx || (trail < ctx && fi != a.size())) fail("print:context-after", d);
        if (maxrun > 2 * ctx) fail("print:gap", d);
        (void)gap_before;
    }
    for (; fi < a.size(); ++fi, ++ti) if (ti >= b.size() || a[fi] != b[ti]) { fail("print:rest", d); return; }
    if (ti != b.size()) fail("print:rest", d);
    if (changes != a.size() + b.size() - 2 * lcs(a, b)) fail("print:minimal", d);
    if (hunks > 1) ++stats["printed_with_several_hunks"];
}
int main(int argc, char** argv)
{
    if (argc < 5) return 2;
    mon::install();
    Rng r(std::strtoull(argv[2], nullptr, 10) * 64 + std::strtoull(argv[4], nullptr, 10));
    const bool th = std::string(argv[3]) == "thorough";
    const unsigned shard = unsigned(std::atoi(argv[4]));
    static const std::vector<S> lines { u8"a", u8"b", u8"c", u8"", u8"a\tb", u8"\r", u8"ab\v\t", u8"\t", u8"\u00e9", u8"@@ x", u8"-a", u8"+" };
    try {
        if (shard == 0) { // all pairs of sequences of up to 4 elements of two, and up to 3 of three
            std::vector<Lines> all;
            for (std::size_t k : { std::size_t(2), std::size_t(3) }) for (std::size_t n = 0; n <= (k == 2 ? 5u : 4u); ++n) { std::size_t total = 1; for (std::size_t i = 0; i < n; ++i) total *= k; for (std::size_t v = 0; v < total; ++v) { Lines l; for (std::size_t i = 0, w = v; i < n; ++i, w /= k) l.push_back(lines[w % k]); all.push_back(l); } }
            for (auto& a : all) for (auto& b : all) script(a, b);
            stats["exhaustive_pairs"] = all.size() * all.size();
        }
        for (int k = 0; k < (th ? 200000 : 12000); ++k) {
            const std::size_t alphabet = 2 + r.below(lines.size() - 1);
            Lines a; for (std::size_t n = r.below(k % 10 ? 14 : 60); n; --n) a.push_back(lines[r.below(alphabet)]);
            Lines b;
            if (r.chance(30)) for (std::size_t n = r.below(14); n; --n) b.push_back(lines[r.below(alphabet)]);
            else { b = a; for (std::size_t n = r.below(6); n; --n) { const std::size_t at = r.below(b.size() + 1); if (r.chance(50) || b.empty()) b.insert(b.begin() + long(at), lines[r.below(lines.size())]); else if (at < b.size()) { if (r.chance(50)) b.erase(b.begin() + long(at)); else b[at] = lines[r.below(lines.size())]; } } }
            if (k % 400 == 7) { // long texts: costs and counts beyond a byte, few or many edits
                static const std::vector<S> many = [] { std::vector<S> m; for (int i = 0; i < 60; ++i) m.push_back(S(std::size_t(1 + i % 7), char8_t('a' + i % 26))); return m; }();
                a.clear(); b.clear();
                const std::size_t top = 2 + r.below(many.size() - 2), n = 200 + r.below(r.chance(20) ? 600 : 200);
                for (std::size_t i = 0; i < n; ++i) a.push_back(many[r.below(top)]);
                const int keep = int(r.below(101));
                for (const auto& x : a) { if (r.chance(keep)) b.push_back(x); else for (std::size_t q = r.below(3); q; --q) b.push_back(many[r.below(many.size())]); }
                ++stats["long_texts"];
            }
            script(a, b);
            const std::size_t ctx = k % 3 ? r.below(5) : 3;
            {
                std::ostringstream o, c; print_diff(o, a, b, ctx, false); print_diff(c, a, b, ctx, true);
                if (!a.empty() || !b.empty()) printed(a, b, ctx, o.str(), c.str());
            }
            // split_lines: the pieces joined by newlines are the text, and none contains one
            S ta; for (std::size_t i = 0; i < a.size(); ++i) { if (i) ta += u8"\n"; ta += a[i]; }
            S tb; for (std::size_t i = 0; i < b.size(); ++i) { if (i) tb += u8"\n"; tb += b[i]; }
            if (r.chance(30)) ta += u8"\n";
            if (r.chance(30)) tb += u8"\n";
            const Exact ea(ta), eb(tb);
            Lines la { u8"kept" }, lb;
            split_lines(la, ea.view()); split_lines(lb, eb.view());
            ++stats["split"];
            if (la.empty() || la[0] != u8"kept") { fail("split:append", show(la)); continue; }
            la.erase(la.begin());
            S joined; for (std::size_t i = 0; i < la.size(); ++i) { if (i) joined += u8"\n"; joined += la[i]; if (la[i].find(u8'\n') != SV::npos) fail("split:newline", show(la)); }
            if (la.empty() || joined != ta) fail("split:join", show(la));
            std::ostringstream o, c; print_lines_diff(o, ea.view(), eb.view(), ctx, false); print_lines_diff(c, ea.view(), eb.view(), ctx, true);
            printed(la, lb, ctx, o.str(), c.str());
            if (k < 2) sample(show(a) + " -> " + show(b));
        }
    } catch (const ulight::Assertion_Error&) { fail("assert", "internal assertion failed: " + mon::assert_message); }
    done();
}
