// Coverage-guided workload (libFuzzer) driving the monitors over the C API.
// Input: byte 0 = flags and small configuration choices; the rest is the source.
// Environment: FZ_LANG (1..25), FZ_MON (comma-separated monitors), FZ_STATS (file).
#include <algorithm>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <unordered_set>
#include "mon.hpp"

extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)());
extern "C" size_t LLVMFuzzerMutate(uint8_t* data, size_t size, size_t max_size);

namespace {
using namespace mon;

enum : unsigned {
    M_SAFETY = 1, M_STREAM = 2, M_UTF8 = 4, M_STATUS = 8, M_HTML = 16, M_BUFFER = 32,
    M_DETERM = 64, M_COALESCE = 128, M_SPLIT = 256
};
unsigned mon_mask = 0;
int lang_id = 1;
std::string stats_path;

struct Stats {
    std::uint64_t execs = 0, runs = 0, tokens = 0, flushes = 0, text_flushes = 0, bytes = 0;
    std::uint64_t valid = 0, bad_text = 0, ok = 0, html_bytes = 0, merges = 0, with_tokens = 0, multibyte = 0;
    std::set<unsigned> types;
    std::set<std::pair<unsigned, unsigned>> bigrams;
    std::unordered_set<std::uint64_t> shapes; // hashes of token type sequences
} st;

void write_stats()
{
    if (stats_path.empty()) { return; }
    std::ofstream f(stats_path);
    f << "{\"execs\":" << st.execs << ",\"library_runs\":" << st.runs << ",\"tokens\":" << st.tokens
      << ",\"token_flushes\":" << st.flushes << ",\"text_flushes\":" << st.text_flushes
      << ",\"source_bytes\":" << st.bytes << ",\"valid_utf8\":" << st.valid
      << ",\"bad_text\":" << st.bad_text << ",\"ok\":" << st.ok << ",\"html_bytes\":" << st.html_bytes
      << ",\"coalesced_merges\":" << st.merges << ",\"with_tokens\":" << st.with_tokens << ",\"multibyte\":" << st.multibyte
      << ",\"token_types\":" << st.types.size() << ",\"type_bigrams\":" << st.bigrams.size()
      << ",\"distinct_shapes\":" << st.shapes.size() << "}\n";
}

std::string current; // byte 0 = configuration, rest = source: what is being run, for replays
void dump_current()
{
    if (const char* p = std::getenv("FZ_ARTIFACT")) {
        std::ofstream f(p, std::ios::binary);
        f.write(current.data(), std::streamsize(current.size()));
    }
}

[[noreturn]] void violation(const std::string& key, const std::string& detail, std::string_view src)
{
    std::fprintf(stderr, "\nMONITOR-VIOLATION key=%s lang=%d detail=%s source=%s\n", key.c_str(),
                 lang_id, detail.c_str(), hex(src).c_str());
    std::fflush(stderr);
    dump_current();
    write_stats();
    std::abort();
}

Run go(std::string_view s, const Config& c)
{
    Run r = run(s, c);
    ++st.runs;
    st.flushes += r.token_flushes.size();
    st.text_flushes += r.text_flushes.size();
    st.tokens += r.tokens.size();
    st.html_bytes += r.text.size();
    return r;
}

std::vector<std::string> dict;

void init_once()
{
    static bool done = false;
    if (done) { return; }
    done = true;
    if (const char* e = std::getenv("FZ_LANG")) { lang_id = std::atoi(e); }
    if (const char* e = std::getenv("FZ_STATS")) { stats_path = e; }
    const std::string m = std::getenv("FZ_MON") ? std::getenv("FZ_MON") : "safety,stream,utf8,status,html,buffer,determ,coalesce";
    auto has = [&](const char* k) { return ("," + m + ",").find("," + std::string(k) + ",") != std::string::npos; };
    if (has("safety")) { mon_mask |= M_SAFETY; }
    if (has("stream")) { mon_mask |= M_STREAM; }
    if (has("utf8")) { mon_mask |= M_UTF8; }
    if (has("status")) { mon_mask |= M_STATUS; }
    if (has("html")) { mon_mask |= M_HTML; }
    if (has("buffer")) { mon_mask |= M_BUFFER; }
    if (has("determ")) { mon_mask |= M_DETERM; }
    if (has("coalesce")) { mon_mask |= M_COALESCE; }
    if (const char* e = std::getenv("FZ_DICT")) { // length-prefixed binary: u16 len, bytes
        std::ifstream f(e, std::ios::binary);
        unsigned char h[2];
        while (f.read(reinterpret_cast<char*>(h), 2)) {
            std::string w(h[0] + 256u * h[1], '\0');
            if (!f.read(w.data(), std::streamsize(w.size()))) { break; }
            dict.push_back(std::move(w));
        }
    }
    std::atexit(write_stats);
}

void note_shape(const Run& r)
{
    std::uint64_t h = 1469598103934665603ull;
    unsigned prev = 0;
    for (const auto& t : r.tokens) {
        h = (h ^ t.type) * 1099511628211ull;
        st.types.insert(t.type);
        st.bigrams.insert({ prev, t.type });
        prev = t.type;
    }
    if (st.shapes.size() < 2000000) { st.shapes.insert(h); }
}

void one(unsigned cfgbyte, std::string_view source)
{
    std::string fixed;
    if ((mon_mask & M_UTF8) && !valid_utf8(source)) {
        fixed = make_valid(source);
        source = fixed;
    }
    const bool valid = valid_utf8(source);
    const int flags = int(cfgbyte & 3);
    ++st.execs;
    st.bytes += source.size();
    st.valid += valid;
    for (char c : source) { if (static_cast<unsigned char>(c) >= 0x80) { ++st.multibyte; break; } }

    Config base { .lang = lang_id, .flags = flags };
    const Run a = go(source, base);
    st.ok += a.status == ULIGHT_STATUS_OK;
    st.bad_text += a.status == ULIGHT_STATUS_BAD_TEXT;
    st.with_tokens += !a.tokens.empty();
    note_shape(a);

    if (mon_mask & M_SAFETY) {
        if (!a.assertion.empty()) { violation("assert", "internal assertion failed: " + a.assertion, source); }
        Config h = base;
        h.html = true;
        const Run b = go(source, h);
        if (!b.assertion.empty()) { violation("assert-html", "internal assertion failed: " + b.assertion, source); }
    }
    if (mon_mask & M_STATUS) {
        if (a.status != ULIGHT_STATUS_OK && !(a.status == ULIGHT_STATUS_BAD_TEXT && !valid)) {
            violation("status", "status " + std::to_string(a.status) + " for " + (valid ? "valid" : "invalid") + " UTF-8: " + a.error + " " + a.assertion, source);
        }
        if (a.status == ULIGHT_STATUS_OK && a.error_set) {
            violation("status-error-text", "an error text was set although the status is OK", source);
        }
        if (a.status != ULIGHT_STATUS_OK && (!a.error_set || a.error.empty())) {
            violation("status-no-error-text", "no error text although the status is " + std::to_string(a.status), source);
        }
        Config h = base;
        h.html = true;
        const Run b = go(source, h);
        if (b.status != a.status) {
            violation("status-html", "tokens status " + std::to_string(a.status) + ", html status " + std::to_string(b.status), source);
        }
    }
    if (mon_mask & M_STREAM) {
        const auto f = stream_fault(a.tokens, source.size());
        if (!f.empty()) { violation("stream", f, source); }
        if (a.status != ULIGHT_STATUS_OK && valid) { violation("stream-aborted", "the stream of a valid source was cut short with status " + std::to_string(a.status), source); }
    }
    if (mon_mask & M_UTF8) {
        const auto f = boundary_fault(a.tokens, source);
        if (!f.empty()) { violation("boundary", f, source); }
        if (a.status != ULIGHT_STATUS_OK) { violation("boundary-status", "valid source rejected with status " + std::to_string(a.status), source); }
        Config h = base;
        h.html = true;
        const Run b = go(source, h);
        if (!valid_utf8(b.text)) { violation("html-not-utf8", "HTML output of a valid source is not valid UTF-8", source); }
    }
    if (mon_mask & M_HTML) {
        static const std::string_view tags[] { "h-", "x", "span", "very-long-custom-element-name" };
        static const std::string_view attrs[] { "data-h", "c", "class", "data-some-long-attribute" };
        Config h = base;
        h.html = true;
        h.tag = tags[(cfgbyte >> 2) & 3];
        h.attr = attrs[(cfgbyte >> 4) & 3];
        static const std::size_t caps[] { 1, 2, 3, 5, 16, 31, 256, 8192 };
        h.text_cap = caps[(source.size() + cfgbyte) % 8];
        h.token_cap = 1 + (source.size() * 7 + cfgbyte) % 40;
        const Run b = go(source, h);
        if (b.status != a.status) { violation("html-status", "html status differs", source); }
        if (!b.protocol.empty()) { violation("html-protocol", b.protocol, source); }
        if (b.status == ULIGHT_STATUS_OK) {
            const auto want = render(source, a.tokens, h.tag, h.attr);
            if (want != b.text) { violation("html-render", "HTML is not the rendering of the token stream: got " + hex(b.text) + " want " + hex(want), source); }
            std::string back;
            if (!unrender(b.text, back) || back != source) { violation("html-lossless", "stripping tags and decoding entities does not give back the source", source); }
        }
    }
    if (mon_mask & M_BUFFER) {
        if (!a.protocol.empty()) { violation("protocol", a.protocol, source); }
        std::size_t caps[] { 1, 2, 3, 1 + (source.size() * 31 + cfgbyte) % 61, 4096, a.tokens.size() ? a.tokens.size() : 1 };
        for (const std::size_t cap : caps) {
            Config c = base;
            c.token_cap = cap;
            const Run b = go(source, c);
            if (!b.protocol.empty()) { violation("protocol", b.protocol + " at capacity " + std::to_string(cap), source); }
            if (b.status != a.status) { violation("buffer-status", "capacity " + std::to_string(cap) + " gives status " + std::to_string(b.status) + " not " + std::to_string(a.status), source); }
            if (b.status == ULIGHT_STATUS_OK && b.tokens != a.tokens) {
                violation("buffer-tokens", "capacity " + std::to_string(cap) + " gives a different token stream", source);
            }
        }
        if (a.status == ULIGHT_STATUS_OK) {
            Config h = base;
            h.html = true;
            h.text_cap = 8192;
            const Run big = go(source, h);
            for (const std::size_t cap : { 1, 2, 7, 64 }) {
                h.text_cap = cap;
                h.token_cap = 1 + cap % 5;
                const Run b = go(source, h);
                if (!b.protocol.empty()) { violation("protocol", b.protocol + " at text capacity " + std::to_string(cap), source); }
                if (b.text != big.text) { violation("buffer-text", "text capacity " + std::to_string(cap) + " gives different HTML", source); }
            }
        }
    }
    if (mon_mask & M_DETERM) {
        // Same source again with differently filled buffers, after other work on this thread.
        Config c = base;
        c.fill = 0x5A;
        const int other = 1 + (lang_id + int(source.size())) % (lang_count - 1);
        (void)go(source, Config { .lang = other, .flags = flags });
        const Run b = go(source, c);
        if (b.status != a.status || b.tokens != a.tokens || b.error != a.error) { violation("determinism", "two runs on the same source differ", source); }
    }
    if (mon_mask & M_COALESCE) {
        Config p = base, q = base;
        p.flags &= ~int(ULIGHT_COALESCE);
        q.flags |= int(ULIGHT_COALESCE);
        const Run x = go(source, p), y = go(source, q);
        if (x.status != y.status) { violation("coalesce-status", "status depends on the coalesce flag", source); }
        if (x.status == ULIGHT_STATUS_OK) {
            // Reference: merge maximal runs of touching same-type tokens.
            if (type_map(x.tokens, source.size()) != type_map(y.tokens, source.size())) {
                violation("coalesce-types", "a byte has another type with the coalesce flag", source);
            }
            std::set<std::size_t> starts;
            for (const auto& t : x.tokens) { starts.insert(t.begin); }
            for (const auto& t : y.tokens) {
                if (!starts.contains(t.begin)) { violation("coalesce-split", "coalescing made a token begin where none began", source); }
            }
            for (std::size_t i = 1; i < y.tokens.size(); ++i) {
                const auto &u = y.tokens[i - 1], &v = y.tokens[i];
                if (u.type == v.type && u.begin + u.length == v.begin) {
                    violation("coalesce-unmerged", "adjacent tokens of the same type " + std::to_string(u.type) + " at " + std::to_string(v.begin) + " were not merged", source);
                }
            }
            st.merges += x.tokens.size() - y.tokens.size();
        }
    }
}

std::uint64_t rng_state = 1;
unsigned rnd(unsigned n)
{
    rng_state = rng_state * 6364136223846793005ull + 1442695040888963407ull;
    return unsigned((rng_state >> 33) % (n ? n : 1));
}

// Systematic mutation of given sources: every prefix and suffix, every deletion of one byte,
// and, at every position, insertion of each of a list of fragments that lexers care about.
void on_cpu_limit(int)
{
    static const char m[] = "\nMONITOR-HANG\n";
    (void)!::write(2, m, sizeof m - 1);
    dump_current();
    _exit(78);
}
void arm(unsigned seconds)
{
    itimerval t {};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}
void sweep_one(unsigned cfg, std::string_view s)
{
    current.assign(1, char(cfg));
    current.append(s);
    static unsigned n = 0;
    if ((n++ & 63) == 0) { arm(30); }
    one(cfg & 255, s);
}
std::vector<std::string> read_list(const char* path)
{
    std::vector<std::string> out;
    std::ifstream f(path, std::ios::binary);
    unsigned char h[4];
    while (f.read(reinterpret_cast<char*>(h), 4)) {
        std::string w(h[0] + 256u * h[1] + 65536u * h[2], '\0');
        if (!f.read(w.data(), std::streamsize(w.size()))) { break; }
        out.push_back(std::move(w));
    }
    return out;
}
void sweep(const char* list, unsigned shard, unsigned shards, unsigned seed, double keep)
{
    static const std::string_view frags[] { "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x92\xA9", "\xE2\x80\xA8", "\xEF\xBB\xBF",
        "\xff", "\xE2\x82", std::string_view("\0", 1), "\n", "\r\n", "\r", "\v", " ", "\\", "\"", "'", "`", "{", "}", "(", ")", "[", "]", "<", ">",
        "/", "*", "#", "-", "=", "$", "@", "%", "&", "!", "?", ":", ";", ".", ",", "|", "~", "^", "+", "_", "0", "x", "e", "u", "R",
        "/*", "*/", "//", "<!--", "-->", "${", "\\\n", "\\\xE2\x82\xAC", "\\u", "\\x1", "''", "\"\"\"", "</", "]]" , "--", "0x", "1e", "..", "::"};
    const auto seeds = read_list(list);
    std::mt19937_64 rng(seed * 7919u + shard * 104729u + 1);
    const auto kept = [&] { return keep >= 1 || double(rng() >> 11) * 0x1p-53 < keep; };
    unsigned k = shard;
    unsigned long job = 0;
    // Long sources: whole seeds repeated, and one short span repeated so that single tokens,
    // lines and nesting become longer than any buffer or fixed-size table.
    for (const auto& s : seeds) {
        if (s.empty() || job++ % shards != shard || rng() % 8 != 0) { continue; }
        std::string m;
        for (int w = 0; w < 2; ++w) {
            const std::size_t target = 2500 + rng() % 6000;
            if (w == 0) {
                while (m.size() < target) { m += s; }
            }
            else {
                const std::size_t b = rng() % s.size(), l = std::min<std::size_t>(1 + rng() % 6, s.size() - b);
                m.assign(s, 0, b);
                while (m.size() < target) { m.append(s, b, l); }
                m.append(s, b);
            }
            sweep_one(k++, m);
        }
    }
    static const std::string_view reps[] { "ab&<>", "a b ", "1", "\xE2\x82\xAC", "x.y,", "\\n", "# ", "-", "a&b<c>d/e", "0_1", "e\xCC\x81" };
    for (const auto& s : seeds) {
        if (s.empty() || job++ % shards != shard || rng() % 8 != 0) { continue; }
        const std::size_t b = rng() % s.size(), target = 2500 + rng() % 6000;
        const auto f = reps[rng() % std::size(reps)];
        std::string m(s, 0, b);
        while (m.size() < target) { m += f; }
        m.append(s, b);
        sweep_one(k++, m);
    }
    for (const auto& s : seeds) {
        if (job++ % shards == shard) { for (unsigned c = 0; c < 4; ++c) { sweep_one(c + 4 * k++, s); } }
        for (std::size_t i = 0; i <= s.size(); ++i) {
            if (job++ % shards != shard) { continue; }
            if (kept()) { sweep_one(k++, std::string_view(s).substr(0, i)); }
            if (kept()) { sweep_one(k++, std::string_view(s).substr(i)); }
            std::string m;
            if (i < s.size() && kept()) {
                m.assign(s, 0, i).append(s, i + 1);
                sweep_one(k++, m);
            }
            auto ins = [&](std::string_view f, bool cut) {
                m.assign(s, 0, i).append(f);
                if (!cut) { m.append(s, i); }
                sweep_one(k++, m);
            };
            for (const auto f : frags) { if (kept()) { ins(f, rng() % 4 == 0); } }
            for (int w = 0; w < 4 && !dict.empty(); ++w) { if (kept()) { ins(dict[rng() % dict.size()], rng() % 4 == 0); } }
        }
    }
}
} // namespace

extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    init_once();
    if (const char* list = std::getenv("FZ_SWEEP")) {
        std::signal(SIGPROF, on_cpu_limit); mon::runaway = on_cpu_limit;
        if (__sanitizer_set_death_callback) { __sanitizer_set_death_callback(dump_current); }
        auto num = [](const char* k, double d) { const char* e = std::getenv(k); return e ? std::atof(e) : d; };
        sweep(list, unsigned(num("FZ_SHARD", 0)), unsigned(num("FZ_SHARDS", 1)), unsigned(num("FZ_SEED", 1)), num("FZ_KEEP", 1));
        arm(0);
        std::exit(0);
    }
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n)
{
    init_once();
    if (n == 0) { return 0; }
    if (std::getenv("FZ_ARTIFACT")) { current.assign(reinterpret_cast<const char*>(d), n); }
    one(d[0], { reinterpret_cast<const char*>(d + 1), n - 1 });
    return 0;
}

extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* d, size_t size, size_t max, unsigned seed)
{
    init_once();
    rng_state = seed * 0x9E3779B97F4A7C15ull + 1;
    if (size == 0) {
        d[0] = 0;
        size = 1;
    }
    const unsigned rounds = 1 + rnd(3);
    for (unsigned k = 0; k < rounds; ++k) {
        auto insert = [&](std::string_view w, size_t pos) {
            if (size + w.size() > max) { return; }
            std::memmove(d + pos + w.size(), d + pos, size - pos);
            std::memcpy(d + pos, w.data(), w.size());
            size += w.size();
        };
        const size_t pos = 1 + (size > 1 ? rnd(unsigned(size)) : 0);
        const size_t at = std::min(pos, size);
        switch (rnd(12)) {
        case 0: case 1: case 2: size = LLVMFuzzerMutate(d, size, max); if (!size) { d[0] = 0; size = 1; } break;
        case 3: case 4: case 5: case 6:
            if (!dict.empty()) { insert(dict[rnd(unsigned(dict.size()))], at); if (rnd(4) == 0) { insert(" ", std::min(at, size)); } }
            break;
        case 7: { // duplicate or move a span
            if (size < 3) { break; }
            const size_t b = 1 + rnd(unsigned(size - 1)), l = 1 + rnd(unsigned(std::min<size_t>(size - b, 40)));
            const std::string w(reinterpret_cast<char*>(d + b), std::min(l, size - b));
            insert(w, at);
            break;
        }
        case 8: { // truncate, or delete a span
            if (size < 3) { break; }
            if (rnd(2)) { size = 1 + rnd(unsigned(size - 1)); break; }
            const size_t b = 1 + rnd(unsigned(size - 1)), l = 1 + rnd(unsigned(std::min<size_t>(size - b, 20)));
            const size_t e = std::min(size, b + l);
            std::memmove(d + b, d + e, size - e);
            size -= e - b;
            break;
        }
        case 9: { // non-ASCII and control characters
            static const std::string_view w[] { "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x92\xA9", "\xE2\x80\xA8", "\xC2\xA0", "\xEF\xBB\xBF", "\xF0\x90\x90\x80", "\xCC\x81", "\r\n", "\r", "\n", "\t", "\v", "\f", "\xff", "\x80", "\xF0\x9F", "\xE2" , std::string_view("\0", 1)};
            insert(w[rnd(std::size(w))], at);
            break;
        }
        case 10: { // bracket and quote pairs around a span
            static const std::pair<std::string_view, std::string_view> w[] { { "(", ")" }, { "[", "]" }, { "{", "}" }, { "<", ">" }, { "\"", "\"" }, { "'", "'" }, { "`", "`" }, { "/*", "*/" }, { "<!--", "-->" }, { "${", "}" }, { "\"\"\"", "\"\"\"" }, { "[[", "]]" }, { "```\n", "\n```\n" }, { "<a>", "</a>" }, { "\\", "{}" } };
            const auto& p = w[rnd(std::size(w))];
            insert(p.second, at);
            insert(p.first, 1 + rnd(unsigned(at)));
            break;
        }
        default: d[0] = uint8_t(rnd(256)); break;
        }
        size = std::min(size, max);
    }
    return size;
}
