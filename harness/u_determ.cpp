// C07: results depend on source, language and flags alone. argv: mode seed tier shard shards; sources on stdin.
#include "unit.hpp"
#include <atomic>
#include <mutex>
#include <thread>
#include <numeric>
#include "ulight/ulight.h"
using namespace unit;
struct Source { int lang, flags; std::string text; };
static std::vector<Source> sources;
struct Sum { // FNV over everything delivered
    std::uint64_t h = 0xcbf29ce484222325ull; std::size_t n = 0;
    void add(const void* p, std::size_t k) { for (std::size_t i = 0; i < k; ++i) { h ^= static_cast<const unsigned char*>(p)[i]; h *= 0x100000001b3ull; } n += k; }
};
static void tok(const void* d, ulight_token* t, std::size_t n) { auto* s = const_cast<Sum*>(static_cast<const Sum*>(d)); for (std::size_t i = 0; i < n; ++i) { const std::uint64_t v[3] = { t[i].begin, t[i].length, std::uint64_t(t[i].type) }; s->add(v, sizeof v); } }
static void txt(const void* d, char* p, std::size_t n) { const_cast<Sum*>(static_cast<const Sum*>(d))->add(p, n); }
struct Bufs { std::vector<ulight_token> t; std::vector<char> x; };
static void init(ulight_state& s) { ulight_init(&s); }
// runs on the state as it is, so that whatever an earlier run left there takes part
static std::uint64_t run(ulight_state& s, Bufs& b, const char* text, const Source& q, bool html)
{
    Sum sum;
    s.source = text; s.source_length = q.text.size(); s.lang = ulight_lang(q.lang); s.flags = ulight_flag(q.flags);
    s.token_buffer = b.t.data(); s.token_buffer_length = b.t.size(); s.text_buffer = b.x.data(); s.text_buffer_length = b.x.size();
    s.flush_tokens = tok; s.flush_tokens_data = &sum; s.flush_text = txt; s.flush_text_data = &sum;
    const int r = int(html ? ulight_source_to_html(&s) : ulight_source_to_tokens(&s));
    sum.add(&r, sizeof r);
    if (r) sum.add(s.error, s.error_length);
    return sum.h;
}
static void dirty_stack(Rng& r) { volatile unsigned char a[24000]; const unsigned char c = (unsigned char)(r.next()); for (std::size_t i = 0; i < sizeof a; ++i) a[i] = c; }
static Bufs bufs(Rng& r) { Bufs b; b.t.resize(1 + r.below(r.chance(50) ? 6 : 300)); b.x.resize(1 + r.below(r.chance(50) ? 30 : 4000)); for (auto& t : b.t) { t.begin = std::size_t(r.next()); t.length = std::size_t(r.next()); t.type = (unsigned char)(r.next()); } for (auto& c : b.x) c = char(r.next()); return b; }

int main(int argc, char** argv)
{
    if (argc < 6) return 2;
    mon::install();
    const std::string mode = argv[1];
    const unsigned shard = unsigned(std::atoi(argv[4]));
    Rng r(std::strtoull(argv[2], nullptr, 10) * 64 + shard);
    const bool th = std::string(argv[3]) == "thorough";
    unsigned char h[6];
    while (std::fread(h, 1, 6, stdin) == 6) { std::uint32_t n; std::memcpy(&n, h + 2, 4); Source s { h[0], h[1], std::string(n, 0) }; if (n && std::fread(s.text.data(), 1, n, stdin) != n) return 2; sources.push_back(std::move(s)); }
    const std::size_t N = sources.size();
    if (!N) return 2;
    std::vector<std::uint64_t> want[2] { std::vector<std::uint64_t>(N), std::vector<std::uint64_t>(N) };
    auto d = [&](std::size_t i, bool html, const char* how) { return "language " + std::to_string(sources[i].lang) + ", flags " + std::to_string(sources[i].flags) + (html ? ", html" : ", tokens") + ", " + how + ", source " + hex(sources[i].text.data(), std::min<std::size_t>(sources[i].text.size(), 300)); };
    try {
        if (mode == "digest") { // in the order of a seed, each on a fresh state; compared between processes and builds
            std::vector<std::size_t> order(N); std::iota(order.begin(), order.end(), 0);
            if (shard) for (std::size_t i = N; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
            for (std::size_t i : order) for (int html = 0; html < 2; ++html) { dirty_stack(r); ulight_state s; std::memset(static_cast<void*>(&s), int(r.below(256)), sizeof s); init(s); Bufs b = bufs(r); want[html][i] = run(s, b, sources[i].text.data(), sources[i], html); }
            for (std::size_t i = 0; i < N; ++i) std::printf("DIGEST %zu %016llx %016llx\n", i, (unsigned long long)want[0][i], (unsigned long long)want[1][i]);
            done(); return 0;
        }
        for (std::size_t i = 0; i < N; ++i) for (int html = 0; html < 2; ++html) { ulight_state s; init(s); Bufs b; b.t.resize(1024); b.x.resize(4096); want[html][i] = run(s, b, sources[i].text.data(), sources[i], html); }
        if (mode == "history") {
            const std::size_t runs = th ? 400000 : 12000;
            for (std::size_t k = 0; k < runs;) {
                ulight_state s; init(s); Bufs b = bufs(r);
                ulight_state* p = r.chance(50) ? &s : ulight_new();
                for (std::size_t m = 1 + r.below(12); m; --m, ++k) {
                    const std::size_t i = r.below(N); const bool html = r.chance(50);
                    if (r.chance(20)) dirty_stack(r);
                    // failures in between leave nothing behind
                    if (r.chance(15)) { Source bad = sources[i]; if (r.chance(50)) { bad.lang = 0; run(*p, b, bad.text.data(), bad, html); } else { bad.text = "a\xff\xc3(\x80 \"'<" + bad.text.substr(0, 20); run(*p, b, bad.text.data(), bad, html); } }
                    // the same bytes elsewhere
                    std::vector<char> copy(sources[i].text.size() + 17, char(r.next())); const std::size_t off = r.below(17);
                    const char* text = sources[i].text.data();
                    if (r.chance(60)) { if (!sources[i].text.empty()) std::memcpy(copy.data() + off, text, sources[i].text.size()); text = copy.data() + off; }
                    if (r.chance(30)) b = bufs(r);
                    ++stats["runs"];
                    if (run(*p, b, text, sources[i], html) != want[html][i]) fail("history:" + std::to_string(sources[i].lang), d(i, html, "after other runs"));
                }
                if (p != &s) ulight_delete(p); else ulight_destroy(&s);
            }
        } else if (mode == "threads") {
            const unsigned T = 8; std::atomic<unsigned> ready { 0 }; std::mutex m;
            std::atomic<unsigned long long> runs { 0 }, overlapped { 0 }; std::atomic<int> active { 0 };
            const std::size_t per = th ? 6000 : 350;
            std::vector<std::thread> ts;
            for (unsigned t = 0; t < T; ++t) ts.emplace_back([&, t, seed = r.next()] {
                Rng q(seed + t);
                ulight_state s; init(s); Bufs b = bufs(q);
                ++ready; while (ready < T) { }
                // half of the time all threads use one language, so that anything it shares is contended
                for (std::size_t k = 0; k < per; ++k) {
                    const int l = 1 + int((k / 14) % 25);
                    std::size_t i = q.below(N); if (k / 7 % 2) for (int tries = 0; tries < 60 && sources[i].lang != l; ++tries) i = q.below(N);
                    const bool html = q.chance(50);
                    if (active++ > 0) ++overlapped;
                    const auto got = run(s, b, sources[i].text.data(), sources[i], html);
                    --active; ++runs;
                    if (q.chance(10)) { ulight_get_lang("cpp", 3); ulight_lang_from_path("a.js", 4); ulight_lang_display_name(ULIGHT_LANG_CPP); ulight_highlight_type_long_string(ulight_highlight_type(q.below(256))); ulight_state* z = ulight_new(); ulight_delete(z); }
                    if (got != want[html][i]) { std::lock_guard g(m); fail("threads:" + std::to_string(sources[i].lang), d(i, html, "with other threads")); }
                }
            });
            for (auto& t : ts) t.join();
            stats["runs"] += runs; stats["runs_overlapping_another"] += overlapped;
        } else return 2;
    } catch (const ulight::Assertion_Error&) { fail("assert", "internal assertion failed: " + mon::assert_message); }
    done();
}
