// C09, C10, C11, C12, C26: the C API's contracts and the C++ wrapper. argv: mode seed tier [shard shards]
// Sources (u8 lang, u8 flags, u32 length, bytes) come from stdin.
#include "unit.hpp"
#include <algorithm>
#include <climits>
#include <new>
#include <span>
#include "ulight/ulight.hpp"
using namespace unit;

// ---- allocation monitor: every allocation of the process goes through here
struct Head { std::size_t size, align; unsigned magic; void* raw; };
static bool counting = false, failing = false;
static long alloc_index = 0, fail_at = -1; static bool fail_from = false;
static long live = 0, injected = 0; static std::string alloc_error;
static void* my_alloc(std::size_t n, std::size_t align)
{
    if (counting) {
        const long i = alloc_index++;
        if (fail_at >= 0 && (i == fail_at || (fail_from && i >= fail_at))) { ++injected; return nullptr; }
    }
    if (n > (std::size_t(1) << 40)) return nullptr;
    const std::size_t a = std::max(align, alignof(Head));
    char* raw = static_cast<char*>(std::malloc(n + sizeof(Head) + a));
    if (!raw) return nullptr;
    auto p = (reinterpret_cast<std::uintptr_t>(raw) + sizeof(Head) + a - 1) / a * a;
    new (reinterpret_cast<Head*>(p) - 1) Head { n, align, counting ? 0xA110Cu : 0xA110Du, raw };
    if (counting) ++live;
    return reinterpret_cast<void*>(p);
}
static void my_free(void* p, std::size_t n, std::size_t align, bool sized, bool aligned)
{
    if (!p) return;
    Head& h = static_cast<Head*>(p)[-1];
    if (h.magic != 0xA110C && h.magic != 0xA110D) { alloc_error = "an invalid pointer was freed"; return; }
    if (sized && n != h.size) alloc_error = "freed with size " + std::to_string(n) + " but allocated with " + std::to_string(h.size);
    if (aligned ? align != h.align : h.align > __STDCPP_DEFAULT_NEW_ALIGNMENT__) alloc_error = "freed with another alignment than allocated with";
    if (h.magic == 0xA110C) --live;
    h.magic = 0xDEAD;
    std::free(h.raw);
}
constexpr std::size_t DA = __STDCPP_DEFAULT_NEW_ALIGNMENT__;
static void* or_throw(void* p) { if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n) { return or_throw(my_alloc(n, DA)); }
void* operator new[](std::size_t n) { return or_throw(my_alloc(n, DA)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return my_alloc(n, DA); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return my_alloc(n, DA); }
void* operator new(std::size_t n, std::align_val_t a) { return or_throw(my_alloc(n, std::size_t(a))); }
void* operator new[](std::size_t n, std::align_val_t a) { return or_throw(my_alloc(n, std::size_t(a))); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return my_alloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return my_alloc(n, std::size_t(a)); }
void operator delete(void* p) noexcept { my_free(p, 0, 0, false, false); }
void operator delete[](void* p) noexcept { my_free(p, 0, 0, false, false); }
void operator delete(void* p, std::size_t n) noexcept { my_free(p, n, 0, true, false); }
void operator delete[](void* p, std::size_t n) noexcept { my_free(p, n, 0, true, false); }
void operator delete(void* p, std::align_val_t a) noexcept { my_free(p, 0, std::size_t(a), false, true); }
void operator delete[](void* p, std::align_val_t a) noexcept { my_free(p, 0, std::size_t(a), false, true); }
void operator delete(void* p, std::size_t n, std::align_val_t a) noexcept { my_free(p, n, std::size_t(a), true, true); }
void operator delete[](void* p, std::size_t n, std::align_val_t a) noexcept { my_free(p, n, std::size_t(a), true, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { my_free(p, 0, 0, false, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { my_free(p, 0, 0, false, false); }
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept { my_free(p, 0, std::size_t(a), false, true); }
void operator delete[](void* p, std::align_val_t a, const std::nothrow_t&) noexcept { my_free(p, 0, std::size_t(a), false, true); }

struct Source { int lang, flags; std::string text; };
static std::vector<Source> sources;
static void read_sources()
{
    unsigned char h[6];
    while (std::fread(h, 1, 6, stdin) == 6) {
        std::uint32_t n; std::memcpy(&n, h + 2, 4);
        Source s { h[0], h[1], std::string(n, 0) };
        if (n && std::fread(s.text.data(), 1, n, stdin) != n) std::exit(2);
        sources.push_back(std::move(s));
    }
}
static ulight_lang as_lang(int v) { ulight_lang l; static_assert(sizeof l == sizeof v); std::memcpy(&l, &v, sizeof v); return l; }

// ---- C09
struct Count { int tokens = 0, texts = 0; };
static void params(Rng& r, bool wild)
{
    static Count count;
    const auto ft = [](const void*, ulight_token*, std::size_t) { ++count.tokens; };
    const auto fx = [](const void*, char*, std::size_t) { ++count.texts; };
    static ulight_token tb[8]; static char xb[8];
    const char* const text = "int x = \"a<b\"; # y\n{}";
    const std::vector<int> wild_langs = { -1, -2, -5, INT_MIN, INT_MAX, 32, 33, 255, 256, 257, 1000, 1 << 20 };
    // 12 fields, each valid or one of its invalid forms; 2-way combinations of defects exhaustively, others at random
    auto one = [&](unsigned defects, bool html, int lang, int flags) {
        ulight_state s; std::memset(static_cast<void*>(&s), int(r.below(256)), sizeof s);
        ulight_init(&s);
        s.source = text; s.source_length = std::strlen(text); s.lang = as_lang(lang); s.flags = ulight_flag(flags);
        s.token_buffer = tb; s.token_buffer_length = 1 + r.below(8); s.flush_tokens = ft; s.flush_tokens_data = nullptr;
        s.text_buffer = xb; s.text_buffer_length = 1 + r.below(8); s.flush_text = fx; s.flush_text_data = nullptr;
        std::vector<int> allowed;
        const bool bad_lang = lang <= 0 || lang >= int(ULIGHT_LANG_COUNT);
        auto A = [&](int x) { allowed.push_back(x); };
        if (bad_lang) A(ULIGHT_STATUS_BAD_LANG);
        if (defects & 1) { s.source = nullptr; A(ULIGHT_STATUS_BAD_STATE); }
        if (defects & 2) { s.token_buffer = nullptr; A(ULIGHT_STATUS_BAD_BUFFER); }
        if (defects & 4) { s.token_buffer_length = 0; A(ULIGHT_STATUS_BAD_BUFFER); }
        if (defects & 8) { s.flush_tokens = nullptr; if (!html) A(ULIGHT_STATUS_BAD_BUFFER); }
        if (defects & 16) { s.text_buffer = nullptr; if (html) A(ULIGHT_STATUS_BAD_BUFFER); }
        if (defects & 32) { s.text_buffer_length = 0; if (html) A(ULIGHT_STATUS_BAD_BUFFER); }
        if (defects & 64) { s.flush_text = nullptr; if (html) A(ULIGHT_STATUS_BAD_BUFFER); }
        if (defects & 128) { s.html_tag_name = nullptr; if (html) A(ULIGHT_STATUS_BAD_STATE); }
        if (defects & 256) { s.html_tag_name_length = 0; if (html) A(ULIGHT_STATUS_BAD_STATE); }
        if (defects & 512) { s.html_attr_name = nullptr; if (html) A(ULIGHT_STATUS_BAD_STATE); }
        if (defects & 1024) { s.html_attr_name_length = 0; if (html) A(ULIGHT_STATUS_BAD_STATE); }
        if (defects & 2048) { s.source = nullptr; s.source_length = 0; if (defects & 1) allowed.erase(std::remove(allowed.begin(), allowed.end(), int(ULIGHT_STATUS_BAD_STATE)), allowed.end()); if ((defects & 1) && html && (defects & 0x780)) A(ULIGHT_STATUS_BAD_STATE); }
        const ulight_state before = s;
        count = {};
        const int st = int(html ? ulight_source_to_html(&s) : ulight_source_to_tokens(&s));
        ++stats["calls"];
        char d[160];
        std::snprintf(d, sizeof d, "%s with defects %#x, language %d, flags %d: status %d, %d token and %d text flushes", html ? "html" : "tokens", defects, lang, flags, st, count.tokens, count.texts);
        const std::string kind = html ? "html" : "tokens";
        if (allowed.empty()) {
            ++stats["valid_calls"];
            if (st != ULIGHT_STATUS_OK) fail(kind + ":rejected", d);
            if (st == ULIGHT_STATUS_OK && s.source_length && (html ? count.texts : count.tokens) == 0 && html) fail(kind + ":no-output", d);
        } else {
            ++stats["invalid_calls"];
            if (st == ULIGHT_STATUS_OK || std::find(allowed.begin(), allowed.end(), st) == allowed.end()) fail(kind + (bad_lang && defects == 0 ? ":language" : ":status"), d);
            if (s.error == nullptr || s.error_length == 0) fail(kind + ":no-message", d);
            else if (!mon::valid_utf8({ s.error, s.error_length })) fail(kind + ":message", d);
            if (count.tokens || count.texts) fail(kind + ":output", d);
        }
        // the caller's configuration is untouched; html is documented to set flush_tokens
        if (s.source != before.source || s.source_length != before.source_length || std::memcmp(&s.lang, &before.lang, sizeof s.lang) || s.flags != before.flags || s.token_buffer != before.token_buffer || s.token_buffer_length != before.token_buffer_length || s.html_tag_name != before.html_tag_name || s.html_tag_name_length != before.html_tag_name_length || s.html_attr_name != before.html_attr_name || s.html_attr_name_length != before.html_attr_name_length || s.text_buffer != before.text_buffer || s.text_buffer_length != before.text_buffer_length || s.flush_text != before.flush_text || s.flush_text_data != before.flush_text_data || (!html && (s.flush_tokens != before.flush_tokens || s.flush_tokens_data != before.flush_tokens_data)))
            fail(kind + ":configuration", d);
    };
    for (int html = 0; html < 2; ++html) {
        for (int lang = 0; lang < 32; ++lang) for (int flags = 0; flags < 4; ++flags) one(0, html, lang, flags);
        if (wild) for (int l : wild_langs) one(0, html, l, 0);
        for (unsigned a = 0; a < 12; ++a) for (unsigned b = 0; b < 12; ++b) { one(1u << a | 1u << b, html, 1 + int(r.below(ULIGHT_LANG_COUNT - 1)), int(r.below(4))); one(1u << a | 1u << b, html, r.chance(50) ? 0 : 26 + int(r.below(6)), int(r.below(4))); }
        for (int i = 0; i < 20000; ++i) one(unsigned(r.next() & r.next() & 0xfff), html, r.chance(85) ? 1 + int(r.below(ULIGHT_LANG_COUNT - 1)) : wild ? r.pick(wild_langs) : 26 + int(r.below(6)), int(r.below(4)));
    }
    // ulight_init sets everything to its default, whatever was there before
    for (int fill : { 0, 0xff, 0x5a }) {
        ulight_state s; std::memset(static_cast<void*>(&s), fill, sizeof s);
        const bool same = ulight_init(&s) == &s;
        if (!same || s.source || s.source_length || s.lang != ULIGHT_LANG_NONE || s.flags != ULIGHT_NO_FLAGS || s.token_buffer || s.token_buffer_length || s.flush_tokens || s.flush_tokens_data || s.text_buffer || s.text_buffer_length || s.flush_text || s.flush_text_data || s.error || s.error_length
            || std::string_view(s.html_tag_name, s.html_tag_name_length) != "h-" || std::string_view(s.html_attr_name, s.html_attr_name_length) != "data-h") fail("init", "ulight_init leaves fields without their defaults");
        ++stats["inits"];
    }
}

// ---- C11 and C12 (tables are printed and compared by the check; consistency is judged here)
static std::string sv(ulight_string_view v) { return v.text ? std::string(v.text, v.length) : std::string(); }
static std::string sv(ulight_u8string_view v) { return v.text ? std::string(reinterpret_cast<const char*>(v.text), v.length) : std::string(); }
static void langs(Rng& r, bool wild, bool thorough)
{
    std::map<std::string, int> table;
    std::string prev;
    std::set<int> covered;
    for (std::size_t i = 0; i < ulight_lang_list_length; ++i) {
        const auto& e = ulight_lang_list[i];
        const std::string n(e.name, e.name_length);
        if (i && !(prev < n)) fail("list:order", prev + " is followed by " + n);
        prev = n;
        table[n] = int(e.lang); covered.insert(int(e.lang));
        if (n.empty() || std::strlen(e.name) != e.name_length) fail("list:name", n);
        if (e.lang <= 0 || e.lang >= ULIGHT_LANG_COUNT) fail("list:lang", n);
        std::printf("LANG %s %d\n", n.c_str(), int(e.lang));
    }
    std::set<std::string> names;
    for (int l = wild ? -300 : 0; l < (wild ? 700 : 32); ++l) {
        const auto d = ulight_lang_display_name(as_lang(l)); const auto d8 = ulight_lang_display_name_u8(as_lang(l));
        const bool valid = l > 0 && l < int(ULIGHT_LANG_COUNT);
        ++stats["display_names"];
        if (valid != (d.length != 0) || valid != (d8.length != 0)) { fail("display_name:presence", "language " + std::to_string(l)); continue; }
        if (!valid) continue;
        if (sv(d) != sv(d8) || d.text[d.length] != 0 || d8.text[d8.length] != 0) fail("display_name:value", "language " + std::to_string(l));
        if (!names.insert(sv(d)).second) fail("display_name:duplicate", sv(d));
        if (!covered.count(l)) fail("list:complete", "language " + std::to_string(l) + " has no name");
        std::printf("DISPLAY %d %s\n", l, sv(d).c_str());
    }
    if (wild) for (int l : { INT_MIN, INT_MIN + 1, INT_MAX, 1 << 16, -(1 << 16) }) if (ulight_lang_display_name(as_lang(l)).length) fail("display_name:presence", std::to_string(l));
    std::vector<std::string> listed; for (auto& [k, v] : table) listed.push_back(k);
    auto want = [&](const std::string& n) { const auto i = table.find(n); return i == table.end() ? 0 : i->second; };
    auto lookup = [&](const std::string& n) {
        const Exact e(std::u8string(n.begin(), n.end()));
        const char* p = reinterpret_cast<const char*>(e.p);
        ++stats["lookups"];
        if (want(n)) ++stats["lookups_found"];
        auto chk = [&](const char* key, int got, int w) { if (got != w) fail(key, std::string(key) + " of '" + n + "': " + std::to_string(got) + ", want " + std::to_string(w)); };
        chk("get_lang", int(ulight_get_lang(p, n.size())), want(n));
        chk("get_lang_u8", int(ulight_get_lang_u8(e.p, n.size())), want(n));
        const auto dot = n.rfind('.');
        const int w = dot == n.npos ? 0 : want(n.substr(dot + 1));
        if (w) ++stats["paths_found"];
        chk("lang_from_path", int(ulight_lang_from_path(p, n.size())), w);
        chk("lang_from_path_u8", int(ulight_lang_from_path_u8(e.p, n.size())), w);
    };
    lookup("");
    for (const auto& n : listed) {
        for (const std::string& pre : { "", ".", "a.", "dir/file.", "x.cpp.", "..", "a/b.c/", ".c.", " ", "\0x" }) for (const std::string& post : { "", ".", " ", "/", "x", ".x", "\n" }) lookup(pre + n + post);
        std::string u = n; for (char& c : u) c = char(std::toupper(c)); lookup(u); lookup("f." + u);
        u = n; u[0] = char(std::toupper(u[0])); lookup(u);
        for (std::size_t i = 0; i <= n.size(); ++i) { lookup(n.substr(0, i)); lookup(n.substr(i)); for (int c = 0; c < 256; ++c) { lookup(n.substr(0, i) + char(c) + n.substr(i)); if (i < n.size()) { std::string m = n; m[i] = char(c); lookup(m); lookup("f." + m); } } }
    }
    for (int a = 0; a < 256; ++a) { lookup(std::string(1, char(a))); for (int b = 0; b < 256; ++b) lookup(std::string { char(a), char(b) }); }
    for (int i = 0; i < (thorough ? 500000 : 20000); ++i) {
        std::string s; for (std::size_t n = r.below(6); n--;) { if (r.chance(50)) s += r.pick(listed); if (r.chance(50)) s += "./\\- cxC\xc3\xa9"[r.below(10)]; }
        lookup(s);
    }
}
static void types(bool)
{
    using T = ulight_highlight_type;
    for (int t = 0; t < 256; ++t) {
        T x; std::memcpy(&x, &t, sizeof t);
        const auto l = ulight_highlight_type_long_string(x); const auto s = ulight_highlight_type_short_string(x);
        const auto l8 = ulight_highlight_type_long_string_u8(x); const auto s8 = ulight_highlight_type_short_string_u8(x);
        ++stats["types"];
        if (sv(l) != sv(l8) || sv(s) != sv(s8)) fail("names:u8", "type " + std::to_string(t));
        if (sv(ulight_highlight_type_id(x)) != sv(s)) fail("names:id", "type " + std::to_string(t));
        if (l.length && (l.text[l.length] || s.text[s.length])) fail("names:terminator", "type " + std::to_string(t));
        std::printf("TYPE %d %s %s\n", t, l.length ? sv(l).c_str() : "-", s.length ? sv(s).c_str() : "-");
        // the wrapper
        const auto y = ulight::Highlight_Type(t & 0xff);
        if (t >= 0 && t < 256) {
            const auto u = [](std::u8string_view v) { return std::string(v.begin(), v.end()); };
            if (ulight::highlight_type_long_string(y) != sv(l) || ulight::highlight_type_short_string(y) != sv(s) || u(ulight::highlight_type_long_string_u8(y)) != sv(l) || u(ulight::highlight_type_short_string_u8(y)) != sv(s) || ulight::highlight_type_id(y) != sv(s)) fail("names:wrapper", "type " + std::to_string(t));
        }
    }
}

// ---- C26
static std::vector<mon::Tok>* token_sink; static std::string* text_sink;
static const char* difference(const ulight_state& a, const ulight_state& b)
{
#define F(x) if (a.x != b.x) return #x;
    F(source) F(source_length) F(lang) F(flags) F(token_buffer) F(token_buffer_length) F(flush_tokens_data) F(flush_tokens) F(html_tag_name) F(html_tag_name_length)
    F(html_attr_name) F(html_attr_name_length) F(text_buffer) F(text_buffer_length) F(flush_text_data) F(flush_text) F(error) F(error_length)
#undef F
    return nullptr;
}
struct CRun { int status; std::vector<mon::Tok> tokens; std::string text, error; };
static void cpp(Rng& r, bool thorough)
{
    using namespace ulight;
    auto bad = [&](const char* key, const std::string& d) { fail(std::string("wrapper:") + key, d); };
    const std::vector<std::string> names = { "h-", "b", "span", "x-very-long-tag-name", "data-h", "class", "a", "c1" };
    // one state object, reused for a history of setter calls and runs
    for (int h = 0; h < (thorough ? 400 : 60); ++h) {
        State st;
        {
            ulight_state c; ulight_init(&c);
            const bool same = st.impl.source == c.source && st.impl.lang == c.lang && st.impl.flags == c.flags && st.impl.token_buffer == c.token_buffer && st.impl.html_tag_name_length == c.html_tag_name_length && st.impl.html_attr_name_length == c.html_attr_name_length && st.impl.flush_text == c.flush_text && st.impl.flush_tokens == c.flush_tokens && st.impl.error == c.error;
            if (!same || !st.get_source().empty() || !st.get_error_string().empty()) bad("constructor", "a new state is not as after ulight_init");
        }
        std::string source, tag = "h-", attr = "data-h"; Lang lang = Lang::none; Flag flags = Flag::no_flags;
        std::vector<Token> tb(1); std::vector<char> xb(1);
        std::vector<mon::Tok> toks; std::string text;
        auto on_tok = [&](Token* p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) toks.push_back({ p[i].begin, p[i].length, p[i].type }); };
        auto on_text = [&](char* p, std::size_t n) { text.append(p, n); };
        // callables without an entity, or with one
        token_sink = &toks; text_sink = &text;
        constexpr auto plain_tok = [](Token* p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) token_sink->push_back({ p[i].begin, p[i].length, p[i].type }); };
        constexpr auto plain_text = [](char* p, std::size_t n) { text_sink->append(p, n); };
        constexpr auto bound_tok = [](std::vector<mon::Tok>* o, Token* p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) o->push_back({ p[i].begin, p[i].length, p[i].type }); };
        constexpr auto bound_text = [](std::string* o, char* p, std::size_t n) { o->append(p, n); };
        ulight_state m; ulight_init(&m);      // the same, done to a C state
        const auto set_tokens = [&] {
            const unsigned kind = unsigned(r.below(4));
            const Function_Ref<void(Token*, std::size_t)> f = kind == 0 ? Function_Ref<void(Token*, std::size_t)>(on_tok) : kind == 1 ? Function_Ref<void(Token*, std::size_t)>(Constant<plain_tok> {}) : kind == 2 ? Function_Ref<void(Token*, std::size_t)>(Constant<bound_tok> {}, &toks) : Function_Ref<void(Token*, std::size_t)>(+plain_tok);
            st.on_flush_tokens(f); m.flush_tokens = f.get_invoker(); m.flush_tokens_data = f.get_entity();
        };
        const auto set_text = [&] {
            const unsigned kind = unsigned(r.below(5));
            if (kind == 4) { constexpr auto c = [](const void* d, char* p, std::size_t n) { const_cast<std::string*>(static_cast<const std::string*>(d))->append(p, n); }; st.on_flush_text(&text, c); m.flush_text = +c; m.flush_text_data = &text; return; }
            const Function_Ref<void(char*, std::size_t)> f = kind == 0 ? Function_Ref<void(char*, std::size_t)>(on_text) : kind == 1 ? Function_Ref<void(char*, std::size_t)>(Constant<plain_text> {}) : kind == 2 ? Function_Ref<void(char*, std::size_t)>(Constant<bound_text> {}, &text) : Function_Ref<void(char*, std::size_t)>(+plain_text);
            st.on_flush_text(f); m.flush_text = f.get_invoker(); m.flush_text_data = f.get_entity();
        };
        const auto set_tb = [&] { st.set_token_buffer(tb); m.token_buffer = tb.data(); m.token_buffer_length = tb.size(); };
        const auto set_xb = [&] { st.set_text_buffer(xb); m.text_buffer = xb.data(); m.text_buffer_length = xb.size(); };
        bool has_tok = false, has_text = false, has_tb = false, has_xb = false;
        std::string hist;
        std::string last_error;
        for (int k = 0, n = 5 + int(r.below(25)); k < n; ++k) {
            ++stats["operations"];
            switch (r.below(12)) {
            case 0: case 1: { const Source& s = r.pick(sources); source = s.text; if (r.chance(50)) st.set_source(std::string_view(source)); else st.set_source(std::u8string_view(reinterpret_cast<const char8_t*>(source.data()), source.size())); if (r.chance(70)) { lang = Lang(s.lang); st.set_lang(lang); m.lang = ulight_lang(s.lang); } hist += " source"; m.source = source.data(); m.source_length = source.size(); break; }
            case 2: lang = Lang(r.below(28)); if (r.chance(50)) st.set_lang(lang); else st.set_lang(ulight_lang(lang)); m.lang = ulight_lang(lang); hist += " lang"; break;
            case 3: { const int f = int(r.below(4)); flags = Flag(f); if (f == 3 && r.chance(50)) st.set_flags(Flag::coalesce | Flag::strict); else if (r.chance(50)) st.set_flags(flags); else st.set_flags(ulight_flag(f)); m.flags = ulight_flag(f); hist += " flags"; break; }
            case 4: tb.assign(1 + r.below(20), Token {}); set_tb(); has_tb = true; hist += " tokens"; break;
            case 5: xb.assign(1 + r.below(64), 'x'); set_xb(); has_xb = true; hist += " text"; break;
            case 6: set_tokens(); has_tok = true; hist += " on_flush_tokens"; break;
            case 7: set_text(); has_text = true; hist += " on_flush_text"; break;
            case 8: tag = r.pick(names); st.set_html_tag_name(tag); m.html_tag_name = tag.data(); m.html_tag_name_length = tag.size(); hist += " tag=" + tag; break;
            case 9: attr = r.pick(names); st.set_html_attr_name(attr); m.html_attr_name = attr.data(); m.html_attr_name_length = attr.size(); hist += " attr=" + attr; break;
            default: {
                const bool html = r.chance(50);
                if (!has_tok) { set_tokens(); has_tok = true; }
                if (!has_text) { set_text(); has_text = true; }
                if (!has_tb || tb.empty()) { set_tb(); has_tb = true; }
                if (!has_xb) { set_xb(); has_xb = true; }
                toks.clear(); text.clear();
                const Status s = html ? st.source_to_html() : st.source_to_tokens();
                hist += html ? " HTML" : " TOKENS";
                // the same through the C interface on a fresh state
                ulight_state c; ulight_init(&c);
                std::vector<ulight_token> ctb(tb.size()); std::vector<char> cxb(xb.size());
                CRun cr {};
                c.source = source.data(); c.source_length = source.size(); c.lang = ulight_lang(lang); c.flags = ulight_flag(flags);
                c.token_buffer = ctb.data(); c.token_buffer_length = ctb.size(); c.text_buffer = cxb.data(); c.text_buffer_length = cxb.size();
                c.flush_tokens_data = &cr; c.flush_text_data = &cr;
                c.flush_tokens = [](const void* d, ulight_token* p, std::size_t m) { auto* q = const_cast<CRun*>(static_cast<const CRun*>(d)); for (std::size_t i = 0; i < m; ++i) q->tokens.push_back({ p[i].begin, p[i].length, p[i].type }); };
                c.flush_text = [](const void* d, char* p, std::size_t m) { const_cast<CRun*>(static_cast<const CRun*>(d))->text.append(p, m); };
                c.html_tag_name = tag.data(); c.html_tag_name_length = tag.size(); c.html_attr_name = attr.data(); c.html_attr_name_length = attr.size();
                cr.status = int(html ? ulight_source_to_html(&c) : ulight_source_to_tokens(&c));
                ++stats["runs"];
                stats["status_" + std::to_string(cr.status)]++;
                if (int(s) != cr.status) bad("status", "after" + hist + ": " + std::to_string(int(s)) + " instead of " + std::to_string(cr.status));
                else if (html ? text != cr.text : toks != cr.tokens) bad(html ? "html" : "tokens", "after" + hist + ": other output than through the C interface");
                if (cr.status) { last_error = std::string(c.error, c.error_length); const auto e8 = st.get_error_u8string(); if (st.get_error_string() != last_error || std::string(e8.begin(), e8.end()) != last_error) bad("error", "after" + hist); }
                m.error = st.impl.error; m.error_length = st.impl.error_length;
                if (html) { m.flush_tokens = st.impl.flush_tokens; m.flush_tokens_data = st.impl.flush_tokens_data; }
                if (html) has_tok = false; // documented to be set by html
                }
            }
            ++stats["states_compared"];
            if (const char* d = difference(st.impl, m)) bad("state", std::string(d) + " differs from the C state after" + hist);
            const auto s8 = st.get_u8source(); const auto b8 = st.get_text_u8buffer(); const auto bs = st.get_text_buffer_string(); const auto bs8 = st.get_text_buffer_u8string();
            if (st.get_source() != source || std::string(s8.begin(), s8.end()) != source) bad("source", "after" + hist);
            if (st.get_lang() != lang) bad("lang", "after" + hist);
            if (st.get_flags() != flags) bad("flags", "after" + hist);
            if (has_tb && (st.get_token_buffer().data() != tb.data() || st.get_token_buffer().size() != tb.size())) bad("token_buffer", "after" + hist);
            if (has_xb && (st.get_text_buffer().data() != xb.data() || st.get_text_buffer().size() != xb.size() || (const char*)b8.data() != xb.data() || b8.size() != xb.size() || bs.data() != xb.data() || bs.size() != xb.size() || (const char*)bs8.data() != xb.data() || bs8.size() != xb.size())) bad("text_buffer", "after" + hist);
            if (std::string_view(st.impl.html_tag_name, st.impl.html_tag_name_length) != tag) bad("html_tag_name", "after" + hist);
            if (std::string_view(st.impl.html_attr_name, st.impl.html_attr_name_length) != attr) bad("html_attr_name", "after" + hist);
        }
        if (h < 2) sample(hist);
    }
    // lookups and names
    std::vector<std::string> words = { "", ".", "cpp", "a.cpp", "CPP", "x.y.js", "js", "c/.c", ".bashrc", "f.unknown" };
    for (std::size_t i = 0; i < ulight_lang_list_length; ++i) { words.push_back(ulight_lang_list[i].name); words.push_back(std::string("dir/a.b.") + ulight_lang_list[i].name); words.push_back(std::string("zz") + ulight_lang_list[i].name); }
    for (const auto& w : words) {
        const std::u8string w8(w.begin(), w.end());
        ++stats["lookups"];
        if (int(get_lang(std::string_view(w))) != int(ulight_get_lang(w.data(), w.size())) || int(get_lang(std::u8string_view(w8))) != int(ulight_get_lang(w.data(), w.size()))) bad("get_lang", w);
        if (int(lang_from_path(std::string_view(w))) != int(ulight_lang_from_path(w.data(), w.size())) || int(lang_from_path(std::u8string_view(w8))) != int(ulight_lang_from_path(w.data(), w.size()))) bad("lang_from_path", w);
    }
    for (int l = 0; l < 32; ++l) {
        const auto d8 = lang_display_name_u8(Lang(l));
        if (lang_display_name(Lang(l)) != sv(ulight_lang_display_name(ulight_lang(l))) || std::string(d8.begin(), d8.end()) != sv(ulight_lang_display_name(ulight_lang(l)))) bad("display_name", std::to_string(l));
    }
#define SAME(a, b) if (int(ulight::a) != int(b)) bad("enumerator", #a " differs from " #b)
    SAME(Lang::bash, ULIGHT_LANG_BASH); SAME(Lang::c, ULIGHT_LANG_C); SAME(Lang::cowel, ULIGHT_LANG_COWEL); SAME(Lang::cpp, ULIGHT_LANG_CPP); SAME(Lang::css, ULIGHT_LANG_CSS); SAME(Lang::diff, ULIGHT_LANG_DIFF); SAME(Lang::ebnf, ULIGHT_LANG_EBNF); SAME(Lang::html, ULIGHT_LANG_HTML); SAME(Lang::java, ULIGHT_LANG_JAVA); SAME(Lang::json, ULIGHT_LANG_JSON); SAME(Lang::jsonc, ULIGHT_LANG_JSONC); SAME(Lang::kotlin, ULIGHT_LANG_KOTLIN); SAME(Lang::latex, ULIGHT_LANG_LATEX); SAME(Lang::llvm, ULIGHT_LANG_LLVM); SAME(Lang::lua, ULIGHT_LANG_LUA); SAME(Lang::markdown, ULIGHT_LANG_MARKDOWN); SAME(Lang::nasm, ULIGHT_LANG_NASM); SAME(Lang::python, ULIGHT_LANG_PYTHON); SAME(Lang::rust, ULIGHT_LANG_RUST); SAME(Lang::tex, ULIGHT_LANG_TEX); SAME(Lang::txt, ULIGHT_LANG_TXT); SAME(Lang::typescript, ULIGHT_LANG_TYPESCRIPT); SAME(Lang::xml, ULIGHT_LANG_XML); SAME(Lang::yaml, ULIGHT_LANG_YAML); SAME(Lang::none, ULIGHT_LANG_NONE);
    SAME(Status::ok, ULIGHT_STATUS_OK); SAME(Status::bad_buffer, ULIGHT_STATUS_BAD_BUFFER); SAME(Status::bad_lang, ULIGHT_STATUS_BAD_LANG); SAME(Status::bad_text, ULIGHT_STATUS_BAD_TEXT); SAME(Status::bad_state, ULIGHT_STATUS_BAD_STATE); SAME(Status::bad_code, ULIGHT_STATUS_BAD_CODE); SAME(Status::bad_alloc, ULIGHT_STATUS_BAD_ALLOC); SAME(Status::internal_error, ULIGHT_STATUS_INTERNAL_ERROR);
    SAME(Flag::no_flags, ULIGHT_NO_FLAGS); SAME(Flag::coalesce, ULIGHT_COALESCE); SAME(Flag::strict, ULIGHT_STRICT);
    if (int(Flag::coalesce | Flag::strict) != (ULIGHT_COALESCE | ULIGHT_STRICT) || int(Flag::no_flags | Flag::strict) != ULIGHT_STRICT) bad("flag_or", "the union of flags is wrong");
    for (std::size_t sz : { std::size_t(1), std::size_t(24), std::size_t(4000) }) for (std::size_t al : { std::size_t(1), std::size_t(8), std::size_t(64), std::size_t(4096) }) {
        void* p = ulight::alloc(sz, al); if (!p || reinterpret_cast<std::uintptr_t>(p) % al) bad("alloc", "misaligned"); std::memset(p, 1, sz); ulight::free(p, sz, al);
    }
}

// ---- C10
struct Out { std::vector<mon::Tok> tokens; std::string text; };
static ulight_token a_tb[64]; static char a_xb[256];
static int arun(const Source& s, bool html, Out& out, std::string& err)
{
    // the recorder allocates: it is not part of the experiment
    ulight_state c; ulight_init(&c);
    c.source = s.text.data(); c.source_length = s.text.size(); c.lang = ulight_lang(s.lang); c.flags = ulight_flag(s.flags);
    c.token_buffer = a_tb; c.token_buffer_length = 64; c.text_buffer = a_xb; c.text_buffer_length = 256; c.flush_tokens_data = &out; c.flush_text_data = &out;
    c.flush_tokens = [](const void* d, ulight_token* p, std::size_t m) { const bool k = counting; counting = false; auto* q = const_cast<Out*>(static_cast<const Out*>(d)); for (std::size_t i = 0; i < m; ++i) q->tokens.push_back({ p[i].begin, p[i].length, p[i].type }); counting = k; };
    c.flush_text = [](const void* d, char* p, std::size_t m) { const bool k = counting; counting = false; const_cast<Out*>(static_cast<const Out*>(d))->text.append(p, m); counting = k; };
    alloc_index = 0; injected = 0;
    counting = true;
    const int st = int(html ? ulight_source_to_html(&c) : ulight_source_to_tokens(&c));
    counting = false;
    err.assign(c.error ? c.error : "", c.error ? c.error_length : 0);
    return st;
}
static void alloc(Rng& r, bool thorough, unsigned shard, unsigned shards)
{
    std::map<int, long> per_lang;
    for (std::size_t si = shard; si < sources.size(); si += shards) {
        const Source& s = sources[si];
        for (int html = 0; html < 2; ++html) {
            Out base; std::string err;
            fail_at = -1; live = 0; alloc_error.clear();
            const int bst = arun(s, html, base, err);
            const long n = alloc_index;
            ++stats["sources"];
            if (live != 0) fail("leak", "language " + std::to_string(s.lang) + ": " + std::to_string(live) + " blocks are not freed; source " + hex(s.text.data(), std::min<std::size_t>(s.text.size(), 200)));
            per_lang[s.lang] = std::max(per_lang[s.lang], n);
            std::vector<long> at;
            const long limit = thorough ? 400 : 24;
            if (n <= limit) for (long i = 0; i < n; ++i) at.push_back(i);
            else { for (long i = 0; i < 8; ++i) { at.push_back(i); at.push_back(n - 1 - i); } for (long i = 0; i < limit - 16; ++i) at.push_back(long(r.below(std::size_t(n)))); }
            for (long a : at) for (int from = 0; from < 2; ++from) {
                Out out;
                fail_at = a; fail_from = from; live = 0; alloc_error.clear();
                const int st = arun(s, html, out, err);
                fail_at = -1;
                ++stats["injections"];
                const std::string d = "language " + std::to_string(s.lang) + (html ? " html" : " tokens") + ", allocation " + std::to_string(a) + (from ? " and all later ones fail" : " fails") + ": status " + std::to_string(st) + "; source " + hex(s.text.data(), std::min<std::size_t>(s.text.size(), 300));
                if (live != 0) fail("leak-after-failure:" + std::to_string(s.lang), std::to_string(live) + " blocks are not freed; " + d);
                if (!alloc_error.empty()) fail("deallocation", alloc_error + "; " + d);
                if (!injected) { stats["not_reached"]++; continue; }
                stats["status_" + std::to_string(st)]++;
                if (st == ULIGHT_STATUS_BAD_ALLOC) { if (err.empty()) fail("no-message", d); }
                else if (st == ULIGHT_STATUS_OK && bst == ULIGHT_STATUS_OK) { if (html ? out.text != base.text : out.tokens != base.tokens) fail("wrong-output:" + std::to_string(s.lang), "success is reported with other output; " + d); }
                else if (st != bst) fail("status:" + std::to_string(s.lang), d);
                const auto& bt = base.tokens; const auto& ot = out.tokens;
                if (!html && !s.flags && (ot.size() > bt.size() || !std::equal(ot.begin(), ot.end(), bt.begin()))) fail("prefix:" + std::to_string(s.lang), "the tokens delivered are no prefix; " + d);
            }
        }
    }
    for (auto& [l, n] : per_lang) stats["allocations_lang_" + std::to_string(l)] = (unsigned long long)n;
    if (shard == 0) {
        // the allocation interface itself
        for (std::size_t sz : { std::size_t(0), std::size_t(1), std::size_t(7), std::size_t(64), std::size_t(100000) }) for (std::size_t al = 1; al <= 8192; al *= 2) {
            counting = true; live = 0; alloc_error.clear(); fail_at = -1;
            void* p = ulight_alloc(sz, al);
            if (!p || reinterpret_cast<std::uintptr_t>(p) % al) fail("alloc:alignment", std::to_string(sz) + " aligned to " + std::to_string(al));
            else std::memset(p, 0x5a, sz);
            ulight_free(p, sz, al);
            if (live || !alloc_error.empty()) fail("alloc:free", alloc_error);
            alloc_index = 0; fail_at = 0; fail_from = true;
            if (ulight_alloc(sz, al) != nullptr) fail("alloc:failure", "ulight_alloc does not return null");
            counting = false; fail_at = -1;
            ++stats["alloc_calls"];
        }
        if (ulight_alloc(std::size_t(-1) / 2, 16)) fail("alloc:huge", "a huge allocation succeeds");
        ulight_free(nullptr, 8, 8); ulight_free(nullptr, 0, 1); ulight_destroy(nullptr); ulight_delete(nullptr);
        counting = true; live = 0; alloc_error.clear();
        ulight_state* s = ulight_new();
        if (!s || s->source || s->lang != ULIGHT_LANG_NONE || std::string_view(s->html_tag_name, s->html_tag_name_length) != "h-") fail("new", "ulight_new does not initialise");
        ulight_delete(s);
        if (live || !alloc_error.empty()) fail("new:delete", alloc_error);
        alloc_index = 0; fail_at = 0; fail_from = true;
        std::printf("STAT new_under_failure 1\n"); std::fflush(stdout);
        ulight_state* z = ulight_new();
        counting = false; fail_at = -1;
        if (z) fail("new:failure", "ulight_new does not return null");
    }
}

int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    mon::install();
    const std::string mode = argv[1];
    const unsigned shard = argc > 4 ? unsigned(std::atoi(argv[4])) : 0, shards = argc > 5 ? unsigned(std::atoi(argv[5])) : 1;
    const bool wild = argc > 6 && argv[6][0] == 'w';
    Rng r(std::strtoull(argv[2], nullptr, 10) * 64 + shard);
    const bool th = std::string(argv[3]) == "thorough";
    read_sources();
    try {
        if (mode == "params") params(r, wild);
        else if (mode == "langs") langs(r, wild, th);
        else if (mode == "types") types(wild);
        else if (mode == "cpp") cpp(r, th);
        else if (mode == "alloc") alloc(r, th, shard, shards);
        else return 2;
    } catch (const ulight::Assertion_Error&) { fail("assert", "internal assertion failed: " + mon::assert_message); }
    done();
}
