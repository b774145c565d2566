// Shared monitor runtime: runs the real library through its C API on one source, with
// exact-size heap buffers (so that ASan redzones touch both ends of every buffer), canaries,
// a recorder for every flush, and an assertion handler which records where an internal
// assertion failed.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include "ulight/impl/assert.hpp"
#include "ulight/ulight.h"

extern "C" __attribute__((weak)) void __sanitizer_print_stack_trace();

namespace mon {

inline constexpr int lang_count = int(ULIGHT_LANG_COUNT); // languages are 1 .. lang_count-1

inline thread_local std::string assert_message;

inline void on_assert(const ulight::Assertion_Error& e)
{
    assert_message.assign(reinterpret_cast<const char*>(e.message.data()), e.message.size());
    assert_message += " @ ";
    assert_message += e.location.file_name();
    assert_message += ":" + std::to_string(e.location.line());
    if (__sanitizer_print_stack_trace && std::getenv("MON_STACK")) { __sanitizer_print_stack_trace(); }
    throw e;
}

inline void install() { ulight::assertion_handler = on_assert; }

struct Tok {
    std::size_t begin, length;
    unsigned type;
    friend bool operator==(const Tok&, const Tok&) = default;
};

// Independent UTF-8 validity check (RFC 3629 table 3-7), not the library's own.
inline std::size_t valid_at(const unsigned char* s, std::size_t n)
{
    if (n == 0) { return 0; }
    const unsigned c = s[0];
    if (c < 0x80) { return 1; }
    auto cont = [&](std::size_t i, unsigned lo = 0x80, unsigned hi = 0xBF) {
        return i < n && s[i] >= lo && s[i] <= hi;
    };
    if (c >= 0xC2 && c <= 0xDF) { return cont(1) ? 2 : 0; }
    if (c == 0xE0) { return cont(1, 0xA0) && cont(2) ? 3 : 0; }
    if ((c >= 0xE1 && c <= 0xEC) || c == 0xEE || c == 0xEF) { return cont(1) && cont(2) ? 3 : 0; }
    if (c == 0xED) { return cont(1, 0x80, 0x9F) && cont(2) ? 3 : 0; }
    if (c == 0xF0) { return cont(1, 0x90) && cont(2) && cont(3) ? 4 : 0; }
    if (c >= 0xF1 && c <= 0xF3) { return cont(1) && cont(2) && cont(3) ? 4 : 0; }
    if (c == 0xF4) { return cont(1, 0x80, 0x8F) && cont(2) && cont(3) ? 4 : 0; }
    return 0;
}
inline bool valid_utf8(std::string_view s)
{
    const auto* p = reinterpret_cast<const unsigned char*>(s.data());
    for (std::size_t i = 0; i < s.size();) {
        const std::size_t k = valid_at(p + i, s.size() - i);
        if (!k) { return false; }
        i += k;
    }
    return true;
}
// Replaces every byte that is not part of a well-formed sequence by a multi-byte code point or
// '?', so that the result is always valid UTF-8 and keeps many non-ASCII characters.
inline std::string make_valid(std::string_view s)
{
    std::string out;
    const auto* p = reinterpret_cast<const unsigned char*>(s.data());
    for (std::size_t i = 0; i < s.size();) {
        const std::size_t k = valid_at(p + i, s.size() - i);
        if (k) {
            out.append(s.substr(i, k));
            i += k;
            continue;
        }
        switch (p[i] & 3) {
        case 0: out += "\xC3\xA9"; break; // e acute (XID_Continue)
        case 1: out += "\xE2\x82\xAC"; break; // euro sign (no XID)
        case 2: out += "\xF0\x9F\x92\xA9"; break; // astral symbol
        default: out += "?"; break;
        }
        ++i;
    }
    return out;
}

struct Flush {
    const void* data;
    const void* buffer;
    std::size_t amount;
};

struct Run {
    int status = -1;
    std::vector<Tok> tokens; // everything flushed, in order
    std::string text;
    std::vector<Flush> token_flushes, text_flushes;
    std::string error;
    bool error_set = false;
    std::string assertion;
    std::string protocol; // first violation of the flush protocol, empty if none
    ulight_state state_after {};
};

struct Config {
    int lang = 0;
    int flags = 0;
    std::size_t token_cap = 256;
    std::size_t text_cap = 256;
    bool html = false;
    std::string_view tag {}, attr {};
    unsigned char fill = 0xA5; // initial content of the caller's buffers
};

inline void runaway_default(int) { std::fputs("\nMONITOR-HANG\n", stderr); std::abort(); }
inline void (*runaway)(int) = runaway_default;
namespace detail {
struct Ctx {
    Run* run;
    const void* expect_buf;
    std::size_t cap;
    bool partial_seen = false;
    std::size_t limit = 1u << 20;      // more than twice as many tokens as bytes: the library does not end
    std::size_t unit = 1;
};
inline void check(Ctx& c, const void* data, const void* buf, std::size_t n, const char* what)
{
    auto bad = [&](const char* m) {
        if (c.run->protocol.empty()) { c.run->protocol = std::string(what) + ": " + m; }
    };
    if (data != &c) { bad("flush received another data pointer"); }
    if (buf != c.expect_buf) { bad("flush received another buffer pointer"); }
    if (n == 0) { bad("flush of zero elements"); }
    if (n > c.cap) { bad("flush of more elements than the buffer holds"); }
    if (c.partial_seen) { bad("a non-final flush was not of a full buffer"); }
    if (n != c.cap) { c.partial_seen = true; }
}
} // namespace detail

inline Run run(std::string_view source, const Config& cfg)
{
    install();
    assert_message.clear();
    Run r;
    // exact-size heap copies
    char* const src = static_cast<char*>(std::malloc(source.size() ? source.size() : 1));
    if (!source.empty()) { std::memcpy(src, source.data(), source.size()); }
    auto* const tb = static_cast<ulight_token*>(std::malloc(sizeof(ulight_token) * cfg.token_cap));
    std::memset(static_cast<void*>(tb), cfg.fill, sizeof(ulight_token) * cfg.token_cap);
    char* xb = nullptr;

    ulight_state st;
    std::memset(static_cast<void*>(&st), cfg.fill, sizeof st);
    ulight_init(&st);
    st.source = source.empty() ? nullptr : src;
    st.source_length = source.size();
    st.lang = ulight_lang(cfg.lang);
    st.flags = ulight_flag(cfg.flags);
    st.token_buffer = tb;
    st.token_buffer_length = cfg.token_cap;

    detail::Ctx tctx { &r, tb, cfg.token_cap };
    detail::Ctx xctx { &r, nullptr, cfg.text_cap };
    tctx.limit = xctx.limit = 1000 + 2 * source.size();
    if (cfg.html) {
        xb = static_cast<char*>(std::malloc(cfg.text_cap));
        std::memset(xb, cfg.fill, cfg.text_cap);
        xctx.expect_buf = xb;
        xctx.unit = 400 + 2 * cfg.tag.size() + cfg.attr.size();
        st.text_buffer = xb;
        st.text_buffer_length = cfg.text_cap;
        st.flush_text_data = &xctx;
        st.flush_text = [](const void* d, char* b, std::size_t n) {
            auto& c = *const_cast<detail::Ctx*>(static_cast<const detail::Ctx*>(d));
            detail::check(c, d, b, n, "flush_text");
            c.run->text_flushes.push_back({ d, b, n });
            if (c.run->text.size() > c.limit * c.unit) { runaway(0); }
            c.run->text.append(b, n);
            std::memset(b, 0xEE, n); // the caller may do anything with its buffer
        };
        if (!cfg.tag.empty()) {
            st.html_tag_name = cfg.tag.data();
            st.html_tag_name_length = cfg.tag.size();
        }
        if (!cfg.attr.empty()) {
            st.html_attr_name = cfg.attr.data();
            st.html_attr_name_length = cfg.attr.size();
        }
        r.status = int(ulight_source_to_html(&st));
    }
    else {
        st.flush_tokens_data = &tctx;
        st.flush_tokens = [](const void* d, ulight_token* b, std::size_t n) {
            auto& c = *const_cast<detail::Ctx*>(static_cast<const detail::Ctx*>(d));
            detail::check(c, d, b, n, "flush_tokens");
            c.run->token_flushes.push_back({ d, b, n });
            if (c.run->tokens.size() > c.limit) { runaway(0); }
            for (std::size_t i = 0; i < n; ++i) {
                c.run->tokens.push_back({ b[i].begin, b[i].length, unsigned(b[i].type) });
            }
            std::memset(static_cast<void*>(b), 0xEE, n * sizeof(ulight_token));
        };
        r.status = int(ulight_source_to_tokens(&st));
    }
    r.assertion = assert_message;
    r.error_set = st.error != nullptr;
    if (st.error) { r.error.assign(st.error, st.error_length); }
    // Fields which the library must not touch.
    if (st.source_length != source.size() || st.token_buffer != tb
        || st.token_buffer_length != cfg.token_cap || int(st.lang) != cfg.lang
        || int(st.flags) != cfg.flags || (cfg.html && st.text_buffer != xb)) {
        if (r.protocol.empty()) { r.protocol = "the library changed the caller's configuration"; }
    }
    if (!source.empty() && std::memcmp(src, source.data(), source.size()) != 0) {
        if (r.protocol.empty()) { r.protocol = "the library modified the source"; }
    }
    r.state_after = st;
    std::free(src);
    std::free(tb);
    std::free(xb);
    return r;
}

// The C API's own table of valid token types is the range of the enumeration: a type is known
// if it has a nonempty short name.
inline bool known_type(unsigned t) { return ulight_highlight_type_short_string(ulight_highlight_type(t)).length != 0; }
inline std::string_view short_name(unsigned t)
{
    const auto s = ulight_highlight_type_short_string(ulight_highlight_type(t));
    return { s.text, s.length };
}

// Returns an empty string, or what is wrong with the token stream.
inline std::string stream_fault(const std::vector<Tok>& ts, std::size_t n)
{
    std::size_t prev_end = 0;
    for (std::size_t i = 0; i < ts.size(); ++i) {
        const auto& t = ts[i];
        auto where = [&] {
            return " (token " + std::to_string(i) + ": begin " + std::to_string(t.begin)
                + ", length " + std::to_string(t.length) + ", type " + std::to_string(t.type)
                + ", previous end " + std::to_string(prev_end) + ", source length "
                + std::to_string(n) + ")";
        };
        if (t.length == 0) { return "empty token" + where(); }
        if (t.begin >= n || t.length > n - t.begin) { return "token out of range" + where(); }
        if (t.begin < prev_end) { return "token overlaps or precedes its predecessor" + where(); }
        if (!known_type(t.type)) { return "token of unknown type" + where(); }
        prev_end = t.begin + t.length;
    }
    return {};
}

inline std::string boundary_fault(const std::vector<Tok>& ts, std::string_view s)
{
    auto ok = [&](std::size_t i) { return i >= s.size() || (static_cast<unsigned char>(s[i]) & 0xC0) != 0x80; };
    for (const auto& t : ts) {
        if (!ok(t.begin) || !ok(t.begin + t.length)) {
            return "token [" + std::to_string(t.begin) + "," + std::to_string(t.begin + t.length)
                + ") of type " + std::to_string(t.type) + " splits a code point";
        }
    }
    return {};
}

inline void escape_into(std::string& out, std::string_view s)
{
    for (char c : s) {
        switch (c) {
        case '&': out += "&amp;"; break;
        case '<': out += "&lt;"; break;
        case '>': out += "&gt;"; break;
        default: out += c;
        }
    }
}
inline std::string render(std::string_view src, const std::vector<Tok>& ts, std::string_view tag, std::string_view attr)
{
    std::string out;
    std::size_t p = 0;
    for (const auto& t : ts) {
        if (t.begin > p) { escape_into(out, src.substr(p, t.begin - p)); }
        out += '<';
        out += tag;
        out += ' ';
        out += attr;
        out += '=';
        out += short_name(t.type);
        out += '>';
        escape_into(out, src.substr(t.begin, t.length));
        out += "</";
        out += tag;
        out += '>';
        p = t.begin + t.length;
    }
    if (p < src.size()) { escape_into(out, src.substr(p)); }
    return out;
}
// Inverse of the rendering, written independently: drop <...>, decode the three entities.
inline bool unrender(std::string_view html, std::string& out)
{
    out.clear();
    for (std::size_t i = 0; i < html.size();) {
        if (html[i] == '<') {
            const auto e = html.find('>', i);
            if (e == std::string_view::npos) { return false; }
            i = e + 1;
        }
        else if (html[i] == '&') {
            const auto rest = html.substr(i);
            if (rest.starts_with("&amp;")) { out += '&'; i += 5; }
            else if (rest.starts_with("&lt;")) { out += '<'; i += 4; }
            else if (rest.starts_with("&gt;")) { out += '>'; i += 4; }
            else { return false; }
        }
        else if (html[i] == '>') { return false; }
        else { out += html[i++]; }
    }
    return true;
}

// Per-byte type map; -1 for bytes without token.
inline std::vector<int> type_map(const std::vector<Tok>& ts, std::size_t n)
{
    std::vector<int> m(n, -1);
    for (const auto& t : ts) {
        for (std::size_t i = t.begin; i < t.begin + t.length && i < n; ++i) { m[i] = int(t.type); }
    }
    return m;
}

inline std::string hex(std::string_view s, std::size_t max = 160)
{
    std::string o;
    char b[5];
    for (std::size_t i = 0; i < s.size() && i < max; ++i) {
        const unsigned char c = static_cast<unsigned char>(s[i]);
        if (c >= 0x20 && c < 0x7f && c != '\\') { o += char(c); }
        else {
            std::snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    if (s.size() > max) { o += "..."; }
    return o;
}

} // namespace mon
#endif
