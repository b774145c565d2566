// Feeds documents from stdin to the event-based JSON parser and logs every event.
// Input records: u8 options (1 comments, 2 numbers, escapes << 2), u32 length, bytes.
// Output per record: one line per event, then "= accepted errors_with_no_handlers".
#include <sys/time.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include "mon.hpp"
#include "ulight/json.hpp"

namespace {
using namespace ulight;
std::string out;
void hexs(std::u8string_view s)
{
    static const char d[] = "0123456789abcdef";
    if (s.empty()) { out += '-'; }
    for (char8_t c : s) { out += d[c >> 4]; out += d[c & 15]; }
}
struct Log : JSON_Visitor {
    void ev(const char* k, const Source_Position& p)
    {
        if (out.size() > (64u << 20)) { std::fputs("MONITOR-HANG\n", stderr); std::abort(); }
        char b[96];
        std::snprintf(b, sizeof b, "%s %zu %zu %zu", k, p.code_unit, p.line, p.line_code_unit);
        out += b;
    }
    void simple(const char* k, const Source_Position& p) { ev(k, p); out += '\n'; }
    void text(const char* k, const Source_Position& p, std::u8string_view s) { ev(k, p); out += ' '; hexs(s); }
    void line_comment(const Source_Position& p, std::u8string_view s) override { text("lc", p, s); out += '\n'; }
    void block_comment(const Source_Position& p, std::u8string_view s) override { text("bc", p, s); out += '\n'; }
    void literal(const Source_Position& p, std::u8string_view s) override { text("lit", p, s); out += '\n'; }
    void escape(const Source_Position& p, std::u8string_view s) override { text("esc0", p, s); out += '\n'; }
    void escape(const Source_Position& p, std::u8string_view s, char32_t c) override { text("esc1", p, s); out += " " + std::to_string(unsigned(c)) + "\n"; }
    void escape(const Source_Position& p, std::u8string_view s, char32_t c, std::u8string_view u) override { text("esc2", p, s); out += " " + std::to_string(unsigned(c)) + " "; hexs(u); out += '\n'; }
    void number(const Source_Position& p, std::u8string_view s) override { text("num0", p, s); out += '\n'; }
    void number(const Source_Position& p, std::u8string_view s, double v) override { text("num1", p, s); char b[64]; std::snprintf(b, sizeof b, " %a\n", v); out += b; }
    void null(const Source_Position& p) override { simple("null", p); }
    void boolean(const Source_Position& p, bool v) override { simple(v ? "true" : "false", p); }
    void push_string(const Source_Position& p) override { simple("str+", p); }
    void pop_string(const Source_Position& p) override { simple("str-", p); }
    void push_property(const Source_Position& p) override { simple("key+", p); }
    void pop_property(const Source_Position& p) override { simple("key-", p); }
    void push_object(const Source_Position& p) override { simple("obj+", p); }
    void pop_object(const Source_Position& p) override { simple("obj-", p); }
    void push_array(const Source_Position& p) override { simple("arr+", p); }
    void pop_array(const Source_Position& p) override { simple("arr-", p); }
    Error_Reaction error(const Source_Position& p, JSON_Error e) override { ev("err", p); out += " " + std::to_string(int(e)) + "\n"; return Error_Reaction::abort; }
};
} // namespace

int main()
{
    mon::install();
    unsigned char h[5];
    while (std::fread(h, 1, 5, stdin) == 5) {
        std::uint32_t n;
        std::memcpy(&n, h + 1, 4);
        char* const s = static_cast<char*>(std::malloc(n ? n : 1)); // exact size: reads past the end are seen
        if (n && std::fread(s, 1, n, stdin) != n) { return 3; }
        JSON_Options o;
        o.allow_comments = h[0] & 1;
        o.parse_numbers = h[0] & 2;
        o.escapes = Escape_Parsing(h[0] >> 2);
        out.clear();
        itimerval lim {}; lim.it_value.tv_sec = 5; setitimer(ITIMER_VIRTUAL, &lim, nullptr);      // SIGVTALRM: hangs
        try {
            Log log;
            const bool ok = parse_json(log, std::u8string_view(reinterpret_cast<const char8_t*>(s), n), o);
            JSON_Visitor deaf;
            const bool ok2 = parse_json(deaf, std::string_view(s, n), o);
            out += ok ? "= 1" : "= 0";
            out += ok2 ? " 1\n" : " 0\n";
        } catch (const ulight::Assertion_Error&) {
            out += "= assert " + mon::assert_message + "\n";
        }
        std::fwrite(out.data(), 1, out.size(), stdout);
        std::fflush(stdout);
        std::free(s);
    }
}
