// Highlights each record of stdin (u8 lang, u8 flags, u32 length, bytes) and writes i32 status, u32 count, then
// count times u32 begin, u32 length, u8 type. Each answer is flushed, so that a crash loses only its own case.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sys/time.h>
#include "mon.hpp"
#include "ulight/ulight.h"
static std::size_t out_limit;      // tokens are not empty, so there are at most as many as bytes
int main(int argc, char** argv)
{
    mon::install();
    const std::size_t cap = argc > 1 ? std::size_t(std::atoi(argv[1])) : 64;
    unsigned char h[6];
    static char obuf[1 << 16]; std::setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    while (std::fread(h, 1, 6, stdin) == 6) {
        std::uint32_t n; std::memcpy(&n, h + 2, 4);
        char* s = static_cast<char*>(std::malloc(n ? n : 1));
        if (n && std::fread(s, 1, n, stdin) != n) return 2;
        std::string out; std::vector<ulight_token> tb(cap); out_limit = 1000 + 2 * std::size_t(n);
        ulight_state st; ulight_init(&st);
        st.source = s; st.source_length = n; st.lang = ulight_lang(h[0]); st.flags = ulight_flag(h[1]);
        st.token_buffer = tb.data(); st.token_buffer_length = cap;
        st.flush_tokens_data = &out;
        st.flush_tokens = [](const void* d, ulight_token* t, std::size_t k) {
            auto& o = *const_cast<std::string*>(static_cast<const std::string*>(d));
            if (out_limit && o.size() / 9 + k > out_limit) { std::fprintf(stderr, "MONITOR-HANG more tokens than bytes\n"); std::abort(); }
            for (std::size_t i = 0; i < k; ++i) { const std::uint32_t v[2] = { std::uint32_t(t[i].begin), std::uint32_t(t[i].length) }; o.append(reinterpret_cast<const char*>(v), 8); o += char(t[i].type); }
        };
        itimerval lim {}; lim.it_value.tv_sec = 5; setitimer(ITIMER_VIRTUAL, &lim, nullptr);      // SIGVTALRM: hangs
        std::int32_t r;
        try { r = int(ulight_source_to_tokens(&st)); } catch (const ulight::Assertion_Error&) { r = 100; }
        const std::uint32_t k = std::uint32_t(out.size() / 9);
        std::fwrite(&r, 4, 1, stdout); std::fwrite(&k, 4, 1, stdout); std::fwrite(out.data(), 1, out.size(), stdout);
        std::fflush(stdout);
        std::free(s);
    }
}
