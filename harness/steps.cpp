// Like tok.cpp, but on a thread with a stack of argv[1] KiB, counting executed control-flow edges (in the "steps" build)
// up to a limit of argv[2] million: answers are i32 status, u32 tokens, u64 steps; status -1000 means that the limit was exceeded.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <pthread.h>
#include <sys/time.h>
#include <unistd.h>
#include "mon.hpp"
#include "ulight/ulight.h"
static std::uint64_t steps, limit = ~0ull;
static std::uint32_t tokens;
static void answer(std::int32_t r)
{
    std::fwrite(&r, 4, 1, stdout); std::fwrite(&tokens, 4, 1, stdout); std::fwrite(&steps, 8, 1, stdout); std::fflush(stdout);
}
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(std::uint32_t*)
{
    if (++steps > limit) { limit = ~0ull; answer(-1000); _exit(0); }
}
extern "C" void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* a, std::uint32_t* b) { for (; a < b; ++a) *a = 1; }
static std::uint64_t max_steps;
static void* loop(void*)
{
    unsigned char h[6];
    mon::install();
    std::vector<ulight_token> tb(64);
    while (std::fread(h, 1, 6, stdin) == 6) {
        std::uint32_t n; std::memcpy(&n, h + 2, 4);
        char* s = static_cast<char*>(std::malloc(n ? n : 1));
        if (n && std::fread(s, 1, n, stdin) != n) std::exit(2);
        ulight_state st; ulight_init(&st);
        st.source = s; st.source_length = n; st.lang = ulight_lang(h[0]); st.flags = ulight_flag(h[1]);
        st.token_buffer = tb.data(); st.token_buffer_length = tb.size();
        st.flush_tokens = [](const void*, ulight_token*, std::size_t k) { tokens += std::uint32_t(k); };
        std::int32_t r;
        tokens = 0; steps = 0; limit = max_steps;
        itimerval lim {}; lim.it_value.tv_sec = max_steps ? 60 : 30; setitimer(ITIMER_VIRTUAL, &lim, nullptr);      // SIGVTALRM: hangs
        try { r = int(ulight_source_to_tokens(&st)); } catch (const ulight::Assertion_Error&) { r = 100; }
        limit = ~0ull;
        answer(r);
        std::free(s);
    }
    return nullptr;
}
int main(int, char** argv)
{
    limit = ~0ull; max_steps = std::strtoull(argv[2], nullptr, 10) * 1000000;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, std::strtoull(argv[1], nullptr, 10) * 1024);
    pthread_t t; if (pthread_create(&t, &a, loop, nullptr)) return 2;
    pthread_join(t, nullptr);
}
