// Prints what the library makes of a file: show LANG FLAGS FILE [TOKEN_CAPACITY]
// FLAGS is a number, preceded by h for HTML (with a text buffer of TOKEN_CAPACITY characters).
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>
#include "ulight/ulight.h"
int main(int argc, char** argv)
{
    if (argc < 4) { return 2; }
    std::ifstream f(argv[3], std::ios::binary);
    const std::string s { std::istreambuf_iterator<char>(f), {} };
    std::vector<ulight_token> buf(argc > 4 ? std::size_t(std::atoi(argv[4])) : 1024);
    ulight_state st;
    ulight_init(&st);
    st.source = s.data();
    st.source_length = s.size();
    st.lang = ulight_get_lang(argv[1], std::string(argv[1]).size());
    const bool html = argv[2][0] == 'h';
    st.flags = ulight_flag(std::atoi(argv[2] + html));
    st.token_buffer = buf.data();
    st.token_buffer_length = buf.size();
    st.flush_tokens_data = &s;
    st.flush_tokens = [](const void* d, ulight_token* t, std::size_t n) {
        const auto& src = *static_cast<const std::string*>(d);
        for (std::size_t i = 0; i < n; ++i) {
            const auto name = ulight_highlight_type_short_string(ulight_highlight_type(t[i].type));
            std::printf("%zu %zu %.*s [", t[i].begin, t[i].length, int(name.length), name.text);
            for (std::size_t k = t[i].begin; k < t[i].begin + t[i].length && k < src.size(); ++k) {
                const unsigned char c = (unsigned char)src[k];
                if (c < 0x20 || c > 0x7e) { std::printf("\\x%02x", c); } else { std::putchar(c); }
            }
            std::printf("]\n");
        }
    };
    std::vector<char> text(argc > 4 ? std::size_t(std::atoi(argv[4])) : 8192);
    st.text_buffer = text.data();
    st.text_buffer_length = text.size();
    st.flush_text = [](const void*, char* p, std::size_t n) { std::fwrite(p, 1, n, stdout); };
    const int r = int(html ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st));
    if (html) { std::printf("\n"); }
    std::printf("status %d\n", r);
}
