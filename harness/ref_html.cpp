// C25's oracle: for each record (u8 lang, u32 length, bytes) on stdin, writes i32 status, u32 length and the HTML of the C interface.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "ulight/ulight.h"
int main()
{
    unsigned char h[5];
    while (std::fread(h, 1, 5, stdin) == 5) {
        std::uint32_t n; std::memcpy(&n, h + 1, 4);
        std::string s(n, 0); if (n && std::fread(s.data(), 1, n, stdin) != n) return 2;
        std::string out; std::vector<ulight_token> tb(777); std::vector<char> xb(5000);
        ulight_state st; ulight_init(&st);
        st.source = s.data(); st.source_length = n; st.lang = ulight_lang(h[0]);
        st.token_buffer = tb.data(); st.token_buffer_length = tb.size(); st.text_buffer = xb.data(); st.text_buffer_length = xb.size();
        st.flush_text_data = &out; st.flush_text = [](const void* d, char* p, std::size_t k) { const_cast<std::string*>(static_cast<const std::string*>(d))->append(p, k); };
        const std::int32_t r = int(ulight_source_to_html(&st)); const std::uint32_t k = std::uint32_t(out.size());
        std::fwrite(&r, 4, 1, stdout); std::fwrite(&k, 4, 1, stdout); std::fwrite(out.data(), 1, k, stdout);
    }
}
