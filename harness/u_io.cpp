// C24: file loading under monitored (and failing) stdio. argv: mode(-) seed tier shard scratch-directory
#include "unit.hpp"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include "ulight/impl/io.hpp"
using namespace unit;
using namespace ulight;

// ---- the monitor: every stream the library opens, and how often it is closed
extern "C" {
FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*); size_t __real_fread(void*, size_t, size_t, FILE*); int __real_ferror(FILE*);
static std::map<FILE*, int>* closes; // closes per stream the library opened
static bool watching = false; static long fread_calls = 0, fail_read_at = -1; static FILE* broken = nullptr; static bool fail_open = false; static long opens = 0;
FILE* __wrap_fopen(const char* p, const char* m)
{
    if (!watching) return __real_fopen(p, m);
    if (fail_open) { errno = EMFILE; return nullptr; }
    FILE* f = __real_fopen(p, m); if (f) { (*closes)[f] = 0; ++opens; } return f;
}
int __wrap_fclose(FILE* f)
{
    if (!watching || !closes->count(f)) return __real_fclose(f);
    if ((*closes)[f]++) return -1; // never let a double close through
    return 0;                      // really closed when the experiment is over, so that addresses stay unique
}
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f)
{
    if (!watching) return __real_fread(p, s, n, f);
    if (closes->count(f) && (*closes)[f]) { fail("read:closed", "a closed stream is read"); return 0; }
    const long i = fread_calls++;
    if (fail_read_at >= 0 && i >= fail_read_at) { broken = f; const size_t got = __real_fread(p, s, n / 3, f); errno = EIO; return got; }
    return __real_fread(p, s, n, f);
}
int __wrap_ferror(FILE* f) { return f == broken ? 1 : __real_ferror(f); }
}
struct Watch {
    std::string what; 
    explicit Watch(std::string w) : what(std::move(w)) { closes->clear(); fread_calls = 0; opens = 0; broken = nullptr; watching = true; }
    ~Watch() { watching = false; for (auto& [f, n] : *closes) { if (n != 1) fail(n ? "handle:closed-twice" : "handle:leak", what + ": a stream is closed " + std::to_string(n) + " times"); __real_fclose(f); } closes->clear(); fail_read_at = -1; fail_open = false; broken = nullptr; }
};
static std::size_t descriptors() { std::size_t n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
static void write_file(const std::string& p, const std::string& b) { FILE* f = __real_fopen(p.c_str(), "wb"); if (!f) std::exit(2); if (!b.empty()) std::fwrite(b.data(), 1, b.size(), f); __real_fclose(f); }

static const char* name(const std::expected<void, IO_Error_Code>& e) { if (e) return "success"; switch (e.error()) { case IO_Error_Code::cannot_open: return "cannot_open"; case IO_Error_Code::read_error: return "read_error"; case IO_Error_Code::write_error: return "write_error"; case IO_Error_Code::corrupted: return "corrupted"; } return "?"; }

template <class Byte> static void load_bytes(const std::string& path, const std::string& content, Rng& r)
{
    std::vector<Byte> out; std::string before; for (std::size_t n = r.below(4); n; --n) { out.push_back(Byte('p')); before += 'p'; }
    std::expected<void, IO_Error_Code> e;
    { Watch w("bytes"); e = file_to_bytes(out, path); }
    ++stats["loads"];
    const std::string want = before + content;
    if (!e) fail("bytes:status", "a file of " + std::to_string(content.size()) + " bytes: " + name(e));
    else if (out.size() != want.size() || (!want.empty() && std::memcmp(out.data(), want.data(), want.size()))) fail("bytes:content", "a file of " + std::to_string(content.size()) + " bytes yields " + std::to_string(out.size() - before.size()) + (out.size() == want.size() ? " different ones" : ""));
}
int main(int argc, char** argv)
{
    if (argc < 6) return 2;
    mon::install();
    std::map<FILE*, int> m; closes = &m;
    const unsigned shard = unsigned(std::atoi(argv[4]));
    Rng r(std::strtoull(argv[2], nullptr, 10) * 64 + shard);
    const bool th = std::string(argv[3]) == "thorough";
    const std::string dir = argv[5];
    const std::string path = dir + "/f" + std::to_string(shard);
    const std::size_t B = BUFSIZ;
    std::vector<std::size_t> sizes;
    for (std::size_t k = 0; k < 5; ++k) for (long d = -3; d <= 3; ++d) if (long(k * B) + d >= 0) sizes.push_back(std::size_t(long(k * B) + d));
    for (std::size_t s : { 4095, 4096, 4097, 16384, 65535, 65536, 65537, 131072, 300000 }) sizes.push_back(s);
    const std::size_t fds = descriptors();
    auto random_bytes = [&](std::size_t n) { std::string s(n, 0); for (auto& c : s) c = char(r.next()); return s; };
    auto encode = [](std::string& s, char32_t c) { if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xc0 | (c >> 6)); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xe0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xf0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); } };
    auto random_scalar = [&] { char32_t c; do c = char32_t(r.chance(40) ? r.below(128) : r.chance(50) ? r.below(0x10000) : r.below(0x110000)); while (c >= 0xd800 && c < 0xe000); return c; };
    const int rounds = th ? 1500 : 60;
    try {
        for (int k = 0; k < rounds; ++k) {
            const std::size_t n = k < int(sizes.size()) && shard == 0 ? sizes[std::size_t(k)] : r.chance(50) ? r.pick(sizes) : r.below(60000);
            // arbitrary bytes
            const std::string content = random_bytes(n);
            write_file(path, content);
            load_bytes<char>(path, content, r); load_bytes<unsigned char>(path, content, r); load_bytes<char8_t>(path, content, r); load_bytes<std::byte>(path, content, r);
            {   // chunks concatenate to the file
                std::string got; std::size_t chunks = 0; std::expected<void, IO_Error_Code> e;
                { Watch w("chunks"); e = file_to_bytes_chunked([&](std::span<const std::byte> c) { ++chunks; got.append(reinterpret_cast<const char*>(c.data()), c.size()); }, path); }
                ++stats["loads"]; stats["chunks"] += chunks;
                if (!e || got != content) fail("chunks", "a file of " + std::to_string(n) + " bytes: " + name(e) + ", " + std::to_string(got.size()) + " bytes");
            }
            {   // a read that fails: the error is reported, the stream closed
                const long calls = long(n / B) + 1;
                std::vector<char> out; std::expected<void, IO_Error_Code> e; const long at = long(r.below(std::size_t(calls)));
                { Watch w("failing read"); fail_read_at = at; e = file_to_bytes(out, path); if (fread_calls <= at) { stats["faults_not_reached"]++; e = std::unexpected(IO_Error_Code::read_error); } }
                ++stats["faults"];
                if (e || e.error() != IO_Error_Code::read_error) fail("fault:read", "read " + std::to_string(at) + " of " + std::to_string(calls) + " fails: " + name(e));
                if (out.size() > n || (out.size() && std::memcmp(out.data(), content.data(), out.size()))) fail("fault:content", "content after a failed read is no prefix");
            }
            {   std::vector<char> out; std::expected<void, IO_Error_Code> e; { Watch w("failing open"); fail_open = true; e = file_to_bytes(out, path); } ++stats["faults"]; if (opens == 0 && (e || e.error() != IO_Error_Code::cannot_open || !out.empty())) fail("fault:open", std::string("opening fails: ") + name(e)); }
            // UTF-8: valid up to a place, most often near the border of two reads
            std::string text;
            for (const std::size_t want = r.chance(60) ? r.pick(sizes) : r.below(3000); text.size() < want;) encode(text, random_scalar());
            bool valid = true;
            if (r.chance(50) && !text.empty()) {
                std::size_t at = r.chance(50) ? std::min(text.size() - 1, B * (1 + r.below(3)) - 2 + r.below(4)) : r.below(text.size());
                if (r.chance(30)) text.resize(at + 1); else text[at] = char(r.chance(50) ? 0x80 + r.below(128) : r.below(128));
                valid = mon::valid_utf8(text);
            }
            write_file(path, text);
            {
                static const std::vector<std::vector<char8_t>> before { { u8'p', u8'q' }, { char8_t(0xff), u8'q' }, { u8'p', char8_t(0xe2) }, { char8_t(0x80), char8_t(0xf0) }, { char8_t(0), u8'\n' } };
                const auto initial = r.pick(before); // what a vector held before is not part of the file
                std::vector<char8_t> out = initial; std::expected<void, IO_Error_Code> e; { Watch w("utf8"); e = load_utf8_file(out, path); }
                std::expected<std::vector<char8_t>, IO_Error_Code> f = std::unexpected(IO_Error_Code::write_error); { Watch w("utf8"); f = load_utf8_file(path); }
                stats["utf8"] += 2; if (!valid) stats["utf8_invalid"] += 2;
                if (bool(e) != valid || bool(f) != valid || (!e && e.error() != IO_Error_Code::corrupted) || (!f && f.error() != IO_Error_Code::corrupted)) fail("utf8:status", std::string(valid ? "valid" : "invalid") + " text of " + std::to_string(text.size()) + " bytes: " + name(e));
                if (e && (out.size() != text.size() + 2 || out[0] != initial[0] || out[1] != initial[1] || std::memcmp(out.data() + 2, text.data(), text.size()))) fail("utf8:content", std::to_string(text.size()) + " bytes");
                if (f && (f->size() != text.size() || (text.size() && std::memcmp(f->data(), text.data(), text.size())))) fail("utf8:content", std::to_string(text.size()) + " bytes");
            }
            // UTF-32
            std::vector<char32_t> cs; for (std::size_t c = r.chance(50) ? r.below(20) : B / 4 * r.below(4) + r.below(5); c; --c) cs.push_back(random_scalar());
            bool ok32 = true;
            if (r.chance(40) && !cs.empty()) { static const std::vector<char32_t> bad { 0xd800, 0xdfff, 0x110000, 0xffffffff, 0xdc00, 0x80000000, 0x200000 }; cs[r.below(cs.size())] = r.pick(bad); ok32 = false; }
            std::string b32(reinterpret_cast<const char*>(cs.data()), cs.size() * 4);
            if (r.chance(25)) { const std::size_t x = 1 + r.below(3); if (r.chance(50) && b32.size() >= 4) b32.resize(b32.size() - x); else b32 += random_bytes(x); ok32 = false; }
            write_file(path, b32);
            {
                std::expected<std::vector<char32_t>, IO_Error_Code> f = std::unexpected(IO_Error_Code::write_error); { Watch w("utf32"); f = load_utf32le_file(path); }
                ++stats["utf32"]; if (!ok32) ++stats["utf32_invalid"];
                if (bool(f) != ok32 || (!f && f.error() != IO_Error_Code::corrupted)) fail("utf32:status", std::string(ok32 ? "valid" : "invalid") + " file of " + std::to_string(b32.size()) + " bytes");
                if (f && ok32 && *f != cs) fail("utf32:content", std::to_string(b32.size()) + " bytes");
            }
        }
        // files which cannot be opened or read, for real
        auto expect = [&](const std::string& p, IO_Error_Code c, const char* what) {
            std::vector<char> out; std::expected<void, IO_Error_Code> e; { Watch w(what); e = file_to_bytes(out, p); } std::expected<std::vector<char8_t>, IO_Error_Code> f; { Watch w(what); f = load_utf8_file(p); } std::expected<std::vector<char32_t>, IO_Error_Code> g; { Watch w(what); g = load_utf32le_file(p); }
            stats["real_failures"] += 3;
            if (e || e.error() != c || f || f.error() != c || g || g.error() != c) fail(std::string("failure:") + what, std::string(what) + ": " + name(e));
        };
        expect(dir + "/none", IO_Error_Code::cannot_open, "missing"); expect("", IO_Error_Code::cannot_open, "empty-path"); expect(path + "/x", IO_Error_Code::cannot_open, "not-a-directory");
        for (std::size_t n : { B - 2, B - 1, B, B + 1, 2 * B, std::size_t(1) << 20 }) expect(std::string(n, 'x'), IO_Error_Code::cannot_open, "long-path");
        expect(dir, IO_Error_Code::read_error, "directory");
        expect("/proc/self/mem", IO_Error_Code::read_error, "unreadable");
        {   const std::string l = dir + "/loop" + std::to_string(shard); if (symlink(l.c_str(), l.c_str()) == 0) expect(l, IO_Error_Code::cannot_open, "loop"); }
        {   // a fifo delivers in small pieces
            const std::string p = dir + "/fifo" + std::to_string(shard); const std::string content = random_bytes(3 * B + 17);
            if (mkfifo(p.c_str(), 0600) == 0) { std::thread t([&] { const int fd = open(p.c_str(), O_WRONLY); for (std::size_t i = 0; i < content.size();) { const std::size_t k = std::min<std::size_t>(content.size() - i, 1 + (i * 7919) % 3001); if (write(fd, content.data() + i, k) < 0) break; i += k; } close(fd); }); load_bytes<char>(p, content, r); t.join(); }
        }
        for (auto c : { IO_Error_Code::cannot_open, IO_Error_Code::read_error, IO_Error_Code::write_error, IO_Error_Code::corrupted }) if (to_prose(c).empty()) fail("prose", "an error has no description");
        // histories of handles
        for (int h = 0; h < (th ? 20000 : 1500); ++h) {
            write_file(path, "x");
            Watch w("handles");
            {
                std::vector<std::unique_ptr<Unique_File>> v; std::vector<FILE*> own; // model: what each owns
                std::vector<FILE*> released; std::string hist;
                auto expect_open = [&](FILE* f, bool open_, const char* op) { if (f && closes->count(f) && (((*closes)[f] == 0) != open_)) fail(std::string("handle:") + op, hist); };
                for (int k = 0; k < 14; ++k) {
                    ++stats["handle_operations"];
                    const std::size_t i = v.empty() ? 0 : r.below(v.size()), j = v.empty() ? 0 : r.below(v.size());
                    switch (v.empty() ? r.below(2) : r.below(9)) {
                    case 0: v.push_back(std::make_unique<Unique_File>(fopen_unique(path.c_str(), r.chance(80) ? "rb" : "r"))); own.push_back(v.back()->get()); if (!v.back()->get()) fail("handle:open", hist); hist += " open"; break;
                    case 1: if (r.chance(50)) v.push_back(std::make_unique<Unique_File>()); else v.push_back(std::make_unique<Unique_File>(fopen_unique((path + "-none").c_str(), "rb"))); own.push_back(nullptr); hist += " null"; break;
                    case 2: { hist += " move"; v.push_back(std::make_unique<Unique_File>(std::move(*v[i]))); own.push_back(own[i]); own[i] = nullptr; break; }
                    case 3: if (i != j) { hist += " assign"; FILE* old = own[i]; *v[i] = std::move(*v[j]); own[i] = own[j]; own[j] = nullptr; if (v[i]->get() != own[i]) fail("handle:assign", hist); if (v[j]->get() == own[i] && own[i]) fail("handle:assign", hist); if (v[j]->get() == nullptr) expect_open(old, false, "assign-closes"); else own[j] = v[j]->get(); } break;
                    case 4: { hist += " swap"; swap(*v[i], *v[j]); std::swap(own[i], own[j]); break; }
                    case 5: { hist += " release"; FILE* f = v[i]->release(); if (f != own[i] || v[i]->get()) fail("handle:release", hist); if (f) released.push_back(f); expect_open(f, true, "release"); own[i] = nullptr; break; }
                    case 6: { hist += " close"; FILE* f = own[i]; v[i]->close(); expect_open(f, false, "close"); if (r.chance(50)) v[i]->close(); own[i] = v[i]->get() ? own[i] : nullptr; if (v[i]->get()) { v.erase(v.begin() + long(i)); own.erase(own.begin() + long(i)); } break; }
                    case 7: { hist += " destroy"; FILE* f = own[i]; v.erase(v.begin() + long(i)); own.erase(own.begin() + long(i)); expect_open(f, false, "destroy"); break; }
                    default: if (v[i]->get() != own[i] || bool(*v[i]) != (own[i] != nullptr)) fail("handle:get", hist);
                    }
                    for (FILE* f : own) expect_open(f, true, "owned");
                }
                v.clear();
                for (FILE* f : released) { expect_open(f, true, "released"); std::fclose(f); }
            }
        }
        if (descriptors() != fds) fail("descriptors", "descriptors are left open");
        stats["descriptor_balance_checked"] = 1;
    } catch (const ulight::Assertion_Error&) { fail("assert", "internal assertion failed: " + mon::assert_message); }
    done();
}
