// C27: Non_Owning_Buffer and Function_Ref against list models. argv: mode seed tier
#include "unit.hpp"
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <span>
#include <sstream>
#include "ulight/function_ref.hpp"
#include "ulight/impl/buffer.hpp"
using namespace unit;
using namespace ulight;

struct Rec { int a = -1; std::string s; Rec() = default; Rec(int x, std::string y) : a(x), s(std::move(y)) {} bool operator==(const Rec&) const = default; };
static std::string show(int x) { return std::to_string(x); }
static std::string show(char8_t x) { return std::to_string(int(x)); }
static std::string show(const Rec& x) { return std::to_string(x.a) + x.s; }
static std::string show(const std::unique_ptr<int>& x) { return x ? std::to_string(*x) : "null"; }
static int value(int x) { return x; }
static int value(char8_t x) { return x; }
static int value(const Rec& x) { return x.s == "v" + std::to_string(x.a) ? x.a : -1000; }
static int value(const std::unique_ptr<int>& x) { return x ? *x : -1001; }
template <class T> static T make(int v)
{
    if constexpr (std::is_same_v<T, Rec>) return Rec(v, "v" + std::to_string(v));
    else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(v);
    else return T(v);
}
struct Sink { std::vector<int> got; std::vector<std::size_t> sizes; const void* data_seen = nullptr; void* buffer_seen = nullptr; int calls = 0; bool wrong = false; };

template <class T> static void history(Rng& r)
{
    const std::size_t cap = r.chance(50) ? 1 + r.below(4) : 1 + r.below(40);
    std::unique_ptr<T[]> mem(new T[cap]()); // an exact-size allocation
    Sink sink;
    T* const base = mem.get();
    auto take = [&sink, base, cap](T* p, std::size_t n) {
        ++sink.calls;
        if (p != base || n == 0 || n > cap) { sink.wrong = true; return; }
        sink.sizes.push_back(n);
        for (std::size_t i = 0; i < n; ++i) sink.got.push_back(value(p[i]));
    };
    const bool span_ctor = r.chance(50);
    struct Ctx { decltype(take)* f; } ctx { &take };
    Non_Owning_Buffer<T> b = span_ctor
        ? Non_Owning_Buffer<T>(std::span<T>(base, cap), take)
        : Non_Owning_Buffer<T>(base, cap, &ctx, [](const void* d, T* p, std::size_t n) { (*static_cast<const Ctx*>(d)->f)(p, n); });
    std::vector<int> delivered, pending; // model
    std::string hist = " capacity " + std::to_string(cap);
    int next = 0;
    auto mflush = [&] { delivered.insert(delivered.end(), pending.begin(), pending.end()); pending.clear(); };
    auto mpush = [&](int v) { if (pending.size() == cap) mflush(); pending.push_back(v); };
    const int ops = 3 + int(r.below(25));
    int v = 0;
    auto fresh = [&] { v = int(++next % 200); return v; };
    for (int k = 0; k < ops; ++k) {
        std::string op;
        switch (r.below(11)) {
        case 0:
            if constexpr (std::is_copy_assignable_v<T>) { const T e = make<T>(fresh()); T& x = b.push_back(e); mpush(v); op = "push_back(const&)"; if (&x != base + b.size() - 1) fail("buffer:reference", op); break; }
            [[fallthrough]];
        case 1: { T& x = b.push_back(make<T>(fresh())); mpush(v); op = "push_back(&&)"; if (&x != base + b.size() - 1 || value(x) != v) fail("buffer:reference", op); break; }
        case 2: {
            fresh(); op = "emplace_back";
            T* x;
            if constexpr (std::is_same_v<T, Rec>) x = &b.emplace_back(v, "v" + std::to_string(v));
            else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) x = &b.emplace_back(new int(v));
            else x = &b.emplace_back(T(v));
            mpush(v);
            if (x != base + b.size() - 1 || value(*x) != v) fail("buffer:reference", op);
            break; }
        case 3: case 4: case 5: case 6:
            if constexpr (std::is_copy_assignable_v<T>) {
                const std::size_t n = r.chance(30) ? r.below(3) : r.chance(40) ? cap + r.below(3) - 1 + (cap == 0) : r.chance(10) ? r.below(100) : r.below(3 * cap + 3);
                std::vector<T> in; std::vector<int> iv;
                for (std::size_t i = 0; i < n; ++i) { in.push_back(make<T>(fresh())); iv.push_back(v); }
                switch (r.below(5)) {
                case 0: b.append(in.begin(), in.end()); op = "append(random access)"; break;
                case 1: { std::list<T> l(in.begin(), in.end()); b.append(l.begin(), l.end()); op = "append(list)"; break; }
                case 2: b.append_range(in); op = "append_range(vector)"; break;
                case 3: { std::forward_list<T> l(in.begin(), in.end()); b.append_range(l); op = "append_range(forward_list)"; break; }
                case 4: { const T* p = in.data(); b.append(p, p + n); op = "append(pointers)"; break; }
                }
                op += " n=" + std::to_string(n);
                for (int q : iv) mpush(q);
            } else { for (std::size_t n = r.below(3 * cap + 2); n--;) { b.push_back(make<T>(fresh())); mpush(v); } op = "push_back*"; }
            break;
        case 7: b.flush(); mflush(); op = "flush"; break;
        case 8: if (r.chance(30)) { b.clear(); pending.clear(); op = "clear"; } else { b.flush(); b.flush(); mflush(); op = "flush flush"; } break;
        case 9: if (!pending.empty()) { b.back() = make<T>(fresh()); pending.back() = v; } op = "back="; break;
        default:
            if constexpr (std::is_same_v<T, int>) {
                std::istringstream in("7 8 9 10 11");
                b.append(std::istream_iterator<int>(in), std::istream_iterator<int>());
                for (int q : { 7, 8, 9, 10, 11 }) mpush(q);
                op = "append(input)";
            } else op = "-";
        }
        hist += ", " + op;
        ++stats["buffer_operations"];
        const std::string where = "after" + hist;
        const std::string key = op.substr(0, op.find(' '));
        if (sink.wrong) { fail("buffer:flush-arguments", where + ": flushed from elsewhere or with a wrong size"); return; }
        if (b.size() > b.capacity() || b.capacity() != cap || b.available() != cap - b.size() || b.full() != (b.size() == cap) || b.empty() != (b.size() == 0)) { fail("buffer:sizes:" + key, where); return; }
        std::vector<int> all = sink.got, want = delivered;
        for (std::size_t i = 0; i < b.size(); ++i) all.push_back(value(base[i]));
        want.insert(want.end(), pending.begin(), pending.end());
        if (all != want) {
            std::string g, w; for (int x : all) g += " " + std::to_string(x); for (int x : want) w += " " + std::to_string(x);
            fail("buffer:contents:" + key, where + ": delivered and held" + g + ", put in" + w); return;
        }
        if (op == "clear") { /* held elements are dropped, delivered ones are not */ }
        if (op.starts_with("flush") && !b.empty()) { fail("buffer:flush", where + ": not empty"); return; }
        if (!b.empty() && value(std::as_const(b).back()) != want.back()) { fail("buffer:back", where); return; }
        for (std::size_t i = 0; i + 1 < sink.sizes.size() + 0; ++i) if (sink.sizes[i] == 0) fail("buffer:empty-flush", where);
        // when to flush: the model flushes only when full or asked to; so does the buffer
        if (sink.got.size() != delivered.size() && b.size() != pending.size()) {
            // delivering earlier than necessary is allowed only if the buffer was full
            if (sink.got.size() < delivered.size() || !(pending.size() == cap)) { fail("buffer:flush-time:" + key, where); return; }
        }
    }
    stats["flushes"] += unsigned(sink.calls);
    static int shown = 0;
    if (shown++ < 1) sample(hist);
}

// ---- Function_Ref
static int free_calls, free_last;
static int free_fn(int x) { ++free_calls; free_last = x; return x * 3 + 1; }
static int free_nx(int x) noexcept { ++free_calls; free_last = x; return x * 5 + 2; }
static long widen(long x) { ++free_calls; free_last = int(x); return x * 7; }
struct Counter { int calls = 0, const_calls = 0, last = 0; int k; explicit Counter(int q) : k(q) {} int operator()(int x) { ++calls; last = x; return x + k; } };
struct CCounter { mutable int calls = 0, last = 0; int k; explicit CCounter(int q) : k(q) {} int operator()(int x) const noexcept { ++calls; last = x; return x - k; } };
struct Both { int m = 0; mutable int c = 0; int operator()(int) { ++m; return 1; } int operator()(int) const { ++c; return 2; } };
struct Traced { int v; static inline int copies; Traced(int x) : v(x) {} Traced(const Traced& o) : v(o.v) { ++copies; } Traced(Traced&& o) : v(o.v) { o.v = -1; } };
static int member(Counter* c, int x) { ++c->calls; c->last = x; return x * c->k; }
#define EXPECT(key, cond) do { ++stats["function_ref_checks"]; if (!(cond)) fail(std::string("function_ref:") + key, #cond); } while (0)
static void function_ref(Rng& r)
{
    const int x = int(r.below(1000)) - 500, k = int(r.below(50));
    auto once = [&](const char* key, int got, int want, int& calls, const int& last) { ++stats["function_ref_checks"]; if (got != want || calls != 1 || last != x) fail(std::string("function_ref:") + key, std::string(key) + ": result " + std::to_string(got) + " want " + std::to_string(want) + ", calls " + std::to_string(calls) + ", argument " + std::to_string(last) + " want " + std::to_string(x)); calls = 0; };
    { Function_Ref<int(int)> f = free_fn; EXPECT("free", f.has_value() && bool(f)); once("free", f(x), x * 3 + 1, free_calls, free_last); auto g = f; once("copy", g(x), x * 3 + 1, free_calls, free_last); f = Function_Ref<int(int)>(free_nx); once("assign", f(x), x * 5 + 2, free_calls, free_last); once("copy-after-assign", g(x), x * 3 + 1, free_calls, free_last); }
    { int (*p)(int) = free_fn; Function_Ref<int(int)> f = p; p = free_nx; once("pointer", f(x), x * 3 + 1, free_calls, free_last); const auto cp = &free_nx; Function_Ref<int(int) noexcept> g = cp; once("noexcept-pointer", g(x), x * 5 + 2, free_calls, free_last); Function_Ref<int(int)> h = cp; once("noexcept-to-plain", h(x), x * 5 + 2, free_calls, free_last); }
    { long (*p)(long) = widen; Function_Ref<long(int)> f = p; once("converting-pointer", int(f(x)), x * 7, free_calls, free_last); Function_Ref<int(int)> g = widen; once("converting-function", g(x), x * 7, free_calls, free_last); }
    { Counter c(k); Function_Ref<int(int)> f = c; once("object", f(x), x + k, c.calls, c.last); Function_Ref<int(int)> g = f; c.k += 1; once("object-by-reference", g(x), x + k + 1, c.calls, c.last); EXPECT("entity", f.get_entity() == &c && g.get_entity() == &c && g.get_invoker() == f.get_invoker()); Function_Ref<int(int)> q(f.get_invoker(), f.get_entity()); once("piecewise", q(x), x + k + 1, c.calls, c.last); }
    { const CCounter c(k); Function_Ref<int(int) const> f = c; once("const-object", f(x), x - k, c.calls, c.last); Function_Ref<int(int) const noexcept> g = c; once("const-noexcept", g(x), x - k, c.calls, c.last); CCounter d(k); Function_Ref<int(int)> h = d; once("mutable-object-const-call", h(x), x - k, d.calls, d.last); }
    { Both b; Function_Ref<int(int)> f = b; EXPECT("overload-plain", f(1) == 1 && b.m == 1 && b.c == 0); Function_Ref<int(int) const> g = b; EXPECT("overload-const", g(1) == 2 && b.m == 1 && b.c == 1); }
    { int calls = 0, last = 0; auto l = [&](int y) { ++calls; last = y; return y ^ k; }; Function_Ref<int(int)> f = l; once("lambda", f(x), x ^ k, calls, last); Function_Ref<long(short)> g = l; const short sx = short(x); EXPECT("lambda-convert", g(sx) == (x ^ k) && calls == 1 && last == x); calls = 0; const auto cl = l; Function_Ref<int(int) const> h = cl; once("const-lambda", h(x), x ^ k, calls, last); }
    { Function_Ref<int(int)> f = [](int y) { ++free_calls; free_last = y; return y * 11; }; once("captureless", f(x), x * 11, free_calls, free_last); Function_Ref<long(short)> g = [](int y) { ++free_calls; free_last = y; return y * 13; }; once("captureless-convert", int(g(short(x))), x * 13, free_calls, free_last); }
    { Function_Ref<int(int)> f = const_v<free_fn>; once("constant", f(x), x * 3 + 1, free_calls, free_last); Counter c(k); Function_Ref<int(int)> g(const_v<member>, &c); once("constant-entity", g(x), x * k, c.calls, c.last); }
    { Function_Ref<int(int)> f; EXPECT("empty", !f.has_value() && !f && f.get_entity() == nullptr); bool threw = false; try { f(1); } catch (const Assertion_Error&) { threw = true; } EXPECT("empty-call", threw); }
    { int y = x; auto l = [](int& z) -> int& { z += 1; return z; }; Function_Ref<int&(int&)> f = l; int& z = f(y); EXPECT("reference", &z == &y && y == x + 1); }
    { auto l = [](std::unique_ptr<int> p, std::string s) { return std::make_unique<int>(*p + int(s.size())); }; Function_Ref<std::unique_ptr<int>(std::unique_ptr<int>, std::string)> f = l; auto q = f(std::make_unique<int>(x), std::string(std::size_t(k), 'a')); EXPECT("move-only", q && *q == x + k); }
    { Traced::copies = 0; int seen = 0; auto l = [&](const Traced& t) { seen = t.v; }; Function_Ref<void(const Traced&)> f = l; Traced t(x); f(t); EXPECT("by-reference", seen == x && Traced::copies == 0); auto m = [&](Traced&& q) { seen = q.v + 1; }; Function_Ref<void(Traced&&)> g = m; g(std::move(t)); EXPECT("rvalue", seen == x + 1 && Traced::copies == 0); auto n = [&](Traced q) { seen = q.v + 2; }; Function_Ref<void(Traced)> h = n; h(Traced(x)); EXPECT("by-value", seen == x + 2 && Traced::copies == 0); }
    { std::string got; auto l = [&](int a, char b, double c, const char* d, std::string_view e) { got = std::to_string(a) + b + std::to_string(int(c)) + d + std::string(e); return got.size(); }; Function_Ref<std::size_t(int, char, double, const char*, std::string_view)> f = l; auto n = f(x, 'q', 4.5, "zz", "sv"); EXPECT("many", n == got.size() && got == std::to_string(x) + "q4zzsv"); }
    { bool threw = false; auto l = [](int y) -> int { throw y; }; Function_Ref<int(int)> f = l; try { f(x); } catch (int y) { threw = y == x; } EXPECT("exception", threw); }
    { // nested: a reference to a reference of another type
        int calls = 0, last = 0; auto l = [&](int y) { ++calls; last = y; return y + 2; }; Function_Ref<int(int)> f = l; Function_Ref<long(long)> g = f; EXPECT("nested", g(x) == x + 2 && calls == 1 && last == x); }
}
int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    mon::install();
    Rng r(std::strtoull(argv[2], nullptr, 10) * 64 + (argc > 4 ? unsigned(std::atoi(argv[4])) : 0));
    const bool th = std::string(argv[3]) == "thorough";
    try {
        for (int i = 0; i < (th ? 60000 : 2500); ++i) { history<int>(r); history<char8_t>(r); history<Rec>(r); history<std::unique_ptr<int>>(r); }
        for (int i = 0; i < (th ? 20000 : 2000); ++i) function_ref(r);
    } catch (const Assertion_Error&) { fail("assert", "internal assertion failed: " + mon::assert_message); }
    done();
}
