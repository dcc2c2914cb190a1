// Concrete search for a failing history, run only after an obligation failed.  It executes the real headers at small
// capacities against a std oracle, with a ledger of live elements, and prints the history it was executing on failure.
#pragma once
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <compare>
#include <chrono>
#include <deque>
#include <initializer_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <unistd.h>
#include <utility>
#include <vector>
#include "fixed_containers/source_location.hpp"
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace wit
{
inline std::string g_hist;
inline std::string g_classes;  // comma separated; empty = all
inline unsigned long g_seed, g_case;
inline char g_cls_crash[] = "bounds";
inline bool g_done = false;

[[noreturn]] inline void emit(const char* cls, const std::string& what)
{
    g_done = true;
    std::printf("WITNESS class=%s seed=%lu case=%lu :: %s\nHISTORY %s\n", cls, g_seed, g_case, what.c_str(), g_hist.c_str());
    std::fflush(stdout);
    _exit(1);
}
struct Skip
{
};
inline bool wanted(const char* cls) { return g_classes.empty() || ("," + g_classes + ",").find("," + std::string(cls) + ",") != std::string::npos; }
// a failure of a class that is not asked for ends this history quietly
inline void fail(const char* cls, const std::string& what)
{
    if (wanted(cls)) emit(cls, what);
    throw Skip{};
}
inline bool g_bad = false;  // a ledger error seen inside a noexcept context
inline void fail_nothrow(const char* cls, const std::string& what)
{
    if (wanted(cls)) emit(cls, what);
    g_bad = true;
}
inline void on_death()
{
    if (g_done) return;
    if (wanted("bounds")) emit("bounds", "memory error reported by the sanitizer");
    if (wanted("lifetime")) emit("lifetime", "memory error reported by the sanitizer");
    if (wanted("functional")) emit("functional", "memory error reported by the sanitizer");
    _exit(3);
}
inline void on_sig(int s)
{
    if (g_done) _exit(1);
    if (s == SIGALRM)
    {
        if (wanted("functional")) emit("functional", "operation does not terminate");
        _exit(3);
    }
    on_death();
}

struct Rng
{
    std::uint64_t s;
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ULL;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    std::size_t below(std::size_t n) { return n ? next() % n : 0; }
    bool coin(unsigned num = 1, unsigned den = 2) { return next() % den < num; }
};

inline void log(const char* f, ...)
{
    char b[400];
    va_list a;
    va_start(a, f);
    std::vsnprintf(b, sizeof b, f, a);
    va_end(a);
    g_hist += b;
    g_hist += "; ";
}

// ---- element with a lifetime ledger
struct Ledger
{
    std::unordered_set<const void*> live;
};
inline Ledger& ledger()
{
    static Ledger l;
    return l;
}
inline void born(const void* p, const char* what)
{
    if (!ledger().live.insert(p).second) fail_nothrow("lifetime", std::string("element constructed over a live element: ") + what);
}
inline void died(const void* p)
{
    if (!ledger().live.erase(p)) fail_nothrow("lifetime", "destructor called on a dead element");
}
inline void used(const void* p, const char* what)
{
    if (!ledger().live.count(p)) fail_nothrow("lifetime", std::string("dead element used: ") + what);
}
inline std::size_t live_in(const void* b, std::size_t n)
{
    std::size_t k = 0;
    for (auto* p : ledger().live)
        if (p >= b && p < static_cast<const char*>(b) + n) ++k;
    return k;
}
struct El
{
    int v;
    long pad;
    El() noexcept : v(0), pad(1) { born(this, "default"); }
    explicit El(int x) noexcept : v(x), pad(1) { born(this, "value"); }
    El(const El& o) noexcept : v(o.v), pad(1)
    {
        used(&o, "copied");
        born(this, "copy");
    }
    El(El&& o) noexcept : v(o.v), pad(1)
    {
        used(&o, "moved");
        born(this, "move");
        o.v = -77;
    }
    El& operator=(const El& o) noexcept
    {
        used(&o, "copied");
        used(this, "assigned");
        v = o.v;
        return *this;
    }
    El& operator=(El&& o) noexcept
    {
        used(&o, "moved");
        used(this, "assigned");
        int x = o.v;
        o.v = -77;
        v = x;
        return *this;
    }
    ~El() noexcept
    {
        died(this);
        v = -99;
        pad = 0;
    }
    friend bool operator==(const El& a, const El& b) noexcept
    {
        used(&a, "compared");
        used(&b, "compared");
        return a.v == b.v;
    }
    friend std::strong_ordering operator<=>(const El& a, const El& b) noexcept
    {
        used(&a, "compared");
        used(&b, "compared");
        return a.v <=> b.v;
    }
    friend bool operator<(const El& a, const El& b) noexcept
    {
        used(&a, "compared");
        used(&b, "compared");
        return a.v < b.v;
    }
};
inline int val(const El& e)
{
    used(&e, "read");
    return e.v;
}
inline int val(int e) { return e; }
inline int val(char e) { return static_cast<unsigned char>(e); }

// ---- checking policy that reports the misuse by jumping back to guarded() (many members are noexcept)
inline jmp_buf* g_jmp = nullptr;
inline const char* g_kind = nullptr;
[[noreturn]] inline void misuse(const char* kind)
{
    if (g_jmp == nullptr)
    {
        if (wanted("policy")) emit("policy", std::string("valid call rejected with ") + kind);
        _exit(3);
    }
    g_kind = kind;
    longjmp(*g_jmp, 1);
}
template <class Dummy>
struct Chk_
{
    using Loc = fixed_containers::std_transition::source_location;
    [[noreturn]] static void out_of_range(std::size_t, std::size_t, const Loc&) { misuse("out_of_range"); }
    [[noreturn]] static void length_error(std::size_t, const Loc&) { misuse("length_error"); }
    [[noreturn]] static void empty_container_access(const Loc&) { misuse("empty_container_access"); }
    [[noreturn]] static void invalid_argument(const char*, const Loc&) { misuse("invalid_argument"); }
    [[noreturn]] static void missing_enum_entries(const Loc&) { misuse("missing_enum_entries"); }
    [[noreturn]] static void duplicate_enum_entries(const Loc&) { misuse("duplicate_enum_entries"); }
    template <class Key>
    [[noreturn]] static void out_of_range(const Key&, std::size_t, const Loc&) { misuse("out_of_range"); }
};
using Chk = Chk_<void>;

template <class T>
struct InIt
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p;
    const T& operator*() const { return *p; }
    InIt& operator++()
    {
        ++p;
        return *this;
    }
    InIt operator++(int)
    {
        InIt r = *this;
        ++p;
        return r;
    }
    friend bool operator==(const InIt& a, const InIt& b) { return a.p == b.p; }
};

// run `f`; it must be rejected with `kind` (nullptr: must not be rejected)
template <class F>
__attribute__((noinline)) bool guarded(const char* op, const char* kind, F&& f)
{
    jmp_buf jb;
    jmp_buf* old = g_jmp;
    g_jmp = &jb;
    if (_setjmp(jb) == 0)
    {
        try
        {
            f();
        }
        catch (...)
        {
            g_jmp = old;
            throw;
        }
        g_jmp = old;
    }
    else
    {
        g_jmp = old;
        // temporaries of the abandoned frames were never destroyed
        for (auto it = ledger().live.begin(); it != ledger().live.end();)
        {
            auto p = reinterpret_cast<std::uintptr_t>(*it), q = reinterpret_cast<std::uintptr_t>(&jb);
            if (p < q && p + 4000000 > q)
                it = ledger().live.erase(it);
            else
                ++it;
        }
        if (g_bad) throw Skip{};
        if (kind == nullptr) fail("policy", std::string(op) + ": valid call rejected with " + g_kind);
        if (std::strcmp(kind, g_kind) != 0) fail("policy", std::string(op) + ": rejected with " + g_kind + " instead of " + kind);
        return false;
    }
    if (g_bad) throw Skip{};
    if (kind != nullptr) fail("policy", std::string(op) + ": misuse not rejected (" + kind + ")");
    return true;
}
#define EXPECT(cls, cond, ...) \
    do \
    { \
        if (!(cond)) \
        { \
            char b_[300]; \
            std::snprintf(b_, sizeof b_, __VA_ARGS__); \
            ::wit::fail(cls, b_); \
        } \
    } while (0)

// body(rng, length): one history
template <class Body>
int main_loop(int argc, char** argv, Body&& body)
{
    double secs = 10;
    unsigned long seed = 1, only = 0;
    bool have_only = false;
    unsigned long maxcases = 0;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        if (a == "--time") secs = std::atof(argv[i + 1]);
        if (a == "--seed") seed = std::strtoul(argv[i + 1], nullptr, 10);
        if (a == "--cases") maxcases = std::strtoul(argv[i + 1], nullptr, 10);
        if (a == "--classes") g_classes = argv[i + 1];
        if (a == "--case")
        {
            only = std::strtoul(argv[i + 1], nullptr, 10);
            have_only = true;
        }
    }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) std::signal(s, on_sig);
    g_seed = seed;
    auto t0 = std::chrono::steady_clock::now();
    unsigned long n = 0;
    std::unordered_set<std::size_t> seen;
    unsigned long nontrivial = 0;
    std::string sample;
    for (g_case = have_only ? only : 0;; ++g_case)
    {
        if (maxcases && g_case >= maxcases && !have_only) break;
        if (n++ % 64 == 0 && !have_only)
        {
            alarm(20);
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        }
        Rng r{seed * 1000003ULL + g_case};
        r.next();
        g_hist.clear();
        g_bad = false;
        ledger().live.clear();
        std::size_t len = 1 + (g_case / 400) % 24;
        try
        {
            body(r, len);
            if (!g_bad && !ledger().live.empty()) fail("lifetime", "elements are left alive after everything was destroyed");
        }
        catch (const Skip&)
        {
        }
        if (maxcases && std::count(g_hist.begin(), g_hist.end(), ';') > 1 && seen.insert(std::hash<std::string>{}(g_hist)).second)
        {
            ++nontrivial;
            if (g_hist.size() < 300 && (sample.empty() || g_case == 2000)) sample = g_hist;
        }
        if (have_only) break;
    }
    std::printf("NOWITNESS cases=%lu distinct=%lu sample=%s\n", g_case, nontrivial, sample.c_str());
    return 0;
}
}  // namespace wit
