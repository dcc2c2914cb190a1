// Opaque element / key types and checking policy used to instantiate the real templates.
// Every special member is declared but never defined: the verifier gives them their contracts
// (construct a dead slot, destroy a live slot, copy/move/assign/compare live slots).
#pragma once
#include <compare>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <new>
#include <utility>

struct E
{
    E() noexcept;
    explicit E(int v) noexcept;
    E(const E&) noexcept;
    E(E&&) noexcept;
    E& operator=(const E&) noexcept;
    E& operator=(E&&) noexcept;
    ~E() noexcept;
    friend bool operator==(const E&, const E&) noexcept;
    friend std::strong_ordering operator<=>(const E&, const E&) noexcept;
    void* p[3];
};
struct K
{
    K() noexcept;
    explicit K(int v) noexcept;
    K(const K&) noexcept;
    K(K&&) noexcept;
    K& operator=(const K&) noexcept;
    K& operator=(K&&) noexcept;
    ~K() noexcept;
    friend bool operator==(const K&, const K&) noexcept;
    friend bool operator<(const K&, const K&) noexcept;
    friend std::strong_ordering operator<=>(const K&, const K&) noexcept;
    void* p[2];
};

// predicate on elements used for erase_if style operations
struct Pred
{
    bool operator()(const E&) const noexcept;
};

#include "fixed_containers/source_location.hpp"
struct Chk
{
    using Loc = fixed_containers::std_transition::source_location;
    [[noreturn]] static void out_of_range(std::size_t index, std::size_t size, const Loc&);
    [[noreturn]] static void length_error(std::size_t target, const Loc&);
    [[noreturn]] static void empty_container_access(const Loc&);
    [[noreturn]] static void invalid_argument(const char*, const Loc&);
};

template <class T>
T&& any();

#define W extern "C" __attribute__((used))
using std::size_t;

// A genuine single-pass input iterator over a contiguous range of elements
template <class T>
struct InIt
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p;
    const T& operator*() const { return *p; }
    InIt& operator++()
    {
        ++p;
        return *this;
    }
    InIt operator++(int)
    {
        InIt r = *this;
        ++p;
        return r;
    }
    friend bool operator==(const InIt& a, const InIt& b) { return a.p == b.p; }
};
// exposes the layout of a type to the verifier (never initialised by code)
template <class X>
union TyBox
{
    TyBox();
    ~TyBox();
    X x;
};
#define TYPE(X) \
    extern "C" { extern TyBox<X> g_##X; } \
    W TyBox<X>* use_##X() { return &g_##X; }
