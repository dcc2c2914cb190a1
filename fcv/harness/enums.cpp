// EnumSet / EnumMap / EnumArray over an enum-like type with CAP labels; the label table is an external array with labels[k] designating ordinal k
#include <array>
#include <string_view>
#include "common.hpp"
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
using namespace fixed_containers;
struct Lab
{
    unsigned v;
    friend constexpr bool operator==(const Lab&, const Lab&) = default;
    friend constexpr std::strong_ordering operator<=>(const Lab&, const Lab&) = default;
};
extern "C" { extern const std::array<Lab, CAP> g_labels; }
template <>
struct fixed_containers::rich_enums::EnumAdapter<Lab>
{
    using Enum = Lab;
    static constexpr std::size_t count() { return CAP; }
    static constexpr const std::array<Lab, CAP>& values() { return g_labels; }
    static constexpr std::size_t ordinal(const Lab& l) { return l.v; }
    static constexpr std::string_view to_string(const Lab&) { return {}; }
};
#ifndef ELT
#define ELT E
#endif
using T = ELT;
using LA = std::array<Lab, CAP>;
TYPE(LA)
#if KIND == 0
using S = EnumSet<Lab>;
#elif KIND == 1
struct MChk
{
    using Loc = std_transition::source_location;
    [[noreturn]] static void missing_enum_entries(const Loc&);
    [[noreturn]] static void duplicate_enum_entries(const Loc&);
    [[noreturn]] static void out_of_range(const Lab&, std::size_t, const Loc&);
};
using S = EnumMap<Lab, T, MChk>;
using PR = std::pair<const Lab, T>;
TYPE(PR)
#else
using S = EnumArray<Lab, T>;
#endif
TYPE(S) TYPE(T)
#if KIND < 2
using It = S::iterator;
using CIt = S::const_iterator;
using RIt = S::reverse_iterator;
using CRIt = S::const_reverse_iterator;
using IB = std::pair<It, bool>;
TYPE(It) TYPE(CIt) TYPE(RIt) TYPE(CRIt) TYPE(IB)
W void ctor_default(S* m) { new (m) S(); }
W void copy_ctor(S* m, const S& o) { new (m) S(o); }
W void move_ctor(S* m, S& o) { new (m) S(std::move(o)); }
W void copy_assign(S& s, const S& o) { s = o; }
W void move_assign(S& s, S& o) { s = std::move(o); }
W void self_copy_assign(S& s, S& o) { s = o; }
W void self_move_assign(S& s, S& o) { s = std::move(o); }
W void dtor(S& s) { s.~S(); }
W void clear(S& s) { s.clear(); }
W size_t size(const S& s) { return s.size(); }
W size_t max_size(const S& s) { return s.max_size(); }
W bool empty(const S& s) { return s.empty(); }
W bool is_full_(const S& s) { return is_full(s); }
W bool contains(const S& s, const Lab& k) { return s.contains(k); }
W size_t erase_key(S& s, const Lab& k) { return s.erase(k); }
W void erase_one(It* out, S& s, const CIt& p) { new (out) It(s.erase(p)); }
W void erase_range(It* out, S& s, const CIt& p, const CIt& q) { new (out) It(s.erase(p, q)); }
W void find_const(CIt* out, const S& s, const Lab& k) { new (out) CIt(s.find(k)); }
W void it_begin(It* out, S& s) { new (out) It(s.begin()); }
W void it_end(It* out, S& s) { new (out) It(s.end()); }
W void it_cbegin(CIt* out, const S& s) { new (out) CIt(s.cbegin()); }
W void it_cend(CIt* out, const S& s) { new (out) CIt(s.cend()); }
W void it_inc(CIt& p) { ++p; }
W void it_dec(CIt& p) { --p; }
W void it_post_inc(CIt* out, CIt& p) { new (out) CIt(p++); }
W void it_post_dec(CIt* out, CIt& p) { new (out) CIt(p--); }
W bool it_eq(const CIt& p, const CIt& q) { return p == q; }
W void rit_begin(CRIt* out, const S& s) { new (out) CRIt(s.crbegin()); }
W void rit_end(CRIt* out, const S& s) { new (out) CRIt(s.crend()); }
W void rit_inc(CRIt& p) { ++p; }
W void rit_dec(CRIt& p) { --p; }
W void rit_base(CIt* out, const CRIt& p) { new (out) CIt(p.base()); }
W bool rit_eq(const CRIt& p, const CRIt& q) { return p == q; }
W bool equal(const S& a, const S& b) { return a == b; }
#endif
#if KIND == 0
W void insert(IB* out, S& s, const Lab& k) { new (out) IB(s.insert(k)); }
W void insert_hint(It* out, S& s, const CIt& p, const Lab& k) { new (out) It(s.insert(p, k)); }
W void emplace(IB* out, S& s, const Lab& k) { new (out) IB(s.emplace(k)); }
W void emplace_hint(It* out, S& s, const CIt& p, const Lab& k) { new (out) It(s.emplace_hint(p, k)); }
W void insert_range(S& s, const Lab* f, size_t n) { s.insert(f, f + n); }
W void insert_input_it(S& s, const Lab* f, size_t n) { s.insert(InIt<Lab>{f}, InIt<Lab>{f + n}); }
W void insert_ilist(S& s, std::initializer_list<Lab> l) { s.insert(l); }
W void ctor_range(S* m, const Lab* f, size_t n) { new (m) S(f, f + n); }
W void ctor_ilist(S* m, std::initializer_list<Lab> l) { new (m) S(l); }
W void ctor_all(S* m) { new (m) S(S::all()); }
W void ctor_none(S* m) { new (m) S(S::none()); }
W unsigned it_deref(const CIt& p) { return (*p).v; }
W unsigned rit_deref(const CRIt& p) { return (*p).v; }
W bool less(const S& a, const S& b) { return a < b; }
#elif KIND == 1
W T* at_mut(S& s, const Lab& k) { return &s.at(k); }
W const T* at(const S& s, const Lab& k) { return &s.at(k); }
W T* subscript(S& s, const Lab& k) { return &s[k]; }
W T* subscript_move(S& s, Lab& k) { return &s[std::move(k)]; }
W size_t count(const S& s, const Lab& k) { return s.count(k); }
W void find_mut(It* out, S& s, const Lab& k) { new (out) It(s.find(k)); }
W void insert(IB* out, S& s, const PR& v) { new (out) IB(s.insert(v)); }
W void insert_move(IB* out, S& s, PR& v) { new (out) IB(s.insert(std::move(v))); }
W void insert_or_assign_copy(IB* out, S& s, const Lab& k, const T& v) { new (out) IB(s.insert_or_assign(k, v)); }
W void insert_or_assign_move(IB* out, S& s, const Lab& k, T& v) { new (out) IB(s.insert_or_assign(k, std::move(v))); }
W void insert_or_assign_hint(It* out, S& s, const CIt& p, const Lab& k, const T& v) { new (out) It(s.insert_or_assign(p, k, v)); }
W void try_emplace_copy(IB* out, S& s, const Lab& k, const T& v) { new (out) IB(s.try_emplace(k, v)); }
W void try_emplace_move(IB* out, S& s, const Lab& k, T& v) { new (out) IB(s.try_emplace(k, std::move(v))); }
W void try_emplace_make(IB* out, S& s, const Lab& k, int v) { new (out) IB(s.try_emplace(k, v)); }
W void try_emplace_none(IB* out, S& s, const Lab& k) { new (out) IB(s.try_emplace(k)); }
W void try_emplace_hint(IB* out, S& s, const CIt& p, const Lab& k, const T& v) { new (out) IB(s.try_emplace(p, k, v)); }
W void emplace(IB* out, S& s, const Lab& k, const T& v) { new (out) IB(s.emplace(k, v)); }
W void erase_one_mut(It* out, S& s, const It& p) { new (out) It(s.erase(p)); }
W void insert_range(S& s, const PR* f, size_t n) { s.insert(f, f + n); }
W void insert_ilist(S& s, std::initializer_list<PR> l) { s.insert(l); }
W void ctor_range(S* m, const PR* f, size_t n) { new (m) S(f, f + n); }
W unsigned it_deref_key(const CIt& p) { return (*p).first.v; }
W const T* it_deref(const CIt& p) { return &(*p).second; }
W T* it_deref_mut(const It& p) { return &(*p).second; }
W const T* it_arrow(const CIt& p) { return &p->second; }
W void it_convert(CIt* out, const It& p) { new (out) CIt(p); }
W const T* rit_deref(const CRIt& p) { return &(*p).second; }
#else
W T* at_mut(S& s, const Lab& k) { return &s.at(k); }
W const T* at(const S& s, const Lab& k) { return &s.at(k); }
W T* subscript_mut(S& s, const Lab& k) { return &s[k]; }
W const T* subscript(const S& s, const Lab& k) { return &s[k]; }
W const T* front(const S& s) { return &s.front(); }
W T* front_mut(S& s) { return &s.front(); }
W const T* back(const S& s) { return &s.back(); }
W T* back_mut(S& s) { return &s.back(); }
W const T* data(const S& s) { return s.data(); }
W size_t size(const S& s) { return s.size(); }
W size_t max_size(const S& s) { return s.max_size(); }
W bool empty(const S& s) { return s.empty(); }
W void fill(S& s, const T& v) { s.fill(v); }
W bool equal(const S& a, const S& b) { return a == b; }
W const T* it_begin(const S& s) { return &*s.begin(); }
W const T* it_last(const S& s) { return &*(s.end() - 1); }
W const T* rit_begin(const S& s) { return &*s.rbegin(); }
#endif
