#include "common.hpp"
#include "fixed_containers/fixed_list.hpp"
using namespace fixed_containers;
#ifndef ELT
#define ELT E
#endif
using T = ELT;
using S = FixedList<T, CAP, Chk>;
using S2 = FixedList<T, CAP * 2 + 2, Chk>;
using It = S::iterator;
using CIt = S::const_iterator;
using RIt = S::reverse_iterator;
using CRIt = S::const_reverse_iterator;
W void ctor_default(S* m) { new (m) S(); }
W void ctor_count(S* m, size_t n) { new (m) S(n); }
W void ctor_count_val(S* m, size_t n, const T& v) { new (m) S(n, v); }
W void ctor_range(S* m, const T* f, size_t n) { new (m) S(f, f + n); }
W void ctor_input_it(S* m, const T* f, size_t n) { new (m) S(InIt<T>{f}, InIt<T>{f + n}); }
W void ctor_ilist(S* m, std::initializer_list<T> l) { new (m) S(l); }
W void copy_ctor(S* m, const S& o) { new (m) S(o); }
W void move_ctor(S* m, S& o) { new (m) S(std::move(o)); }
W void copy_assign(S& s, const S& o) { s = o; }
W void move_assign(S& s, S& o) { s = std::move(o); }
W void self_copy_assign(S& s, S& o) { s = o; }
W void self_move_assign(S& s, S& o) { s = std::move(o); }
W void dtor(S& s) { s.~S(); }
W void resize(S& s, size_t n) { s.resize(n); }
W void resize_val(S& s, size_t n, const T& v) { s.resize(n, v); }
W void push_back_copy(S& s, const T& v) { s.push_back(v); }
W void push_back_move(S& s, T& v) { s.push_back(std::move(v)); }
W T* emplace_back(S& s, int v) { return &s.emplace_back(v); }
W void pop_back(S& s) { s.pop_back(); }
W void push_front_copy(S& s, const T& v) { s.push_front(v); }
W void push_front_move(S& s, T& v) { s.push_front(std::move(v)); }
W T* emplace_front(S& s, int v) { return &s.emplace_front(v); }
W void pop_front(S& s) { s.pop_front(); }
W void insert_copy(It* out, S& s, const CIt& p, const T& v) { new (out) It(s.insert(p, v)); }
W void insert_move(It* out, S& s, const CIt& p, T& v) { new (out) It(s.insert(p, std::move(v))); }
W void emplace(It* out, S& s, const CIt& p, int v) { new (out) It(s.emplace(p, v)); }
W void insert_range(It* out, S& s, const CIt& p, const T* f, size_t n) { new (out) It(s.insert(p, f, f + n)); }
W void insert_ilist(It* out, S& s, const CIt& p, std::initializer_list<T> l) { new (out) It(s.insert(p, l)); }
W void insert_input_it(It* out, S& s, const CIt& p, const T* f, size_t n) { new (out) It(s.insert(p, InIt<T>{f}, InIt<T>{f + n})); }
W void erase_one(It* out, S& s, const CIt& p) { new (out) It(s.erase(p)); }
W void erase_range(It* out, S& s, const CIt& p, const CIt& q) { new (out) It(s.erase(p, q)); }
W void clear(S& s) { s.clear(); }
W void assign_count(S& s, size_t n, const T& v) { s.assign(n, v); }
W void assign_range(S& s, const T* f, size_t n) { s.assign(f, f + n); }
W void assign_input_it(S& s, const T* f, size_t n) { s.assign(InIt<T>{f}, InIt<T>{f + n}); }
W void assign_ilist(S& s, std::initializer_list<T> l) { s.assign(l); }
W size_t remove_value(S& s, const T& v) { return s.remove(v); }
W size_t erase_value(S& s, const T& v) { return fixed_containers::erase(s, v); }
#ifndef TRIV
W size_t remove_if(S& s) { return s.remove_if(Pred{}); }
W size_t erase_pred(S& s) { return fixed_containers::erase_if(s, Pred{}); }
#endif
W const T* front(const S& s) { return &s.front(); }
W T* front_mut(S& s) { return &s.front(); }
W const T* back(const S& s) { return &s.back(); }
W T* back_mut(S& s) { return &s.back(); }
W size_t size(const S& s) { return s.size(); }
W bool empty(const S& s) { return s.empty(); }
W size_t max_size(const S& s) { return s.max_size(); }
W bool is_full(const S& s) { return fixed_containers::is_full(s); }
W bool equal(const S& a, const S& b) { return a == b; }
W bool less(const S& a, const S& b) { return (a <=> b) < 0; }
W bool equal_other(const S& a, const S2& b) { return a == b; }
W bool less_other(const S& a, const S2& b) { return (a <=> b) < 0; }
W void it_begin(It* out, S& s) { new (out) It(s.begin()); }
W void it_cbegin(CIt* out, const S& s) { new (out) CIt(s.begin()); }
W void it_end(It* out, S& s) { new (out) It(s.end()); }
W void it_cend(CIt* out, const S& s) { new (out) CIt(s.end()); }
W T* it_deref_mut(const It& p) { return &*p; }
W const T* it_deref(const CIt& p) { return &*p; }
W const T* it_arrow(const CIt& p) { return p.operator->(); }
W void it_inc(CIt* out, CIt& p) { ++p; new (out) CIt(p++); }
W void it_dec(CIt* out, CIt& p) { --p; new (out) CIt(p--); }
W bool it_eq(const CIt& p, const CIt& q) { return p == q; }
W bool it_ne_mixed(const It& p, const CIt& q) { return p != q; }
W void it_convert(CIt* out, const It& p) { new (out) CIt(p); }
W const T* rit_walk(const S& s) { return &*s.crbegin(); }
W const T* rit_walk_mut(S& s) { return &*s.rbegin(); }
W bool rit_empty(const S& s) { return s.rbegin() == s.rend(); }
W const T* rit_inc(const CRIt& p) { CRIt q = p; ++q; q++; return &*q; }
W const T* rit_dec(const CRIt& p) { CRIt q = p; --q; q--; return &*q; }
W bool rit_at_end(const S& s, const CRIt& p) { return p == s.rend(); }
W const T* rit_convert(const RIt& p) { CRIt q = p; return &*q; }
W void rit_base(CIt* out, const CRIt& p) { new (out) CIt(p.base()); }
TYPE(S)
TYPE(S2)
TYPE(T)
TYPE(It)
TYPE(CIt)
TYPE(RIt)
TYPE(CRIt)
