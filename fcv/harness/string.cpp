#include "common.hpp"
#include "fixed_containers/fixed_string.hpp"
using namespace fixed_containers;
using T = char;
using S = FixedString<CAP, Chk>;
using S2 = FixedString<CAP * 2 + 1, Chk>;
using SV = std::string_view;
W void ctor_default(S* m) { new (m) S(); }
W void ctor_count_val(S* m, size_t n, char v) { new (m) S(n, v); }
W void ctor_ilist(S* m, std::initializer_list<T> l) { new (m) S(l); }
W void ctor_view(S* m, const T* f, size_t n) { new (m) S(SV(f, n)); }
W void copy_ctor(S* m, const S& o) { new (m) S(o); }
W void move_ctor(S* m, S& o) { new (m) S(std::move(o)); }
W void copy_assign(S& s, const S& o) { s = o; }
W void move_assign(S& s, S& o) { s = std::move(o); }
W void resize(S& s, size_t n) { s.resize(n); }
W void resize_val(S& s, size_t n, char v) { s.resize(n, v); }
W void push_back(S& s, char v) { s.push_back(v); }
W void pop_back(S& s) { s.pop_back(); }
W size_t insert_char(S& s, size_t i, char v) { return s.insert(s.begin() + i, v) - s.begin(); }
W size_t insert_range(S& s, size_t i, const T* f, size_t n) { return s.insert(s.begin() + i, f, f + n) - s.begin(); }
W size_t insert_ilist(S& s, size_t i, std::initializer_list<T> l) { return s.insert(s.begin() + i, l) - s.begin(); }
W size_t insert_view(S& s, size_t i, const T* f, size_t n) { return s.insert(s.begin() + i, SV(f, n)) - s.begin(); }
W size_t insert_input_it(S& s, size_t i, const T* f, size_t n) { return s.insert(s.begin() + i, InIt<T>{f}, InIt<T>{f + n}) - s.begin(); }
W size_t assign_count(S& s, size_t n, char v) { return &s.assign(n, v) == &s; }
W size_t assign_range(S& s, const T* f, size_t n) { return &s.assign(f, f + n) == &s; }
W size_t assign_ilist(S& s, std::initializer_list<T> l) { return &s.assign(l) == &s; }
W size_t assign_view(S& s, const T* f, size_t n) { return &s.assign(SV(f, n)) == &s; }
W size_t append_range(S& s, const T* f, size_t n) { return &s.append(f, f + n) == &s; }
W size_t append_ilist(S& s, std::initializer_list<T> l) { return &s.append(l) == &s; }
W size_t append_view(S& s, const T* f, size_t n) { return &s.append(SV(f, n)) == &s; }
W size_t plus_view(S& s, const T* f, size_t n) { return &(s += SV(f, n)) == &s; }
W size_t plus_ilist(S& s, std::initializer_list<T> l) { return &(s += l) == &s; }
W size_t plus_char(S& s, char c) { return &(s += c) == &s; }
W size_t erase_one(S& s, size_t i) { return s.erase(s.begin() + i) - s.begin(); }
W size_t erase_range(S& s, size_t i, size_t j) { return s.erase(s.begin() + i, s.begin() + j) - s.begin(); }
W void clear(S& s) { s.clear(); }
W const T* index_op(const S& s, size_t i) { return &s[i]; }
W T* index_op_mut(S& s, size_t i) { return &s[i]; }
W const T* at(const S& s, size_t i) { return &s.at(i); }
W T* at_mut(S& s, size_t i) { return &s.at(i); }
W const T* front(const S& s) { return &s.front(); }
W T* front_mut(S& s) { return &s.front(); }
W const T* back(const S& s) { return &s.back(); }
W T* back_mut(S& s) { return &s.back(); }
W const T* data(const S& s) { return s.data(); }
W T* data_mut(S& s) { return s.data(); }
W const T* c_str(const S& s) { return s.c_str(); }
W const T* view_data(const S& s) { return SV(s).data(); }
W size_t view_size(const S& s) { return SV(s).size(); }
W size_t size(const S& s) { return s.size(); }
W size_t length(const S& s) { return s.length(); }
W size_t max_size(const S& s) { return s.max_size(); }
W size_t capacity(const S& s) { return s.capacity(); }
W bool empty(const S& s) { return s.empty(); }
W bool is_full(const S& s) { return fixed_containers::is_full(s); }
W void reserve(S& s, size_t n) { s.reserve(n); }
W const T* it_deref(const S& s, size_t i) { return &*(s.begin() + i); }
W T* it_deref_mut(S& s, size_t i) { return &*(s.begin() + i); }
W const T* rit_deref(const S& s, size_t i) { return &*(s.rbegin() + i); }
W size_t it_distance(const S& s) { return s.end() - s.begin(); }
W size_t rit_distance(const S& s) { return s.rend() - s.rbegin(); }
W size_t substr_size(const S& s, size_t p, size_t n) { return s.substr(p, n).size(); }
W const T* substr_data(const S& s, size_t p, size_t n) { return s.substr(p, n).data(); }
W bool equal(const S& a, const S& b) { return a == b; }
W bool equal_view(const S& a, const T* f, size_t n) { return a == SV(f, n); }
W int compare_view(const S& a, const T* f, size_t n) { return a.compare(SV(f, n)); }
W bool less(const S& a, const S& b) { return a < b; }
W bool less_view(const S& a, const T* f, size_t n) { return a < SV(f, n); }
W bool starts_with_view(const S& a, const T* f, size_t n) { return a.starts_with(SV(f, n)); }
W bool ends_with_view(const S& a, const T* f, size_t n) { return a.ends_with(SV(f, n)); }
W bool starts_with_char(const S& a, char c) { return a.starts_with(c); }
W bool ends_with_char(const S& a, char c) { return a.ends_with(c); }
W size_t find_char(const S& a, char c, size_t p) { return a.find(c, p); }
W size_t rfind_char(const S& a, char c, size_t p) { return a.rfind(c, p); }
W void ctor_cstr(S* m, const T* p) { new (m) S(p); }
W size_t asg_cstr(S& s, const T* p) { return &(s = p) == &s; }
W size_t asg_view(S& s, const T* f, size_t n) { return &(s = SV(f, n)) == &s; }
W size_t asg_ilist(S& s, std::initializer_list<T> l) { return &(s = l) == &s; }
W size_t assign_cstr(S& s, const T* p) { return &s.assign(p) == &s; }
W size_t append_cstr(S& s, const T* p) { return &s.append(p) == &s; }
W size_t plus_cstr(S& s, const T* p) { return &(s += p) == &s; }
W bool equal_cstr(const S& a, const T* p) { return a == p; }
W bool less_cstr(const S& a, const T* p) { return a < p; }
W int compare_cstr(const S& a, const T* p) { return a.compare(p); }
W int compare_other(const S& a, const S2& b) { return a.compare(b); }
W bool equal_other(const S& a, const S2& b) { return a == b; }
W bool less_other(const S& a, const S2& b) { return a < b; }
W bool starts_with_cstr(const S& a, const T* p) { return a.starts_with(p); }
W bool ends_with_cstr(const S& a, const T* p) { return a.ends_with(p); }
#define FIND(f)                                                                                        \
    W size_t f##_view(const S& a, const T* p, size_t n, size_t pos) { return a.f(SV(p, n), pos); }     \
    W size_t f##_n(const S& a, const T* p, size_t pos, size_t n) { return a.f(p, pos, n); }            \
    W size_t f##_cstr(const S& a, const T* p, size_t pos) { return a.f(p, pos); }                      \
    W size_t f##_other(const S& a, const S2& b, size_t pos) { return a.f(b, pos); }                    \
    W size_t f##_view_def(const S& a, const T* p, size_t n) { return a.f(SV(p, n)); }                  \
    W size_t f##_cstr_def(const S& a, const T* p) { return a.f(p); }                                   \
    W size_t f##_other_def(const S& a, const S2& b) { return a.f(b); }                                 \
    W size_t f##_char_def(const S& a, char c) { return a.f(c); }
FIND(find)
FIND(rfind)
FIND(find_first_of)
FIND(find_first_not_of)
FIND(find_last_of)
FIND(find_last_not_of)
W size_t find_first_of_char(const S& a, char c, size_t p) { return a.find_first_of(c, p); }
W size_t find_first_not_of_char(const S& a, char c, size_t p) { return a.find_first_not_of(c, p); }
W size_t find_last_of_char(const S& a, char c, size_t p) { return a.find_last_of(c, p); }
W size_t find_last_not_of_char(const S& a, char c, size_t p) { return a.find_last_not_of(c, p); }
TYPE(S)
TYPE(S2)
TYPE(T)
