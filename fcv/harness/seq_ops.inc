// wrappers common to FixedVector / FixedDeque / FixedCircularDeque; S = container, T = element
W void ctor_default(S* m) { new (m) S(); }
W void ctor_count(S* m, size_t n) { new (m) S(n); }
W void ctor_count_val(S* m, size_t n, const T& v) { new (m) S(n, v); }
W void ctor_range(S* m, const T* f, size_t n) { new (m) S(f, f + n); }
W void ctor_ilist(S* m, std::initializer_list<T> l) { new (m) S(l); }
W void copy_ctor(S* m, const S& o) { new (m) S(o); }
W void move_ctor(S* m, S& o) { new (m) S(std::move(o)); }
W void copy_assign(S& s, const S& o) { s = o; }
W void move_assign(S& s, S& o) { s = std::move(o); }
W void self_copy_assign(S& s, S& o) { s = o; }
W void self_move_assign(S& s, S& o) { s = std::move(o); }
W void dtor(S& s) { s.~S(); }
W void resize(S& s, size_t n) { s.resize(n); }
W void resize_val(S& s, size_t n, const T& v) { s.resize(n, v); }
W void push_back_copy(S& s, const T& v) { s.push_back(v); }
W void push_back_move(S& s, T& v) { s.push_back(std::move(v)); }
W size_t emplace_back(S& s, int v) { T& r = s.emplace_back(v); return &r == &s[s.size() - 1]; }
W void pop_back(S& s) { s.pop_back(); }
W size_t insert_copy(S& s, size_t i, const T& v) { return s.insert(s.begin() + i, v) - s.begin(); }
W size_t insert_move(S& s, size_t i, T& v) { return s.insert(s.begin() + i, std::move(v)) - s.begin(); }
W size_t insert_range(S& s, size_t i, const T* f, size_t n) { return s.insert(s.begin() + i, f, f + n) - s.begin(); }
W size_t insert_ilist(S& s, size_t i, std::initializer_list<T> l) { return s.insert(s.begin() + i, l) - s.begin(); }
W size_t insert_input_it(S& s, size_t i, const T* f, size_t n) { return s.insert(s.begin() + i, InIt<T>{f}, InIt<T>{f + n}) - s.begin(); }
W size_t emplace(S& s, size_t i, int v) { return s.emplace(s.begin() + i, v) - s.begin(); }
W void assign_count(S& s, size_t n, const T& v) { s.assign(n, v); }
W void assign_range(S& s, const T* f, size_t n) { s.assign(f, f + n); }
W void assign_ilist(S& s, std::initializer_list<T> l) { s.assign(l); }
W void assign_input_it(S& s, const T* f, size_t n) { s.assign(InIt<T>{f}, InIt<T>{f + n}); }
W size_t erase_one(S& s, size_t i) { return s.erase(s.begin() + i) - s.begin(); }
W size_t erase_range(S& s, size_t i, size_t j) { return s.erase(s.begin() + i, s.begin() + j) - s.begin(); }
W void clear(S& s) { s.clear(); }
W const T* index_op(const S& s, size_t i) { return &s[i]; }
W T* index_op_mut(S& s, size_t i) { return &s[i]; }
W const T* at(const S& s, size_t i) { return &s.at(i); }
W T* at_mut(S& s, size_t i) { return &s.at(i); }
W const T* front(const S& s) { return &s.front(); }
W T* front_mut(S& s) { return &s.front(); }
W const T* back(const S& s) { return &s.back(); }
W T* back_mut(S& s) { return &s.back(); }
W size_t size(const S& s) { return s.size(); }
W bool empty(const S& s) { return s.empty(); }
W size_t max_size(const S& s) { return s.max_size(); }
W bool equal(const S& a, const S& b) { return a == b; }
W bool less(const S& a, const S& b) { return (a <=> b) < 0; }
W bool equal_other(const S& a, const S2& b) { return a == b; }
W bool less_other(const S& a, const S2& b) { return (a <=> b) < 0; }
W const T* it_deref(const S& s, size_t i) { return &*(s.begin() + i); }
W T* it_deref_mut(S& s, size_t i) { return &*(s.begin() + i); }
W const T* it_subscript(const S& s, size_t i, size_t j) { return &(s.cbegin() + i)[static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i)]; }
W const T* rit_deref(const S& s, size_t i) { return &*(s.rbegin() + i); }
W T* rit_deref_mut(S& s, size_t i) { return &*(s.rbegin() + i); }
W std::ptrdiff_t it_distance(const S& s) { return s.end() - s.begin(); }
W std::ptrdiff_t rit_distance(const S& s) { return s.rend() - s.rbegin(); }
W const T* it_inc(const S& s, size_t i) { auto it = s.cbegin() + i; ++it; auto k = it++; return &*k; }
W const T* it_dec(const S& s, size_t i) { auto it = s.cbegin() + i; --it; auto k = it--; return &*k; }
W std::ptrdiff_t it_cmp(const S& s, size_t i, size_t j)
{
    auto a = s.cbegin() + i;
    auto b = s.cbegin() + j;
    bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
    return (lt ? 1 : 0) + (gt ? 2 : 0) + (le ? 4 : 0) + (ge ? 8 : 0) + (eq ? 16 : 0) + (ne ? 32 : 0);
}
W size_t it_arith(const S& s, size_t i, size_t j)
{
    auto a = s.cbegin();
    a += i;
    a -= j;
    auto b = a + j;
    auto c = b - j;
    return (b - s.cbegin()) - (a - c);
}
template <class A, class B>
static std::ptrdiff_t order_of(const A& a, const B& b)
{
    bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
    return (lt ? 1 : 0) + (gt ? 2 : 0) + (le ? 4 : 0) + (ge ? 8 : 0) + (eq ? 16 : 0) + (ne ? 32 : 0);
}
W std::ptrdiff_t it_cmp_mut(S& s, size_t i, size_t j) { return order_of(s.begin() + i, s.begin() + j); }
W std::ptrdiff_t it_cmp_mixed(S& s, size_t i, size_t j) { return order_of(s.begin() + i, s.cbegin() + j); }
W std::ptrdiff_t rit_cmp(const S& s, size_t i, size_t j) { return order_of(s.crbegin() + i, s.crbegin() + j); }
W std::ptrdiff_t rit_cmp_mixed(S& s, size_t i, size_t j) { return order_of(s.crbegin() + i, s.rbegin() + j); }
W std::ptrdiff_t it_diff_mixed(S& s, size_t i, size_t j) { return (s.begin() + i) - (s.cbegin() + j); }
W std::ptrdiff_t rit_diff(const S& s, size_t i, size_t j) { return (s.rbegin() + i) - (s.rbegin() + j); }
W const T* it_convert(S& s, size_t i) { S::const_iterator k = s.begin() + i; return &*k; }
W const T* rit_convert(S& s, size_t i) { S::const_reverse_iterator k = s.rbegin() + i; return &*k; }
W const T* it_arrow(const S& s, size_t i) { return (s.begin() + i).operator->(); }
W T* it_plus_mut(S& s, size_t i) { return &*(static_cast<std::ptrdiff_t>(i) + s.begin()); }
W T* it_inc_mut(S& s, size_t i) { auto it = s.begin() + i; ++it; auto k = it++; return &*k; }
W T* it_dec_mut(S& s, size_t i) { auto it = s.begin() + i; --it; auto k = it--; return &*k; }
W const T* rit_inc(const S& s, size_t i) { auto it = s.crbegin() + i; ++it; auto k = it++; return &*k; }
W const T* rit_dec(const S& s, size_t i) { auto it = s.crbegin() + i; --it; auto k = it--; return &*k; }
W const T* rit_subscript(const S& s, size_t i, size_t j) { return &(s.crbegin() + i)[static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i)]; }
W std::ptrdiff_t rit_base(const S& s, size_t i) { return (s.rbegin() + i).base() - s.begin(); }
W size_t rit_arith(const S& s, size_t i, size_t j)
{
    auto a = s.crbegin();
    a += i;
    a -= j;
    auto b = a + j;
    auto c = b - j;
    return (b - s.crbegin()) - (a - c);
}
