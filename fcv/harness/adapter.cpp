#include "common.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
using namespace fixed_containers;
using T = E;
#if KIND == 0
using S = FixedStack<T, CAP, Chk>;
using S2 = FixedStack<T, CAP * 2 + 2, Chk>;
#elif KIND == 1
using S = FixedQueue<T, CAP, Chk>;
using S2 = FixedQueue<T, CAP * 2 + 2, Chk>;
#else
using S = FixedCircularQueue<T, CAP, Chk>;
using S2 = FixedCircularQueue<T, CAP * 2 + 2, Chk>;
#endif
// the wrapper names are those of the sequence contracts they are checked against
W void ctor_default(S* m) { new (m) S(); }
W void ctor_range(S* m, const T* f, size_t n) { new (m) S(f, f + n); }
W void copy_ctor(S* m, const S& o) { new (m) S(o); }
W void move_ctor(S* m, S& o) { new (m) S(std::move(o)); }
W void copy_assign(S& s, const S& o) { s = o; }
W void move_assign(S& s, S& o) { s = std::move(o); }
W void dtor(S& s) { s.~S(); }
W void push_back_copy(S& s, const T& v) { s.push(v); }
W void push_back_move(S& s, T& v) { s.push(std::move(v)); }
#if KIND == 0
W size_t emplace_back(S& s, int v) { s.emplace(v); return 1; }
W void pop_back(S& s) { s.pop(); }
W const T* back(const S& s) { return &s.top(); }
W T* back_mut(S& s) { return &s.top(); }
#else
W size_t emplace_back(S& s, int v) { s.emplace(v); return 1; }
W void pop_front(S& s) { s.pop(); }
W const T* front(const S& s) { return &s.front(); }
W T* front_mut(S& s) { return &s.front(); }
W const T* back(const S& s) { return &s.back(); }
W T* back_mut(S& s) { return &s.back(); }
#endif
W size_t size(const S& s) { return s.size(); }
W size_t max_size(const S& s) { return s.max_size(); }
W bool empty(const S& s) { return s.empty(); }
W bool is_full(const S& s) { return fixed_containers::is_full(s); }
W bool equal(const S& a, const S& b) { return a == b; }
W bool less(const S& a, const S& b) { return (a <=> b) < 0; }
W bool equal_other(const S& a, const S2& b) { return a == b; }
W bool less_other(const S& a, const S2& b) { return (a <=> b) < 0; }
TYPE(S)
TYPE(S2)
TYPE(T)
