#include "common.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
using namespace fixed_containers;
#ifndef ELT
#define ELT E
#endif
using T = ELT;
#ifdef CIRC
using S = FixedCircularDeque<T, CAP, Chk>;
using S2 = FixedCircularDeque<T, CAP * 2 + 2, Chk>;
#else
using S = FixedDeque<T, CAP, Chk>;
using S2 = FixedDeque<T, CAP * 2 + 2, Chk>;
#endif
#include "seq_ops.inc"
W void push_front_copy(S& s, const T& v) { s.push_front(v); }
W void push_front_move(S& s, T& v) { s.push_front(std::move(v)); }
W size_t emplace_front(S& s, int v) { T& r = s.emplace_front(v); return &r == &s[0]; }
W void pop_front(S& s) { s.pop_front(); }
W size_t erase_value(S& s, const T& v) { return fixed_containers::erase(s, v); }
#ifndef TRIV
W size_t erase_pred(S& s) { return fixed_containers::erase_if(s, Pred{}); }
#endif
W bool is_full(const S& s) { return fixed_containers::is_full(s); }
TYPE(S)
TYPE(S2)
TYPE(T)
