#include "common.hpp"
#include "fixed_containers/fixed_vector.hpp"
using namespace fixed_containers;
#ifndef ELT
#define ELT E
#endif
using T = ELT;
using S = FixedVector<T, CAP, Chk>;
using S2 = FixedVector<T, CAP * 2 + 2, Chk>;
#include "seq_ops.inc"
W const T* data(const S& s) { return s.data(); }
W T* data_mut(S& s) { return s.data(); }
W size_t capacity(const S& s) { return s.capacity(); }
W void reserve(S& s, size_t n) { s.reserve(n); }
W size_t erase_value(S& s, const T& v) { return fixed_containers::erase(s, v); }
#ifndef TRIV
W size_t erase_pred(S& s) { return fixed_containers::erase_if(s, Pred{}); }
#endif
W bool is_full(const S& s) { return fixed_containers::is_full(s); }
TYPE(S)
TYPE(S2)
TYPE(T)
