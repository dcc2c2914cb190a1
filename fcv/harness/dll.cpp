#include "common.hpp"
#include "fixed_containers/fixed_doubly_linked_list.hpp"
#ifndef ELT
#define ELT E
#endif
#ifndef IDX
#define IDX std::size_t
#endif
using T = ELT;
using S = fixed_containers::fixed_doubly_linked_list_detail::FixedDoublyLinkedListBase<T, CAP, IDX>;
W void ctor_default(S* m) { new (m) S(); }
W IDX emplace_after_copy(S& s, IDX i, const T& v) { return s.emplace_after_index_and_return_index(i, v); }
W IDX emplace_after_move(S& s, IDX i, T& v) { return s.emplace_after_index_and_return_index(i, std::move(v)); }
W IDX emplace_after_make(S& s, IDX i, int v) { return s.emplace_after_index_and_return_index(i, v); }
W IDX emplace_after_none(S& s, IDX i) { return s.emplace_after_index_and_return_index(i); }
W IDX delete_at(S& s, IDX i) { return s.delete_at_and_return_next_index(i); }
TYPE(S)
TYPE(T)
