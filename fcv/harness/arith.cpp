#include "common.hpp"
#include "fixed_containers/circular_indexing.hpp"
#include "fixed_containers/circular_integer_range_iterator.hpp"
#include "fixed_containers/int_math.hpp"
#include "fixed_containers/integer_range.hpp"
using namespace fixed_containers;
struct CI { std::int64_t c; std::size_t i; };
W void wrap_inc(size_t s, size_t e, size_t i, size_t n, CI* o) { auto x = circular_indexing::increment_index_with_wraparound(IntegerRange::closed_open(s, e), i, n); o->c = x.cycles; o->i = x.integer; }
W void wrap_dec(size_t s, size_t e, size_t i, size_t n, CI* o) { auto x = circular_indexing::decrement_index_with_wraparound(IntegerRange::closed_open(s, e), i, n); o->c = x.cycles; o->i = x.integer; }
W void safe_sub(size_t a, size_t b, CI* o) { auto x = int_math::safe_subtract(a, b); o->c = x.is_negative(); o->i = x.unsigned_value(); }
W std::int64_t safe_sub_signed(size_t a, size_t b) { return int_math::safe_subtract(a, b).template cast<std::int64_t>(); }
W void safe_add(size_t a, std::int64_t b, CI* o) { auto x = int_math::safe_add(a, b); o->c = x.is_negative(); o->i = x.unsigned_value(); }
W size_t div_up(size_t a, size_t b) { return int_math::divide_integers_rounding_up(a, b); }
W bool contains(size_t s, size_t e, size_t i) { return IntegerRange::closed_open(s, e).contains(i); }
W bool contains_or_end(size_t s, size_t e, size_t i) { return integer_range_detail::contains_or_is_equal_to_end(IntegerRange::closed_open(s, e), i); }
W size_t distance(size_t s, size_t e) { return IntegerRange::closed_open(s, e).distance(); }
W size_t citer_deref(size_t s, size_t e, size_t i, size_t n) { return *(CircularIntegerRangeIterator<>(CircularIntegerRangeEntryProvider<>(IntegerRange::closed_open(s, e), {i, 0})) + static_cast<std::ptrdiff_t>(n)); }
W size_t citer_back(size_t s, size_t e, size_t i, size_t n) { return *(CircularIntegerRangeIterator<>(CircularIntegerRangeEntryProvider<>(IntegerRange::closed_open(s, e), {i, 0})) - static_cast<std::ptrdiff_t>(n)); }
W std::ptrdiff_t citer_diff(size_t s, size_t e, size_t i, size_t n)
{
    CircularIntegerRangeIterator<> a(CircularIntegerRangeEntryProvider<>(IntegerRange::closed_open(s, e), {i, 0}));
    return (a + static_cast<std::ptrdiff_t>(n)) - a;
}
TYPE(CI)
