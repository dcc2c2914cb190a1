// index arithmetic against 128-bit integers
#include "wit.hpp"
#include "fixed_containers/circular_indexing.hpp"
#include "fixed_containers/circular_integer_range_iterator.hpp"
#include "fixed_containers/int_math.hpp"
#include "fixed_containers/integer_range.hpp"
using namespace wit;
using namespace fixed_containers;
using I = __int128;
using U = std::size_t;
static U some(Rng& r)
{
    static const U edges[] = {0, 1, 2, 3, 7, 8, 1000, 1ULL << 31, 1ULL << 32, 1ULL << 61, 1ULL << 62, (1ULL << 63) - 1, 1ULL << 63, (1ULL << 63) + 1, ~0ULL - 1, ~0ULL};
    switch (r.below(4))
    {
    case 0: return r.below(12);
    case 1: return edges[r.below(16)] + r.below(5) - 2;
    case 2: return edges[r.below(16)];
    default: return r.next() >> r.below(64);
    }
}
static void wrap(U s, U e, U i, U n, int sign)
{
    I R = I(e) - I(s);
    if (R < 1) return;
    if (sign > 0 ? (I(i) + n > I(~0ULL) || I(i) + n < I(s)) : (i < s || I(i) + R > I(~0ULL) || I(n) + R > I(~0ULL))) return;
    log("%s_index_with_wraparound([%zu,%zu), %zu, %zu)", sign > 0 ? "increment" : "decrement", s, e, i, n);
    auto x = sign > 0 ? circular_indexing::increment_index_with_wraparound(IntegerRange::closed_open(s, e), i, n)
                      : circular_indexing::decrement_index_with_wraparound(IntegerRange::closed_open(s, e), i, n);
    I t = I(i) + sign * I(n) - I(s);
    I m = ((t % R) + R) % R;
    EXPECT("functional", I(x.integer) == I(s) + m, "wrapped index is %zu, expected %zu", x.integer, U(I(s) + m));
    if (i < (1ULL << 62) && n < (1ULL << 62) && e < (1ULL << 62))
        EXPECT("functional", I(x.cycles) == (t - m) / R, "cycle count is %ld, expected %ld", long(x.cycles), long((t - m) / R));
}
int main(int argc, char** argv)
{
    return main_loop(argc, argv, [](Rng& r, std::size_t)
    {
        U a = some(r), b = some(r), c = some(r), d = some(r);
        if (r.coin() && b < a) std::swap(a, b);
        if (r.coin() && b > a) c = a + c % (b - a);
        if (a <= b)
        {
            wrap(a, b, c, d, 1);
            wrap(a, b, c, d, -1);
            log("closed_open(%zu,%zu)", a, b);
            auto g = IntegerRange::closed_open(a, b);
            EXPECT("functional", g.contains(c) == (a <= c && c < b), "contains(%zu) wrong", c);
            EXPECT("functional", integer_range_detail::contains_or_is_equal_to_end(g, c) == ((a <= c && c < b) || c == b), "contains_or_is_equal_to_end(%zu) wrong", c);
            EXPECT("functional", g.distance() == b - a, "distance wrong");
            if (a == b)
            {
                auto x = circular_indexing::increment_index_with_wraparound(g, 0, d), y = circular_indexing::decrement_index_with_wraparound(g, 0, d);
                EXPECT("functional", x.integer == 0 && x.cycles == 0 && y.integer == 0 && y.cycles == 0, "empty range does not stay at zero (%zu)", d);
            }
            const U M = 1ULL << 62;
            if (a < b && b < M && d < M)
            {
                U i = a + c % (b - a);
                log("CircularIntegerRangeIterator at %zu, n=%zu", i, d);
                CircularIntegerRangeIterator<> it(CircularIntegerRangeEntryProvider<>(g, {i, 0}));
                I R = I(b) - a, f = ((I(i) - a + d) % R + R) % R + a, k = ((I(i) - a - d) % R + R) % R + a;
                auto fw = it + static_cast<std::ptrdiff_t>(d);
                auto bw = it - static_cast<std::ptrdiff_t>(d);
                EXPECT("functional", I(*fw) == f && I(*bw) == k, "iterator +-n wrong");
                EXPECT("functional", fw - it == static_cast<std::ptrdiff_t>(d) && it - fw == -static_cast<std::ptrdiff_t>(d), "iterator difference wrong");
                EXPECT("functional", (d == 0) == (fw == it) && (d == 0 || it < fw), "iterator order wrong");
            }
        }
        log("safe_subtract(%zu,%zu)", a, b);
        auto s = int_math::safe_subtract(a, b);
        EXPECT("functional", s.is_negative() == (a < b) && s.unsigned_value() == (a < b ? b - a : a - b), "safe_subtract wrong");
        I df = I(a) - I(b);
        if (df < (I(1) << 63) && -df < (I(1) << 63)) EXPECT("functional", I(s.template cast<std::int64_t>()) == df, "signed difference wrong");
        auto sb = static_cast<std::int64_t>(d);
        if (d != (1ULL << 63) && I(a) + sb <= I(~0ULL))
        {
            log("safe_add(%zu,%ld)", a, long(sb));
            auto t = int_math::safe_add(a, sb);
            I x = I(a) + sb;
            EXPECT("functional", t.is_negative() == (x < 0) && I(t.unsigned_value()) == (x < 0 ? -x : x), "safe_add wrong");
        }
        if (c >= 1 && d >= 1)
        {
            log("divide_integers_rounding_up(%zu,%zu)", c, d);
            U q = int_math::divide_integers_rounding_up(c, d);
            EXPECT("functional", I(q) == (I(c) + d - 1) / d, "rounded quotient wrong");
        }
    });
}
