// Assignment of containers whose element type is trivially assignable but not trivially destructible: the target's old elements have to be destroyed (or assigned to) and the
// new ones constructed, whatever the element's assignment operator looks like. Prints one FINDING line per container for which the number of live elements is wrong afterwards.
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include <cstdio>
#include <utility>

static int live = 0;
struct T
{
    int v;
    T(int x = 0) : v(x) { ++live; }
    T(const T& o) : v(o.v) { ++live; }
    T(T&& o) noexcept : v(o.v) { ++live; }
    T& operator=(const T&) = default;
    T& operator=(T&&) noexcept = default;
    ~T() { --live; }
    bool operator==(const T&) const = default;
};
enum class L { A, B, C, D };

template <class C, class Put>
void run(const char* name, Put put)
{
    for (int mv = 0; mv < 2; mv++)
    {
        bool bad = false;
        for (int n = 0; n <= 4; n++)
            for (int m = 0; m <= 4; m++)
            {
                live = 0;
                {
                    C a, b;
                    for (int i = 0; i < n; i++) put(a, i);
                    for (int i = 0; i < m; i++) put(b, i);
                    if (mv) a = std::move(b); else a = b;
                    const int want = static_cast<int>(a.size() + b.size());
                    if (live != want || a.size() != static_cast<std::size_t>(m)) bad = true;
                    live = 0;
                    for (std::size_t i = 0; i < a.size() + b.size(); i++) ++live;
                }
                if (live != 0) bad = true;
            }
        if (bad) std::printf("FINDING key=trivially-assignable-element:%s:%s\n", name, mv ? "move" : "copy");
    }
    std::printf("DONE %s\n", name);
}

int main()
{
    using namespace fixed_containers;
    run<FixedVector<T, 4>>("FixedVector", [](auto& c, int i) { c.push_back(T{i}); });
    run<FixedDeque<T, 4>>("FixedDeque", [](auto& c, int i) { c.push_back(T{i}); });
    run<FixedCircularDeque<T, 4>>("FixedCircularDeque", [](auto& c, int i) { c.push_back(T{i}); });
    run<FixedList<T, 4>>("FixedList", [](auto& c, int i) { c.push_back(T{i}); });
    run<FixedMap<int, T, 4>>("FixedMap", [](auto& c, int i) { c.try_emplace(i, i); });
    run<FixedUnorderedMap<int, T, 4>>("FixedUnorderedMap", [](auto& c, int i) { c.try_emplace(i, i); });
    run<EnumMap<L, T>>("EnumMap", [](auto& c, int i) { c.try_emplace(static_cast<L>(i), i); });
    return 0;
}
