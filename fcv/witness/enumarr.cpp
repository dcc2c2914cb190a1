// EnumArray, and the ways of creating EnumSet / EnumMap (factories, builders), against std::array / std::map
#include "wit.hpp"
#include <array>
#include "fixed_containers/enum_array.hpp"
#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/enum_utils.hpp"
using namespace wit;
using namespace fixed_containers;
#ifdef TRIV
using VT = int;
enum class En { A, B, C, D, E, F, G };
#else
using VT = El;
enum class En { A = -7, B = -1, C = 0, D = 3, E = 4, F = 11, G = 100 };
#endif
static const std::array<En, 7> L{En::A, En::B, En::C, En::D, En::E, En::F, En::G};
static int vv(int x) { return x; }
static int vv(const El& x) { return x.v; }
struct Rej
{
    const char* what;
};
struct EChk
{
    [[noreturn]] static void missing_enum_entries(const std_transition::source_location&) { throw Rej{"missing"}; }
    [[noreturn]] static void duplicate_enum_entries(const std_transition::source_location&) { throw Rej{"duplicate"}; }
    [[noreturn]] static void out_of_range(const En&, const std::size_t, const std_transition::source_location&) { throw Rej{"out_of_range"}; }
};
using A = EnumArray<En, VT>;
using M = EnumMap<En, VT, EChk>;
using S = EnumSet<En>;
using PV = std::vector<std::pair<const En, VT>>;
using O = std::array<int, 7>;

static void check(const A& a, const O& o, const char* w)
{
    if (a.size() != 7 || a.max_size() != 7 || a.empty()) fail("functional", std::string(w) + ": EnumArray size");
    for (std::size_t i = 0; i < 7; ++i)
        if (vv(a.at(L[i])) != o[i] || vv(a[L[i]]) != o[i] || vv(a.data()[i]) != o[i] || vv(*(a.begin() + static_cast<long>(i))) != o[i] || vv(*(a.rbegin() + static_cast<long>(6 - i))) != o[i] || a.labels()[i] != L[i])
            fail("functional", std::string(w) + ": EnumArray element " + std::to_string(i));
    if (vv(a.front()) != o[0] || vv(a.back()) != o[6] || a.end() - a.begin() != 7) fail("functional", std::string(w) + ": EnumArray ends");
}
static void check(const M& m, const std::map<int, int>& o, const char* w)
{
    if (m.size() != o.size()) fail("functional", std::string(w) + ": EnumMap size");
    auto q = o.begin();
    for (auto&& [k, v] : m)
    {
        if (q == o.end() || k != L[static_cast<std::size_t>(q->first)] || vv(v) != q->second) fail("functional", std::string(w) + ": EnumMap entries");
        ++q;
    }
    if (q != o.end()) fail("functional", std::string(w) + ": EnumMap entries missing");
}
static void check(const S& s, const std::set<int>& o, const char* w)
{
    if (s.size() != o.size()) fail("functional", std::string(w) + ": EnumSet size");
    auto q = o.begin();
    for (auto k : s)
    {
        if (q == o.end() || k != L[static_cast<std::size_t>(*q)]) fail("functional", std::string(w) + ": EnumSet labels");
        ++q;
    }
    if (q != o.end()) fail("functional", std::string(w) + ": EnumSet labels missing");
}
struct Run
{
    Rng& r;
    void go(std::size_t len)
    {
        A a[2];
        O o[2] = {{}, {}};
        check(a[0], o[0], "value-initialised");
        for (std::size_t n = 0; n < len; ++n)
        {
            std::size_t w = r.below(2), i = r.below(7), op = r.below(12);
            int v = static_cast<int>(r.below(5));
            log("%zu:%zu,%zu,%d", op, w, i, v);
            switch (op)
            {
            case 0: a[w].at(L[i]) = VT(v); o[w][i] = v; break;
            case 1: a[w][L[i]] = VT(v); o[w][i] = v; break;
            case 2: a[w].fill(VT(v)); o[w].fill(v); break;
            case 3: a[0].swap(a[1]); o[0].swap(o[1]); break;
            case 4: a[w] = a[1 - w]; o[w] = o[1 - w]; break;
            case 5: *(a[w].begin() + static_cast<long>(i)) = VT(v); o[w][i] = v; break;
            case 6: a[w].front() = VT(v); a[w].back() = VT(v + 1); o[w][0] = v; o[w][6] = v + 1; break;
            case 7:
            {
                A b{{L[i], VT(v)}, {L[(i + 3) % 7], VT(9)}, {L[i], VT(v + 1)}};
                O ob{};
                ob[(i + 3) % 7] = 9;
                ob[i] = v + 1;
                check(b, ob, "list constructor");
                break;
            }
            case 8:
            {
                if ((a[0] == a[1]) != (o[0] == o[1]) || (a[0] < a[1]) != (o[0] < o[1])) fail("functional", "EnumArray comparison");
                break;
            }
            default: build(op); break;
            }
            check(a[w], o[w], "EnumArray");
        }
    }
    void build(std::size_t op)
    {
        std::vector<int> k;
        for (std::size_t n = r.below(11); n > 0; --n) k.push_back(static_cast<int>(r.below(7)));
        if (r.coin()) for (int i = 0; i < 7; ++i) k.push_back(i);
        if (r.coin())
        {
            std::set<int> u(k.begin(), k.end());
            k.assign(u.begin(), u.end());
            for (std::size_t n = k.size(); n > 1; --n) std::swap(k[n - 1], k[r.below(n)]);
        }
        for (int x : k) log("k%d", x);
        PV pv;
        std::vector<En> lv;
        std::map<int, int> m;
        std::set<int> s(k.begin(), k.end());
        int c = 0;
        for (int x : k)
        {
            pv.emplace_back(L[static_cast<std::size_t>(x)], VT(++c));
            lv.push_back(L[static_cast<std::size_t>(x)]);
            m.emplace(x, c);
        }
        std::set<int> comp;
        for (int i = 0; i < 7; ++i) if (!s.count(i)) comp.insert(i);
        std::map<int, int> mk;
        for (int x : s) mk[x] = 42;
        if (op == 9)
        {
            const char* want = k.size() != s.size() ? "duplicate" : s.size() != 7 ? "missing" : "";
            try
            {
                M e = M::create_with_all_entries(pv);
                if (*want) fail("policy", std::string("create_with_all_entries accepted ") + want + " entries");
                check(e, m, "create_with_all_entries");
            }
            catch (const Rej& x)
            {
                if (std::string(x.what) != want && !(k.size() != s.size() && s.size() != 7)) fail("policy", std::string("create_with_all_entries rejected with ") + x.what + ", expected '" + want + "'");
                if (!*want) fail("policy", "create_with_all_entries rejected a complete list");
            }
        }
        else if (op == 10)
        {
            check(M::create_with_keys(lv, VT(42)), mk, "create_with_keys");
            check(typename M::Builder{}.insert(pv.begin(), pv.end()).build(), m, "EnumMap builder");
            typename M::Builder b{};
            for (const auto& p : pv) b.insert(p);
            check(b.build(), m, "EnumMap builder");
            check(std::move(b).build(), m, "EnumMap builder, moved");
            const M cm(pv.begin(), pv.end());
            check(cm, m, "range constructor");
            for (int i : s)
                if (vv(cm.at(L[static_cast<std::size_t>(i)])) != m[i]) fail("functional", "EnumMap::at");
        }
        else
        {
            check(S::copy_of(lv), s, "copy_of");
            check(S::complement_of(lv), comp, "complement_of");
            check(S::complement_of(S::copy_of(lv)), comp, "complement_of(set)");
            check(typename S::Builder{}.insert(lv.begin(), lv.end()).build(), s, "EnumSet builder");
            check(typename S::Builder{}.insert(S::copy_of(lv)).build(), s, "EnumSet builder");
            check(typename S::Builder{}.insert(lv.begin(), lv.end()).erase(L[2]).build(), [&] { auto t = s; t.erase(2); return t; }(), "EnumSet builder with erase");
            check(S::all(), {0, 1, 2, 3, 4, 5, 6}, "all");
            check(S::none(), {}, "none");
            for (std::size_t i = 0; i < 7; ++i)
                if (rich_enums::EnumAdapter<En>::ordinal(L[i]) != i || rich_enums::EnumAdapter<En>::values()[i] != L[i]) fail("functional", "ordinal");
        }
    }
};
int main(int argc, char** argv)
{
    return main_loop(argc, argv, [](Rng& r, std::size_t len) { Run{r}.go(len); });
}
