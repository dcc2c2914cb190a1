// FixedSet (pool / contiguous storage / dedicated color), FixedUnorderedSet, EnumSet against std::set<int>
#include "wit.hpp"
#include "fixed_containers/enum_set.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
using namespace wit;
using namespace fixed_containers;
#ifdef TRIV
using KT = int;
using VT = int;
#else
using KT = El;
using VT = El;
#endif
struct HashEl  // stateful: copies and assignments of a container must take the hasher along
{
    int mode = 0;
    std::uint64_t operator()(const KT& k) const
    {
        auto v = static_cast<std::uint64_t>(val(k));
        switch (mode)
        {
        case 0: return ((v % 3) << 8) | (v & 1);  // few buckets and fingerprints
        case 1: { Rng q{v}; return q.next(); }
        case 2: return 0x7FF;
        default: return (v << 8) | (~v & 0xFF);
        }
    }
};
struct CmpI
{
    bool rev = false;
    bool operator()(int a, int b) const { return rev ? b < a : a < b; }
};
struct CmpEl
{
    bool rev = false;
    bool operator()(const KT& a, const KT& b) const { return rev ? val(b) < val(a) : val(a) < val(b); }
};
#ifdef TRIV
enum class En { A, B, C, D, E, F, G };
constexpr En LABELS[] = {En::A, En::B, En::C, En::D, En::E, En::F, En::G};
#else
enum class En { A = -7, B = -1, C = 0, D = 3, E = 4, F = 11, G = 100 };
constexpr En LABELS[] = {En::A, En::B, En::C, En::D, En::E, En::F, En::G};
#endif
using M = std::set<int, CmpI>;

#if KIND == 4
using K = En;
static K key(int k) { return LABELS[k]; }
static int kv(En e) { return static_cast<int>(std::find(LABELS, LABELS + 7, e) - LABELS); }
#else
using K = KT;
static K key(int k) { return K(k); }
static int kv(const K& k) { return val(k); }
#endif
constexpr bool ORD = KIND != 3;
constexpr bool TREE = KIND <= 2;
constexpr bool STABLE = KIND != 1;  // contiguous storage moves the last entry on erase

template <std::size_t N>
struct Sel
{
#if KIND == 0
    using type = FixedSet<K, N, CmpEl, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, FixedIndexBasedPoolStorage, Chk>;
#elif KIND == 1
    using type = FixedSet<K, N, CmpEl, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, FixedIndexBasedContiguousStorage, Chk>;
#elif KIND == 2
    using type = FixedSet<K, N, CmpEl, fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, FixedIndexBasedPoolStorage, Chk>;
#elif KIND == 3
    using type = FixedUnorderedSet<K, N, HashEl, std::equal_to<K>, fixed_robinhood_hashtable_detail::default_bucket_count(N), Chk>;
#else
    using type = EnumSet<K>;
#endif
};

template <std::size_t N>
struct Run
{
    using S = typename Sel<N>::type;
    static constexpr int KEYS = KIND == 4 ? 7 : static_cast<int>(2 * N + 1);
    Rng& r;
    struct C
    {
        S* s = nullptr;
        M o;
        std::map<int, const void*> where;
    } c[2];
    explicit Run(Rng& q) : r(q) {}
    std::size_t steps = 0;
    static constexpr bool BIG = N >= 100;
    // an empty container with a comparator / hasher of its own
    S* fresh(void* m, C& x, int w)
    {
#if KIND <= 2
        bool rev = r.coin(1, 4);
        log("c%d=S(%s)", w, rev ? "descending" : "");
        x.o = M(CmpI{rev});
        return new (m) S(CmpEl{rev});
#elif KIND == 3
        int h = static_cast<int>(r.below(4));
        log("c%d=S(hash %d)", w, h);
        return new (m) S(HashEl{h});
#else
        log("c%d=S()", w);
        return new (m) S();
#endif
    }
    template <class It>
    static int kof(It it) { return kv(*it); }
    void check(C& x, const char* op)
    {
        const S& s = *x.s;
        if (g_bad) throw Skip{};
        EXPECT("functional", s.size() == x.o.size(), "%s: size is %zu, expected %zu", op, s.size(), x.o.size());
        EXPECT("functional", s.empty() == x.o.empty() && s.max_size() == N && is_full(s) == (s.size() == N), "%s: empty()/max_size()/is_full() wrong", op);
        std::size_t n = 0;
        std::set<int> seen;
        auto oi = x.o.begin();
        for (auto it = s.cbegin(); it != s.cend(); ++it)
        {
            EXPECT("functional", ++n <= x.o.size(), "%s: traversal visits too many entries", op);
            int k = kof(it);
            EXPECT("functional", seen.insert(k).second, "%s: key %d visited twice", op, k);
            if (ORD)
            {
                EXPECT("functional", *oi == k, "%s: traversal yields %d, expected %d", op, k, *oi);
                ++oi;
            }
            else
                EXPECT("functional", x.o.count(k), "%s: traversal yields unexpected %d", op, k);
        }
        EXPECT("functional", n == x.o.size(), "%s: traversal visits %zu of %zu entries", op, n, x.o.size());
#if KIND != 3
        {
            auto ri = x.o.rbegin();
            std::size_t m = 0;
            for (auto it = s.crbegin(); it != s.crend(); ++it, ++ri) EXPECT("functional", ++m <= x.o.size() && kof(it) == *ri, "%s: reverse traversal differs", op);
            EXPECT("functional", m == x.o.size(), "%s: reverse traversal stops early", op);
            auto it = s.cend();
            for (ri = x.o.rbegin(); ri != x.o.rend(); ++ri)
            {
                --it;
                EXPECT("functional", kof(it) == *ri, "%s: decrement differs", op);
            }
        }
#endif
        for (int k = 0; k < KEYS; ++k)
        {
            K q = key(k);
            bool in = x.o.count(k);
            EXPECT("functional", s.contains(q) == in, "%s: contains(%d) is %d", op, k, s.contains(q));
#if KIND != 4
            EXPECT("functional", s.count(q) == in, "%s: count(%d) wrong", op, k);
#endif
            auto it = s.find(q);
            EXPECT("functional", (it != s.cend()) == in, "%s: find(%d) wrong", op, k);
            if (in)
            {
                EXPECT("functional", kof(it) == k, "%s: find(%d) yields %d", op, k, kof(it));
#if KIND != 4
                const void* v = &*it;
                auto w = x.where.find(k);
                if (STABLE) EXPECT("stability", w == x.where.end() || w->second == v, "%s: key %d moved", op, k);
                EXPECT("bounds", reinterpret_cast<const char*>(v) >= reinterpret_cast<const char*>(x.s) && reinterpret_cast<const char*>(v) < reinterpret_cast<const char*>(x.s + 1), "%s: key outside the object", op);
                x.where[k] = v;
#endif
            }
            else
                x.where.erase(k);
        }
#ifndef TRIV
        std::size_t want = x.o.size() * (KIND == 4 ? 0 : 1);
        EXPECT("lifetime", live_in(x.s, sizeof(S)) == want, "%s: %zu live elements in the container, expected %zu", op, live_in(x.s, sizeof(S)), want);
#endif
    }
    void* mem()
    {
        void* p = ::operator new(sizeof(S));
        std::memset(p, static_cast<int>(r.below(256)), sizeof(S));
        return p;
    }
    void drop(C& x)
    {
        if (!x.s) return;
        x.s->~S();
#ifndef TRIV
        EXPECT("lifetime", live_in(x.s, sizeof(S)) == 0, "destructor leaves %zu elements alive", live_in(x.s, sizeof(S)));
#endif
        ::operator delete(x.s);
        x.s = nullptr;
        x.o.clear();
        x.where.clear();
    }
    int rk() { return static_cast<int>(r.below(static_cast<std::size_t>(KEYS))); }
    int rv() { return static_cast<int>(r.below(50)) + 1; }
    std::vector<K> range(M& o, std::size_t cap, bool& over)
    {
        std::vector<K> out;
        std::size_t n = r.below(N + 2);
        out.reserve(n + 1);
        over = false;
        for (std::size_t i = 0; i < n; ++i)
        {
            int k = rk();
            out.push_back(key(k));
            if (o.count(k)) continue;
            if (o.size() == cap) { over = true; break; }
            o.insert(k);
        }
        return out;
    }
    // a moved-from map stays valid: it can be looked into, cleared and used again
    void moved_from(C& y)
    {
        const S& s = *y.s;
        std::size_t n = 0;
        for (auto it = s.cbegin(); it != s.cend() && n <= N; ++it) ++n;
        EXPECT("functional", n == s.size(), "moved-from: %zu entries visited, size is %zu", n, s.size());
        if (r.coin())
        {
            for (int k = 0; k < KEYS; ++k)
            {
                K q = key(k);
                (void)s.contains(q);
            }
        }
        if (r.coin(1, 4)) { log("drop moved-from"); drop(y); return; }
        log("moved-from.clear");
        y.s->clear();
        y.o.clear();
        y.where.clear();
        check(y, "clear of moved-from");
    }
    void build(C& x, int w)
    {
        drop(x);
        C& y = c[1 - w];
        void* m = mem();
        switch (r.below(4))
        {
        case 0:
        {
            bool over;
            x.o = M();
            auto in = range(x.o, N, over);
            if (over) { x.o.clear(); x.s = fresh(m, x, w); break; }
            log("c%d=S(range %zu)", w, in.size());
            for (auto& e : in) log("%d", kv(e));
            x.s = new (m) S(in.begin(), in.end());
            break;
        }
        case 1: if (y.s) { log("c%d=S(copy)", w); x.s = new (m) S(std::as_const(*y.s)); x.o = y.o; check(y, "copy source"); break; } [[fallthrough]];
        case 2: if (y.s) { log("c%d=S(move)", w); x.s = new (m) S(std::move(*y.s)); x.o = y.o; check(x, "move ctor"); moved_from(y); break; } [[fallthrough]];
        default: x.s = fresh(m, x, w);
        }
        check(x, "ctor");
    }
    void step()
    {
        int w = static_cast<int>(r.below(2));
        C& x = c[w];
        C& y = c[1 - w];
        if (!x.s) { build(x, w); return; }
        S& s = *x.s;
        M& o = x.o;
        int k = rk();
        const bool in = o.count(k);
        const char* full = !in && o.size() == N ? "length_error" : nullptr;
        K q = key(k);
        auto ins = [&](auto p)
        {
            EXPECT("functional", p.second == !in, "inserted flag is %d", p.second);
            EXPECT("functional", kof(p.first) == k, "returned iterator designates %d", kof(p.first));
        };
        switch (r.below(22))
        {
        case 0: case 1: log("c%d.insert(%d)", w, k); if (guarded("insert", full, [&] { ins(s.insert(q)); })) o.insert(k); break;
        case 2: case 3: log("c%d.insert(move %d)", w, k); if (guarded("insert", full, [&] { ins(s.insert(std::move(q))); })) o.insert(k); break;
        case 4: case 5: log("c%d.insert(hint, %d)", w, k); if (guarded("insert", full, [&] { auto it = r.coin() ? s.insert(s.cend(), q) : s.insert(s.cbegin(), std::move(q)); EXPECT("functional", kof(it) == k, "insert(hint) yields %d", kof(it)); })) o.insert(k); break;
        case 6: case 7: log("c%d.emplace(%d)", w, k); if (guarded("emplace", full, [&] { ins(s.emplace(q)); })) o.insert(k); break;
        case 8: case 9: case 10:
            log("c%d.erase(%d)", w, k);
            EXPECT("functional", s.erase(q) == static_cast<std::size_t>(in), "erase(key) count wrong");
            o.erase(k);
            break;
        case 11: case 12:
        {
            if (o.empty()) break;
            auto it = s.cbegin();
            for (std::size_t j = r.below(o.size()); j > 0; --j) ++it;
            int e = kof(it);
            auto nx = it;
            ++nx;
            bool last = nx == s.cend();
            int nk = last ? -1 : kof(nx);
            log("c%d.erase(iterator at %d)", w, e);
            auto ret = s.erase(it);
            o.erase(e);
            EXPECT("functional", last ? ret == s.end() : (ret != s.end() && kof(ret) == nk), "erase(iterator) returns the wrong position");
            break;
        }
        case 13:
        {
            std::size_t a = r.below(o.size() + 1), b = a + r.below(o.size() - a + 1);
            std::vector<int> ks;
            for (auto it = s.cbegin(); it != s.cend(); ++it) ks.push_back(kof(it));
            auto f = s.cbegin();
            for (std::size_t j = 0; j < a; ++j) ++f;
            auto l = f;
            for (std::size_t j = a; j < b; ++j) ++l;
            log("c%d.erase([%zu,%zu))", w, a, b);
            auto ret = s.erase(f, l);
            for (std::size_t j = a; j < b; ++j) o.erase(ks[j]);
            EXPECT("functional", b == ks.size() ? ret == s.end() : (ret != s.end() && kof(ret) == ks[b]), "erase(range) returns the wrong position");
            break;
        }
        case 14: if (r.coin(1, 3)) { log("c%d.clear", w); s.clear(); o.clear(); } break;
        case 15:
        {
            log("c%d.erase_if(odd key)", w);
            std::size_t e = std::erase_if(o, [](auto& p) { return p % 2 != 0; });
            std::size_t g = fixed_containers::erase_if(s, [](const auto& p) { return kv(p) % 2 != 0; });
            EXPECT("functional", e == g, "erase_if returns %zu, expected %zu", g, e);
            break;
        }
        case 16:
        {
            bool over;
            M t = o;
            auto inr = range(t, N, over);
            log("c%d.insert(range %zu)", w, inr.size());
            for (auto& e : inr) log("%d", kv(e));
            guarded("insert(range)", over ? "length_error" : nullptr, [&] { s.insert(inr.begin(), inr.end()); });
            o = t;
            break;
        }
        case 17:  // arguments that refer to the container's own entries
        {
#if KIND != 4
            if (o.empty()) break;
            auto it = s.cbegin();
            for (std::size_t j = r.below(o.size()); j > 0; --j) ++it;
            int e = kof(it);
            if (r.coin())
            {
                log("c%d.insert(own key %d)", w, e);
                EXPECT("functional", !s.insert(*it).second, "insert(own key) claims to have inserted");
                break;
            }
            log("c%d.erase(own key %d)", w, e);
            EXPECT("functional", s.erase(*it) == 1, "erase(own key) returns 0");
            o.erase(e);
#endif
            break;
        }
        case 18:
        {
            if (!y.s) break;
            if (o.key_comp().rev != y.o.key_comp().rev) break;
            log("compare");
            EXPECT("functional", (s == *y.s) == (o == y.o) && (*y.s == s) == (o == y.o) && s == s, "== differs");
#if KIND != 3
            EXPECT("functional", (s < *y.s) == (o < y.o) && (*y.s < s) == (y.o < o) && (s <= *y.s) == (o <= y.o), "< differs");
#endif
            break;
        }
        case 19:
            if (!y.s) break;
            if (r.coin(1, 6)) { log("c%d = itself", w); S& z = s; if (r.coin()) z = s; else z = std::move(s); break; }
            if (r.coin()) { log("c%d = c%d", w, 1 - w); s = std::as_const(*y.s); o = y.o; x.where.clear(); check(y, "copy source"); }
            else { log("c%d = move c%d", w, 1 - w); s = std::move(*y.s); o = y.o; x.where.clear(); check(x, "move assign"); moved_from(y); }
            break;
        case 20:
#if KIND <= 2
        {
            log("bounds of %d", k);
            auto wk = [&](auto it) { return it == s.end() ? -1 : kof(it); };
            auto ok = [&](auto it) { return it == o.end() ? -1 : *it; };
            const S& cs = s;
            auto wc = [&](auto it) { return it == cs.cend() ? -1 : kof(it); };
            EXPECT("functional", wk(s.lower_bound(q)) == ok(o.lower_bound(k)) && wc(cs.lower_bound(q)) == ok(o.lower_bound(k)), "lower_bound(%d) yields %d", k, wk(s.lower_bound(q)));
            EXPECT("functional", wk(s.upper_bound(q)) == ok(o.upper_bound(k)) && wc(cs.upper_bound(q)) == ok(o.upper_bound(k)), "upper_bound(%d) yields %d", k, wk(s.upper_bound(q)));
            auto e = s.equal_range(q);
            auto ce = cs.equal_range(q);
            EXPECT("functional", wk(e.first) == ok(o.lower_bound(k)) && wk(e.second) == ok(o.upper_bound(k)) && wc(ce.first) == wk(e.first) && wc(ce.second) == wk(e.second), "equal_range(%d) wrong", k);
            break;
        }
#else
            break;
#endif
        default: build(x, w); return;
        }
        if (BIG) std::erase_if(x.where, [&](const auto& e) { return !x.o.count(e.first); });
        if (!BIG || ++steps % 25 == 0) check(x, "step");
    }
    void go(std::size_t len)
    {
        log("N=%zu", N);
        build(c[0], 0);
        for (std::size_t k = 0; k < len; ++k) step();
        if (c[0].s) check(c[0], "end");
        if (c[1].s) check(c[1], "end");
        drop(c[0]);
        drop(c[1]);
    }
};
int main(int argc, char** argv)
{
    return main_loop(argc, argv, [](Rng& r, std::size_t len)
    {
        len *= 2;
#if KIND == 4
        Run<7>(r).go(len);
#else
        if (r.coin(1, 60)) { Run<300>(r).go(16 * len); return; }
        switch (r.below(7))
        {
        case 0: Run<1>(r).go(len); break;
        case 1: Run<2>(r).go(len); break;
        case 2: Run<3>(r).go(len); break;
        case 3: Run<5>(r).go(len); break;
        case 4: Run<8>(r).go(len); break;
        case 5: Run<13>(r).go(len); break;
        default: Run<20>(r).go(2 * len);
        }
#endif
    });
}
