// FixedVector / FixedDeque / FixedCircularDeque against std::vector<int>
#include "wit.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
using namespace wit;
#ifdef TRIV
using T = int;
#else
using T = El;
#endif
static_assert(VEC + DEQ + CIRC == 1);
using V = std::vector<int>;

template <std::size_t N>
using S_ = std::conditional_t<VEC, fixed_containers::FixedVector<T, N, Chk>,
                              std::conditional_t<DEQ, fixed_containers::FixedDeque<T, N, Chk>, fixed_containers::FixedCircularDeque<T, N, Chk>>>;

template <std::size_t N>
struct Run
{
    using S = S_<N>;
    Rng& r;
    struct C
    {
        S* s = nullptr;
        V o;
    } c[2];
    explicit Run(Rng& q) : r(q) {}

    void check(C& x, const char* op)
    {
        const S& s = *x.s;
        if (g_bad) throw Skip{};
        EXPECT("functional", s.size() == x.o.size(), "%s: size is %zu, expected %zu", op, s.size(), x.o.size());
        EXPECT("functional", s.empty() == x.o.empty() && s.max_size() == N, "%s: empty()/max_size() wrong", op);
        EXPECT("functional", static_cast<std::size_t>(s.end() - s.begin()) == x.o.size(), "%s: end()-begin() wrong", op);
        for (std::size_t i = 0; i < x.o.size(); ++i)
        {
            EXPECT("functional", val(s[i]) == x.o[i], "%s: element %zu is %d, expected %d", op, i, val(s[i]), x.o[i]);
            EXPECT("functional", val(*(s.begin() + static_cast<std::ptrdiff_t>(i))) == x.o[i], "%s: iterator at %zu wrong", op, i);
            EXPECT("functional", val(*(s.rbegin() + static_cast<std::ptrdiff_t>(i))) == x.o[x.o.size() - 1 - i], "%s: reverse iterator at %zu wrong", op, i);
        }
        std::size_t k = 0;
        for (auto it = s.cbegin(); it != s.cend(); ++it, ++k)
        {
            EXPECT("functional", k < x.o.size() && val(*it) == x.o[k], "%s: forward traversal differs at %zu", op, k);
            auto e = s.cend();
            std::ptrdiff_t d = static_cast<std::ptrdiff_t>(x.o.size() - k);
            EXPECT("functional", it < e && !(e < it) && it <= e && e > it && e >= it && (e - it) == d && (it - e) == -d && it + d == e && e - d == it,
                   "%s: iterator order/arithmetic wrong at %zu", op, k);
            auto q = s.cbegin();
            q += static_cast<std::ptrdiff_t>(k);
            EXPECT("functional", q == it && &q[0] == &*it && &e[-d] == &*it, "%s: iterator subscript wrong at %zu", op, k);
        }
        EXPECT("functional", k == x.o.size(), "%s: traversal visits %zu elements", op, k);
        for (auto it = s.cend(); k > 0;)
        {
            --it;
            --k;
            EXPECT("functional", val(*it) == x.o[k], "%s: backward traversal differs at %zu", op, k);
        }
#ifndef TRIV
        std::size_t l = live_in(x.s, sizeof(S));
        EXPECT("lifetime", l == x.o.size(), "%s: %zu live elements in the container, size is %zu", op, l, x.o.size());
#endif
    }
    void* mem()
    {
        void* p = ::operator new(sizeof(S));
        std::memset(p, static_cast<int>(r.below(256)), sizeof(S));
        return p;
    }
    void drop(C& x)
    {
        if (!x.s) return;
        x.s->~S();
#ifndef TRIV
        EXPECT("lifetime", live_in(x.s, sizeof(S)) == 0, "destructor leaves %zu elements alive", live_in(x.s, sizeof(S)));
#endif
        ::operator delete(x.s);
        x.s = nullptr;
    }
    std::vector<T> range(V& vals, std::size_t maxn)
    {
        std::size_t n = r.below(maxn + 1);
        std::vector<T> out;
        out.reserve(n + 1);
        for (std::size_t i = 0; i < n; ++i)
        {
            vals.push_back(static_cast<int>(r.below(N > 50 ? 1000 : 5)) + 1);
            out.emplace_back(vals.back());
        }
        return out;
    }
    static std::string str(const V& v)
    {
        std::string s = "{";
        for (int x : v) s += std::to_string(x) + " ";
        return s + "}";
    }
    // oracle of inserting m at pos in a circular deque (pos is an uncrossable barrier)
    static void circ_insert(V& o, std::size_t& pos, V in)
    {
        std::size_t avail = N - o.size();
        std::size_t excess = in.size() > avail ? in.size() - avail : 0;
        std::size_t d = std::min(excess, pos);
        o.erase(o.begin(), o.begin() + static_cast<std::ptrdiff_t>(d));
        pos -= d;
        in.erase(in.begin(), in.begin() + static_cast<std::ptrdiff_t>(excess - d));
        o.insert(o.begin() + static_cast<std::ptrdiff_t>(pos), in.begin(), in.end());
    }
    void build(C& x, int which)
    {
        drop(x);
        void* m = mem();
        std::size_t n = r.below(N + 2);
        int v = static_cast<int>(r.below(N > 50 ? 1000 : 5)) + 1;
        const bool over = n > N && !CIRC;
        S* s = nullptr;
        x.o.clear();
        switch (r.below(6))
        {
        case 0:
            log("c%d = S()", which);
            s = new (m) S();
            break;
        case 1:
            if (CIRC) n = std::min(n, N);
            if (over && DEQ) { n = 0; }
            log("c%d = S(%zu)", which, n);
            if (n > N) { s = new (m) S(); break; }
            s = new (m) S(n);
            x.o.assign(n, T() == T(0) ? 0 : 0);
            break;
        case 2:
        {
            n = std::min(n, N);
            log("c%d = S(%zu, %d)", which, n, v);
            T e(v);
            s = new (m) S(n, e);
            x.o.assign(n, v);
            break;
        }
        case 3:
        {
            V vals;
            auto rg = range(vals, CIRC ? N + 2 : N);
            log("c%d = S(range %s)", which, str(vals).c_str());
            s = new (m) S(rg.begin(), rg.end());
            if (CIRC && vals.size() > N) vals.erase(vals.begin(), vals.end() - N);
            x.o = vals;
            break;
        }
        default:
        {
            C& y = c[1 - which];
            if (!y.s)
            {
                log("c%d = S()", which);
                s = new (m) S();
                break;
            }
            if (r.coin())
            {
                log("c%d = S(c%d)", which, 1 - which);
                s = new (m) S(*y.s);
                x.o = y.o;
            }
            else
            {
                log("c%d = S(move(c%d))", which, 1 - which);
                s = new (m) S(std::move(*y.s));
                x.o = y.o;
                x.s = s;
                moved_from(y);
            }
        }
        }
        x.s = s;
        check(x, "construction");
        if (c[1 - which].s) check(c[1 - which], "construction(other)");
    }
    void moved_from(C& y, bool cleared = true)
    {
        if (cleared && !std::is_trivially_copyable_v<S> && g_bad == false) EXPECT("functional", y.s->size() == 0 || std::is_trivially_copyable_v<T>, "moved-from container is not empty");
        y.s->clear();
        y.o.clear();
    }
    using It = std::ptrdiff_t;
    void step(std::size_t which)
    {
        C& x = c[which];
        if (!x.s) { build(x, static_cast<int>(which)); return; }
        C& y = c[1 - which];
        S& s = *x.s;
        V& o = x.o;
        const V o0 = o;
        const int w = static_cast<int>(which);
        const std::size_t n = o.size();
        int v = static_cast<int>(r.below(N > 50 ? 1000 : 5)) + 1;
        std::size_t pos = r.below(n + 1);
        const char* op = "";
        auto P = [&](std::size_t i) { return s.begin() + static_cast<It>(i); };
        auto O = [&](std::size_t i) { return o.begin() + static_cast<It>(i); };
        const char* full = (n >= N && !CIRC) ? "length_error" : nullptr;
        bool keep = true;  // contents must be unchanged after a rejection
        auto rejected = [&](bool k)
        {
            keep = k;
            if (!keep) throw Skip{};
            o = o0;
        };
        auto pushb = [&](int q) { if (CIRC && o.size() == N) o.erase(o.begin()); o.push_back(q); };
        auto pushf = [&](int q) { if (CIRC && o.size() == N) o.pop_back(); o.insert(o.begin(), q); };
        switch (r.below(34))
        {
        case 0: case 1:
        {
            op = "push_back";
            log("c%d.push_back(%d)", w, v);
            bool mv = r.coin();
            T e(v);
            if (guarded(op, full, [&] { if (mv) s.push_back(std::move(e)); else s.push_back(e); })) pushb(v); else rejected(true);
            if (!mv) EXPECT("functional", val(e) == v, "argument of push_back changed");
            break;
        }
        case 2:
            op = "push_back(aliasing)";
            if (n == 0) return;
            pos = r.below(n);
            v = o[pos];
            log("c%d.push_back(c%d[%zu])", w, w, pos);
            if (guarded(op, full, [&] { s.push_back(s[pos]); })) pushb(v); else rejected(true);
            break;
        case 3: case 4:
        {
            op = "emplace_back";
            bool al = n && r.coin(1, 3);
            pos = r.below(n);
            if (al) v = o[pos];
            log("c%d.emplace_back(%s%d)", w, al ? "aliasing " : "", v);
            if (guarded(op, full, [&] { T& q = al ? s.emplace_back(s[pos]) : s.emplace_back(v); EXPECT("functional", &q == &s[s.size() - 1] && val(q) == v, "emplace_back returns a wrong reference"); })) pushb(v); else rejected(true);
            break;
        }
        case 5:
            op = "pop_back";
            log("c%d.pop_back()", w);
            if (guarded(op, n ? nullptr : "empty_container_access", [&] { s.pop_back(); })) o.pop_back(); else rejected(true);
            break;
        case 6: case 7: case 8:
        {
            op = "insert";
            bool al = n && r.coin(1, 3), mv = !al && r.coin();
            std::size_t j = r.below(n);
            if (al) v = o[j];
            if (al) log("c%d.insert(begin+%zu, c%d[%zu])", w, pos, w, j); else log("c%d.insert(begin+%zu, %s%d)", w, pos, mv ? "move " : "", v);
            T e(v);
            std::size_t p2 = pos;
            V want = o;
            if (CIRC) circ_insert(want, p2, {v});
            std::size_t ret = 0;
            if (guarded(op, full, [&] { ret = static_cast<std::size_t>((mv ? s.insert(P(pos), std::move(e)) : s.insert(P(pos), al ? s[j] : e)) - s.begin()); }))
            {
                if (CIRC) o = want; else o.insert(O(pos), v);
                EXPECT("functional", ret == p2, "insert returns position %zu, expected %zu", ret, p2);
            }
            else rejected(true);
            if (!mv && !al) EXPECT("functional", val(e) == v, "argument of insert changed");
            break;
        }
        case 9: case 10:
        {
            op = "emplace";
            bool al = n && r.coin(1, 3);
            std::size_t j = r.below(n);
            if (al) v = o[j];
            log("c%d.emplace(begin+%zu, %s%d)", w, pos, al ? "aliasing " : "", v);
            std::size_t p2 = pos, ret = 0;
            V want = o;
            if (CIRC) circ_insert(want, p2, {v});
            if (guarded(op, full, [&] { ret = static_cast<std::size_t>((al ? s.emplace(P(pos), s[j]) : s.emplace(P(pos), v)) - s.begin()); }))
            {
                if (CIRC) o = want; else o.insert(O(pos), v);
                EXPECT("functional", ret == p2, "emplace returns position %zu, expected %zu", ret, p2);
            }
            else rejected(true);
            break;
        }
        case 11: case 12: case 13:
        {
            op = "insert(range)";
            V vals;
            auto rg = range(vals, N + 2);
            int k = static_cast<int>(r.below(3));
            log("c%d.insert(begin+%zu, %s range %s)", w, pos, k == 0 ? "input" : k == 1 ? "forward" : "list", str(vals).c_str());
            std::size_t p2 = pos, ret = 0;
            V want = o;
            if (CIRC) circ_insert(want, p2, vals);
            const char* kind = (!CIRC && n + vals.size() > N) ? "length_error" : nullptr;
            std::list<T> fl(rg.begin(), rg.end());
            if (guarded(op, kind,
                        [&]
                        {
                            auto it = k == 0 ? s.insert(P(pos), InIt<T>{rg.data()}, InIt<T>{rg.data() + rg.size()})
                                      : k == 1 ? s.insert(P(pos), fl.begin(), fl.end())
                                               : s.insert(P(pos), rg.data(), rg.data() + rg.size());
                            ret = static_cast<std::size_t>(it - s.begin());
                        }))
            {
                if (CIRC) o = want; else o.insert(O(pos), vals.begin(), vals.end());
                EXPECT("functional", ret == p2, "insert(range) returns position %zu, expected %zu", ret, p2);
            }
            else rejected(k != 0);
            break;
        }
        case 14:
        {
            op = "assign(count)";
            std::size_t m = r.below(N + 2);
            log("c%d.assign(%zu, %d)", w, m, v);
            T e(v);
            if (guarded(op, (m > N && !CIRC) ? "length_error" : nullptr, [&] { s.assign(m, e); })) o.assign(std::min(m, N), v); else rejected(true);
            break;
        }
        case 15:
        {
            op = "assign(range)";
            V vals;
            auto rg = range(vals, N + 2);
            bool in = r.coin();
            log("c%d.assign(%s range %s)", w, in ? "input" : "forward", str(vals).c_str());
            if (guarded(op, (vals.size() > N && !CIRC) ? "length_error" : nullptr, [&] { if (in) s.assign(InIt<T>{rg.data()}, InIt<T>{rg.data() + rg.size()}); else s.assign(rg.begin(), rg.end()); }))
            {
                if (vals.size() > N) vals.erase(vals.begin(), vals.end() - static_cast<It>(N));
                o = vals;
            }
            else rejected(false);
            break;
        }
        case 16: case 17:
        {
            op = "erase(pos)";
            if (n == 0) return;
            pos = r.below(n);
            log("c%d.erase(begin+%zu)", w, pos);
            std::size_t ret = static_cast<std::size_t>(s.erase(P(pos)) - s.begin());
            o.erase(O(pos));
            EXPECT("functional", ret == pos, "erase returns position %zu, expected %zu", ret, pos);
            break;
        }
        case 18: case 19:
        {
            op = "erase(range)";
            std::size_t q = pos + r.below(n - pos + 1);
            log("c%d.erase(begin+%zu, begin+%zu)", w, pos, q);
            std::size_t ret = static_cast<std::size_t>(s.erase(P(pos), P(q)) - s.begin());
            o.erase(O(pos), O(q));
            EXPECT("functional", ret == pos, "erase returns position %zu, expected %zu", ret, pos);
            break;
        }
        case 20:
            if (!r.coin(1, 4)) return;
            op = "clear";
            log("c%d.clear()", w);
            s.clear();
            o.clear();
            break;
        case 21: case 22:
        {
            op = "resize";
            std::size_t m = r.below(N + 2);
            bool dv = r.coin();
            log("c%d.resize(%zu%s)", w, m, dv ? "" : ", v");
            T e(v);
            if (guarded(op, m > N ? "length_error" : nullptr, [&] { if (dv) s.resize(m); else s.resize(m, e); })) o.resize(m, dv ? 0 : v); else rejected(true);
            break;
        }
        case 23:
        {
            op = "at/[]";
            std::size_t i = r.below(N + 3);
            int k = static_cast<int>(r.below(4));
            log("c%d.at(%zu)", w, i);
            const S& cs = s;
            guarded(op, i >= n ? "out_of_range" : nullptr,
                    [&]
                    {
                        const T* p = k == 0 ? &s.at(i) : k == 1 ? &cs.at(i) : k == 2 ? &s[i] : &cs[i];
                        EXPECT("functional", p == &*(s.begin() + static_cast<It>(i)) && val(*p) == o[i], "at(%zu) designates a wrong element", i);
                    });
            break;
        }
        case 24:
        {
            op = "front/back";
            log("c%d.front()/back()", w);
            const S& cs = s;
            int k = static_cast<int>(r.below(4));
            guarded(op, n ? nullptr : "empty_container_access",
                    [&]
                    {
                        const T* p = k == 0 ? &s.front() : k == 1 ? &cs.front() : k == 2 ? &s.back() : &cs.back();
                        EXPECT("functional", val(*p) == (k < 2 ? o.front() : o.back()), "front()/back() designates a wrong element");
                    });
            break;
        }
        case 25: case 26:
            if (!y.s) return;
            op = "assignment";
            if (r.coin(1, 5))
            {
                log("c%d = c%d (self)", w, w);
                s = *&s;
            }
            else if (r.coin())
            {
                log("c%d = c%d", w, 1 - w);
                s = *y.s;
                o = y.o;
            }
            else
            {
                log("c%d = move(c%d)", w, 1 - w);
                s = std::move(*y.s);
                o = y.o;
                check(x, op);
                moved_from(y, false);
            }
            break;
        case 27:
            if (!y.s) return;
            op = "comparison";
            log("c%d <=> c%d", w, 1 - w);
            EXPECT("functional", (s == *y.s) == (o == y.o), "operator== wrong: %s %s", str(o).c_str(), str(y.o).c_str());
            EXPECT("functional", (s != *y.s) == (o != y.o), "operator!= wrong: %s %s", str(o).c_str(), str(y.o).c_str());
            EXPECT("functional", ((s <=> *y.s) < 0) == (o < y.o) && (s < *y.s) == (o < y.o) && (s > *y.s) == (o > y.o) && (s <= *y.s) == (o <= y.o) && (s >= *y.s) == (o >= y.o),
                   "ordering wrong: %s %s", str(o).c_str(), str(y.o).c_str());
            break;
        case 28:
            op = "free functions";
            EXPECT("functional", is_full(s) == (n == N), "is_full wrong");
            if (VEC + DEQ)
            {
                log("erase(c%d, %d)", w, v);
                if constexpr (!CIRC)
                {
                    T e(v);
                    std::size_t k = 0;
                    if (r.coin())
                        k = fixed_containers::erase(s, e);
                    else
                        k = fixed_containers::erase_if(s, [&](const T& q) { return val(q) == v; });
                    EXPECT("functional", k == static_cast<std::size_t>(std::count(o.begin(), o.end(), v)), "erase(value) returns %zu", k);
                    o.erase(std::remove(o.begin(), o.end(), v), o.end());
                }
            }
            break;
        case 29:
            if constexpr (VEC)
            {
                op = "reserve/data";
                std::size_t m = r.below(N + 3);
                log("c%d.reserve(%zu)", w, m);
                if (!guarded(op, m > N ? "length_error" : nullptr, [&] { s.reserve(m); })) rejected(true);
                EXPECT("functional", s.capacity() == N && (n == 0 || s.data() == &s[0]), "capacity()/data() wrong");
                break;
            }
            [[fallthrough]];
        default:
            if constexpr (!VEC)
            {
                op = "front operation";
                switch (r.below(4))
                {
                case 0:
                {
                    bool al = n && r.coin(1, 3), mv = !al && r.coin();
                    std::size_t j = r.below(n);
                    if (al) v = o[j];
                    log("c%d.push_front(%s%d)", w, al ? "aliasing " : "", v);
                    T e(v);
                    if (guarded(op, full, [&] { if (mv) s.push_front(std::move(e)); else s.push_front(al ? s[j] : e); })) pushf(v); else rejected(true);
                    break;
                }
                case 1:
                {
                    bool al = n && r.coin(1, 3);
                    pos = r.below(n);
                    if (al) v = o[pos];
                    log("c%d.emplace_front(%s%d)", w, al ? "aliasing " : "", v);
                    if (guarded(op, full, [&] { T& q = al ? s.emplace_front(s[pos]) : s.emplace_front(v); EXPECT("functional", &q == &s[0], "emplace_front returns a wrong reference"); })) pushf(v); else rejected(true);
                    break;
                }
                case 2:
                    log("c%d.pop_front()", w);
                    if (guarded(op, n ? nullptr : "empty_container_access", [&] { s.pop_front(); })) o.erase(o.begin()); else rejected(true);
                    break;
                default:
                    log("c%d.push_front, pop_back", w);
                    if (n == 0) return;
                    s.pop_back();
                    o.pop_back();
                    s.emplace_front(v);
                    o.insert(o.begin(), v);
                }
            }
        }
        check(x, op);
        if (y.s) check(y, op);
    }
    void go(std::size_t len)
    {
        build(c[0], 0);
        if (r.coin()) build(c[1], 1);
        for (std::size_t i = 0; i < len; ++i) step(r.below(4) == 0);
        drop(c[0]);
        drop(c[1]);
    }
};
template <std::size_t N>
void run(Rng& r, std::size_t len) { Run<N> q(r); q.go(len); }
int main(int argc, char** argv)
{
    return main_loop(argc, argv, [](Rng& r, std::size_t len)
    {
        if (r.below(60) == 0)
        {
            run<300>(r, len % 6 + 1);
            return;
        }
        switch (r.below(5))
        {
        case 0: run<1>(r, len); break;
        case 1: run<2>(r, len); break;
        case 2: run<3>(r, len); break;
        case 3: run<4>(r, len); break;
        default: run<7>(r, len);
        }
    });
}
