// FixedList against std::list<int>; every surviving element must stay where it is (class stability)
#include "wit.hpp"
#include "fixed_containers/fixed_list.hpp"
using namespace wit;
#ifdef TRIV
using T = int;
#else
using T = El;
#endif
struct O
{
    int v;
    const void* where;  // nullptr: new element
};
using V = std::vector<O>;

template <std::size_t N>
struct Run
{
    using S = fixed_containers::FixedList<T, N, Chk>;
    Rng& r;
    struct C
    {
        S* s = nullptr;
        V o;
    } c[2];
    explicit Run(Rng& q) : r(q) {}
    static std::ptrdiff_t d(std::size_t n) { return static_cast<std::ptrdiff_t>(n); }
    void check(C& x, const char* op)
    {
        const S& s = *x.s;
        if (g_bad) throw Skip{};
        EXPECT("functional", s.size() == x.o.size(), "%s: size is %zu, expected %zu", op, s.size(), x.o.size());
        EXPECT("functional", s.empty() == x.o.empty() && s.max_size() == N && is_full(s) == (s.size() == N), "%s: empty()/max_size()/is_full() wrong", op);
        std::size_t k = 0;
        for (auto it = s.cbegin(); it != s.cend(); ++it, ++k)
        {
            EXPECT("functional", k < x.o.size(), "%s: traversal visits too many elements", op);
            EXPECT("functional", val(*it) == x.o[k].v, "%s: element %zu is %d, expected %d", op, k, val(*it), x.o[k].v);
            EXPECT("stability", x.o[k].where == nullptr || x.o[k].where == &*it, "%s: element %zu moved", op, k);
            EXPECT("bounds", reinterpret_cast<const char*>(&*it) >= reinterpret_cast<const char*>(x.s) && reinterpret_cast<const char*>(&*it) + sizeof(T) <= reinterpret_cast<const char*>(x.s + 1), "%s: element %zu outside the object", op, k);
            x.o[k].where = &*it;
        }
        EXPECT("functional", k == x.o.size(), "%s: traversal visits %zu of %zu elements", op, k, x.o.size());
        for (auto it = s.cend(); k > 0;)
        {
            --it;
            --k;
            EXPECT("functional", val(*it) == x.o[k].v, "%s: backward traversal differs at %zu", op, k);
        }
        k = x.o.size();
        for (auto it = s.crbegin(); it != s.crend(); ++it)
        {
            EXPECT("functional", k > 0, "%s: reverse traversal visits too many elements", op);
            --k;
            EXPECT("functional", val(*it) == x.o[k].v, "%s: reverse traversal differs at %zu", op, k);
        }
        EXPECT("functional", k == 0, "%s: reverse traversal stops early", op);
#ifndef TRIV
        EXPECT("lifetime", live_in(x.s, sizeof(S)) == x.o.size(), "%s: %zu live elements in the container, size is %zu", op, live_in(x.s, sizeof(S)), x.o.size());
#endif
    }
    void* mem()
    {
        void* p = ::operator new(sizeof(S));
        std::memset(p, static_cast<int>(r.below(256)), sizeof(S));
        return p;
    }
    void drop(C& x)
    {
        if (!x.s) return;
        x.s->~S();
#ifndef TRIV
        EXPECT("lifetime", live_in(x.s, sizeof(S)) == 0, "destructor leaves %zu elements alive", live_in(x.s, sizeof(S)));
#endif
        ::operator delete(x.s);
        x.s = nullptr;
    }
    int rv() { return static_cast<int>(r.below(4)) + 1; }
    std::vector<T> range(V& vals, std::size_t n)
    {
        std::vector<T> out;
        out.reserve(n + 1);
        for (std::size_t i = 0; i < n; ++i)
        {
            vals.push_back({rv(), nullptr});
            out.emplace_back(vals.back().v);
        }
        return out;
    }
    V fresh(const V& o)
    {
        V n = o;
        for (auto& x : n) x.where = nullptr;
        return n;
    }
    void build(C& x, int w)
    {
        drop(x);
        void* m = mem();
        x.o.clear();
        std::size_t n = r.below(N + 1);
        int v = rv();
        C& y = c[1 - w];
        switch (r.below(6))
        {
        case 0: log("c%d=S(%zu,%d)", w, n, v); { T t(v); x.s = new (m) S(n, t); } x.o.assign(n, {v, nullptr}); break;
        case 1: log("c%d=S(%zu)", w, n); x.s = new (m) S(n); x.o.assign(n, {0, nullptr}); break;
        case 2: { log("c%d=S(range %zu)", w, n); auto in = range(x.o, n); x.s = new (m) S(in.begin(), in.end()); break; }
        case 3: if (y.s) { log("c%d=S(copy)", w); x.s = new (m) S(std::as_const(*y.s)); x.o = fresh(y.o); check(y, "copy source"); break; } [[fallthrough]];
        case 4:
            if (y.s)
            {
                log("c%d=S(move)", w);
                x.s = new (m) S(std::move(*y.s));
                x.o = fresh(y.o);
#ifndef TRIV
                y.o.clear();
                check(y, "moved-from");
#endif
                break;
            }
            [[fallthrough]];
        default: log("c%d=S()", w); x.s = new (m) S();
        }
        check(x, "ctor");
    }
    void step()
    {
        int w = static_cast<int>(r.below(2));
        C& x = c[w];
        if (!x.s) { build(x, w); return; }
        S& s = *x.s;
        V& o = x.o;
        C& y = c[1 - w];
        std::size_t n = o.size(), i = r.below(n + 1), cnt = r.below(N + 2);
        int v = rv();
        const char* full = n == N ? "length_error" : nullptr;
        const char* emp = n == 0 ? "empty_container_access" : nullptr;
        auto at = [&](std::size_t k) { return std::next(s.cbegin(), d(k)); };
        auto pos = [&](auto it) { return static_cast<std::size_t>(std::distance(s.cbegin(), typename S::const_iterator(it))); };
        auto ins = [&](std::size_t k, int u) { o.insert(o.begin() + d(k), O{u, nullptr}); };
        auto ret = [&](auto it, std::size_t k) { EXPECT("functional", pos(it) == k, "returned iterator at %zu, expected %zu", pos(it), k); };
        switch (r.below(27))
        {
        case 0: log("c%d.push_back(%d)", w, v); { T t(v); if (guarded("push_back", full, [&] { s.push_back(t); })) ins(n, v); } break;
        case 1: log("c%d.push_back(move %d)", w, v); { T t(v); if (guarded("push_back", full, [&] { s.push_back(std::move(t)); })) ins(n, v); } break;
        case 2: log("c%d.emplace_back(%d)", w, v); if (guarded("emplace_back", full, [&] { T& q = s.emplace_back(v); EXPECT("functional", &q == &s.back(), "emplace_back returns the wrong reference"); })) ins(n, v); break;
        case 3: log("c%d.pop_back", w); if (guarded("pop_back", emp, [&] { s.pop_back(); })) o.pop_back(); break;
        case 4: log("c%d.push_front(%d)", w, v); { T t(v); if (guarded("push_front", full, [&] { s.push_front(t); })) ins(0, v); } break;
        case 5: log("c%d.push_front(move %d)", w, v); { T t(v); if (guarded("push_front", full, [&] { s.push_front(std::move(t)); })) ins(0, v); } break;
        case 6: log("c%d.emplace_front(%d)", w, v); if (guarded("emplace_front", full, [&] { T& q = s.emplace_front(v); EXPECT("functional", &q == &s.front(), "emplace_front returns the wrong reference"); })) ins(0, v); break;
        case 7: log("c%d.pop_front", w); if (guarded("pop_front", emp, [&] { s.pop_front(); })) o.erase(o.begin()); break;
        case 8: log("c%d.insert(%zu,%d)", w, i, v); { T t(v); if (guarded("insert", full, [&] { ret(s.insert(at(i), t), i); })) ins(i, v); } break;
        case 9: log("c%d.insert(%zu,move %d)", w, i, v); { T t(v); if (guarded("insert", full, [&] { ret(s.insert(at(i), std::move(t)), i); })) ins(i, v); } break;
        case 10: log("c%d.emplace(%zu,%d)", w, i, v); if (guarded("emplace", full, [&] { ret(s.emplace(at(i), v), i); })) ins(i, v); break;
        case 11:
        case 12:
        {
            V in;
            auto t = range(in, r.below(N - n + 2));
            bool input = r.coin();
            const char* ov = n + t.size() > N ? "length_error" : nullptr;
            log("c%d.insert(%zu,%s range %zu)", w, i, input ? "input" : "forward", t.size());
            bool done = input ? guarded("insert(input)", ov, [&] { ret(s.insert(at(i), InIt<T>{t.data()}, InIt<T>{t.data() + t.size()}), i); })
                              : guarded("insert(range)", ov, [&] { ret(s.insert(at(i), t.begin(), t.end()), i); });
            if (done) o.insert(o.begin() + d(i), in.begin(), in.end());
            else if (input) { in.resize(N - n); o.insert(o.begin() + d(i), in.begin(), in.end()); }
            break;
        }
        case 13:
        {
            log("c%d.insert(%zu,{%d,%d})", w, i, v, v + 1);
            std::initializer_list<T> l{T(v), T(v + 1)};
            if (guarded("insert(ilist)", n + 2 > N ? "length_error" : nullptr, [&] { ret(s.insert(at(i), l), i); })) { ins(i, v + 1); ins(i, v); }
            break;
        }
        case 14:
        {
            T t(v);
            log("c%d.assign(%zu,%d)", w, cnt, v);
            if (guarded("assign", cnt > N ? "length_error" : nullptr, [&] { s.assign(cnt, t); })) o.assign(cnt, {v, nullptr});
            break;
        }
        case 15:
        {
            V in;
            auto t = range(in, r.below(N + 2));
            bool over = t.size() > N;
            log("c%d.assign(range %zu)", w, t.size());
            if (guarded("assign", over ? "length_error" : nullptr, [&] { s.assign(t.begin(), t.end()); })) o = in;
            else o.clear();
            break;
        }
        case 16: { log("c%d.assign({%d})", w, v); s.assign({T(v)}); o.assign(1, {v, nullptr}); break; }
        case 17: log("c%d.remove(%d)", w, v); { T t(v); V k; for (auto& e : o) if (e.v != v) k.push_back(e); std::size_t q = r.coin() ? s.remove(t) : fixed_containers::erase(s, t); EXPECT("functional", q == n - k.size(), "remove returns %zu", q); o = k; } break;
        case 18:
        {
            if (n == 0) break;
            std::size_t j = r.below(n);
            V k;
            for (auto& e : o)
                if (e.v != o[j].v) k.push_back(e);
            log("c%d.remove(element %zu)", w, j);
            std::size_t q = s.remove(*at(j));
            EXPECT("functional", q == n - k.size(), "remove returns %zu, expected %zu", q, n - k.size());
            o = k;
            break;
        }
        case 19: log("c%d.erase_if(odd)", w); { V k; for (auto& e : o) if (e.v % 2 == 0) k.push_back(e); std::size_t q = fixed_containers::erase_if(s, [](const T& e) { return val(e) % 2 != 0; }); EXPECT("functional", q == n - k.size(), "erase_if returns %zu", q); o = k; } break;
        case 20:
            log("c%d.erase(%zu)", w, i);
            if (guarded("erase", i == n ? "invalid_argument" : nullptr, [&] { ret(s.erase(at(i)), i); })) o.erase(o.begin() + d(i));
            break;
        case 21:
        {
            std::size_t j = i + r.below(n - i + 1);
            log("c%d.erase(%zu,%zu)", w, i, j);
            ret(s.erase(at(i), at(j)), i);
            o.erase(o.begin() + d(i), o.begin() + d(j));
            break;
        }
        case 22: if (r.coin(1, 3)) { log("c%d.clear", w); s.clear(); o.clear(); } break;
        case 23:
        {
            bool val_ = r.coin();
            T t(v);
            log("c%d.resize(%zu%s)", w, cnt, val_ ? ",v" : "");
            if (guarded("resize", cnt > N ? "length_error" : nullptr, [&] { if (val_) s.resize(cnt, t); else s.resize(cnt); })) o.resize(cnt, {val_ ? v : 0, nullptr});
            break;
        }
        case 24:
            if (!y.s) break;
            if (r.coin(1, 6)) { log("c%d = itself", w); S& z = s; if (r.coin()) z = s; else { z = std::move(s); } break; }
            if (r.coin()) { log("c%d = c%d", w, 1 - w); s = std::as_const(*y.s); o = fresh(y.o); check(y, "copy source"); }
            else
            {
                log("c%d = move c%d", w, 1 - w);
                s = std::move(*y.s);
                o = fresh(y.o);
                drop(y);
                y.o.clear();
            }
            break;
        case 25:
        {
            guarded("front", emp, [&] { EXPECT("functional", &std::as_const(s).front() == &*s.cbegin() && &s.front() == &*s.begin(), "front differs"); });
            guarded("back", emp, [&] { EXPECT("functional", &std::as_const(s).back() == &*std::prev(s.cend()) && &s.back() == &*s.rbegin(), "back differs"); });
            if (!y.s) break;
            std::vector<int> a, b;
            for (auto& e : o) a.push_back(e.v);
            for (auto& e : y.o) b.push_back(e.v);
            log("compare");
            EXPECT("functional", (s == *y.s) == (a == b) && ((s <=> *y.s) < 0) == (a < b) && ((*y.s <=> s) < 0) == (b < a), "comparison differs");
            fixed_containers::FixedList<T, N + 3, Chk> z(s.cbegin(), s.cend());
            EXPECT("functional", s == z && (s <=> z) == 0, "comparison across capacities differs");
            z.push_back(T(v));
            EXPECT("functional", !(s == z) && (s <=> z) < 0 && (z <=> s) > 0, "comparison across capacities differs");
            break;
        }
        default: build(x, w);
        }
        check(x, "step");
    }
    void go(std::size_t len)
    {
        log("FixedList<%zu>", N);
        build(c[0], 0);
        for (std::size_t k = 0; k < len; ++k) step();
        drop(c[0]);
        drop(c[1]);
    }
};
int main(int argc, char** argv)
{
    return main_loop(argc, argv, [](Rng& r, std::size_t len)
    {
        switch (r.below(5))
        {
        case 0: Run<1>(r).go(len); break;
        case 1: Run<2>(r).go(len); break;
        case 2: Run<3>(r).go(len); break;
        case 3: Run<4>(r).go(len); break;
        default: Run<7>(r).go(len);
        }
    });
}
