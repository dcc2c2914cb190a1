// FixedStack / FixedQueue / FixedCircularQueue against std::vector<int>
#include "wit.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
using namespace wit;
using V = std::vector<int>;
#if KIND == 0
template <std::size_t N>
using S_ = fixed_containers::FixedStack<El, N, Chk>;
#elif KIND == 1
template <std::size_t N>
using S_ = fixed_containers::FixedQueue<El, N, Chk>;
#else
template <std::size_t N>
using S_ = fixed_containers::FixedCircularQueue<El, N, Chk>;
#endif

template <std::size_t N>
struct Run
{
    using S = S_<N>;
    Rng& r;
    std::unique_ptr<S> s;
    V o;
    explicit Run(Rng& q) : r(q) {}
    template <class Q>
    static V drain(Q q)
    {
        V v;
        while (!q.empty() && v.size() < 1000)
        {
#if KIND == 0
            v.insert(v.begin(), val(q.top()));
#else
            v.push_back(val(q.front()));
#endif
            q.pop();
        }
        return v;
    }
    void push(int v)
    {
        if (KIND == 2 && o.size() == N) o.erase(o.begin());
        o.push_back(v);
    }
    void check(const char* op)
    {
        const S& c = *s;
        if (g_bad) throw Skip{};
        EXPECT("functional", c.size() == o.size() && c.empty() == o.empty() && c.max_size() == N && is_full(c) == (o.size() == N), "%s: size is %zu, expected %zu", op, c.size(), o.size());
        EXPECT("functional", drain(c) == o, "%s: contents differ", op);
        EXPECT("lifetime", live_in(s.get(), sizeof(S)) == o.size(), "%s: %zu live elements in the container, size is %zu", op, live_in(s.get(), sizeof(S)), o.size());
    }
    void go(std::size_t len)
    {
        s = std::make_unique<S>();
        log("N=%zu", N);
        for (std::size_t k = 0; k < len + 3; ++k)
        {
            int v = static_cast<int>(r.below(4)) + 1;
            const char* full = KIND != 2 && o.size() == N ? "length_error" : nullptr;
            const char* emp = o.empty() ? "empty_container_access" : nullptr;
            switch (r.below(12))
            {
            case 0:
            case 1: log("push(%d)", v); { El e(v); if (guarded("push", full, [&] { s->push(e); })) push(v); } break;
            case 2:
            case 3: log("push(move %d)", v); { El e(v); if (guarded("push", full, [&] { s->push(std::move(e)); })) push(v); } break;
            case 4: log("emplace(%d)", v); if (guarded("emplace", full, [&] { s->emplace(v); })) push(v); break;
            case 5:
            case 6:
            case 7:
                log("pop");
                if (guarded("pop", emp, [&] { s->pop(); }))
                {
                    if (KIND == 0) o.pop_back();
                    else o.erase(o.begin());
                }
                break;
            case 8:
            {
                const S& c = *s;
                log("front/back");
#if KIND == 0
                guarded("top", emp, [&] { EXPECT("functional", val(c.top()) == o.back() && &c.top() == &s->top(), "top differs"); });
                guarded("top", emp, [&] { s->top().v = 9; });
                if (!o.empty()) o.back() = 9;
#else
                guarded("back", emp, [&] { EXPECT("functional", val(c.back()) == o.back() && &c.back() == &s->back(), "back differs"); });
                guarded("front", emp, [&] { EXPECT("functional", val(c.front()) == o.front() && &c.front() == &s->front(), "front differs"); });
                guarded("front", emp, [&] { s->front().v = 9; });
                if (!o.empty()) o.front() = 9;
#endif
                break;
            }
            case 9:
            {
                std::size_t n = r.below(N + 2 + (KIND == 2 ? 3 : 0));
                std::vector<El> in;
                V vo;
                for (std::size_t i = 0; i < n; ++i) { vo.push_back(static_cast<int>(r.below(4))); in.emplace_back(vo.back()); }
                log("S(range of %zu)", n);
                if (n > N && KIND == 1) break;  // FixedDeque's range constructor is covered with its own contracts
                if (n > N && KIND == 0) break;
                s = std::make_unique<S>(in.begin(), in.end());
                o = vo;
                if (o.size() > N) o.erase(o.begin(), o.begin() + static_cast<std::ptrdiff_t>(o.size() - N));
                break;
            }
            case 10:
            {
                S t(*s);
                log("copy, compare, push on the copy");
                EXPECT("functional", t == *s && (t <=> *s) == 0, "copy differs from its source");
                V b = o;
                if (o.size() < N) { t.push(El(v)); b.push_back(v); }
                EXPECT("functional", (t == *s) == (b == o) && ((*s <=> t) < 0) == (o < b) && ((t <=> *s) < 0) == (b < o), "comparison differs");
                if (r.coin()) { log("assign"); *s = t; o = b; }
                else { log("move"); *s = std::move(t); o = b; }
                break;
            }
            default:
            {
                S_<N * 2 + 1> t;
                V b;
                std::size_t n = r.below(N * 2 + 2);
                for (std::size_t i = 0; i < n; ++i) { int x = i < o.size() && r.coin(7, 8) ? o[i] : static_cast<int>(r.below(4)) + 1; t.push(El(x)); b.push_back(x); }
                log("compare with another of %zu", n);
                EXPECT("functional", (*s == t) == (b == o) && ((*s <=> t) < 0) == (o < b) && ((t <=> *s) < 0) == (b < o), "comparison differs");
            }
            }
            check("step");
        }
        s.reset();
    }
};
int main(int argc, char** argv)
{
    return main_loop(argc, argv, [](Rng& r, std::size_t len)
    {
        switch (r.below(4))
        {
        case 0: Run<1>(r).go(len); break;
        case 1: Run<2>(r).go(len); break;
        case 2: Run<3>(r).go(len); break;
        default: Run<5>(r).go(len);
        }
    });
}
