// FixedString against std::string
#include "wit.hpp"
#include "fixed_containers/fixed_string.hpp"
#include <string_view>
using namespace wit;

template <std::size_t N>
struct Run
{
    using S = fixed_containers::FixedString<N, Chk>;
    using S2 = fixed_containers::FixedString<N * 2 + 3, Chk>;
    Rng& r;
    std::unique_ptr<S> s;
    std::string o;
    explicit Run(Rng& q) : r(q) {}
    std::string q(const std::string& t)
    {
        std::string z = "\"";
        for (unsigned char c : t)
        {
            char b[8];
            if (c >= 32 && c < 127) z += static_cast<char>(c);
            else { std::snprintf(b, sizeof b, "\\x%02x", c); z += b; }
        }
        return z + "\"";
    }
    char chr()
    {
        static const char al[] = {'a', 'b', 'a', 'c', '\0', static_cast<char>(0xe9), static_cast<char>(0x80), 'Z', '\x7f', 'b'};
        return al[r.below(r.coin(1, 3) ? 10 : 3)];
    }
    std::string text(std::size_t maxn, bool nul = true)
    {
        std::string t;
        std::size_t n = r.below(maxn + 1);
        if (r.coin(1, 3) && !o.empty())  // a piece of the current contents
        {
            std::size_t a = r.below(o.size());
            t = o.substr(a, r.below(o.size() - a) + 1);
            if (t.size() > maxn) t.resize(maxn);
        }
        else
            for (std::size_t i = 0; i < n; ++i) t += chr();
        if (!nul)
            for (auto& c : t)
                if (!c) c = 'a';
        return t;
    }
    void check(const char* op)
    {
        const S& c = *s;
        EXPECT("functional", c.size() == o.size() && c.length() == o.size() && c.empty() == o.empty() && c.max_size() == N && c.capacity() == N, "%s: size is %zu, expected %zu", op, c.size(), o.size());
        EXPECT("functional", fixed_containers::is_full(c) == (o.size() == N), "%s: is_full wrong", op);
        EXPECT("functional", std::string_view(c) == o, "%s: contents are %s, expected %s", op, q(std::string(c.data(), c.size())).c_str(), q(o).c_str());
        EXPECT("functional", c.c_str()[o.size()] == '\0' && c.data()[c.size()] == '\0', "%s: not NUL-terminated", op);
        EXPECT("functional", std::string(c.begin(), c.end()) == o && std::string(c.rbegin(), c.rend()) == std::string(o.rbegin(), o.rend()) && std::string(c.cbegin(), c.cend()) == o, "%s: iteration differs", op);
        EXPECT("functional", c == std::string_view(o) && (c <=> std::string_view(o)) == 0 && c.compare(std::string_view(o)) == 0, "%s: not equal to its own contents", op);
    }
    static int sg(int x) { return (x > 0) - (x < 0); }
    template <class O>
    static int sg(O x) { return x < 0 ? -1 : (x > 0 ? 1 : 0); }
    void query()
    {
        const S& c = *s;
        std::string t = text(N + 2), z = text(N + 2, false);
        std::string_view tv(t);
        std::size_t p = r.coin() ? r.below(N + 2) : (r.coin() ? std::string::npos - r.below(2) : r.below(3)), n = r.below(t.size() + 1);
        char ch = chr();
        log("query %s %s pos=%zu n=%zu ch=%d", q(t).c_str(), q(z).c_str(), p, n, ch);
        S2 big(tv.size() <= N * 2 + 3 ? tv : std::string_view{});
        std::string bo(std::string_view{big});
#define FQ(f) \
        EXPECT("functional", c.f(tv, p) == o.f(tv, p) && c.f(tv) == o.f(tv), #f "(view) differs"); \
        EXPECT("functional", c.f(t.c_str(), p, n) == o.f(t.c_str(), p, n), #f "(ptr,pos,n) differs"); \
        EXPECT("functional", c.f(z.c_str(), p) == o.f(z.c_str(), p) && c.f(z.c_str()) == o.f(z.c_str()), #f "(ptr) differs"); \
        EXPECT("functional", c.f(ch, p) == o.f(ch, p) && c.f(ch) == o.f(ch), #f "(char) differs"); \
        EXPECT("functional", c.f(big, p) == o.f(bo, p) && c.f(big) == o.f(bo), #f "(FixedString) differs");
        FQ(find) FQ(rfind) FQ(find_first_of) FQ(find_first_not_of) FQ(find_last_of) FQ(find_last_not_of)
        EXPECT("functional", sg(c.compare(tv)) == sg(o.compare(tv)) && sg(c.compare(z.c_str())) == sg(o.compare(z.c_str())) && sg(c.compare(big)) == sg(o.compare(bo)), "compare differs");
        EXPECT("functional", sg(c <=> tv) == sg(o.compare(tv)) && sg(c <=> z.c_str()) == sg(o.compare(z)) && sg(c <=> big) == sg(o.compare(bo)), "<=> differs");
        EXPECT("functional", (c == tv) == (o == tv) && (c == z.c_str()) == (o == z) && (c == big) == (o == bo), "== differs");
        EXPECT("functional", c.starts_with(tv) == o.starts_with(tv) && c.starts_with(z.c_str()) == o.starts_with(z.c_str()) && c.starts_with(ch) == o.starts_with(ch), "starts_with differs");
        EXPECT("functional", c.ends_with(tv) == o.ends_with(tv) && c.ends_with(z.c_str()) == o.ends_with(z.c_str()) && c.ends_with(ch) == o.ends_with(ch), "ends_with differs");
        std::size_t l = r.coin() ? r.below(N + 2) : std::string::npos;
        log("substr %zu %zu", p, l);
        guarded("substr", p >= o.size() ? "out_of_range" : nullptr, [&] { auto got = c.substr(p, l); EXPECT("functional", got == std::string_view(o).substr(p, l), "substr differs"); });
        log("[]/at %zu", p);
        guarded("at", p >= o.size() ? "out_of_range" : nullptr, [&] { EXPECT("functional", &c.at(p) == c.data() + p && &s->at(p) == c.data() + p, "at differs"); });
        guarded("[]", p >= o.size() ? "out_of_range" : nullptr, [&] { EXPECT("functional", &c[p] == c.data() + p && &(*s)[p] == c.data() + p, "[] differs"); });
        guarded("front", o.empty() ? "empty_container_access" : nullptr, [&] { EXPECT("functional", &c.front() == c.data() && &s->front() == c.data(), "front differs"); });
        guarded("back", o.empty() ? "empty_container_access" : nullptr, [&] { EXPECT("functional", &c.back() == c.data() + o.size() - 1 && &s->back() == c.data() + o.size() - 1, "back differs"); });
        guarded("reserve", p > N ? "length_error" : nullptr, [&] { s->reserve(p); });
    }
    // rejected: the string may have been modified, start over
    template <class F>
    void op(const char* name, const char* kind, const std::string& want, F&& f)
    {
        log("%s", name);
        if (guarded(name, kind, f))
        {
            o = want;
            check(name);
        }
        else
        {
            auto* p = new unsigned char[sizeof(S)];
            (void)p;
            delete[] p;
            s = std::make_unique<S>();
            o.clear();
        }
    }
    void step()
    {
        std::size_t room = N - o.size();
        std::string t = text(r.coin(1, 8) ? N + 3 : (r.coin() ? room : room + 1));
        std::string z = t;
        for (auto& c : z)
            if (!c) c = 'b';
        std::size_t i = r.below(o.size() + 1), n = r.below(N + 2);
        char ch = chr();
        const char* tl = t.size() > N ? "length_error" : nullptr;
        const char* ta = t.size() > room ? "length_error" : nullptr;
        const char* one = room == 0 ? "length_error" : nullptr;
        const char* nl = n > N ? "length_error" : nullptr;
        log("t=%s i=%zu n=%zu ch=%d", q(t).c_str(), i, n, ch);
        auto at = [&](std::size_t k) { return s->begin() + static_cast<std::ptrdiff_t>(k); };
        auto back = [&](auto it) { return static_cast<std::size_t>(it - s->begin()); };
        const char* f = t.data();
        const char* e = f + t.size();
        auto ret = [&](auto it) { EXPECT("functional", back(it) == i, "returned iterator at %zu, expected %zu", back(it), i); };
        auto self = [&](S& x) { EXPECT("functional", &x == s.get(), "does not return itself"); };
        std::string ins = o;
        ins.insert(i, t);
        switch (r.below(34))
        {
        case 0: op("S(n,ch)", nl, std::string(n, ch), [&] { s = std::make_unique<S>(n, ch); }); break;
        case 1: op("S(view)", tl, t, [&] { s = std::make_unique<S>(std::string_view(t)); }); break;
        case 2: op("S(ptr)", tl, z, [&] { s = std::make_unique<S>(z.c_str()); }); break;
        case 3: { auto u = std::make_unique<S>(*s); op("copy ctor", nullptr, o, [&] { s = std::make_unique<S>(*u); }); break; }
        case 4: { auto u = std::make_unique<S>(*s); op("move ctor", nullptr, o, [&] { s = std::make_unique<S>(std::move(*u)); }); break; }
        case 5: { if (tl) break; S u{std::string_view(t)}; op("copy assign", nullptr, t, [&] { *s = u; }); break; }
        case 6: { if (tl) break; S u{std::string_view(t)}; op("move assign", nullptr, t, [&] { *s = std::move(u); }); break; }
        case 7: { std::string w = o; w.resize(std::min(n, N)); op("resize", nl, w, [&] { s->resize(n); }); break; }
        case 8: { std::string w = o; w.resize(std::min(n, N), ch); op("resize(ch)", nl, w, [&] { s->resize(n, ch); }); break; }
        case 9: op("push_back", one, o + ch, [&] { s->push_back(ch); }); break;
        case 10: op("pop_back", o.empty() ? "empty_container_access" : nullptr, o.substr(0, o.empty() ? 0 : o.size() - 1), [&] { s->pop_back(); }); break;
        case 11: { std::string w = o; w.insert(i, 1, ch); op("insert(ch)", one, w, [&] { ret(s->insert(at(i), ch)); }); break; }
        case 12: op("insert(range)", ta, ins, [&] { ret(s->insert(at(i), f, e)); }); break;
        case 13: op("insert(view)", ta, ins, [&] { ret(s->insert(at(i), std::string_view(t))); }); break;
        case 14: op("insert(input it)", ta, ins, [&] { ret(s->insert(at(i), InIt<char>{f}, InIt<char>{e})); }); break;
        case 15: op("assign(n,ch)", nl, std::string(n, ch), [&] { self(s->assign(n, ch)); }); break;
        case 16: op("assign(range)", tl, t, [&] { self(s->assign(f, e)); }); break;
        case 17: op("assign(view)", tl, t, [&] { self(s->assign(std::string_view(t))); }); break;
        case 18: op("assign(ptr)", tl, z, [&] { self(s->assign(z.c_str())); }); break;
        case 19: op("append(range)", ta, o + t, [&] { self(s->append(f, e)); }); break;
        case 20: op("append(view)", ta, o + t, [&] { self(s->append(std::string_view(t))); }); break;
        case 21: op("append(ptr)", ta, o + z, [&] { self(s->append(z.c_str())); }); break;
        case 22: op("+=view", ta, o + t, [&] { self(*s += std::string_view(t)); }); break;
        case 23: op("+=ptr", ta, o + z, [&] { self(*s += z.c_str()); }); break;
        case 24: op("+=ch", one, o + ch, [&] { self(*s += ch); }); break;
        case 25: { if (i == o.size()) break; std::string w = o; w.erase(i, 1); op("erase(it)", nullptr, w, [&] { ret(s->erase(at(i))); }); break; }
        case 26:
        {
            std::size_t j = r.below(o.size() + 1);
            std::string w = o;
            if (j >= i) w.erase(i, j - i);
            log("j=%zu", j);
            op("erase(range)", j < i ? "invalid_argument" : nullptr, w, [&] { ret(s->erase(at(i), at(j))); });
            break;
        }
        case 27: op("clear", nullptr, "", [&] { s->clear(); }); break;
        case 28: op("=ptr", tl, z, [&] { self(*s = z.c_str()); }); break;
        case 29: op("=view", tl, t, [&] { self(*s = std::string_view(t)); }); break;
        case 30: op("insert(ilist)", room < 3 ? "length_error" : nullptr, std::string(o).insert(i, std::string() + ch + "yz"), [&] { ret(s->insert(at(i), {ch, 'y', 'z'})); }); break;
        case 31: op("append(ilist)", room < 2 ? "length_error" : nullptr, o + ch + 'y', [&] { if (i % 2) self(s->append({ch, 'y'})); else self(*s += {ch, 'y'}); }); break;
        case 32: op("assign(ilist)", N < 2 ? "length_error" : nullptr, std::string() + ch + 'y', [&] { if (i % 2) self(s->assign({ch, 'y'})); else self(*s = {ch, 'y'}); }); break;
        default: query();
        }
    }
    void go(std::size_t len)
    {
        s = std::make_unique<S>();
        log("FixedString<%zu>", N);
        check("ctor");
        for (std::size_t k = 0; k < len; ++k) step();
        query();
    }
};
int main(int argc, char** argv)
{
    return main_loop(argc, argv, [](Rng& r, std::size_t len)
    {
        switch (r.below(6))
        {
        case 0: Run<1>(r).go(len); break;
        case 1: Run<2>(r).go(len); break;
        case 2: Run<5>(r).go(len); break;
        case 3: Run<3>(r).go(len); break;
        case 4: if (r.below(8) == 0) { Run<300>(r).go(len); break; } [[fallthrough]];
        default: Run<9>(r).go(len);
        }
    });
}
