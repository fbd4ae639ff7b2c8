// C13: every form of a callback (function, member function, functor, lambda,
// lvalue/rvalue/const, move-only) x every kind of result, at every place of a
// chain, with every outcome of the row.
#define SIGS sig_list<sig<'s'>>
#define MODES 3
#include "common.hpp"
#include "iparser.hpp"
#include <functional>
#include <memory>
#include <type_traits>
using std::string;
using std::vector;
static vk::guard_page guard(1 << 16);

struct obj {
    string a;
    int b = 0;
    obj() = default;
    obj(string x, int y) : a(std::move(x)), b(y) {}
    bool check() const;
    void look() const;
};
inline void emit(vector<string>& v, const obj& o) { v.push_back(o.a); v.push_back(std::to_string(o.b)); }

// what the callbacks saw
static vector<string> seen;
static bool answer = true;
template <typename... T> void note(const T&... t) {
    vector<string> v;
    (emit(v, t), ...);
    seen.push_back(vk::show(v));
}
bool obj::check() const { note(*this); return answer; }
void obj::look() const { note(*this); }

// results of callbacks
struct conv_class { bool v; explicit operator bool() const { return v; } };
struct conv_implicit { bool v; operator bool() const { return v; } };
static int one = 1;
template <int R> auto result() {
    if constexpr (R == 0) return answer;
    else if constexpr (R == 1) return answer ? 1 : 0;
    else if constexpr (R == 2) return answer ? 256 : 0;           // not truncated
    else if constexpr (R == 3) return answer ? 0x100000000ull : 0ull;
    else if constexpr (R == 4) return answer ? &one : nullptr;
    else if constexpr (R == 5) return answer ? std::optional<int>(0) : std::nullopt;
    else if constexpr (R == 6) return conv_class{answer};
    else if constexpr (R == 7) return conv_implicit{answer};
    else if constexpr (R == 8) return answer ? 0.25 : 0.0;
    else if constexpr (R == 9) return answer ? std::make_unique<int>(0) : nullptr;
    else if constexpr (R == 10) return answer ? 'n' : '\0';
    else if constexpr (R == 11) return std::function<void()>(answer ? std::function<void()>([] {}) : std::function<void()>());
    else if constexpr (R == 12) return static_cast<short>(answer ? -1 : 0);
    else if constexpr (R == 13) return;
}
constexpr int NRES = 14;
static const char* res_names[] = {"bool", "int", "int 256", "2^32", "pointer", "optional<int>", "explicit operator bool", "operator bool", "double", "unique_ptr", "char", "function", "short -1", "void"};

// the values of an alternative: int, string, tuple<int,string>, obj
template <int R, typename... T> auto body(const T&... t) { note(t...); return result<R>(); }
template <int R> auto fun_int(int v) { return body<R>(v); }
template <int R> auto fun_int_ref(const int& v) { return body<R>(v); }
template <int R> auto fun_str(const string& v) { return body<R>(v); }
template <int R> auto fun_pair(int a, const string& b) { return body<R>(a, b); }
template <int R> auto fun_tuple(const std::tuple<int, string>& t) { return body<R>(t); }
template <int R> auto fun_obj(const obj& o) { return body<R>(o); }
template <int R> auto fun_none() { return body<R>(); }
template <int R, int A> struct functor {
    std::unique_ptr<int> token = std::make_unique<int>(1); // can only be moved
    auto operator()(const int& v) { return body<R>(v); }
};
template <int R> struct functor<R, 1> { std::unique_ptr<int> token = std::make_unique<int>(1); auto operator()(const string& v) { return body<R>(v); } };
template <int R> struct functor<R, 2> { std::unique_ptr<int> token = std::make_unique<int>(1); auto operator()(int a, string b) { return body<R>(a, b); } };
template <int R> struct functor<R, 3> { std::unique_ptr<int> token = std::make_unique<int>(1); auto operator()(obj o) { return body<R>(o); } };
template <int R, int A> struct cfunctor { // can be called while const
    auto operator()(const int& v) const { return body<R>(v); }
};
template <int R> struct cfunctor<R, 1> { auto operator()(const string& v) const { return body<R>(v); } };
template <int R> struct cfunctor<R, 2> { auto operator()(const std::tuple<int, string>& t) const { return body<R>(t); } };
template <int R> struct cfunctor<R, 3> { auto operator()(const obj& o) const { return body<R>(o); } };

// form: 0 function pointer, 1 function reference, 2 temporary functor, 3 lvalue
// functor, 4 const functor, 5 std::function, 6 without parameters, 7 lvalue lambda
constexpr int NFORM = 8;
static const char* form_names[] = {"function pointer", "function", "temporary functor", "functor", "const functor", "std::function", "no parameters", "lambda"};
template <int A, int R, int F, typename G>
auto with_callback(G&& g) {
    if constexpr (F == 0 || F == 1) {
        if constexpr (A == 0) { if constexpr (F == 0) return g(&fun_int<R>); else return g(fun_int_ref<R>); }
        else if constexpr (A == 1) { if constexpr (F == 0) return g(&fun_str<R>); else return g(fun_str<R>); }
        else if constexpr (A == 2) { if constexpr (F == 0) return g(&fun_pair<R>); else return g(fun_tuple<R>); }
        else { if constexpr (F == 0) return g(&fun_obj<R>); else return g(fun_obj<R>); }
    } else if constexpr (F == 2) return g(functor<R, A>{});
    else if constexpr (F == 3) { functor<R, A> f; return g(f); }
    else if constexpr (F == 4) { const cfunctor<R, A> f{}; return g(f); }
    else if constexpr (F == 5) {
        using Ret = decltype(result<R>());
        if constexpr (A == 0) return g(std::function<Ret(int)>(&fun_int<R>));
        else if constexpr (A == 1) { std::function<Ret(const string&)> f(&fun_str<R>); return g(f); }
        else if constexpr (A == 2) return g(std::function<Ret(int, const string&)>(&fun_pair<R>));
        else return g(std::function<Ret(const obj&)>(&fun_obj<R>));
    } else if constexpr (F == 6) return g(&fun_none<R>);
    else {
        int calls = 0;
        if constexpr (A == 0) { auto l = [&calls](int v) mutable { ++calls; return body<R>(v); }; return g(l); }
        else if constexpr (A == 1) { auto l = [&calls](std::string_view v) { ++calls; return body<R>(string(v)); }; return g(l); }
        else if constexpr (A == 2) { auto l = [&calls](long a, const string& b) { ++calls; return body<R>(int(a), b); }; return g(l); }
        else { auto l = [&calls](const auto& o) -> decltype(result<R>()) { ++calls; return body<R>(o); }; if constexpr (true) { auto m = [&l](const obj& o) { return l(o); }; return g(m); } }
    }
}
static const char* alt_sig(int a) { return a == 0 ? "i" : a == 1 ? "s" : a == 2 ? "is" : "si"; }
template <typename T> string slot(const std::optional<T>& o) { if (!o) return "-"; vector<string> v; emit(v, *o); return vk::show(v); }

// place: 0 first alternative, 1 second (after a failing one), followed by a
// third alternative which takes strings
template <int A, int R, int F, int PL, typename P>
vector<string> chain(P& p) {
    return with_callback<A, R, F>([&](auto&& f) {
        using Fn = decltype(f);
        auto last = [&](auto&& c) {
            return std::apply([](const auto&... o) { return vector<string>{slot(o)...}; }, c.template or_else<string, string>().template or_else<string>().values());
        };
        if constexpr (PL == 0) {
            if constexpr (A == 0) return last(p.template try_next<int>(std::forward<Fn>(f)));
            else if constexpr (A == 1) return last(p.template try_next<string>(std::forward<Fn>(f)));
            else if constexpr (A == 2) return last(p.template try_next<int, string>(std::forward<Fn>(f)));
            else return last(p.template try_object<obj, string, int>(std::forward<Fn>(f)));
        } else {
            auto c = p.template try_next<int, int>();
            if constexpr (A == 0) return last(c.template or_else<int>(std::forward<Fn>(f)));
            else if constexpr (A == 1) return last(c.template or_else<string>(std::forward<Fn>(f)));
            else if constexpr (A == 2) return last(c.template or_else<int, string>(std::forward<Fn>(f)));
            else return last(c.template or_object<obj, string, int>(std::forward<Fn>(f)));
        }
    });
}

template <typename L, int M>
struct explorer {
    using P = typename with_mode<L, M>::template apply<ss::parser>;
    vk::ctx& x;
    model::cfg c = cfg_of(L{});
    vector<string> texts;

    static string convert(const std::optional<model::record>& rec, const string& sg) {
        if (!rec) return "-";
        row r = model_row(*rec, sg);
        return r.ok ? vk::show(r.vals) : "-";
    }
    template <int A, int R, int F, int PL>
    void check(const string& t, unsigned answers) {
        if (!x.take()) return;
        ++x.evals;
        model::parser m(c, t);
        P p{guard.put(t), t.size(), c.delim};
        for (size_t k = 0; k < 4; ++k) {
            auto rec = m.read();
            answer = answers >> k & 1;
            vector<string> want, calls;
            bool ok = false;
            auto alt = [&](const string& sg, bool cb) {
                string s = "-";
                if (!ok) {
                    s = convert(rec, sg);
                    if (s != "-") {
                        ok = true;
                        if (cb) {
                            calls.push_back(F == 6 ? vk::show(vector<string>{}) : s);
                            if (R != 13 && !answer) { ok = false; s = "-"; }
                        }
                    }
                }
                want.push_back(s);
            };
            if (PL == 1) alt("ii", false);
            alt(alt_sig(A), true);
            alt("ss", false);
            alt("s", false);
            seen.clear();
            auto got = chain<A, R, F, PL>(p);
            ++x.states;
            ++x.transitions;
            auto where = [&] { return show(c) + " " + mode_name(M) + " " + vk::show(t) + " row " + std::to_string(k) + " " + (PL ? "or_else " : "try ") + alt_sig(A) + " with " + form_names[F] + " returning " + res_names[R] + (answer ? "" : " (false)"); };
            if (got != want) return x.violation(where() + ": values " + vk::show(got) + ", expected " + vk::show(want));
            if (seen != calls) return x.violation(where() + ": called with " + vk::show(seen) + ", expected " + vk::show(calls));
            if (p.valid() != ok) return x.violation(where() + ": valid() is " + (ok ? "false" : "true"));
            if (p.eof() != m.eof() || p.position() != m.position()) return x.violation(where() + ": position");
            if (!calls.empty()) ++x.nontrivial;
            x.outcome(vk::show(want) + vk::show(calls));
        }
        x.sample([&] { return show(c) + " " + vk::show(t) + " " + form_names[F] + " " + res_names[R]; });
    }
    template <size_t I> void one() {
        constexpr int PL = I % 2, F = I / 2 % NFORM, R = I / 2 / NFORM % NRES, A = int(I / 2 / NFORM / NRES);
        for (auto& t : texts)
            for (unsigned a = 0; a < 8; ++a) check<A, R, F, PL>(t, a);
    }
    template <size_t From, size_t... I> void all(std::index_sequence<I...>) { (one<From + I>(), ...); }

    // on_error: every form, exactly when everything failed
    template <typename G> void errors(const char* name, bool text, G&& g) {
        for (auto& t : texts) {
            if (!x.take()) continue;
            ++x.evals;
            model::parser m(c, t);
            P p{guard.put(t), t.size(), c.delim};
            for (size_t k = 0; k < 4; ++k) {
                auto rec = m.read();
                bool ok = convert(rec, "i") != "-" || convert(rec, "is") != "-";
                seen.clear();
                auto ch = p.template try_next<int>();
                string message;
                auto kept = ch.values();
                g(ch, message);
                bool same = ch.values() == kept;
                string first = message;
                auto ch2 = ch.template or_else<int, string>();
                vector<string> before = seen;
                seen.clear();
                message.clear();
                auto kept2 = ch2.values();
                g(ch2, message);
                same = same && ch2.values() == kept2;
                auto where = [&] { return show(c) + " " + mode_name(M) + " " + vk::show(t) + " row " + std::to_string(k) + " on_error with " + name; };
                if (!same) return x.violation(where() + ": the values of the chain are not the same afterwards");
                bool ok1 = convert(rec, "i") != "-";
                if (before.empty() != ok1 || seen.empty() != ok || before.size() > 1 || seen.size() > 1) return x.violation(where() + ": called wrongly");
                if constexpr (M == STR) if (text && !ok && message != p.error_msg()) return x.violation(where() + ": message " + vk::show(message) + ", error_msg() " + vk::show(p.error_msg()));
                if (!ok) ++x.nontrivial;
            }
        }
    }
    void run_errors() {
        errors("temporary lambda", false, [](auto& c, string&) { c.on_error([] { note(string("e")); }); });
        errors("lambda", false, [](auto& c, string&) { auto l = [] { note(string("e")); }; c.on_error(l); });
        errors("const lambda", false, [](auto& c, string&) { const auto l = [] { note(string("e")); }; c.on_error(l); });
        errors("function", false, [](auto& c, string&) { static void (*const f)() = [] { note(string("e")); }; c.on_error(f); });
        errors("mutable lambda with a result", false, [](auto& c, string&) { int n = 0; auto l = [n]() mutable { note(string("e")); return ++n; }; c.on_error(l); });
        errors("std::function", false, [](auto& c, string&) { std::function<void()> f([] { note(string("e")); }); c.on_error(f); });
        errors("move-only lambda", false, [](auto& c, string&) { c.on_error([u = std::make_unique<int>(1)] { note(string("e")); }); });
        if constexpr (M == STR) {
            errors("lambda with const string&", true, [](auto& c, string& m) { c.on_error([&](const string& s) { note(s); m = s; }); });
            errors("lambda with string", true, [](auto& c, string& m) { c.on_error([&](string s) { note(s); m = s; s.clear(); }); });
            errors("lambda with string_view", true, [](auto& c, string& m) { auto l = [&](std::string_view s) { note(s); m = s; }; c.on_error(l); });
            errors("std::function with text", true, [](auto& c, string& m) { std::function<void(const string&)> f([&](const string& s) { note(s); m = s; }); c.on_error(f); });
            errors("generic lambda", true, [](auto& c, string& m) { c.on_error([&](const auto& s) { note(string(s)); m = s; return 1; }); });
        }
    }
    // member functions as callbacks
    void members() {
        for (auto& t : texts)
            for (unsigned ans = 0; ans < 8; ++ans)
                for (int how = 0; how < 4; ++how) {
                    if (!x.take()) continue;
                    ++x.evals;
                    model::parser m(c, t);
                    P p{guard.put(t), t.size(), c.delim};
                    for (size_t k = 0; k < 4; ++k) {
                        auto rec = m.read();
                        answer = ans >> k & 1;
                        seen.clear();
                        string a = "-", w = convert(rec, "si");
                        vector<string> calls;
                        if (w != "-") { calls.push_back(w); if (how < 2 && !answer) w = "-"; }
                        if (how == 0) { auto [o] = p.template try_object<obj, string, int>(&obj::check).values(); a = slot(o); }
                        if (how == 1) { auto [f, o] = p.template try_next<int, int, int, int>().template or_object<obj, string, int>(&obj::check).values(); a = slot(o); }
                        if (how == 2) { auto [o] = p.template try_object<obj, string, int>(&obj::look).values(); a = slot(o); }
                        if (how == 3) { auto [f, o] = p.template try_next<int, int, int, int>().template or_object<obj, string, int>(&obj::look).values(); a = slot(o); }
                        if (a != w || seen != calls || p.valid() != (w != "-"))
                            return x.violation(show(c) + " " + mode_name(M) + " " + vk::show(t) + " row " + std::to_string(k) + " member function " + std::to_string(how) + ": " + a + " after " + vk::show(seen) + ", expected " + w + " after " + vk::show(calls));
                        if (!calls.empty()) ++x.nontrivial;
                    }
                }
    }
};

void explore(vk::ctx& x) {
#if PART < 4
    explorer<opts<ss::quote<'"'>>, PART % 2 ? STR : BOOL> e{x};
#else
    explorer<opts<>, PART % 2 ? STR : BOOL> e{x};
#endif
    vector<string> rows{"1", "x", "2,y", "z,3", "1,2,3", ""};
    e.texts = {""};
    for (size_t n = 1; n <= (x.thorough ? 3u : 2u); ++n)
        vk::seqs_n(rows.size(), n, [&](const vector<int>& ix) { string t; for (int i : ix) t += rows[size_t(i)] + "\n"; e.texts.push_back(t); });
    constexpr size_t n = 4 * NRES * NFORM * 2 / 4;
    e.template all<n * (PART % 4)>(std::make_index_sequence<n>{});
    x.bound("callback_forms", 4 * NRES * NFORM * 2);
    if (PART < 2) { e.run_errors(); e.members(); }
}
