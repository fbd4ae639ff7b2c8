// C13: chains of substitute conversions against an interpreter of chains.
#define SIGS sig_list<sig<'s'>>
#define MODES 3
#include "common.hpp"
#include "iparser.hpp"
using std::string;
using std::vector;
static vk::guard_page guard(1 << 16);

struct obj {
    string a, b;
    obj() = default;
    obj(string x, string y) : a(x), b(y) {}
    bool operator==(const obj& o) const { return a == o.a && b == o.b; }
    bool operator!=(const obj& o) const { return !(*this == o); }
};
inline void emit(vector<string>& v, const obj& o) { v.push_back(o.a); v.push_back(o.b); }

// what happened during one chain
struct env {
    vector<string> log;
    bool accept[3] = {true, true, true};
    template <typename... T>
    bool call(int pos, const T&... t) {
        vector<string> v;
        (emit(v, t), ...);
        log.push_back("callback " + std::to_string(pos) + " " + vk::show(v));
        return accept[pos];
    }
};

// alternatives
template <int A> struct alt;
template <> struct alt<0> { using value = int; static constexpr const char* sig = "i"; };
template <> struct alt<1> { using value = string; static constexpr const char* sig = "s"; };
template <> struct alt<2> { using value = std::tuple<int, string>; static constexpr const char* sig = "is"; };
template <> struct alt<3> { using value = obj; static constexpr const char* sig = "ss"; };
static const char* alt_sig(int a) { return a == 0 ? "i" : a == 1 ? "s" : a == 2 ? "is" : "ss"; }

// callbacks: 0 none, 1 nullary bool, 2 unpacked void, 3 unpacked bool, 4 whole value bool
template <int A, int K> struct callback {
    env& e; int pos;
    using V = typename alt<A>::value;
    void operator()(const V& v) { e.call(pos, v); }
};
template <> struct callback<1, 2> { env& e; int pos; void operator()(string v) { e.call(pos, v); v.clear(); } };
template <> struct callback<3, 2> { env& e; int pos; void operator()(obj v) { e.call(pos, v); v.b.clear(); } };
template <int A> struct callback<A, 3> { env& e; int pos; using V = typename alt<A>::value; bool operator()(const V& v) { return e.call(pos, v); } };
template <int A> struct callback<A, 4> { env& e; int pos; using V = typename alt<A>::value; bool operator()(V v) { return e.call(pos, v); } };
template <int A> struct callback<A, 1> { env& e; int pos; bool operator()() { return e.call(pos); } };
template <> struct callback<2, 2> { env& e; int pos; void operator()(int i, string s) { e.call(pos, i, s); s += '!'; } };
template <> struct callback<2, 3> { env& e; int pos; bool operator()(const int& i, string s) { return e.call(pos, i, s); } };

template <typename P, int A, int K>
auto begin_chain(P& p, env& e) {
    if constexpr (A == 0) { if constexpr (K == 0) return p.template try_next<int>(); else return p.template try_next<int>(callback<A, K>{e, 0}); }
    else if constexpr (A == 1) { if constexpr (K == 0) return p.template try_next<string>(); else return p.template try_next<string>(callback<A, K>{e, 0}); }
    else if constexpr (A == 2) { if constexpr (K == 0) return p.template try_next<int, string>(); else return p.template try_next<int, string>(callback<A, K>{e, 0}); }
    else { if constexpr (K == 0) return p.template try_object<obj, string, string>(); else return p.template try_object<obj, string, string>(callback<A, K>{e, 0}); }
}
template <int A, int K, typename C>
auto extend(C&& c, env& e, int pos) {
    if constexpr (A == 0) { if constexpr (K == 0) return c.template or_else<int>(); else return c.template or_else<int>(callback<A, K>{e, pos}); }
    else if constexpr (A == 1) { if constexpr (K == 0) return c.template or_else<string>(); else return c.template or_else<string>(callback<A, K>{e, pos}); }
    else if constexpr (A == 2) { if constexpr (K == 0) return c.template or_else<int, string>(); else return c.template or_else<int, string>(callback<A, K>{e, pos}); }
    else { if constexpr (K == 0) return c.template or_object<obj, string, string>(); else return c.template or_object<obj, string, string>(callback<A, K>{e, pos}); }
}

// on_error after an alternative, with the message where there is one
template <bool Str, typename P, typename C>
auto watch(C&& c, P& p, env& e, int pos) {
    auto before = c.values();
    auto kept = [&](auto r) {
        if (c.values() != before) throw std::runtime_error("on_error changes the values of the chain");
        if (r.values() != before) throw std::runtime_error("on_error returns other values");
        return r;
    };
    if constexpr (Str) {
        if (pos == 1) return kept(c.on_error([&] { e.log.push_back("error " + std::to_string(pos)); }));
        return kept(c.on_error([&e, &p, pos](const string& m) { e.log.push_back("error " + std::to_string(pos) + (m.empty() ? " without message" : m != p.error_msg() ? " with another message" : "")); }));
    } else return kept(c.on_error([&] { e.log.push_back("error " + std::to_string(pos)); }));
}

struct outcome {
    bool valid;
    vector<string> values; // per alternative: "-" or its values
};
// values() can be called repeatedly
template <typename C> auto twice(C&& c) {
    if (c.values() != c.values()) throw std::runtime_error("values() is different when called again");
    return c.values();
}
template <typename T> string slot(const std::optional<T>& o) { if (!o) return "-"; vector<string> v; emit(v, *o); return vk::show(v); }

struct chain_desc { vector<int> a, k; string text() const { string s; for (size_t i = 0; i < a.size(); ++i) s += string(i ? " or_else " : "try ") + alt_sig(a[i]) + " callback" + std::to_string(k[i]); return s; } };

struct ichain {
    chain_desc d;
    outcome (*run)(void* parser, env&, bool with_errors);
};

template <typename P, bool Str, int A0, int K0>
outcome run1(void* pp, env& e, bool w) {
    P& p = *static_cast<P*>(pp);
    auto c = begin_chain<P, A0, K0>(p, e);
    if (w) { auto c2 = watch<Str>(c, p, e, 0); auto [a] = twice(c2); return {p.valid(), {slot(a)}}; }
    auto [a] = twice(c);
    return {p.valid(), {slot(a)}};
}
template <typename P, bool Str, int A0, int K0, int A1, int K1>
outcome run2(void* pp, env& e, bool w) {
    P& p = *static_cast<P*>(pp);
    if (w) {
        auto c = watch<Str>(extend<A1, K1>(watch<Str>(begin_chain<P, A0, K0>(p, e), p, e, 0), e, 1), p, e, 1);
        auto [a, b] = twice(c);
        return {p.valid(), {slot(a), slot(b)}};
    }
    auto [a, b] = extend<A1, K1>(begin_chain<P, A0, K0>(p, e), e, 1).values();
    return {p.valid(), {slot(a), slot(b)}};
}
template <typename P, bool Str, int A0, int K0, int A1, int K1, int A2, int K2>
outcome run3(void* pp, env& e, bool w) {
    P& p = *static_cast<P*>(pp);
    if (w) {
        auto c = watch<Str>(extend<A2, K2>(extend<A1, K1>(begin_chain<P, A0, K0>(p, e), e, 1), e, 2), p, e, 2);
        auto [a, b, d] = twice(c);
        return {p.valid(), {slot(a), slot(b), slot(d)}};
    }
    auto [a, b, d] = extend<A2, K2>(extend<A1, K1>(begin_chain<P, A0, K0>(p, e), e, 1), e, 2).values();
    return {p.valid(), {slot(a), slot(b), slot(d)}};
}

// chains: position = alternative * 5 + callback
template <typename P, bool Str, size_t I>
void add2(vector<ichain>& v) { constexpr int X = int(I / 20), Y = int(I % 20); v.push_back({{{X / 5, Y / 5}, {X % 5, Y % 5}}, &run2<P, Str, X / 5, X % 5, Y / 5, Y % 5>}); }
template <typename P, bool Str, size_t I>
void add3(vector<ichain>& v) {
    constexpr int X = int(I / 64), Y = int(I / 8 % 8), Z = int(I % 8); // callbacks none or bool
    v.push_back({{{X / 2, Y / 2, Z / 2}, {X % 2 * 3, Y % 2 * 3, Z % 2 * 3}}, &run3<P, Str, X / 2, X % 2 * 3, Y / 2, Y % 2 * 3, Z / 2, Z % 2 * 3>});
}
template <typename P, bool Str, size_t I> void add1(vector<ichain>& v) { v.push_back({{{int(I / 5)}, {int(I % 5)}}, &run1<P, Str, I / 5, I % 5>}); }
template <typename P, bool Str, size_t Off, size_t Step, size_t... I> void add_all2(vector<ichain>& v, std::index_sequence<I...>) { (add2<P, Str, I * Step + Off>(v), ...); }
template <typename P, bool Str, size_t Off, size_t Step, size_t... I> void add_all3(vector<ichain>& v, std::index_sequence<I...>) { (add3<P, Str, I * Step + Off>(v), ...); }
template <typename P, bool Str, size_t... I> void add_all1(vector<ichain>& v, std::index_sequence<I...>) { (add1<P, Str, I>(v), ...); }

// reference -----------------------------------------------------------------
static outcome reference(const std::optional<model::record>& rec, const chain_desc& d, const env& cfg, bool errors_everywhere, bool w, vector<string>& log, const vector<size_t>* sel, size_t ncols) {
    outcome o{false, {}};
    for (size_t i = 0; i < d.a.size(); ++i) {
        string s = "-";
        if (!o.valid) {
            row r;
            string sg = alt_sig(d.a[i]);
            if (rec) {
                if (!sel) r = model_row(*rec, sg);
                else if (rec->e == model::err::ok && sg.size() == sel->size()) {
                    auto cols = model::columns_for(*rec, ncols);
                    if (cols.size() == ncols) { vector<string> v; for (size_t k : *sel) v.push_back(cols[k]); r = model_convert(v, sg); }
                }
            }
            if (r.ok) {
                bool yes = true;
                if (d.k[i]) {
                    vector<string> none;
                    log.push_back("callback " + std::to_string(i) + " " + vk::show(d.k[i] == 1 ? none : r.vals));
                    if (d.k[i] != 2) yes = cfg.accept[i];
                }
                if (yes) { o.valid = true; s = vk::show(r.vals); }
            }
        }
        o.values.push_back(s);
        bool watched = w && (errors_everywhere || i + 1 == d.a.size());
        if (watched && !o.valid) log.push_back("error " + std::to_string(i));
    }
    return o;
}

template <typename L, int M>
struct explorer {
    using P = typename with_mode<L, M>::template apply<ss::parser>;
    vk::ctx& x;
    model::cfg c = cfg_of(L{});
    vector<ichain> chains;

    // how: 0 chains all along, 1 plain reads before, 2 a selection first
    void check(const string& t, const ichain& ch, unsigned decisions, bool w, int how) {
        if (!x.take()) return;
        ++x.evals;
        model::parser m(c, t);
        char* b = guard.put(t);
        P p{b, t.size(), c.delim};
        vector<size_t> sel;
        size_t ncols = 0;
        if (how == 1) {
            m.read();
            (void)p.template get_next<string>();
        } else if (how == 2) {
            if constexpr (!with_mode<L, M>::template apply<ss::setup>::ignore_header) {
                p.use_fields("c", "b");
                sel = {2, 1};
                ncols = 3;
                m.skip_line();
            }
        }
        size_t n = ch.d.a.size();
        auto where = [&](size_t k) { return show(c) + " " + mode_name(M) + " " + vk::show(t) + " chain " + ch.d.text() + (w ? " on_error" : "") + " decisions " + std::to_string(decisions) + " variant " + std::to_string(how) + ", row " + std::to_string(k); };
        size_t past = 0;
        for (size_t k = 0; k < t.size() + 4; ++k) {
            bool eof = m.eof();
            auto rec = m.read();
            env e;
            for (size_t i = 0; i < n; ++i) e.accept[i] = !(decisions >> i & 1);
            vector<string> log;
            outcome want = reference(rec, ch.d, e, n < 3, w, log, sel.empty() ? nullptr : &sel, ncols);
            outcome got;
            try { got = ch.run(&p, e, w); } catch (const std::runtime_error& err) { return x.violation(where(k) + ": " + err.what()); }
            ++x.states;
            ++x.transitions;
            if (got.values != want.values) return x.violation(where(k) + ": values " + vk::show(got.values) + ", expected " + vk::show(want.values));
            if (got.valid != want.valid) return x.violation(where(k) + ": valid() is " + (got.valid ? "true" : "false"));
            if (e.log != log) return x.violation(where(k) + ": calls " + vk::show(e.log) + ", expected " + vk::show(log));
            if constexpr (M == STR) if (!got.valid && p.error_msg().empty()) return x.violation(where(k) + ": no message");
            if (p.eof() != m.eof() || p.position() != m.position()) return x.violation(where(k) + ": eof() " + std::to_string(p.eof()) + " position " + std::to_string(p.position()) + ", expected " + std::to_string(m.eof()) + " " + std::to_string(m.position()));
            if (want.valid && want.values[0] == "-") ++x.nontrivial;
            if (t.size() < 40) x.outcome(vk::show(want.values) + vk::show(log));
            if (eof && ++past > 1) break;
        }
        x.sample([&] { return where(0); });
    }
    void run(bool big) {
        bool th = x.thorough;
        vector<string> rows{"1", "x", "1,2", "x,2", "", "1,2,3"};
        if (c.quote) { rows.push_back("\"q"); rows.push_back("\"q\"z"); rows.push_back("\"a\"\"\n,\",\"2\""); rows.push_back("3,\"a\nb\""); rows.push_back("\"5\""); }
        if (!c.esc.empty()) { rows.push_back("\\1\\,,2"); rows.push_back("e\\"); }
        vector<string> texts{""};
        size_t depth = th ? 3 : 2;
        x.bound("rows", depth);
        for (size_t n = 1; n <= depth; ++n)
            vk::seqs_n(rows.size(), n, [&](const vector<int>& ix) { string t; for (int i : ix) t += rows[i] + "\n"; texts.push_back(t); if (n == 1) { t.pop_back(); texts.push_back(t); } });
        vector<string> sel{"a,b,c\n1,x,2\n1,2,x\n1,2\nx\n", "a,b,c\n,,7\n,y,\"7\"\n"};
        x.bound("chains_in_a_part", chains.size());
        for (auto& ch : chains) {
            size_t n = ch.d.a.size();
            for (unsigned dec = 0; dec < 1u << n; ++dec) {
                bool has = true; // a decision without effect is not repeated
                for (size_t i = 0; i < n; ++i) if ((dec >> i & 1) && (ch.d.k[i] == 0 || ch.d.k[i] == 2)) has = false;
                if (!has) continue;
                for (size_t i = 0; i < texts.size(); ++i) {
                    if (n == 3 && i > 2 * rows.size() && i % 4 && !th) continue;
                    check(texts[i], ch, dec, true, 0);
                    if (i % 3 == 0 || big) check(texts[i], ch, dec, false, int(i % 2));
                }
                for (auto& t : sel) check(t, ch, dec, true, 2);
            }
        }
    }
};

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
void explore(vk::ctx& x) {
#if PART < 8
    explorer<opts<Q, E, ss::multiline_restricted<2>>, STR> e{x};
    using P = decltype(e)::P;
    if (PART == 0) add_all1<P, true>(e.chains, std::make_index_sequence<20>{});
    add_all2<P, true, PART, 8>(e.chains, std::make_index_sequence<50>{});
    add_all3<P, true, PART, 8>(e.chains, std::make_index_sequence<64>{});
    e.run(false);
#elif PART == 8
    explorer<opts<Q, E, ss::multiline>, BOOL> e{x};
    using P = decltype(e)::P;
    add_all1<P, false>(e.chains, std::make_index_sequence<20>{});
    add_all2<P, false, 3, 7>(e.chains, std::make_index_sequence<57>{});
    add_all3<P, false, 5, 11>(e.chains, std::make_index_sequence<46>{});
    e.run(true);
#elif PART == 9
    explorer<opts<>, STR> e{x};
    using P = decltype(e)::P;
    add_all1<P, true>(e.chains, std::make_index_sequence<20>{});
    add_all2<P, true, 2, 7>(e.chains, std::make_index_sequence<57>{});
    add_all3<P, true, 1, 11>(e.chains, std::make_index_sequence<46>{});
    e.run(true);
#elif PART == 10
    explorer<opts<ss::ignore_empty, Q, ss::multiline_restricted<1>>, BOOL> e{x};
    using P = decltype(e)::P;
    add_all1<P, false>(e.chains, std::make_index_sequence<20>{});
    add_all2<P, false, 1, 7>(e.chains, std::make_index_sequence<57>{});
    add_all3<P, false, 7, 11>(e.chains, std::make_index_sequence<46>{});
    e.run(true);
#endif
}
