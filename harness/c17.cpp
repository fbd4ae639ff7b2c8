// C17: every text over hostile bytes x setups x call sequences under the
// address/undefined-behaviour sanitizers (or valgrind); views keep their content.
#include "common.hpp"
#include "setups.hpp"
#include <memory>
#include <optional>
#include <string_view>
#include <variant>
using std::string;
using std::string_view;
using std::vector;

struct held {
    vector<string_view> views;
    vector<string> copies;
    void add(string_view s) { views.push_back(s); copies.emplace_back(s); }
    void add(const std::optional<string_view>& s) { if (s) add(*s); }
    template <typename... T> void add(const std::tuple<T...>& t) { std::apply([&](const auto&... e) { (add(e), ...); }, t); }
    template <typename T> void add(const T&) {}
    bool intact() const {
        for (size_t i = 0; i < views.size(); ++i)
            if (string(views[i]) != copies[i]) return false;
        return true;
    }
    void drop() { views.clear(); copies.clear(); }
};

// a buffer whose neighbourhood is inaccessible on both sides (with ASan)
struct exact {
    char* p;
    size_t n;
    explicit exact(const string& s) : p(static_cast<char*>(malloc(s.size() ? s.size() : 1))), n(s.size()) {
        if (n) memcpy(p, s.data(), n);
#ifdef __SANITIZE_ADDRESS__
        if (!n) { free(p); p = static_cast<char*>(malloc(0)); }
#endif
    }
    exact(const exact&) = delete;
    ~exact() { free(p); }
};

enum { V1, V2, VOV, ID, TUP, IGN, USE, HDR, FEX, LOOK, TRY, ITER, RANGE, NOPS };
static const char* op_names[] = {"get_next<sv>", "get_next<sv,sv>", "get_next<sv,optional,sv>", "get_next<int,double>", "get_next<tuple<variant,sv>>", "ignore_next", "use_fields(b,a)", "header", "field_exists(a)",
                                 "line/position/eof/error_msg", "try_next<int>.or_else<sv,sv>.or_else<sv>", "iterate one", "iterate all"};

template <typename L, int M>
struct player {
    using O = cat<L, std::conditional_t<M == 1, opts<ss::string_error>, std::conditional_t<M == 2, opts<ss::throw_on_error>, opts<>>>>;
    using P = typename O::template apply<ss::parser>;
    static constexpr bool has_header = !O::template apply<ss::setup>::ignore_header;
    P p;
    held h;
    size_t sum = 0, rows = 0;

    template <typename F> void guarded(F&& f) {
        if constexpr (M == 2) { try { f(); } catch (const ss::exception& e) { sum += strlen(e.what()); } }
        else f();
    }
    template <typename... T> void read() {
        h.drop();
        guarded([&] { auto t = p.template get_next<T...>(); if (p.valid()) { ++rows; h.add(t); } });
    }
    // returns false if a view changed
    bool act(int op) {
        bool reads = op <= IGN || op >= TRY;
        if (reads && !h.intact()) return false;
        switch (op) {
        case V1: read<string_view>(); break;
        case V2: read<string_view, string_view>(); break;
        case VOV: read<string_view, std::optional<int>, string_view>(); break;
        case ID: read<int, double>(); break;
        case TUP: read<std::tuple<std::variant<int, float>, string_view>>(); break;
        case IGN: h.drop(); p.ignore_next(); break;
        case USE: if constexpr (has_header) guarded([&] { p.use_fields("b", "a"); }); break;
        case HDR: if constexpr (has_header) { guarded([&] { for (auto& s : p.header()) sum += s.size(); }); sum += p.raw_header().size(); } break;
        case FEX: if constexpr (has_header) guarded([&] { sum += p.field_exists("a"); }); break;
        case LOOK:
            sum += p.line() + p.position() + p.eof() + p.valid();
            if constexpr (M == 1) sum += p.error_msg().size();
            break;
        case TRY:
            h.drop();
            if constexpr (M != 2) {
                auto [a, b, c] = p.template try_next<int>([&](int) { return true; })
                                     .template or_else<string_view, string_view>([&](const auto& t) { h.add(t); })
                                     .on_error([&] { sum += 1; })
                                     .template or_else<string_view>().values();
                if (b) h.add(*b);
                if (c) h.add(*c);
            } else read<string_view, string_view>();
            break;
        case ITER:
            h.drop();
            guarded([&] { for (auto&& t : p.template iterate<string_view, string_view>()) { if (p.valid()) h.add(t); break; } });
            break;
        case RANGE: {
            h.drop();
            bool ok = true, done = false;
            guarded([&] { for (auto&& t : p.template iterate<string_view, string_view>()) { h.drop(); if (p.valid()) h.add(t); if (!h.intact()) { ok = false; break; } } done = true; });
            if (!done) h.drop(); // thrown by a read
            if (!ok) return false;
            break;
        }
        }
        return h.intact();
    }
};

struct explorer {
    vk::ctx& x;
    model::cfg c;
    template <typename L, int M>
    void check(const string& t, const vector<int>& seq, int src, const string& d = ",") {
        if (!x.take()) return;
        ++x.evals;
        auto where = [&] {
            string s = show(c) + (M == 0 ? " default" : M == 1 ? " string_error" : " throw_on_error") + (src == 1 ? " file " : " buffer ") + vk::show(t) + " delimiter " + vk::show(d) + " with";
            for (int o : seq) s += string(" ") + op_names[o];
            return s;
        };
        if (x.verbose) fprintf(stderr, "CASE %s\n", where().c_str());
        using PL = player<L, M>;
        exact e(t);
        std::unique_ptr<PL> p;
        if (src == 1) {
            static string written;
            static bool have = false;
            string path = x.scratch + "/f";
            if (!have || written != t) { vk::write_file(path, t); written = t; have = true; }
            p.reset(new PL{typename PL::P(path, d), {}});
        } else {
            p.reset(new PL{typename PL::P(e.p, e.n, d), {}});
        }
        size_t k = 0, lines = 2 + size_t(std::count(t.begin(), t.end(), '\n')), limit = (lines + 2) * seq.size() + 8;
        size_t after = 0;
        while (after <= seq.size()) {
            ++x.transitions;
            ++x.states;
            if (p->p.eof()) ++after;
            if (!p->act(seq[k % seq.size()])) { x.violation(where() + ": a view changed before the next read (operation " + std::to_string(k) + ")"); return; }
            bool only_looks = true;
            for (int o : seq) only_looks &= o == USE || o == HDR || o == FEX || o == LOOK;
            ++k;
            if (only_looks && k > 2 * seq.size()) break;
            if (k > limit) { x.violation(where() + ": the end of the input is not reached"); return; }
        }
        if (p->rows && k > 2) ++x.nontrivial;
        x.outcome(std::to_string(p->sum) + "/" + std::to_string(p->rows) + "/" + std::to_string(k));
        x.sample([&] { return where() + " -> " + std::to_string(p->rows) + " rows"; });
    }
    // a view is the text which is read as a string
    template <typename L> void contents(const string& t, int src) {
        if (!x.take()) return;
        ++x.evals;
        using P = typename L::template apply<ss::parser>;
        exact e(t), e2(t);
        string path = x.scratch + "/v";
        if (src) vk::write_file(path, t);
        P a = src ? P(path) : P(e.p, e.n), b = src ? P(path) : P(e2.p, e2.n);
        for (size_t row = 0; !a.eof() && !b.eof(); ++row) {
            ++x.transitions;
            vector<string> got, want;
            if (row % 2) {
                auto v = a.template get_next<string_view, std::optional<string_view>>();
                auto s = b.template get_next<string, std::optional<string>>();
                if (a.valid()) got = {string(std::get<0>(v)), string(std::get<1>(v).value_or("<none>"))};
                if (b.valid()) want = {std::get<0>(s), std::get<1>(s).value_or("<none>")};
            } else {
                auto v = a.template get_next<string_view, string_view>();
                auto s = b.template get_next<string, string>();
                if (a.valid()) got = {string(std::get<0>(v)), string(std::get<1>(v))};
                if (b.valid()) want = {std::get<0>(s), std::get<1>(s)};
            }
            if (got != want) { x.violation(show(c) + (src ? " file " : " buffer ") + vk::show(t) + ": the views of row " + std::to_string(row) + " differ from its fields"); return; }
            if (!got.empty()) ++x.nontrivial;
        }
        if (a.eof() != b.eof()) x.violation(show(c) + (src ? " file " : " buffer ") + vk::show(t) + ": views and strings end apart");
    }
    template <typename L> void check_mode(int m, const string& t, const vector<int>& seq, int src, const string& d = ",") {
        if (m == 0) check<L, 0>(t, seq, src, d);
        else if (m == 1) check<L, 1>(t, seq, src, d);
        else check<L, 2>(t, seq, src, d);
    }
};

template <typename L>
void run(vk::ctx& x) {
    explorer e{x, cfg_of(L{})};
    auto& c = e.c;
    bool th = x.thorough;
#ifdef VK_SMALL
    const double budget1 = 2e2, budget2 = 20;
#else
    const double budget1 = th ? 3e6 : 6e4, budget2 = th ? 6e3 : 130;
#endif
    string a = string("a,\n") + '\0' + '\xff' + "\r";
    if (c.quote) a += c.quote;
    a += c.esc;
    if (!c.tl.empty()) a += " "; 
    if (!c.tr.empty() && c.tr != c.tl) a += "_";
    auto len_for = [&](double budget) { size_t n = 0; for (double v = double(a.size()); v <= budget; v *= double(a.size())) ++n; return n; };
    // 1. long texts, single operations
    size_t l1 = len_for(budget1), l2 = len_for(budget2);
    x.bound("text_length", l1);
    x.bound("text_length_with_operation_pairs", l2);
    vk::words(a, 0, l1, [&](const string& w) {
        size_t h = 0;
        for (char ch : w) h = h * 31 + size_t((unsigned char)ch);
        e.check_mode<L>(int(h % 3), w, {V2, V1}, 0);
        if (w.size() < l1) e.contents<L>(w, int(h % 5 == 0));
        if (w.size() < l1) {
            e.check_mode<L>(0, w, {TRY}, 0);
            e.check_mode<L>(1, w, {V1}, 1);
            e.check_mode<L>(2, w, {IGN, VOV}, int(h / 3 % 2));
            e.check_mode<L>(int(h % 3), w, {V1}, 0, w.substr(0, 1));
            e.check_mode<L>(int(h % 3), w, {V1, V2}, 0, w.substr(0, 2));
            e.check_mode<L>(int(h % 3), w, {V2}, 0, ",,");
        }
    });
    // 2. all pairs of operations on short texts, and on texts of lines
    vector<string> texts;
    vk::words(a, 0, l2, [&](const string& w) { texts.push_back(w); });
    vector<string> lines{"", "a,b", "1,2.5", "1,2,3", "x", string("n\0,b", 4), "\xff,\xfe"};
    if (c.quote) { lines.push_back("\"a\nb\",c"); lines.push_back("\"open"); lines.push_back("\"a\"b"); lines.push_back("\"a\",\"\"\"\""); }
    if (!c.esc.empty()) { lines.push_back("a\\\nb,c"); lines.push_back("e\\"); }
    size_t nl = th ? 3 : 2;
#ifdef VK_SMALL
    nl = 1;
#endif
    for (size_t n = 1; n <= nl; ++n)
        vk::seqs_n(lines.size(), n, [&](const vector<int>& ix) {
            string t = "a,b\n";
            for (size_t i = 0; i < n; ++i) t += lines[size_t(ix[i])] + (i + 1 == n ? "" : "\n");
            texts.push_back(t);
            texts.push_back(t.substr(4) + "\r\n");
        });
    size_t k = 0;
    for (auto& t : texts)
        for (int i = 0; i < NOPS; ++i)
            for (int j = 0; j < NOPS; ++j) {
                ++k;
                e.check_mode<L>(int((k + k / 3) % 3), t, {i, j}, int(k / 7 % 4 == 0));
                if (th) { e.check_mode<L>(int((k + k / 3 + 1) % 3), t, {i, j, V2}, 0); e.check_mode<L>(0, t, {USE, i, j}, int(k % 2)); }
            }
    // 3. sizes around the growth of buffers
#ifndef VK_SMALL
    for (size_t n : {1, 2, 60, 62, 63, 64, 119, 120, 121, 124, 125, 126, 127, 128, 129, 130, 131, 132, 253, 254, 255, 256, 257, 258, 511, 512, 513, 4095, 4096, 4097, 65537}) {
        vector<string> ls{string(n, 'a') + ",b", "a," + string(n, 'b'), string(n, ','), string(n, '1') + "," + string(n, '2') + "." + string(n, '3')};
        if (c.quote) { ls.push_back("\"" + string(n, 'q') + "\",b"); ls.push_back("\"" + string(n, 'q') + "\n" + string(n, 'r') + "\",b"); ls.push_back("\"" + vk::repeat("\"\"", n) + "\",c"); ls.push_back("\"" + vk::repeat("x\n", n) + "\",d"); ls.push_back("\"" + string(n, 'q')); }
        if (!c.esc.empty()) { ls.push_back(vk::repeat("\\a", n) + ",b"); ls.push_back(vk::repeat("a\\\n", n) + ",b"); ls.push_back(string(n, '\\')); }
        if (!c.tl.empty() || !c.tr.empty()) ls.push_back(string(n, ' ') + "a" + string(n, ' ') + "," + string(n, ' '));
        bool huge = n > 5000;
        if (huge) ls.erase(std::remove_if(ls.begin(), ls.end(), [](const string& l) { return l.find('\n') != string::npos; }), ls.end());
        for (auto& l : ls)
            for (size_t pad = 0; pad < 3; ++pad)
                for (int end = 0; end < 3; ++end) {
                    e.contents<L>(string(pad, 'a') + l + "\n" + l + (end == 0 ? "" : end == 1 ? "\nc,d" : "\r\n\r\ne,f\r\n" + l + "\n"), int(pad) % 2);
                    if (huge) continue;
                    string t = string(pad, 'a') + l + (end == 0 ? "" : end == 1 ? "\n" : "\r\n") + (pad == 2 ? "a,b\n" + l : "");
                    for (auto& s : vector<vector<int>>{{V2}, {ID, V1}, {TRY}, {HDR, USE, V2}, {IGN, V2}, {ITER}}) {
                        ++k;
                        e.check_mode<L>(int(k % 3), t, s, int(k / 3 % 2));
                    }
                }
    }
#endif
}

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
using T = ss::trim<' '>;
using ML = ss::multiline;
using IE = ss::ignore_empty;
using IH = ss::ignore_header;

// conversions of texts without anything behind them
template <typename V>
void text_to(vk::ctx& x, const char* name, const string& w) {
    if (!x.take()) return;
    ++x.evals;
    if (x.verbose) fprintf(stderr, "CASE extract<%s> %s\n", name, vk::show(w).c_str());
    exact e(w);
    V v{};
    bool ok = ss::extract(e.p, e.p + e.n, v);
    if (ok) ++x.nontrivial;
    x.outcome(string(name) + (ok ? "1" : "0"));
}
static void extracts(vk::ctx& x) {
    auto all = [&](const string& w) {
        text_to<char>(x, "char", w);
        text_to<signed char>(x, "signed char", w);
        text_to<unsigned char>(x, "unsigned char", w);
        text_to<bool>(x, "bool", w);
        text_to<int>(x, "int", w);
        text_to<unsigned long long>(x, "unsigned long long", w);
        text_to<short>(x, "short", w);
        text_to<ss::int8>(x, "int8", w);
        text_to<ss::uint8>(x, "uint8", w);
        text_to<float>(x, "float", w);
        text_to<double>(x, "double", w);
        text_to<string>(x, "string", w);
        text_to<string_view>(x, "string_view", w);
        text_to<std::optional<int>>(x, "optional<int>", w);
        text_to<std::optional<char>>(x, "optional<char>", w);
        text_to<std::variant<int, bool, double, string>>(x, "variant", w);
    };
    vk::words(string("1-.e+ xn") + '\0', 0, x.thorough ? 5 : 3, all);
    for (int i = 0; i < 256; ++i) { all(string(1, char(i))); all("1" + string(1, char(i))); all(string(1, char(i)) + "1"); }
    for (const char* s : {"true", "false", "nan", "inf", "infinity", "-inf", "1e400", "-1e-400", "0x1p3", "1e", "1e+", "1e99999999999999999999", "-1e-99999999999999999999", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809"})
        for (size_t k = 0; k <= strlen(s); ++k) all(string(s).substr(0, k));
    for (size_t n = 1; n < 1200; n = n < 140 ? n + 1 : n + 97)
        for (char d : {'0', '1', '9'}) {
            all(string(n, d));
            all("-" + string(n, d) + ".5");
            all("0." + string(n, d));
            all("." + string(n, d) + "e-" + std::to_string(n));
            all(string(n, d) + "e" + string(n, '9'));
        }
}

// converters used on their own
template <typename L, int M>
void lines_of(vk::ctx& x) {
    using O = cat<L, std::conditional_t<M == 1, opts<ss::string_error>, std::conditional_t<M == 2, opts<ss::throw_on_error>, opts<>>>>;
    auto c = cfg_of(L{});
    string a = "a1,";
    if (c.quote) a += c.quote;
    a += c.esc;
    if (!c.tl.empty()) a += " ";
    size_t n = x.thorough ? 7 : 5;
    vk::words(a, 0, n, [&](const string& w) {
        for (auto& d : vector<string>{",", ",,", "a,", "", string(1, '\0'), ",,,", ",,a,,a,,", string(",\0,,", 4)}) {
            if (w.size() == n && d != ",") continue;
            if (w.size() > 3 && d.size() > 2 && !x.thorough) continue;
            if (!x.take()) continue;
            ++x.evals;
            if (x.verbose) fprintf(stderr, "CASE converter %s %s delimiter %s\n", show(c).c_str(), vk::show(w).c_str(), vk::show(d).c_str());
            typename O::template apply<ss::converter> conv;
            vector<std::unique_ptr<exact>> keep;
            size_t ok = 0;
            auto line = [&] { keep.push_back(std::make_unique<exact>(w + '\0')); return keep.back()->p; };
            auto guarded = [&](auto&& f) { if constexpr (M == 2) { try { f(); } catch (const ss::exception&) {} } else f(); };
            for (int round = 0; round < 2; ++round) {
                held h;
                guarded([&] { auto t = conv.template convert<string_view, string_view>(line(), d); if (conv.valid()) { ++ok; h.add(t); } });
                guarded([&] { auto t = conv.template convert<string_view, string_view>(); if (conv.valid()) h.add(t); });
                guarded([&] { auto t = conv.template convert<std::optional<int>, string_view>(); if (conv.valid()) h.add(t); });
                if (!h.intact()) { x.violation(show(c) + " " + vk::show(w) + ": a view changed"); return; }
                guarded([&] { conv.split(line(), d); });
                guarded([&] { (void)conv.template convert<int>(); });
                guarded([&] { (void)conv.template convert<string, string, string>(); });
                guarded([&] { (void)conv.template convert_object<std::pair<string, int>, string, int>(line(), d); });
                guarded([&] { auto r = conv.split(line(), d); (void)conv.template convert<string, double>(r); });
                if constexpr (M == 1) ok += conv.error_msg().size();
                x.transitions += 7;
            }
            if (ok) ++x.nontrivial;
            x.outcome(std::to_string(ok));
        }
    });
}
template <typename L>
void lines(vk::ctx& x) { lines_of<L, 0>(x); lines_of<L, 1>(x); lines_of<L, 2>(x); }

void explore(vk::ctx& x) {
#if PART == 0
    run<opts<>>(x);
#elif PART == 1
    run<opts<Q, ML>>(x);
#elif PART == 2
    run<opts<Q, E, ML>>(x);
#elif PART == 3
    run<opts<E, ML, IE>>(x);
#elif PART == 4
    run<opts<Q, E, T, ss::multiline_restricted<2>>>(x);
#elif PART == 5
    run<opts<Q, ss::trim_left<' '>, ss::trim_right<'_'>, IH, IE>>(x);
#elif PART == 6
    run<opts<E, T>>(x);
#elif PART == 7
    run<opts<Q, E>>(x);
#elif PART == 8
    extracts(x);
#elif PART == 9
    lines<opts<>>(x);
    lines<opts<Q, E, ML>>(x);
#elif PART == 10
    lines<opts<Q, T>>(x);
    lines<opts<E, T>>(x);
#elif PART == 11
    run<opts<Q, E, T, ML, IE>>(x);
#endif
}
