// C01: splitting of a single line, all lines up to a bound, all setups.
#include "common.hpp"
#include "setups.hpp"
#include <tuple>
using vk::ctx;
using std::string;
using std::vector;

using Q0 = opts<>;
using Q1 = opts<ss::quote<'"'>>;
using E0 = opts<>;
using E1 = opts<ss::escape<'\\'>>;
using E2 = opts<ss::escape<'\\', '/'>>;
using T0 = opts<>;
using T1 = opts<ss::trim<' '>>;
using T2 = opts<ss::trim_left<' '>>;
using T3 = opts<ss::trim_right<' '>>;
using T4 = opts<ss::trim_left<' '>, ss::trim_right<'\t'>>;
using T5 = opts<ss::trim<' ', '\t'>>;
using T6 = opts<ss::trim_left<'\t', ' '>, ss::trim_right<' '>>;

static vk::guard_page guard(1 << 21);

template <typename L>
struct runner {
    using S = typename L::template apply<ss::splitter>;
    using V = typename L::template apply<ss::converter>;
    model::cfg c = cfg_of(L{});
    ctx& x;
    explicit runner(ctx& xx) : x(xx) {}

    template <size_t N>
    bool conv(const string& line, vector<string>& out) {
        V v;
        char* b = guard.putz(line);
        auto t = v.template convert<tuple_n<N, string>>(b, c.delim);
        out.clear();
        if (v.valid()) flatten(out, t);
        return v.valid();
    }
    bool conv_n(size_t n, const string& line, vector<string>& out) {
        switch (n) {
        case 1: return conv<1>(line, out);
        case 2: return conv<2>(line, out);
        case 3: return conv<3>(line, out);
        case 4: return conv<4>(line, out);
        case 5: return conv<5>(line, out);
        }
        return false;
    }

    void fail(const string& line, const string& what) {
        x.violation(show(c) + " line " + vk::show(line) + ": " + what);
    }

    void check(const string& line) {
        if (!x.take()) return;
        model::split m = model::split_line(c, line);
        x.transitions += m.steps;
        x.states += m.cols.size() + 1;
        ++x.evals;
        // splitter
        S s;
        char* b = guard.putz(line);
        const auto& d = s.split(b, c.delim);
        bool ok = s.valid();
        // an open quote with multiline would be reported as unterminated
        if (ok != (m.e == model::err::ok)) {
            fail(line, string("splitter ") + (ok ? "accepts" : "rejects") + ", expected " + model::name(m.e) +
                           (m.e == model::err::ok ? " " + vk::show(m.cols) : ""));
            return;
        }
        if (ok) {
            bool same = d.size() == m.cols.size();
            for (auto& [p, q] : d) {
                if (p < b || q > b + line.size() || p > q) { fail(line, "column outside of the line"); return; }
            }
            for (size_t i = 0; same && i < d.size(); ++i) same = string(d[i].first, d[i].second) == m.cols[i];
            if (!same) {
                vector<string> got;
                for (auto& [p, q] : d) got.emplace_back(p, q);
                fail(line, "splitter got " + vk::show(got) + ", expected " + vk::show(m.cols));
                return;
            }
        }
        if (m.e != model::err::ok || m.cols.size() > 1 || m.cols[0] != line) ++x.nontrivial;
        // converter
        vector<string> got;
        if (ok) {
            if (m.cols.size() <= 5) {
                ++x.evals;
                if (!conv_n(m.cols.size(), line, got) || got != m.cols)
                    fail(line, "convert<string x " + std::to_string(m.cols.size()) + "> got " +
                                   (got.empty() ? string("an error") : vk::show(got)) + ", expected " + vk::show(m.cols));
            }
        } else if (!(m.e == model::err::empty_delim && line.empty())) {
            for (size_t n = 1; n <= 2; ++n) {
                ++x.evals;
                if (conv_n(n, line, got))
                    fail(line, "convert<string x " + std::to_string(n) + "> got " + vk::show(got) + ", expected " + model::name(m.e));
            }
        }
        x.sample([&] { return show(c) + " " + vk::show(line) + " -> " + (ok ? vk::show(m.cols) : string(model::name(m.e))); });
    }

    string matchers() { return (c.quote ? string(1, c.quote) : string()) + c.esc + c.tl + c.tr; }
    string enabled() {
        string a;
        auto add = [&](const string& s) { for (char k : s) if (a.find(k) == string::npos) a += k; };
        add(c.delim); // simplest first
        if (a.find('a') == string::npos) a = "a" + a;
        if (c.quote) add(string(1, c.quote));
        add(c.esc); add(c.tl); add(c.tr);
        return a;
    }

    void run() {
        for (string delim : {string(","), string("::"), string(",;"), string("aab"), string(":-:-"), string("")}) {
            if (delim.find_first_of(matchers()) != string::npos) continue; // not defined
            c.delim = delim;
            string a = enabled();
            uint64_t budget = x.thorough ? 4000000 : 150000;
            if (delim != ",") budget /= 4;
            if (delim.empty()) budget = 500;
            size_t len = 0;
            for (double n = 1; n * a.size() <= budget && len < 14; n *= a.size()) ++len;
            x.bound("max_length_alphabet_of_" + std::to_string(a.size()), len);
            vk::words(a, 0, len, [&](const string& w) { check(w); });
            // characters without meaning in this setup
            string full = a;
            for (char k : string("\"\\/ \t'\x01\xff")) if (full.find(k) == string::npos) full += k;
            vk::words(full, 1, x.thorough ? 5 : 3, [&](const string& w) {
                if (w.find_first_not_of(a) != string::npos) check(w);
            });
        }
        pump();
        columns();
        bytes();
        long_delimiters();
    }

    // every byte between every pair of short surroundings
    void bytes() {
        for (string delim : {string(","), string("::")}) {
            c.delim = delim;
            string a = enabled();
            vector<string> us;
            vk::words(a, 0, a.size() > 6 && !x.thorough ? 1 : 2, [&](const string& w) { us.push_back(w); });
            for (int k = 1; k < 256; ++k) {
                if (a.find(char(k)) != string::npos) continue;
                for (auto& u : us)
                    for (auto& v2 : us) {
                        check(u + char(k) + v2);
                        if (u.size() + v2.size() < 3) check(u + string(2, char(k)) + v2);
                    }
            }
        }
        x.bound("bytes", 255);
    }

    // long delimiters, lines made of them, of parts of them and of other characters
    void long_delimiters() {
        for (size_t n : {4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257})
            for (int kind = 0; kind < 3; ++kind) {
                string d;
                for (size_t i = 0; i < n; ++i) d += kind == 0 ? char('b' + i % 9) : kind == 1 ? (i + 1 == n ? 'c' : 'b') : "\xc2\xa7\xe2"[i % 3];
                c.delim = d;
                vector<string> tok{d, "x", d.substr(0, n - 1), d.substr(1), d.substr(0, n / 2), d.substr(0, n - 1) + "y"};
                for (size_t k : {1, 2, 4, 8, 16, 32}) if (k + 1 < n) { tok.push_back(d.substr(0, k)); string o = d; o[k] = 'z'; tok.push_back(o); }
                if (c.quote) tok.push_back(string(1, c.quote));
                if (!c.esc.empty()) tok.push_back(c.esc.substr(0, 1));
                if (!(c.tl + c.tr).empty()) tok.push_back((c.tl + c.tr).substr(0, 1));
                for (size_t l = 1; l <= (x.thorough && n < 40 ? 4u : 3u); ++l)
                    vk::seqs_n(tok.size(), l, [&](const vector<int>& s) {
                        if (l == 3 && n > 17 && !x.thorough && size_t(s[0] + s[1] + s[2]) % 3 != n % 3) return;
                        string w;
                        for (int i : s) w += tok[size_t(i)];
                        check(w);
                    });
            }
        x.bound("max_delimiter", 257);
    }

    // u w^k v: long columns and many columns
    void pump() {
        for (string delim : {string(","), string("::")}) {
            c.delim = delim;
            string a = enabled();
            vector<size_t> ks{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025};
            vector<string> us{""}, ws;
            for (char k : a) us.push_back(string(1, k));
            vk::words(a, 1, 2, [&](const string& w) { ws.push_back(w); });
            for (auto& u : us)
                for (auto& w : ws)
                    for (auto& v2 : us)
                        for (size_t k : ks)
                            if (x.thorough || k <= 257) check(u + vk::repeat(w, k) + v2);
            for (size_t k : {size_t(4095), size_t(4096), size_t(4097), size_t(65535), size_t(65536), size_t(65537)})
                for (auto& w : ws)
                    if (x.thorough || w.size() == 1 || k == 4097)
                        for (auto& v2 : us)
                            check(w + vk::repeat(w, k) + v2);
        }
    }

    // every number of columns, each of the styles in turn
    void columns() {
        c.delim = ",";
        vector<string> cells{"", "a", "bc"};
        if (c.quote) { cells.push_back("\"\""); cells.push_back("\"x,\"\"y\""); }
        if (!c.esc.empty()) cells.push_back("\\,z");
        if (!c.tl.empty()) cells.push_back(string(1, c.tl[0]) + "q");
        if (!c.tr.empty()) cells.push_back("q" + string(1, c.tr[0]));
        for (size_t n = 1; n <= (x.thorough ? 700u : 300u); ++n)
            for (size_t s0 = 0; s0 < cells.size(); ++s0) {
                string l;
                for (size_t i = 0; i < n; ++i) { if (i) l += ","; l += cells[(i + s0) % cells.size()]; }
                check(l);
            }
        x.bound("max_columns", 65538);
    }
};

template <typename Q, typename E>
void group(ctx& x) {
#define G(T) runner<cat<cat<Q, E>, T>>(x).run();
    G(T0) G(T1) G(T2) G(T3) G(T4) G(T5) G(T6)
}

void explore(ctx& x) {
#if PART == 0
    group<Q0, E0>(x);
#elif PART == 1
    group<Q0, E1>(x);
#elif PART == 2
    group<Q0, E2>(x);
#elif PART == 3
    group<Q1, E0>(x);
#elif PART == 4
    group<Q1, E1>(x);
#elif PART == 5
    group<Q1, E2>(x);
#elif PART == 6
    // other characters, and many of them
    runner<opts<ss::quote<'\xff'>, ss::escape<'\x80'>, ss::trim<'\xa0'>>>(x).run();
    runner<opts<ss::quote<'\x01'>, ss::escape<'\x7f', '\xfe'>, ss::trim_left<'\x81', '\x1f'>>>(x).run();
    runner<opts<ss::quote<'|'>, ss::escape<'\\', '/', '%', '^', '~'>, ss::trim<' ', '\t', '_', '.', '\v'>>>(x).run();
    runner<opts<ss::escape<'a'>, ss::trim_right<'x', 'y', 'z', 'w', 'v', 'u'>>>(x).run();
#endif
}
