// C03: assembly of multiline records, all texts up to a bound.
#define MODES 1
#define SIGS sig_list<sig<'s'>, sig<'s', 's'>, sig<'s', 's', 's'>, sig<'s', 's', 's', 's'>>
#include "common.hpp"
#include "iparser.hpp"
using std::string;
using std::vector;
static vk::guard_page guard(1 << 22);

struct explorer {
    vk::ctx& x;
    setup_entry e;
    bool file;
    model::cfg& c;

    // reads everything; error rows are requested with 'errn' columns
    void check(const string& t, size_t errn) {
        if (!x.take()) return;
        source s;
        s.file = file;
        if (file) {
            s.path = x.scratch + "/f";
            vk::write_file(s.path, t);
        } else {
            s.buf = guard.put(t);
            s.size = t.size();
        }
        model::parser m(c, t);
        auto p = e.make[BOOL](s, c.delim);
        ++x.evals;
        string trace;
        bool multi = false;
        size_t guard_rows = 0;
        auto where = [&] { return show(c) + (file ? " file " : " buffer ") + vk::show(t) + " row " + std::to_string(guard_rows); };
        while (true) {
            ++x.states;
            if (p->eof() != m.eof()) {
                x.violation(where() + ": eof() is " + (p->eof() ? "true" : "false"));
                return;
            }
            if (m.eof()) break;
            auto rec = *m.read();
            x.transitions += rec.lines;
            if (rec.lines > 1 || rec.e != model::err::ok) multi = true;
            size_t n = rec.e == model::err::ok ? std::max<size_t>(rec.cols.size(), 1) : errn;
            if (n > 4) n = 4; // wrong number of columns: an error
            row want = model_row(rec, string(n, 's'));
            row got = p->next(int(n) - 1);
            if (!(got == want)) {
                x.violation(where() + " as " + std::to_string(n) + " strings: got " + show(got) + ", expected " + show(want));
                return;
            }
            if (want.ok) trace += vk::show(want.vals); else trace += "E";
            ++guard_rows;
        }
        if (multi) ++x.nontrivial;
        x.outcome(trace);
        x.sample([&] { return show(c) + " " + vk::show(t) + " -> " + trace; });
    }
};

// limits of any size, records which begin anywhere within their text
template <typename L>
void large(vk::ctx& x) {
    explorer e{x, entry<L>(), false, e.e.c};
    const model::cfg& c = e.c;
    string o = c.quote ? "\"" : "", j = c.quote ? "\n" : "\\\n";
    if (c.limit)
        for (long d : {-long(c.limit), -2l, -1l, 0l, 1l, 2l, 3l, 256l}) {
            if (long(c.limit) + d < 0) continue;
            size_t k = size_t(long(c.limit) + d);
            for (auto& body : {string("x"), string("")}) {
                string v;
                for (size_t i = 0; i < k; ++i) v += body + j;
                for (size_t n = 1; n <= 2; ++n) {
                    e.check("b\n" + o + v + "y" + o + "\nb\n", n);
                    e.check(o + v + "y" + o + ",z\nb,c\n", n);
                    e.check(o + v, n);
                }
            }
        }
    x.bound("limits_up_to", 65536);
    if (c.limit && c.limit < 300) return;
    for (size_t n : {127, 128, 255, 256, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 131071, 131072})
        for (size_t l : {0, 1, 3})
            for (int many = 0; many < 2; ++many) {
                // a long column, or many columns in front
                string pre = many ? vk::repeat("p,", n / 2) : string(n, 'p') + ",";
                e.check("b\n" + pre + o + string(l, 'y') + j + "z" + o + "\nb,c\n", 2);
                e.check("b\n" + pre + o + string(l, 'y') + j + "z" + j + string(l, 'y') + o + ",q\nb,c\n", 2);
                if (c.quote) e.check(pre + o + string(l, 'y') + "\"\"" + j + "z" + j + "\"\"" + o + "\nb,c\n", 2);
                if (!c.esc.empty()) e.check(pre + o + string(l, 'y') + "\\," + j + "z" + j + "\\n" + o + "\nb,c\n", 2);
                e.check(o + pre + string(l, 'y') + j + pre + o + "\nb\n", 2);
                e.check(o + pre + j, 2);
            }
}

// wide rows: the columns in front move whenever the row grows
template <typename L>
void wide(vk::ctx& x) {
    const model::cfg c = cfg_of(L{});
    using S = string;
    vector<string> joins;
    if (c.ml_quote()) { joins.push_back("\n"); joins.push_back("\r\n"); }
    if (c.ml_esc()) { joins.push_back("\\\n"); joins.push_back("\\\r\n"); }
    vk::guard_page guard(1 << 16);
    x.bound("columns_of_wide_rows", 12);
    for (auto& j : joins)
        for (size_t at = 0; at < 12; ++at)
            for (size_t at2 = at; at2 < 12; ++at2)
                for (size_t l : {0, 1, 40})
                    for (size_t lines = 1; lines <= 3; ++lines)
                        for (string in : {string(), string(200, 'y')})
                            for (int shifted = 0; shifted < 2; ++shifted) {
                                if (!x.take()) continue;
                                string o = c.quote ? "\"" : "", row;
                                for (size_t i = 0; i < 12; ++i) {
                                    if (i) row += ",";
                                    if (i == at || i == at2) {
                                        row += o;
                                        if (shifted) row += c.quote ? "u\"\"v\"\"" : "u\\,v\\,";
                                        for (size_t k = 0; k < lines; ++k) row += in + j;
                                        row += "z" + o;
                                    } else if (c.quote && i % 3 == 1) row += "\"" + string(l, 'f') + "\"\"" + std::to_string(i) + "\"";
                                    else if (!c.esc.empty() && i % 3 == 2) row += "\\," + string(l, 'f') + std::to_string(i);
                                    else row += string(l, 'f') + std::to_string(i);
                                }
                                string t = row + "\n" + row + "\r\n1,2,3,4,5,6,7,8,9,10,11,12";
                                model::parser m(c, t);
                                typename L::template apply<ss::parser> p{guard.put(t), t.size()};
                                ++x.evals;
                                ++x.nontrivial;
                                for (size_t r = 0;; ++r) {
                                    ++x.states;
                                    auto where = [&] { return show(c) + " buffer " + vk::show(t) + " row " + std::to_string(r); };
                                    if (p.eof() != m.eof()) { x.violation(where() + ": eof() is " + (p.eof() ? "true" : "false")); break; }
                                    if (m.eof()) break;
                                    auto rec = *m.read();
                                    x.transitions += rec.lines;
                                    ::row want = model_row(rec, string(12, 's')), got;
                                    auto v = p.template get_next<S, S, S, S, S, S, S, S, S, S, S, S>();
                                    got.ok = p.valid();
                                    if (got.ok) std::apply([&](auto&... e) { (got.vals.push_back(e), ...); }, v);
                                    if (!(got.ok == want.ok && got.vals == want.vals)) {
                                        x.violation(where() + " as 12 strings: got " + show(got) + ", expected " + show(want));
                                        break;
                                    }
                                    if (!want.ok) x.outcome("wide error");
                                    else x.outcome("wide row");
                                }
                            }
}

template <typename L>
void run(vk::ctx& x) {
    explorer e{x, entry<L>(), false, e.e.c};
    {
        // other delimiters
        model::cfg& c = e.c;
        for (string d : {string(";"), string("::"), string(";,;")}) {
            c.delim = d;
            vector<string> tok{"a", ",", d, "\n", "\r\n"};
            if (d.size() > 1) tok.push_back(d.substr(0, 1));
            if (c.quote) tok.push_back("\"");
            if (!c.esc.empty()) tok.push_back("\\");
            if (!c.tl.empty()) tok.push_back(" ");
            size_t n = 0;
            for (double v = double(tok.size()); v <= (x.thorough ? 2e6 : 3e4); v *= double(tok.size())) ++n;
            for (size_t l = 0; l <= n; ++l)
                vk::seqs_n(tok.size(), l, [&](const vector<int>& s) {
                    string t;
                    for (int i : s) t += tok[size_t(i)];
                    e.check(t, 2);
                });
        }
        c.delim = ",";
    }
    const model::cfg& c = e.c;
    string a = "a,";
    if (c.quote) a += c.quote;
    a += c.esc;
    a += "\n";
    string b = a; // with CR and spacing
    b += "\r";
    if (!c.tl.empty() || !c.tr.empty()) b += " ";
    auto len_for = [&](size_t k, double budget) { size_t n = 0; for (double v = k; v <= budget; v *= k) ++n; return n; };
    size_t l1 = len_for(a.size(), x.thorough ? 6e6 : 1.2e5), l2 = len_for(b.size(), x.thorough ? 6e6 : 1.2e5);
    x.bound("max_length_alphabet_of_" + std::to_string(a.size()), l1);
    x.bound("max_length_alphabet_of_" + std::to_string(b.size()), l2);
    vk::words(a, 0, l1, [&](const string& w) { for (size_t n = 1; n <= 2; ++n) e.check(w, n); });
    vk::words(b, 0, l2, [&](const string& w) { for (size_t n = 1; n <= 3; n += 2) e.check(w, n); });
    // token sequences reach deeper: whole lines as tokens
    vector<string> tok{"a", ",", "\n", "\r\n"};
    if (c.quote) { tok.push_back("\""); tok.push_back("\"\""); }
    if (!c.esc.empty()) { tok.push_back("\\"); tok.push_back("\\\\"); if (c.quote) tok.push_back("\\\""); }
    size_t tl = len_for(tok.size(), x.thorough ? 4e6 : 1e5);
    for (size_t n = 0; n <= tl; ++n)
        vk::seqs_n(tok.size(), n, [&](const vector<int>& s) {
            string t;
            for (int i : s) t += tok[i];
            e.check(t, 2);
        });
    x.bound("max_tokens_of_" + std::to_string(tok.size()), tl);
    // buffer growth: the pieces of one record get lengths around the capacities
    vector<string> joins;
    if (c.ml_quote()) { joins.push_back("\n"); joins.push_back("\r\n"); }
    if (c.ml_esc()) { joins.push_back("\\\n"); joins.push_back("\\\r\n"); }
    vector<size_t> ls{0, 1, 2, 57, 60, 61, 62, 63, 64, 65, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 253, 254, 255, 256, 257, 258};
    if (x.thorough) for (size_t l = 90; l < 119; ++l) ls.push_back(l);
    for (bool f : {false, true}) {
        e.file = f;
        for (auto& j1 : joins)
            for (auto& pre : {string("b\n"), string("")})
                for (size_t l1 : ls)
                    for (size_t l2 : ls) {
                        if (!x.thorough && f && (l1 % 2 || l2 % 2)) continue;
                        string o = c.quote ? "\"" : "";
                        string t = pre + o + string(l1, 'x') + j1 + string(l2, 'y') + o + ",z\nb\n";
                        e.check(t, 1);
                        string u = pre + o + string(l1, 'x') + j1 + string(l2, 'y') + j1 + (c.quote ? "\"\"" : "") + "w" + o + ",z\nb\n";
                        e.check(u, 1);
                        if (!c.esc.empty()) {
                            string v = pre + o + "\\\\" + string(l1, 'x') + (c.quote ? "\"\"" : "\\,") + j1 + "\\," + string(l2, 'y') + o + ",z\nb\n";
                            e.check(v, 1);
                        }
                    }
    }
    // number of continuation lines around the limit and around growth
    e.file = false;
    for (auto& j : joins)
        for (size_t k : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 5000})
            for (size_t l : {0, 1, 3, 40, 127}) {
                if (k * k * (l + 2) > (x.thorough ? 100000000u : 3000000u)) continue;
                string o = c.quote ? "\"" : "";
                string t = "b,c\n" + o;
                for (size_t i = 0; i < k; ++i) t += string(l, 'x') + j;
                t += "y" + o + ",z\nb,c\n";
                for (size_t n = 1; n <= 3; ++n) e.check(t, n);
                t = "b,c\n" + o;
                for (size_t i = 0; i < k; ++i) t += string(l, 'x') + j;
                e.check(t, 1);
                e.check(t + (c.esc.empty() ? "" : "\\"), 1);
            }
}

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
void explore(vk::ctx& x) {
#if PART == 0
    run<opts<Q, ss::multiline>>(x);
    run<opts<E, ss::multiline>>(x);
#elif PART == 1
    run<opts<Q, E, ss::multiline>>(x);
    run<opts<Q, E>>(x);
#elif PART == 2
    run<opts<Q, E, ss::multiline_restricted<1>>>(x);
    run<opts<Q, E, ss::multiline_restricted<2>>>(x);
    run<opts<Q, E, ss::multiline_restricted<4>>>(x);
#elif PART == 3
    run<opts<Q, E, ss::trim<' '>, ss::multiline>>(x);
    run<opts<Q, ss::trim_right<' '>, ss::multiline_restricted<1>>>(x);
    run<opts<E, ss::trim<' '>, ss::multiline_restricted<1>>>(x);
#elif PART == 4
    run<opts<Q, E, ss::ignore_empty, ss::multiline>>(x);
    run<opts<Q, ss::ignore_empty, ss::multiline_restricted<2>>>(x);
    run<opts<Q>>(x);
#elif PART == 6
    large<opts<Q, E, ss::multiline_restricted<255>>>(x);
    large<opts<Q, ss::multiline_restricted<256>>>(x);
    large<opts<E, ss::multiline_restricted<257>>>(x);
    large<opts<Q, ss::multiline_restricted<300>>>(x);
    large<opts<Q, E, ss::multiline_restricted<1000>>>(x);
    large<opts<E, ss::multiline_restricted<65536>>>(x);
    large<opts<E, ss::multiline>>(x);
    large<opts<Q, E, ss::multiline>>(x);
    large<opts<Q, ss::trim<' '>, ss::multiline>>(x);
#elif PART == 7
    wide<opts<Q, ss::multiline>>(x);
    wide<opts<E, ss::multiline>>(x);
    wide<opts<Q, E, ss::multiline>>(x);
    wide<opts<Q, E, ss::multiline_restricted<3>>>(x);
    wide<opts<Q, ss::trim<' '>, ss::ignore_empty, ss::multiline_restricted<6>>>(x);
#elif PART == 5
    run<opts<Q, ss::multiline_restricted<1>>>(x);
    run<opts<E, ss::multiline_restricted<1>>>(x);
    run<opts<E>>(x);
    run<opts<>>(x);
#endif
}
