// C04 / C14 / C15: the parser as a state machine; every text up to a bound x
// every sequence of operations up to a depth, in lock step with the model.
#define SIGS sig_list<sig<'s'>, sig<'s', 's'>, sig<'i'>, sig<'i', 'i'>, sig<'s', 'i', 's'>>
#include "common.hpp"
#include "iparser.hpp"
using std::string;
using std::vector;
static vk::guard_page guard(1 << 22);

#if CHECK == 4
constexpr bool check_rows = true, check_loc = false, check_ignore = false;
#elif CHECK == 14
constexpr bool check_rows = false, check_loc = true, check_ignore = false;
#elif CHECK == 15
constexpr bool check_rows = true, check_loc = false, check_ignore = true;
#endif

enum { IGNORE = 100 };

struct explorer {
    vk::ctx& x;
    setup_entry e;
    const model::cfg& c;
    vector<int> ops;  // operation alphabet: signature index or IGNORE

    string show_op(int o) { return o == IGNORE ? "ignore_next" : "get_next<" + sigs()[o] + ">"; }

    // performs seq periodically until the end of the input, then past it
    void check(const string& t, const vector<int>& seq, int mode, bool file) {
        if (!x.take()) return;
        source s;
        s.file = file;
        if (file) {
            s.path = x.scratch + "/f";
            vk::write_file(s.path, t);
        } else {
            s.buf = guard.put(t);
            s.size = t.size();
        }
        model::parser m(c, t);
        auto p = e.make[mode](s, c.delim);
        ++x.evals;
        string done, trace;
        bool mixed_ok = false, mixed_err = false;
        auto where = [&] {
            return show(c) + " " + mode_name(mode) + (file ? " file " : " buffer ") + vk::show(t) + " after" +
                   (done.empty() ? " construction" : (done.size() > 300 ? "..." + done.substr(done.size() - 300) : done));
        };
        size_t after_eof = 0;
        for (size_t k = 0;; ++k) {
            ++x.states;
            if ((check_rows || check_ignore) && p->eof() != m.eof()) {
                x.violation(where() + ": eof() is " + (p->eof() ? "true" : "false"));
                return;
            }
            if (check_loc && (p->line() != m.line() || p->position() != m.position())) {
                x.violation(where() + ": line " + std::to_string(p->line()) + " position " + std::to_string(p->position()) +
                            ", expected line " + std::to_string(m.line()) + " position " + std::to_string(m.position()));
                return;
            }
            if (m.eof() && after_eof++ >= seq.size() + 1) break;
            int op = seq[k % seq.size()];
            ++x.transitions;
            if (t.size() < 200) done += " " + show_op(op); else done = " operation " + std::to_string(k) + " " + show_op(op);
            if (op == IGNORE) {
                bool want = m.ignore(), got = p->ignore_next();
                if (check_ignore && got != want) {
                    x.violation(where() + ": returned " + (got ? "true" : "false"));
                    return;
                }
                continue;
            }
            row want = model_next(m, sigs()[op]);
            row got = p->next(op);
            (want.ok ? mixed_ok : mixed_err) = true;
            if (check_rows && !(want == got)) {
                x.violation(where() + ": got " + show(got) + ", expected " + show(want));
                return;
            }
            if (t.size() < 100) trace += want.ok ? vk::show(want.vals) : want.msg;
        }
        if (mixed_ok && mixed_err) ++x.nontrivial;
        x.outcome(trace);
        x.sample([&] { return show(c) + " " + vk::show(t) + done + " -> " + trace; });
    }

    template <typename F>
    void seqs(size_t depth, F&& f) {
        vk::seqs_n(ops.size(), depth, [&](const vector<int>& ix) {
            vector<int> s;
            for (int i : ix) s.push_back(ops[i]);
            f(s);
        });
    }
};

template <typename L>
void run(vk::ctx& x) {
    explorer e{x, entry<L>(), e.e.c, {}};
    const model::cfg& c = e.c;
    e.ops = {0, 1, 3};
    if (CHECK == 4) e.ops.push_back(2);
    if (CHECK != 4) e.ops.push_back(IGNORE);
    bool th = x.thorough;
    // 1. all texts over the characters
    string a = "1,\n";
    if (CHECK == 4) a += "a";
    if (CHECK == 14 || CHECK == 15) a += "\r";
    if (c.quote) a += c.quote;
    a += c.esc;
    if (!c.tl.empty()) a += " ";
    auto len_for = [&](size_t k, double budget) { size_t n = 0; for (double v = k; v <= budget; v *= k) ++n; return n; };
    for (size_t d = 1; d <= (th ? 4u : 3u); ++d) {
        double per = 1;
        for (size_t i = 0; i < d; ++i) per *= e.ops.size();
        size_t len = len_for(a.size(), (th ? 6e6 : 2.5e5) / per);
        x.bound("texts_max_length_alphabet_" + std::to_string(a.size()) + "_ops_depth_" + std::to_string(d), len);
        vk::words(a, 0, len, [&](const string& w) {
            e.seqs(d, [&](const vector<int>& s) {
                e.check(w, s, BOOL, false);
                if (w.size() < len || th) {
                    e.check(w, s, THR, false);
                    e.check(w, s, STR, false);
                    if (w.size() + 1 < len || th) e.check(w, s, BOOL, true);
                }
            });
        });
    }
    // 2. files made of whole lines
    vector<string> lines{"1", "x", "1,2", "a,b", "", "1,2,3"};
    if (c.quote) { lines.push_back("\"q"); lines.push_back("q\",r"); lines.push_back("\"q\"z"); }
    if (!c.esc.empty()) { lines.push_back("e\\"); lines.push_back("e\\\\"); }
    if (c.quote && c.ml) lines.push_back("\"m\n2\""); // one row, two lines
    if (!c.tl.empty()) lines.push_back("  ");
    size_t nl = len_for(lines.size(), th ? 2e5 : 1.2e3) + 1;
    x.bound("lines_max", nl);
    for (size_t n = 1; n <= nl; ++n)
        vk::seqs_n(lines.size(), n, [&](const vector<int>& ix) {
            for (int v = 0; v < 3; ++v) {
                string t;
                for (size_t i = 0; i < n; ++i) {
                    t += lines[ix[i]];
                    if (v == 1 && i + 1 == n) break; // no final line end
                    t += v == 2 ? "\r\n" : "\n";
                }
                for (size_t d = 1; d <= 2; ++d)
                    e.seqs(d, [&](const vector<int>& s) {
                        if (n == nl && d == 2 && !th && s[0] != s[1] && s[0] > s[1]) return;
                        e.check(t, s, v == 0 ? BOOL : v == 1 ? THR : STR, false);
                        if (n < nl) e.check(t, s, v == 0 ? BOOL : v == 1 ? THR : STR, true);
                    });
            }
        });
    // every byte but NUL in every place, marks some programs write
    {
        vector<string> marks{"\xef\xbb\xbf", "\xff\xfe", "\xe2\x80\xa8", "\xc2\x85", "\r\r", "\n\r", "#c", "sep=,", "\f\n", "--", "//", "  ", "\t\t", "NULL", "EOF"};
        for (int k = 1; k < 256; ++k) marks.push_back(string(1, char(k)));
        for (auto& s : marks)
            for (auto& t : vector<string>{s, s + "\n", "\n" + s, s + s, "a\n" + s, "a" + s + "\n" + s + "b\n", "a," + s + "\r\n" + s + "\r\n" + s, s + "\n" + s + "1\n" + s, "1\n" + s + "\n\n" + s + s + "\n1," + s})
                for (auto& seq : CHECK == 4 ? vector<vector<int>>{{0}, {1}, {0, 1}} : vector<vector<int>>{{0}, {IGNORE, 0}, {1}}) {
                    e.check(t, seq, BOOL, false);
                    e.check(t, seq, s.size() % 2 ? STR : THR, true);
                }
        x.bound("byte_values", 255);
    }
    // 3. long files
    vector<vector<int>> long_seqs{{0}, {1, 0}, {3, 1}, {1, 1, 3}};
    if (CHECK != 4) { long_seqs.push_back({1, IGNORE}); long_seqs.push_back({IGNORE}); }
    for (size_t k : {127, 128, 129, 254, 255, 256, 257, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537})
        for (size_t i = 0; i < lines.size(); ++i)
            for (size_t j = i; j < lines.size(); ++j) {
                if (k > 5000 && !th && (i + j) % 4) continue;
                if (c.ml && !c.limit && k > 300 && (lines[i].find('"') != string::npos || lines[j].find('"') != string::npos)) continue;
                string t;
                for (size_t n = 0; n < k; ++n) t += lines[n % 2 ? j : i] + "\n";
                for (size_t si = 0; si < long_seqs.size(); ++si)
                    if (k <= 5000 || th || (i + j / 4) % long_seqs.size() == si) e.check(t, long_seqs[si], (i + j) % 3, (i * 3 + j) % 2);
            }
    x.bound("rows_max", 65537);
}

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
using IE = ss::ignore_empty;
using IH = ss::ignore_header;
void explore(vk::ctx& x) {
#if CHECK == 4
#if PART == 0
    run<opts<>>(x);
    run<opts<Q>>(x);
#elif PART == 1
    run<opts<Q, E>>(x);
    run<opts<E>>(x);
#elif PART == 2
    run<opts<Q, ss::multiline>>(x);
    run<opts<E, ss::multiline>>(x);
#elif PART == 3
    run<opts<Q, E, ss::multiline_restricted<1>>>(x);
    run<opts<Q, ss::multiline_restricted<2>>>(x);
#elif PART == 4
    run<opts<IE>>(x);
    run<opts<ss::trim<' '>, Q>>(x);
#endif
#else
#if PART == 0
    run<opts<IE>>(x);
    run<opts<>>(x);
#elif PART == 1
    run<opts<IH>>(x);
    run<opts<Q>>(x);
#elif PART == 2
    run<opts<IE, IH>>(x);
    run<opts<Q, ss::multiline>>(x);
#elif PART == 3
    run<opts<IE, Q, E, ss::multiline>>(x);
    run<opts<IE, Q, ss::multiline_restricted<1>>>(x);
#elif PART == 4
    run<opts<IH, Q, E, ss::multiline_restricted<1>>>(x);
    run<opts<IE, IH, E, ss::multiline>>(x);
#elif PART == 5
    run<opts<IE, IH, Q, ss::multiline>>(x);
    run<opts<IE, ss::trim<' '>>>(x);
#endif
#endif
}
