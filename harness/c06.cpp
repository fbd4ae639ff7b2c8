// C06: the three error-handling modes in lock step.
#define SIGS sig_list<sig<'s'>, sig<'s', 's'>, sig<'i'>, sig<'i', 'i'>>
#include "common.hpp"
#include "iparser.hpp"
using std::string;
using std::vector;
static vk::guard_page guard(1 << 20);

enum { IGNORE = 100, HEADER, EXISTS_YES, EXISTS_NO, USE_1, USE_NO, USE_NONE, USE_2 };

static string show_op(int o) {
    switch (o) {
    case IGNORE: return "ignore_next";
    case HEADER: return "header";
    case EXISTS_YES: return "field_exists(1)";
    case EXISTS_NO: return "field_exists(none)";
    case USE_1: return "use_fields(1)";
    case USE_NO: return "use_fields(none)";
    case USE_NONE: return "use_fields({})";
    case USE_2: return "use_fields(1,)";
    }
    return "get_next<" + sigs()[o] + ">";
}

static row run_op(iparser& p, int o) {
    row r;
    switch (o) {
    case IGNORE: r.ok = true; r.vals = {p.ignore_next() ? "yes" : "no"}; return r;
    case HEADER: return p.header();
    case EXISTS_YES: return p.field_exists("1");
    case EXISTS_NO: return p.field_exists("none");
    case USE_1: return p.use_fields({"1"});
    case USE_NO: return p.use_fields({"none"});
    case USE_NONE: return p.use_fields({});
    case USE_2: return p.use_fields({"1", ""});
    }
    return p.next(o);
}

// the first number of a message, not counting the name of the source
static long first_number(string m, const string& name) {
    size_t i = m.find(name);
    if (i == string::npos) return -1;
    m.erase(0, i + name.size());
    i = m.find_first_of("0123456789");
    return i == string::npos ? -1 : atol(m.c_str() + i);
}

struct explorer {
    vk::ctx& x;
    setup_entry e;
    const model::cfg& c;
    vector<int> ops;

    void check(const string& t, const vector<int>& seq, bool file) {
        if (!x.take()) return;
        source s;
        s.file = file;
        if (file) {
            s.path = x.scratch + "/" + (t.size() % 3 ? "in" : string(200, 'n')) + ".csv";
            vk::write_file(s.path, t);
        } else {
            s.buf = guard.put(t);
            s.size = t.size();
        }
        model::input in(c, t);
        string done;
        auto where = [&] { return show(c) + (file ? " file " : " buffer ") + vk::show(t) + " after" + done; };
        std::unique_ptr<iparser> p[3];
        for (int m = 0; m < 3; ++m) p[m] = e.make[m](s, c.delim);
        ++x.evals;
        bool had_ok = false, had_err = false;
        string trace;
        size_t past = 0;
        for (size_t k = 0;; ++k) {
            ++x.states;
            for (int m = 1; m < 3; ++m)
                if (p[m]->eof() != p[0]->eof() || p[m]->line() != p[0]->line() || p[m]->position() != p[0]->position()) {
                    x.violation(where() + ": " + mode_name(m) + " eof " + std::to_string(p[m]->eof()) + " line " + std::to_string(p[m]->line()) +
                                " position " + std::to_string(p[m]->position()) + ", default eof " + std::to_string(p[0]->eof()) + " line " +
                                std::to_string(p[0]->line()) + " position " + std::to_string(p[0]->position()));
                    return;
                }
            if (!p[THR]->valid()) { x.violation(where() + ": valid() is false with throw_on_error"); return; }
            if (p[BOOL]->valid() != p[STR]->valid()) { x.violation(where() + ": valid() differs between default and string_error"); return; }
            if (p[STR]->valid() != p[STR]->error_msg().empty()) { x.violation(where() + ": valid() and error_msg() disagree"); return; }
            if (p[0]->eof() && past++ > seq.size()) break;
            if (k > 2 * t.size() + 8) break;
            int op = seq[k % seq.size()];
            size_t line = p[0]->line();
            bool at_eof = p[0]->eof();
            row r[3];
            for (int m = 0; m < 3; ++m) r[m] = run_op(*p[m], op);
            done += " " + show_op(op);
            ++x.transitions;
            (r[0].ok ? had_ok : had_err) = true;
            if (!(r[0] == r[1]) || !(r[0] == r[2])) {
                x.violation(where() + ": default " + show(r[0]) + ", string_error " + show(r[1]) + ", throw_on_error " + show(r[2]));
                return;
            }
            if (!r[0].ok && r[1].msg != r[2].msg) {
                x.violation(where() + ": message " + vk::show(r[1].msg) + ", exception " + vk::show(r[2].msg));
                return;
            }
            if (!r[0].ok && r[1].msg.empty()) { x.violation(where() + ": empty message"); return; }
            if (!r[0].ok && op < 100) { // a failed read
                if (r[1].msg.find(s.name()) == string::npos) {
                    x.violation(where() + ": the source is not named in " + vk::show(r[1].msg));
                    return;
                }
                if (!at_eof) {
                    auto rec = in.at(line);
                    long n = first_number(r[1].msg, s.name());
                    if (n < long(line) + 1 || n > long(line + rec.lines)) {
                        x.violation(where() + ": the failed row is on line " + std::to_string(line + 1) + " to " +
                                    std::to_string(line + rec.lines) + ", the message is " + vk::show(r[1].msg));
                        return;
                    }
                }
            }
            if (t.size() < 100) trace += show(r[0]) + ";";
        }
        if (had_ok && had_err) ++x.nontrivial;
        x.outcome(trace);
        x.sample([&] { return show(c) + vk::show(t) + done + " -> " + trace; });
    }
};

template <typename L, int M>
row construct_fails(const source& s) {
    row r;
    try {
        using P = typename with_mode<L, M>::template apply<ss::parser>;
        P p = s.file ? P(s.path, string(",")) : P(s.buf, s.size, string(","));
        r.ok = p.valid();
        if constexpr (M == STR) r.msg = p.error_msg();
        r.vals = {p.eof() ? "eof" : "not eof", std::to_string(p.position()), std::to_string(p.line())};
        for (int i = 0; i < 2; ++i) { // reads keep failing
            auto v = p.template get_next<string>();
            r.vals.push_back(p.valid() ? "valid read" : v.empty() ? "invalid read" : "data");
            r.vals.push_back(p.ignore_next() ? "more" : "end");
            if (p.line() != 0 || p.position() != 0 || !p.eof()) r.vals.push_back("line " + std::to_string(p.line()) + " position " + std::to_string(p.position()) + (p.eof() ? "" : " not at the end"));
        }
    } catch (const ss::exception& ex) {
        r.msg = ex.what();
        r.vals = {"thrown"};
    }
    return r;
}

template <typename L>
void constructors(vk::ctx& x) {
    vector<source> v;
    for (string n : {"/no_such_file.csv", "/no_dir/x", "/", ""}) { source s; s.file = true; s.path = n.empty() ? n : x.scratch + n; v.push_back(s); }
    for (size_t n : {0, 1, 100}) { source s; s.buf = nullptr; s.size = n; v.push_back(s); }
    for (auto& s : v) {
        if (!x.take()) continue;
        if (s.path.size() && s.path.back() == '/') continue; // a directory can be opened for reading
        ++x.evals;
        ++x.nontrivial;
        row b = construct_fails<L, BOOL>(s), m = construct_fails<L, STR>(s), t = construct_fails<L, THR>(s);
        vector<string> want{"eof", "0", "0", "invalid read", "end", "invalid read", "end"};
        string w = s.file ? "file " + vk::show(s.path) : "null buffer";
        if (b.ok || m.ok || t.ok) x.violation(w + ": construction succeeded: " + show(b) + show(m) + show(t));
        else if (b.vals != want || m.vals != want) x.violation(w + ": state after failed construction " + vk::show(b.vals) + vk::show(m.vals));
        else if (t.vals != vector<string>{"thrown"}) x.violation(w + ": nothing thrown");
        else if (m.msg.empty() || m.msg != t.msg) x.violation(w + ": message " + vk::show(m.msg) + ", exception " + vk::show(t.msg));
        else if (s.file && m.msg.find(s.path) == string::npos) x.violation(w + ": the file is not named in " + vk::show(m.msg));
        x.outcome(m.msg);
    }
}

template <typename L>
void run(vk::ctx& x) {
    explorer e{x, entry<L>(), e.e.c, {}};
    const model::cfg& c = e.c;
    bool th = x.thorough;
    e.ops = {0, 1, 3, IGNORE};
    if (!c.ignore_header) for (int o : {HEADER, EXISTS_YES, EXISTS_NO, USE_1, USE_NO, USE_NONE, USE_2}) e.ops.push_back(o);
    string a = "1,\n";
    if (c.quote) a += c.quote;
    a += c.esc;
    if (!c.tl.empty()) a += ' ';
    for (size_t d = 1; d <= (th ? 4u : 3u); ++d) {
        double per = 1;
        for (size_t i = 0; i < d; ++i) per *= e.ops.size();
        size_t len = 0;
        double budget = (th ? 5e6 : 1.6e5) / per;
        for (double v = a.size(); v <= budget; v *= a.size()) ++len;
        if (d == 3 && len < 3) len = 2;
        x.bound("texts_max_length_alphabet_" + std::to_string(a.size()) + "_ops_depth_" + std::to_string(d), len);
        vk::words(a, 0, len, [&](const string& w) {
            vk::seqs_n(e.ops.size(), d, [&](const vector<int>& ix) {
                vector<int> s;
                for (int i : ix) s.push_back(e.ops[i]);
                e.check(w, s, false);
                if (d < 3 && w.size() + 1 < len) e.check(w, s, true);
            });
        });
    }
    // whole lines
    vector<string> lines{"1", "x", "1,2", "1,b", "", "1,,3"};
    if (c.quote) { lines.push_back("\"q"); lines.push_back("q\""); lines.push_back("\"q\"z"); }
    if (!c.esc.empty()) { lines.push_back("e\\"); lines.push_back("1,2\\"); }
    size_t nl = th ? 4 : 3;
    x.bound("lines_max", nl);
    for (size_t n = 2; n <= nl; ++n)
        vk::seqs_n(lines.size(), n, [&](const vector<int>& ix) {
            string t;
            for (size_t i = 0; i < n; ++i) t += lines[ix[i]] + "\n";
            for (size_t d = 1; d <= (n == 2 || th ? 2u : 1u); ++d)
                vk::seqs_n(e.ops.size(), d, [&](const vector<int>& jx) {
                    vector<int> s;
                    for (int i : jx) s.push_back(e.ops[i]);
                    e.check(t, s, false);
                    if (d == 1) e.check(t, s, true);
                });
            // header functions first, then reads
            for (int h : e.ops)
                if (h >= 100)
                    for (int r : {0, 1, 2, 3}) { e.check(t, {h, r, r, r, r, r, r}, n % 2); e.check(t, {r, h, r, r, r, r, r}, n % 2); }
        });
    // failing rows far down: line numbers of several digits
    for (size_t k : {8, 9, 10, 11, 98, 99, 100, 101, 254, 255, 256, 257, 998, 999, 1000, 1001, 9999, 65535, 65536})
        for (string bad : {"x", "1,2", "", "\"q\"z", "a\\"}) {
            string t;
            for (size_t i = 0; i < k; ++i) t += "1\n";
            e.check(t + bad + "\n1\n", {2}, k % 2);
        }
    constructors<L>(x);
}

// the converter by itself
template <typename L, int M>
struct conv {
    using C = typename with_mode<L, M>::template apply<ss::converter>;
    C c;
    template <typename T, typename... Ts>
    row one(char* line, const string& d, int how) {
        row r;
        try {
            if (how == 0) emit(r.vals, c.template convert<T, Ts...>(line, d));
            else {
                auto& s = c.split(line, d);
                if (how == 1) emit(r.vals, c.template convert<T, Ts...>());
                else emit(r.vals, c.template convert<T, Ts...>(s));
            }
            r.ok = c.valid();
            if constexpr (M == STR) r.msg = c.error_msg();
            if (r.ok != r.msg.empty() && M == STR) r.msg = "valid() and error_msg() disagree";
        } catch (const ss::exception& ex) {
            r.msg = ex.what();
            if (!c.valid()) r.msg = "valid() is false with throw_on_error";
        }
        if (!r.ok) r.vals.clear();
        return r;
    }
    row any(char* l, const string& d, int how, int sg) {
        switch (sg) {
        case 0: return one<string>(l, d, how);
        case 1: return one<int>(l, d, how);
        case 2: return one<string, string>(l, d, how);
        case 3: return one<int, ss::gt<int, 1>>(l, d, how);
        case 4: return one<void, string>(l, d, how);
        case 5: return one<ss::ne<string>, std::optional<int>>(l, d, how);
        case 6: return one<ss::ax<char, 'x'>, string, void>(l, d, how);
        case 7: return one<int, int, int, int, int, int, int, int, int, int, int, int>(l, d, how);
        default: return wide(l, d, how, std::make_index_sequence<6>{});
        }
    }
    template <size_t... I>
    row wide(char* l, const string& d, int how, std::index_sequence<I...>) {
        return one<std::conditional_t<(I + 1 > 0), ss::gt<int, 1>, void>..., std::conditional_t<(I + 1 > 0), ss::gt<int, 1>, void>...>(l, d, how);
    }
};

template <typename L>
void converters(vk::ctx& x) {
    model::cfg c = cfg_of(L{});
    auto compare = [&](const string& w, const vector<string>& delims, int from, int to) {
        if (!x.take()) return;
        conv<L, BOOL> b;
        conv<L, STR> s;
        conv<L, THR> t;
        for (string d : delims)
            for (int how = 0; how < 3; ++how)
                for (int sg = from; sg < to; ++sg) {
                    ++x.evals;
                    ++x.transitions;
                    string l[3] = {w, w, w};
                    row r[3] = {b.any(l[0].data(), d, how, sg), s.any(l[1].data(), d, how, sg), t.any(l[2].data(), d, how, sg)};
                    if (!r[0].ok) ++x.nontrivial;
                    x.outcome(r[1].msg);
                    if (!(r[0] == r[1]) || !(r[0] == r[2]) || (!r[0].ok && (r[1].msg != r[2].msg || r[1].msg.empty())))
                        x.violation(show(c) + " delimiter " + vk::show(d) + " converter call " + std::to_string(how) + " types " + std::to_string(sg) + " of " +
                                    vk::show(w) + ": default " + show(r[0]) + ", string_error " + show(r[1]) + ", throw_on_error " + show(r[2]));
                }
    };
    string a = "12x,";
    if (c.quote) a += c.quote;
    a += c.esc;
    if (!c.tl.empty()) a += ' ';
    size_t len = x.thorough ? 7 : a.size() > 5 ? 4 : 5;
    x.bound("converter_lines_max_length_alphabet_" + std::to_string(a.size()), len);
    vk::words(a, 0, len, [&](const string& w) {
        compare(w, {",", "", "1,"}, 0, 7);
    });
    // many columns, long texts
    for (int bad = 0; bad <= 12; ++bad)
        for (string v : {string("x"), string("0"), string(), string(5, '7'), string(300, '7'), string(30, 'y')}) {
            string w;
            for (int i = 0; i < 12; ++i) w += (i ? "," : "") + (i == bad ? v : std::to_string(i + 2));
            compare(w, {","}, 7, 9);
        }
    for (size_t n = 1; n < 1200; n = n < 130 ? n + 1 : n + 119) {
        compare(vk::repeat("2,", n) + "2", {","}, 0, 9);
        compare(string(n, '2') + "x", {","}, 0, 5);
        if (c.quote) compare(vk::repeat("2,", n) + c.quote + "3" + c.quote + "4", {","}, 0, 9);
        if (!c.esc.empty()) compare(vk::repeat("2,", n) + c.esc[0], {","}, 0, 9);
    }
}

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
using IE = ss::ignore_empty;
using IH = ss::ignore_header;
void explore(vk::ctx& x) {
#if PART == 0
    run<opts<>>(x);
    converters<opts<>>(x);
#elif PART == 1
    run<opts<Q>>(x);
    converters<opts<Q>>(x);
#elif PART == 2
    run<opts<Q, E>>(x);
    converters<opts<Q, E>>(x);
#elif PART == 3
    run<opts<Q, ss::multiline>>(x);
    converters<opts<Q, ss::multiline>>(x);
#elif PART == 4
    run<opts<Q, E, ss::multiline_restricted<1>>>(x);
    converters<opts<E, ss::multiline>>(x);
#elif PART == 5
    run<opts<IE, IH, E, ss::multiline>>(x);
    run<opts<IE, ss::trim<' '>>>(x);
    converters<opts<Q, E, ss::trim<' '>>>(x);
#endif
}
