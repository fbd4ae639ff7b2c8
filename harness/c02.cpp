// C02: encode -> parse is the identity, for every table and encoding style.
#define MODES 1
#define SIGS sig_list<sig<'s'>, sig<'s', 's'>, sig<'s', 's', 's'>>
#include "common.hpp"
#include "iparser.hpp"
using std::string;
using std::vector;
static vk::guard_page guard(1 << 22);

enum style { RAW, QUOTED, QUOTED_ESC, ESCAPED, PADDED, PADDED_QUOTED, NSTYLES };
static const char* const style_names[] = {"raw", "quoted", "quoted+escaped", "escaped", "padded", "padded quoted"};

// the writer; nullopt if the style cannot express the value. Independent of
// the grammar in model.hpp.
static std::optional<string> encode(const model::cfg& c, const string& v, style s) {
    auto has = [](const string& set, char k) { return set.find(k) != string::npos; };
    bool nl = v.find('\n') != string::npos;
    if (s == PADDED || s == PADDED_QUOTED) {
        if (c.tl.empty() && c.tr.empty()) return {};
        auto in = encode(c, v, s == PADDED ? (c.esc.empty() ? RAW : ESCAPED) : QUOTED);
        if (!in) return {};
        string l = c.tl.empty() ? "" : string(2, c.tl[0]), r = c.tr.empty() ? "" : string(3, c.tr[0]);
        return l + *in + r;
    }
    if (s == RAW) {
        for (char k : v)
            if (k == '\n' || k == c.quote || has(c.esc, k) || has(c.delim, k)) return {};
        if (!v.empty() && (has(c.tl, v[0]) || has(c.tr, v.back()))) return {};
        return v;
    }
    if (s == QUOTED || s == QUOTED_ESC) {
        if (!c.quote || (nl && !c.ml)) return {};
        if (s == QUOTED_ESC && c.esc.empty()) return {};
        string r(1, c.quote);
        for (char k : v) {
            if (k == c.quote) r += (s == QUOTED ? c.quote : c.esc[0]);
            else if (has(c.esc, k)) r += c.esc[0];
            r += k;
        }
        return r + c.quote;
    }
    if (s == ESCAPED) {
        if (c.esc.empty() || (nl && !c.ml)) return {};
        string r;
        for (size_t i = 0; i < v.size(); ++i) {
            char k = v[i];
            if (k == '\r' && i + 1 < v.size() && v[i + 1] == '\n') { r += c.esc.back(); r += "\r\n"; ++i; continue; }
            if (k == '\n' || k == c.quote || has(c.esc, k) || has(c.delim, k) || has(c.tl, k) || has(c.tr, k)) r += c.esc.back();
            r += k;
        }
        return r;
    }
    return {};
}

struct explorer {
    vk::ctx& x;
    setup_entry e;
    const model::cfg& c;

    void check(const vector<vector<string>>& table, const vector<style>& st, bool crlf, bool last_eol, bool file) {
        string text;
        size_t k = 0, cols = table[0].size();
        for (size_t r = 0; r < table.size(); ++r) {
            for (size_t j = 0; j < cols; ++j) {
                auto s = encode(c, table[r][j], st[k++]);
                if (!s) return;
                // would merge with the line end
                if (j + 1 == cols && (r + 1 < table.size() || last_eol) && !s->empty() && s->back() == '\r') return;
                if (j) text += c.delim;
                text += *s;
            }
            if (r + 1 < table.size() || last_eol) text += crlf ? "\r\n" : "\n";
        }
        // a last line consisting of nothing does not exist
        if (text.empty() || (!last_eol && text.back() == '\n')) return;
        if (!x.take()) return;
        source s;
        s.file = file;
        if (file) {
            s.path = x.scratch + "/f";
            vk::write_file(s.path, text);
        } else {
            s.buf = guard.put(text);
            s.size = text.size();
        }
        auto p = e.make[BOOL](s, c.delim);
        ++x.evals;
        ++x.states;
        auto what = [&] {
            string r = show(c) + (file ? " file " : " buffer ") + vk::show(text) + " encodes";
            for (auto& t : table) r += " " + vk::show(t);
            return r;
        };
        for (size_t r = 0; r < table.size(); ++r) {
            if (p->eof()) { x.violation(what() + ": eof before row " + std::to_string(r)); return; }
            row got = p->next(int(cols) - 1);
            ++x.transitions;
            ++x.states;
            if (!got.ok || got.vals != table[r]) { x.violation(what() + ": row " + std::to_string(r) + " is " + show(got)); return; }
        }
        if (!p->eof()) x.violation(what() + ": no eof after the last row");
        bool plain = true;
        for (auto z : st) plain = plain && z == RAW;
        if (!plain) ++x.nontrivial;
        x.sample([&] { return what(); });
    }

    void fields(const vector<vector<string>>& shape_choices, size_t rows, size_t cols, bool few_styles) {
        // shape_choices: candidate values per cell
        size_t n = rows * cols;
        vector<size_t> ix(n, 0);
        while (true) {
            vector<vector<string>> t(rows, vector<string>(cols));
            for (size_t i = 0; i < n; ++i) t[i / cols][i % cols] = shape_choices[i][ix[i]];
            vector<style> st(n, RAW);
            while (true) {
                for (int b = 0; b < (n > 2 && !x.thorough ? 4 : 8); ++b) check(t, st, b & 1, b & 2, b & 4);
                size_t i = 0;
                for (; i < n; ++i) {
                    int z = st[i] + 1;
                    while (z < NSTYLES && !encode(c, t[i / cols][i % cols], style(z))) ++z;
                    if (z < NSTYLES) { st[i] = style(z); break; }
                    st[i] = RAW;
                }
                if (i == n) break;
            }
            size_t i = 0;
            for (; i < n; ++i) {
                if (++ix[i] < shape_choices[i].size()) break;
                ix[i] = 0;
            }
            if (i == n) break;
        }
    }
};

template <typename L>
void run(vk::ctx& x, const string& delim) {
    explorer e{x, entry<L>(), e.e.c};
    e.e.c.delim = delim;
    const model::cfg& c = e.c;
    string a = "a";
    for (char k : delim) if (a.find(k) == string::npos) a += k;
    a += c.quote ? c.quote : '"';
    a += c.esc.empty() ? string("\\") : c.esc;
    a += " ";
    a += '\r';
    if (c.ml) a += '\n';
    auto upto = [&](size_t n) { vector<string> v; vk::words(a, 0, n, [&](const string& w) { v.push_back(w); }); return v; };
    bool th = x.thorough;
    auto f1 = upto(th ? 5 : 4), f2 = upto(2), f3 = upto(1);
    auto mid = th ? upto(3) : f2;
    e.fields({f1}, 1, 1, false);
    e.fields({mid, f3}, 1, 2, false);
    e.fields({f3, mid}, 1, 2, false);
    e.fields({mid, f3}, 2, 1, false);
    e.fields({f3, mid}, 2, 1, false);
    vector<string> tiny{"", "b"};
    tiny.push_back(c.ml && (c.quote || !c.esc.empty()) ? "\n" : delim);
    e.fields({f3, tiny, tiny}, 1, 3, false);
    if (th) e.fields({f3, f3, tiny}, 3, 1, false);
    e.fields({f3, tiny, tiny, {"", delim}}, 2, 2, false);
    x.bound("max_field_length_single", th ? 5 : 4);
    x.bound("max_field_length_pairs", th ? 3 : 2);
    x.bound("alphabet", a.size());
    // long fields
    for (size_t k : {62, 63, 64, 125, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4094, 4095, 4096, 4097})
        for (char w : a) {
            if (w == '\n' && c.limit && k > c.limit) continue;
            string f = vk::repeat(string(1, w), k);
            e.fields({{f}, {"", "a", delim}}, 1, 2, false);
            e.fields({{"", "a", delim}, {f}}, 2, 1, false);
        }
}

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
void explore(vk::ctx& x) {
    using T = ss::trim<' '>;
#if PART == 0
    run<opts<Q>>(x, ",");
    run<opts<E>>(x, ",");
    run<opts<>>(x, ",");
    run<opts<>>(x, "::");
    run<opts<Q>>(x, "::");
#elif PART == 1
    run<opts<Q, E>>(x, ",");
    run<opts<E>>(x, "--");
    run<opts<Q, ss::escape<'\\', '/'>>>(x, "aab");
#elif PART == 2
    run<opts<Q, T>>(x, ",");
    run<opts<E, T>>(x, ",");
    run<opts<T>>(x, ",");
    run<opts<Q, ss::trim_left<' '>>>(x, ";;");
#elif PART == 3
    run<opts<Q, E, T>>(x, ",");
    run<opts<Q, E, ss::trim_right<' '>>>(x, ",");
#elif PART == 4
    run<opts<Q, ss::multiline>>(x, ",");
    run<opts<E, ss::multiline>>(x, ",");
#elif PART == 5
    run<opts<Q, E, ss::multiline>>(x, ",");
    run<opts<Q, E, T, ss::multiline_restricted<40>>>(x, "::");
#endif
}
