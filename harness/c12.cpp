// C12: header functions against a model of header and selection.
#define SIGS sig_list<sig<'s'>, sig<'s', 's'>, sig<'s', 's', 's'>, sig<'i'>, sig<'_', 's'>, sig<'o', '_', 's'>, sig<'v', 'o'>>
#include "common.hpp"
#include "iparser.hpp"
#include <algorithm>
using std::string;
using std::vector;
static vk::guard_page guard(1 << 21);

struct op {
    enum { READ, IGNORE, HEADER, RAW, EXISTS, USE } kind;
    int sig = 0;
    vector<string> f;
};
static string show_op(const op& o) {
    switch (o.kind) {
    case op::READ: return "get_next<" + sigs()[o.sig] + ">";
    case op::IGNORE: return "ignore_next";
    case op::HEADER: return "header";
    case op::RAW: return "raw_header";
    case op::EXISTS: return "field_exists(" + o.f[0] + ")";
    case op::USE: return "use_fields" + vk::show(o.f);
    }
    return "";
}

struct header_model {
    model::parser m;
    string raw;
    bool well_formed, unique;
    vector<string> names;
    vector<size_t> sel;

    header_model(const model::cfg& c, const string& t) : m(c, t) {
        raw = m.header < m.in.lines.size() ? m.in.lines[m.header].body : string();
        model::cfg h = c;
        h.ml = false;
        auto s = model::split_line(h, raw);
        well_formed = s.e == model::err::ok;
        names = s.cols;
        unique = true;
        for (auto& n : names) if (std::count(names.begin(), names.end(), n) != 1) unique = false;
    }
    bool selectable(const vector<string>& f) const {
        if (f.empty() || !well_formed || !unique) return false;
        for (auto& n : f) if (std::count(f.begin(), f.end(), n) != 1 || std::count(names.begin(), names.end(), n) != 1) return false;
        return true;
    }
    void select(const vector<string>& f) {
        sel.clear();
        for (auto& n : f) sel.push_back(size_t(std::find(names.begin(), names.end(), n) - names.begin()));
        if (m.next == m.header && !m.eof()) m.skip_line();
    }
    row read(const string& sg) {
        if (sel.empty()) return model_next(m, sg);
        row r;
        auto rec = m.read();
        if (!rec || rec->e != model::err::ok || sg.size() != sel.size()) return r;
        auto cols = model::columns_for(*rec, names.size());
        if (cols.size() != names.size()) return r;
        vector<string> v;
        for (size_t i : sel) v.push_back(cols[i]);
        return model_convert(v, sg);
    }
};

struct explorer {
    vk::ctx& x;
    setup_entry e;
    model::cfg c;

    void check(const string& t, const vector<op>& seq, int mode, bool file) {
        if (!x.take()) return;
        source s;
        s.file = file;
        if (file) {
            s.path = x.scratch + "/h";
            vk::write_file(s.path, t);
        } else {
            s.buf = guard.put(t);
            s.size = t.size();
        }
        ++x.evals;
        header_model m(c, t);
        auto p = e.make[mode](s, c.delim);
        string done;
        bool selected = false;
        auto fail = [&](const string& w) {
            x.violation(show(c) + " " + mode_name(mode) + (file ? " file " : " buffer ") + vk::show(t) + " after" + done + ": " + w);
        };
        string trace;
        for (auto& o : seq) {
            ++x.transitions;
            ++x.states;
            done += " " + show_op(o);
            bool at_eof = m.m.eof();
            switch (o.kind) {
            case op::READ: {
                row want = m.read(sigs()[o.sig]), got = p->next(o.sig);
                if (!(want == got)) return fail("got " + show(got) + ", expected " + show(want));
                trace += want.ok ? vk::show(want.vals) : "error";
                if (want.ok && selected) ++x.nontrivial, selected = false;
                break;
            }
            case op::IGNORE: m.m.ignore(); p->ignore_next(); break;
            case op::RAW: {
                row got = p->raw_header();
                if (got.vals != vector<string>{m.raw}) return fail("raw_header is " + vk::show(got.vals));
                break;
            }
            case op::HEADER: {
                row got = p->header();
                if (m.raw.empty()) { if (got.ok && !got.vals.empty() && got.vals != vector<string>{""}) return fail("header is " + vk::show(got.vals)); break; }
                if (got.ok != m.well_formed) return fail(got.ok ? "header of a malformed line is " + vk::show(got.vals) : "header failed");
                if (got.ok && got.vals != m.names) return fail("header is " + vk::show(got.vals) + ", expected " + vk::show(m.names));
                break;
            }
            case op::EXISTS: {
                row got = p->field_exists(o.f[0]);
                if (m.raw.empty()) break;
                bool want = std::count(m.names.begin(), m.names.end(), o.f[0]);
                if (!m.well_formed) { if (got.ok) return fail("no error for a malformed header"); break; }
                if (!m.unique && !got.ok) break;
                if (!got.ok || got.vals != vector<string>{want ? "yes" : "no"}) return fail("result is " + show(got));
                break;
            }
            case op::USE: {
                row got = p->use_fields(o.f);
                bool want = m.selectable(o.f);
                if (m.raw.empty()) { if (got.ok && !want) return fail("succeeded without a header"); if (got.ok) m.select(o.f); break; }
                if (at_eof && want) { if (got.ok) m.select(o.f); break; } // nothing is left to read
                if (got.ok != want) return fail(got.ok ? "succeeded" : "failed");
                if (got.ok) m.select(o.f), selected = true;
                trace += got.ok ? "U" : "u";
                break;
            }
            }
            if (p->eof() != m.m.eof()) return fail(string("eof() is ") + (p->eof() ? "true" : "false"));
            if (p->position() != m.m.position()) return fail("position() is " + std::to_string(p->position()) + ", expected " + std::to_string(m.m.position()));
        }
        // whatever is left is read with the selection
        int sg = m.sel.empty() ? 1 : m.sel.size() > 3 ? 0 : int(m.sel.size()) - 1;
        size_t alt = t.size() + seq.size() + m.sel.size() + (m.sel.size() > 1 ? m.sel[1] : 0);
        if (m.sel.size() == 2) sg = alt % 3 == 0 ? 1 : alt % 3 == 1 ? 4 : 6;
        if (m.sel.size() == 3 && alt % 2) sg = 5;
        for (size_t k = 0; k < t.size() + 3; ++k) {
            bool stop = m.m.eof();
            row want = m.read(sigs()[sg]), got = p->next(sg);
            ++x.transitions;
            if (!(want == got)) return fail("row " + std::to_string(k) + " of the rest is " + show(got) + ", expected " + show(want));
            if (want.ok && selected) ++x.nontrivial, selected = false;
            if (p->eof() != m.m.eof()) return fail(string("eof() is ") + (p->eof() ? "true" : "false") + " in the rest");
            if (stop) break;
        }
        x.outcome(trace);
        x.sample([&] { return show(c) + vk::show(t) + done + " -> " + trace; });
    }
};

template <typename L>
void run(vk::ctx& x, const string& delim = ",", bool light = false) {
    explorer e{x, entry<L>(), {}};
    e.c = e.e.c;
    e.c.delim = delim;
    const model::cfg& c = e.c;
    bool th = x.thorough && !light;
    // field lists
    vector<vector<string>> lists{{}};
    vector<string> names{"a", "b", "", "zz"};
    for (size_t n = 1; n <= 3; ++n)
        vk::seqs_n(names.size(), n, [&](const vector<int>& ix) {
            vector<string> f;
            for (int i : ix) f.push_back(names[i]);
            lists.push_back(f);
        });
    for (auto f : vector<vector<string>>{{"a", "b", "ab"}, {"ab"}, {"a" + delim + "b"}, {"a "}, {" a"}, {"\"a\""}, {"b", "ab"}, {"a", "b", "", "zz"}, {"c", "a", "b", "d"}}) lists.push_back(f);
    x.bound("field_lists", lists.size());
    // 1. all header lines
    string a = "ab" + delim;
    a = delim.size() > 1 ? "ab" + delim.substr(0, 1) : "ab,";
    if (c.quote) a += c.quote;
    a += c.esc;
    if (!c.tl.empty()) a += " ";
    size_t len = light ? 3 : th ? 6 : a.size() > 4 ? 4 : 5;
    x.bound("header_max_length_alphabet_" + std::to_string(a.size()), len);
    string d = delim;
    vector<string> bodies{"\n1" + d + "2\n3\n" + d + "\n1" + d + "2" + d + "3\n", "\n", "", "\r\nx\r\n\r\nx" + d + "y"};
    if (c.quote && c.ml) bodies.push_back("\n\"1\n2\"" + d + "3\n4" + d + "5\n");
    vk::words(a, 0, len, [&](const string& h) {
        for (size_t b = 0; b < bodies.size(); ++b)
            for (size_t l = 0; l < lists.size(); ++l) {
                if (h.size() == len && !th && (l + b + h[0]) % 3) continue;
                e.check(h + bodies[b], {{op::USE, 0, lists[l]}}, int(l % 3), (b == 1 || (l + h.size()) % 8 == 0) && h.size() < len);
            }
        for (int mode = 0; mode < 3; ++mode)
            e.check(h + bodies[0], {{op::HEADER}, {op::RAW}, {op::EXISTS, 0, {"a"}}, {op::EXISTS, 0, {"zz"}}, {op::READ, 1}, {op::HEADER}, {op::EXISTS, 0, {"b"}}, {op::RAW}, {op::USE, 0, {"b", "a"}}, {op::HEADER}, {op::READ, 1}, {op::READ, 1}, {op::RAW}, {op::HEADER}}, mode, mode == 1);
    });
    // 2. interleavings of header calls and reads
    vector<op> ops{{op::READ, 0}, {op::READ, 1}, {op::IGNORE}, {op::USE, 0, {"a"}}, {op::USE, 0, {"b", "a"}}, {op::USE, 0, {"b", "zz"}}, {op::USE, 0, {}}, {op::HEADER}, {op::EXISTS, 0, {"b"}}, {op::READ, 3}, {op::USE, 0, {"a", "a"}}, {op::READ, 4}};
    vector<string> texts{"a" + d + "b\n1" + d + "2\n3" + d + "4\n5\n6" + d + "7\n8" + d + "9\n", "a" + d + "b\r\n1" + d + "x\r\n" + d + "\r\n\r\n7" + d + "8", "\n\na" + d + "b\n1" + d + "2\n\n\n3" + d + "4\n\n", "a\n1\n\n2\n3\n", "b" + d + "a" + d + "\n1" + d + "2" + d + "3\n1" + d + "2\n4" + d + "5" + d + "6\n", "a" + d + "a\n1" + d + "2\n3" + d + "4\n", "b" + d + "a\n"};
    if (c.quote) { texts.push_back("a" + d + "\"b\"\n\"1\"\"" + d + "\n2\"" + d + "3\n\"4" + d + "\"" + d + "5\n"); texts.push_back("a" + d + "\"b\n1" + d + "2\"\n3" + d + "4\n"); }
    if (!c.esc.empty()) { texts.push_back("a" + d + "b\\\n1" + d + "2\n3" + d + "4\\\n" + d + "5\n"); texts.push_back("\\a" + d + "\\b\n1" + d + "2\\\n\n3" + d + "4\n"); }
    size_t depth = light ? 2 : th ? 5 : 4;
    x.bound(light ? "ops_depth_wrapped_setups_and_long_delimiters" : "ops_depth", depth);
    for (size_t k = 1; k <= depth; ++k)
        vk::seqs_n(ops.size(), k, [&](const vector<int>& ix) {
            vector<op> s;
            int h = 0;
            for (int i : ix) { s.push_back(ops[i]); h = h * 3 + i; }
            for (size_t i = 0; i < texts.size(); ++i) {
                const bool both = k < 3;
                e.check(texts[i], s, int((h + i) % 3), !both && k == 3 && (h / 3 + i) % 2);
                if (both) e.check(texts[i], s, int((h + i) % 3), true);
            }
        });
    if (light) {
        // the parts of the delimiter are no delimiter
        for (size_t k = 1; k < d.size(); ++k)
            for (const string& part : {d.substr(0, k), d.substr(k)})
                for (const string& h : {"a" + part + d + "b", "a" + d + part + "b", part + d + "b", "a" + part + "b", "a" + d + "b" + part}) {
                    e.check(h + "\n1" + d + "2\n3\n", {{op::HEADER}, {op::EXISTS, 0, {"a"}}, {op::EXISTS, 0, {"a" + part}}, {op::EXISTS, 0, {part}}, {op::USE, 0, {"b"}}, {op::READ, 0}}, int(k % 3), false);
                    e.check(h + "\n1" + d + "2\n3\n", {{op::USE, 0, {"a" + part}}, {op::READ, 0}, {op::USE, 0, {part + "b"}}, {op::USE, 0, {"b"}}, {op::READ, 0}}, int((k + 1) % 3), true);
                }
        return;
    }
    // names which are nearly those of the header: another case, one bit, one character
    {
        auto usable = [&](unsigned char u) { return u != 0 && u != '\n' && u != '\r' && d.find(char(u)) == string::npos && !(c.quote && char(u) == c.quote) && c.esc.find(char(u)) == string::npos && c.tl.find(char(u)) == string::npos && c.tr.find(char(u)) == string::npos; };
        auto near = [&](const string& name, const string& other, int mode, bool file) {
            string t = name + d + "k\n1" + d + "2\n3" + d + "4\n", u = name + d + other + d + "k\n1" + d + "2" + d + "3\n4" + d + "5" + d + "6\n";
            e.check(t, {{op::EXISTS, 0, {other}}, {op::EXISTS, 0, {name}}, {op::USE, 0, {other}}, {op::READ, 0}, {op::USE, 0, {"k", name}}, {op::READ, 1}}, mode, file);
            e.check(u, {{op::EXISTS, 0, {other}}, {op::HEADER}, {op::USE, 0, {other, name}}, {op::READ, 1}, {op::USE, 0, {name}}, {op::READ, 0}}, mode, file);
        };
        for (int v = 1; v < 256; ++v)
            for (int k = 0; k < 8; ++k)
                if (usable((unsigned char)v) && usable((unsigned char)(v ^ 1 << k))) {
                    near(string(1, char(v)), string(1, char(v ^ 1 << k)), (v + k) % 3, k == 5);
                    near("n" + string(1, char(v)) + "m", "n" + string(1, char(v ^ 1 << k)) + "m", (v + k + 1) % 3, false);
                }
        for (size_t w : {2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 126, 127, 128, 129, 200, 300})
            for (size_t i = 0; i < w; ++i) {
                string n = string(w, 'f');
                for (size_t j = 0; j < w; ++j) n[j] = char('f' + j % 13);
                for (int y : {1, 0x20, 0x80}) {
                    string o = n;
                    o[i] = char(o[i] ^ y);
                    if (usable((unsigned char)o[i])) near(n, o, int((w + i) % 3), y == 1);
                }
                near(n, n.substr(0, i), int((w + i + 1) % 3), false);
                near(n, n.substr(i + 1), int((w + i + 2) % 3), false);
                string o = n;
                o.insert(i, "x");
                near(n, o, int((w + i) % 3), false);
            }
        vector<string> marks{"\xef\xbb\xbf", "\xff\xfe", "#", "sep=", "\t", "\f", "_", "%"};
        for (auto& m : marks) { near(m + "a", "a", BOOL, true); near("a", m + "a", STR, true); near("a" + m, "a", THR, true); near(m, m + m, BOOL, false); }
        x.bound("near_names_length_max", 301);
    }
    // rows whose number of columns is that of the header in fewer bits
    for (size_t n = 1; n <= 3; ++n)
        for (size_t k : {16, 32, 64, 128, 256, 512, 1024, 4096, 32768, 65536, 131072}) {
            auto line = [&](size_t w, const string& p) { string s; for (size_t i = 0; i < w; ++i) s += (i ? d : "") + p + std::to_string(i % 7); return s; };
            string t = line(n, "n") + "\n" + line(n + k, "") + "\n" + line(n, "") + "\n" + line(n + 2 * k, "") + "\n" + line(n, "x") + "\n";
            e.check(t, {{op::USE, 0, {"n0"}}, {op::READ, 0}, {op::READ, 0}}, int(n % 3), k == 256);
            if (n > 1) e.check(t, {{op::USE, 0, {"n1", "n0"}}, {op::READ, 1}, {op::READ, 1}, {op::USE, 0, {"n0"}}, {op::READ, 0}}, int((n + 1) % 3), false);
        }
    // long field lists: a repeated or missing name in every place
    for (size_t n : {4, 5, 6, 7, 8, 9, 12, 17}) {
        string h, r;
        vector<string> f;
        for (size_t i = 0; i < n; ++i) { f.push_back("n" + std::to_string(i)); h += (i ? d : "") + f[i]; r += (i ? d : "") + std::to_string(i); }
        string t = h + "\n" + r + "\n" + r + d + "1\n" + r + "\n";
        for (size_t i = 0; i < n; ++i) {
            auto g = f;
            g[i] = i % 2 ? "zz" : "";
            e.check(t, {{op::USE, 0, {f[i]}}, {op::USE, 0, g}, {op::READ, 0}, {op::USE, 0, {f[i], f[n - 1 - i]}}, {op::READ, 1}}, int(i % 3), false);
            std::rotate(f.begin(), f.begin() + 1, f.end());
            e.check(t, {{op::USE, 0, f}, {op::READ, 1}, {op::USE, 0, {f[0]}}, {op::READ, 0}}, int(i % 3), false);
            for (size_t j = 0; j < i; ++j) {
                g = f;
                g[i] = g[j];
                for (int mode = 0; mode < 3; ++mode) e.check(t, {{op::USE, 0, {f[j]}}, {op::USE, 0, g}, {op::READ, 0}}, mode, false);
                g = f;
                g.push_back(f[j]);
                e.check(t, {{op::USE, 0, g}, {op::READ, 0}}, int((i + j) % 3), false);
            }
        }
    }
    // 3. wide headers and long names
    for (size_t n : {2, 3, 7, 8, 9, 31, 64, 127, 300})
        for (size_t w : {1, 10, 126, 127, 128, 129, 300}) {
            string h, r1, r2;
            vector<string> f;
            for (size_t i = 0; i < n; ++i) {
                f.push_back(string(w, 'f') + std::to_string(i));
                h += (i ? d : "") + f[i];
                r1 += (i ? d : "") + std::to_string(i);
                r2 += (i ? d : "") + string("v") + std::to_string(i);
            }
            string t = h + "\n" + r1 + "\n" + r1 + d + "1\n" + r2 + "\n" + r1 + "\n";
            for (size_t i : {size_t(0), n / 2, n - 1})
                for (size_t j : {size_t(0), n / 3, n - 1}) {
                    e.check(t, {{op::USE, 0, {f[i]}}, {op::READ, 3}, {op::READ, 0}}, BOOL, false);
                    e.check(t, {{op::USE, 0, {f[i], f[j]}}, {op::READ, 1}}, STR, true);
                    e.check(t, {{op::READ, 0}, {op::USE, 0, {f[i]}}, {op::READ, 3}, {op::USE, 0, {f[j]}}, {op::READ, 0}, {op::READ, 0}}, THR, false);
                }
            e.check(t, {{op::HEADER}, {op::EXISTS, 0, {f[n - 1]}}, {op::EXISTS, 0, {f[0] + "x"}}, {op::RAW}}, BOOL, false);
        }
}

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
using IE = ss::ignore_empty;
void explore(vk::ctx& x) {
#if PART == 0
    run<opts<>>(x);
    run<opts<IE>>(x);
#elif PART == 1
    run<opts<Q>>(x);
#elif PART == 2
    run<opts<Q, ss::multiline>>(x);
#elif PART == 3
    run<opts<IE, Q, E, ss::multiline_restricted<1>>>(x);
#elif PART == 4
    run<opts<E, ss::multiline, IE>>(x);
    run<opts<>>(x, "::");
#elif PART == 5
    run<opts<ss::trim<' '>, Q>>(x);
#elif PART == 6
    run<wrapped<0, opts<Q, ss::multiline>>>(x, ",", true);
    run<wrapped<1, opts<Q, E, ss::multiline_restricted<1>>>>(x, ",", true);
    run<wrapped<2, opts<IE, ss::multiline, E, ss::trim<' '>>>>(x, ",", true);
    run<wrapped<3, opts<ss::multiline, Q>>>(x, ",", true);
#elif PART == 7
    for (string d : {"::", ";;;;", "ab", ";:;:;", "========", "==========", "=-=-=-=-=-=-=-=-=-=-", "\xc3\xa9\xc3\xa9"}) { run<opts<>>(x, d, true); if (d.size() % 2) run<opts<Q, ss::multiline>>(x, d, true); }
#endif
}
