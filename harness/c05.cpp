// C05: file and buffer mode in lock step, every fragmentation of the file.
#define SIGS sig_list<sig<'s'>, sig<'s', 's'>, sig<'s', 's', 's'>>
#ifndef MODES
#define MODES 6
#endif
#include "common.hpp"
#include "iparser.hpp"
#include "cookie.hpp"
VK_COOKIE_MAIN
using std::string;
using std::vector;
static vk::guard_page guard(1 << 22);

// what is left of a message without the name of the source
static string strip(string m, const string& name) {
    size_t i = m.find(name);
    if (i != string::npos) m.replace(i, name.size(), "<src>");
    return m;
}

struct explorer {
    vk::ctx& x;
    setup_entry e;
    const model::cfg& c;
    string written;
    bool have = false;

    void check(const string& t, int mode, int first_sig, const vector<size_t>& chunks, bool cookie) {
        if (!x.take()) return;
        string path = x.scratch + "/f";
        if (!have || written != t) {
            vk::write_file(path, t);
            written = t;
            have = true;
        }
        source f, b;
        f.file = true;
        f.path = path;
        b.buf = guard.put(t);
        b.size = t.size();
        vk::g_env = {};
        vk::g_env.on = cookie;
        vk::g_env.path = path;
        vk::g_env.data = t;
        vk::g_env.chunks = chunks;
        vk::g_env.seekable = chunks.size() % 2 == 0; // a file or a pipe
        ++x.evals;
        string done, trace;
        size_t rows = 0;
        auto where = [&] {
            string r = show(c) + " " + mode_name(mode) + " " + vk::show(t) + " reads";
            if (!cookie) r += " plain";
            for (size_t k : chunks) r += " " + std::to_string(k);
            return r + " after row " + std::to_string(rows);
        };
        auto pf = e.make[mode](f, c.delim), pb = e.make[mode](b, c.delim);
        if constexpr (true) {
            row hf = pf->raw_header(), hb = pb->raw_header();
            if (!c.ignore_header && !(hf == hb)) { x.violation(where() + ": raw_header " + show(hf) + " from file, " + show(hb) + " from buffer"); }
        }
        size_t past = 0;
        int sg = first_sig;
        while (true) {
            ++x.states;
            if (pf->eof() != pb->eof() || pf->line() != pb->line() || pf->position() != pb->position() || pf->valid() != pb->valid()) {
                x.violation(where() + ": file eof " + std::to_string(pf->eof()) + " line " + std::to_string(pf->line()) + " position " +
                            std::to_string(pf->position()) + ", buffer eof " + std::to_string(pb->eof()) + " line " +
                            std::to_string(pb->line()) + " position " + std::to_string(pb->position()));
                break;
            }
            if (pf->eof() && past++ >= 2) break;
            if (rows > t.size() + 5) { x.violation(where() + ": no end of input"); break; }
            ++x.transitions;
            row rf = pf->next(sg), rb = pb->next(sg);
            if (!(rf == rb) || strip(rf.msg, f.path) != strip(rb.msg, b.name())) {
                x.violation(where() + " get_next<" + sigs()[sg] + ">: file " + show(rf) + ", buffer " + show(rb));
                break;
            }
            if (t.size() < 200) trace += show(rf);
            ++rows;
            sg = (sg + 1) % 3;
        }
        if (chunks.size() > 1 || t.size() > 100) ++x.nontrivial;
        x.outcome(trace);
        x.sample([&] { return where() + " " + trace; });
        pf.reset();
        if (cookie && vk::g_env.opened != vk::g_env.closed) x.violation(where() + ": file not closed");
        vk::g_env.on = false;
    }
};

template <typename L>
void run(vk::ctx& x) {
    explorer e{x, entry<L>(), e.e.c, "", false};
    const model::cfg& c = e.c;
    bool th = x.thorough;
    string a = "a,\n\r";
    if (c.quote) a += c.quote;
    a += c.esc;
    size_t len = th ? 6 : a.size() > 5 ? 4 : 5;
    x.bound("fragmented_texts_max_length_alphabet_" + std::to_string(a.size()), len);
    vk::words(a, 0, len, [&](const string& t) {
        size_t n = t.size();
        // every composition of the length
        for (unsigned m = 0; m < (n ? 1u << (n - 1) : 1u); ++m) {
            vector<size_t> ch;
            size_t cur = 1;
            for (size_t i = 1; i < n; ++i) {
                if (m >> (i - 1) & 1) { ch.push_back(cur); cur = 1; } else ++cur;
            }
            if (n) ch.push_back(cur);
            e.check(t, m % 2 ? STR : THR, int(n % 3), ch, true);
        }
        e.check(t, STR, 0, {}, false);
        e.check(t, THR, 1, {}, false);
    });
    size_t len2 = th ? 8 : a.size() > 5 ? 5 : 6;
    vk::words(a, len + 1, len2, [&](const string& t) { e.check(t, STR, 0, {0}, true); e.check(t, THR, 1, {1, 2, 1}, true); });
    x.bound("unfragmented_texts_max_length", len2);
    // every byte in every place, null bytes (getline keeps them)
    for (int k = 0; k < 256; ++k) {
        string s(1, char(k));
        for (auto& t : vector<string>{s, s + "\n", "\n" + s, s + s, "a\n" + s, "a" + s + "\n" + s + "b\n", "a," + s + "\r\n" + s + "\r\n", s + "\n" + s + "\n", "a\n" + s + "\n" + s + s, "\"" + s + "\n" + s + "\"\n" + s, "a\\" + s + "\n" + s + "\\\n" + s}) {
            e.check(t, STR, 0, {}, true);
            e.check(t, THR, 1, {1, 1, 2}, true);
            e.check(t, STR, 1, {}, false);
        }
    }
    for (auto bom : {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x1a", "\f\v"})
        for (auto t : {"a,b\n1,2\n", "", "\n", "a", "\"a\n\"\nb"}) { e.check(string(bom) + t, STR, 1, {}, true); e.check(string(t) + bom, STR, 0, {}, true); e.check(string(t) + "\n" + bom + "\n", STR, 0, {}, false); }
    {
        string b("a\n\0", 3);
        if (c.quote) b += c.quote;
        b += c.esc;
        if (b.size() < 4) b += ",\r";
        vk::words(b, 1, th ? 7 : 5, [&](const string& t) {
            if (t.find('\0') == string::npos) return;
            e.check(t, STR, int(t.size() % 3), {}, true);
            if (t.size() < 5) e.check(t, THR, 0, {1, 2, 1}, true);
        });
    }
    for (size_t n = 0; n < (th ? 600 : 280); ++n)
        for (size_t m : {0, 1, 126, 127, 128}) {
            string z(1, '\0'), t = string(n, 'a') + z + string(m, 'b') + "\nc" + string(m, '\0') + "\n" + z;
            e.check(t, STR, 0, {}, true);
            if (n % 16 < 2) e.check(t + z + "\n" + z, THR, 0, {n + 1, 1}, true);
        }
    // line lengths across the growth of every buffer
    vector<size_t> ls;
    for (size_t l = 0; l <= (th ? 2100u : 530u); ++l) ls.push_back(l);
    for (size_t b : {1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072})
        for (size_t d = 0; d <= 8; ++d) ls.push_back(b - 4 + d);
    vector<string> ends{"\n", "\r\n", ""};
    for (size_t l : ls)
        for (auto& e1 : ends) {
            string body(l, 'x');
            if (l > 2) body[l / 2] = ',';
            e.check(body + e1, STR, l > 2 ? 1 : 0, {}, true);
            e.check("h,i\n" + body + e1, THR, 1, {}, false);
            e.check("h,i\n" + body + e1, THR, 1, {1, 127, 1, 128, 3, 4095, 1}, true);
            if (c.ml && c.quote) e.check("\"" + body + "\n" + body + "\"" + e1 + "z,y\n", STR, 1, {}, true);
        }
    vector<size_t> ps{0, 1, 63, 64, 118, 122, 123, 124, 125, 126, 127, 128, 129, 130, 190, 253, 254, 255, 256, 257, 258, 511, 512, 513};
    for (size_t l1 : ps)
        for (size_t l2 : ps)
            for (auto& e1 : ends)
                for (auto& e2 : ends) {
                    if (e1.empty()) continue;
                    string t = string(l1, 'p') + e1 + string(l2, 'q') + e1 + string(l1, 'r') + e2;
                    e.check(t, (l1 + l2) % 2 ? STR : THR, 0, {0}, true);
                    if (c.quote) e.check("\"" + string(l1, 'p') + e1 + string(l2, '"') + e1 + string(l1, 'r') + "\"" + e2, STR, 0, {l1 + 1, 1, l2}, true);
                    if (!c.esc.empty()) e.check(string(l1, 'p') + "\\" + e1 + string(l2, '\\') + e1 + string(l1, 'r') + e2, THR, 0, {l1 + 1, 1, l2}, true);
                }
    x.bound("line_length_max", 131076);
}

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
void explore(vk::ctx& x) {
#if PART == 0
    run<opts<>>(x);
#elif PART == 1
    run<opts<Q, ss::multiline>>(x);
#elif PART == 2
    run<opts<Q, E, ss::multiline_restricted<1>>>(x);
#elif PART == 3
    run<opts<E, ss::multiline>>(x);
#elif PART == 4
    run<opts<ss::ignore_empty>>(x);
#elif PART == 5
    run<opts<ss::ignore_empty, ss::ignore_header, Q, E, ss::multiline>>(x);
#endif
}
