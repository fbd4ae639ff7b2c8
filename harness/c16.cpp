// C16: parsers moved between slots at any point, against parsers which are never
// moved; allocations and files are accounted for.
#define SIGS sig_list<sig<'s'>, sig<'s', 's'>, sig<'i', 's'>>
#define VK_CHAIN 1
#include "common.hpp"
#include "iparser.hpp"
#ifndef VK_SANITIZED
#include "alloc.hpp"
#endif
using std::string;
using std::vector;
static vk::guard_page guards[2];

enum { READ1, READ2, READ3, IGNORE, USE, HEADER, CHAIN, NREAD };
static const char* names[] = {"get_next<s>", "get_next<ss>", "get_next<is>", "ignore_next", "use_fields(b,a)", "header/field_exists", "try_next<i>.or_else<ss>"};
struct op { bool move; int kind, from, to; }; // move: kind 0 construct, 1 assign (to itself too), 2 destroy
static string show_op(const op& o) {
    string s(1, char('A' + o.from)), d(1, char('A' + o.to));
    if (!o.move) return s + "." + names[o.kind];
    return o.kind == 0 ? d + "(move(" + s + "))" : o.kind == 1 ? d + "=move(" + s + ")" : "~" + s;
}

struct explorer {
    vk::ctx& x;
    const char* delims[2] = {",", ","};
    setup_entry e;

    static string act(iparser& p, int kind, int chain_moves) {
        switch (kind) {
        case READ1: case READ2: case READ3: { row r = p.next(kind); return show(r); }
        case IGNORE: return p.ignore_next() ? "true" : "false";
        case USE: return show(p.use_fields({"b", "a"}));
        case HEADER: return show(p.header()) + show(p.field_exists("a"));
        case CHAIN: return vk::show(p.chain(chain_moves));
        }
        return "";
    }
    static string state(const iparser& p) {
        return string(p.eof() ? "eof " : "") + (p.valid() ? "" : "invalid ") + std::to_string(p.line()) + " " + std::to_string(p.position()) + " " + p.error_msg();
    }
    // returns a description of the difference
    string play(const vector<source>& src, const vector<op>& seq, int mode, int chain_moves, string& trace, size_t& steps) {
        // weak: has been assigned to itself; what is left to read must be the same, not messages and header
        struct slot { std::unique_ptr<iparser> p; int id = -1; bool weak = false; };
        slot s[3];
        std::unique_ptr<iparser> shadow[2];
        for (int i = 0; i < 2; ++i) {
            s[i].p = e.make[mode](src[i], delims[i]);
            s[i].id = i;
            shadow[i] = e.make[mode](src[i], delims[i]);
        }
        string done;
        auto compare_weak = [&](int i, int kind) -> string {
            if (kind == USE || kind == HEADER) return "";
            iparser &a = *s[i].p, &b = *shadow[s[i].id];
            ++steps;
            if (kind <= READ3) {
                row r = a.next(kind), w = b.next(kind);
                if (r.ok != w.ok || r.vals != w.vals) return done + ": got " + show(r) + ", without moves " + show(w);
            } else {
                string r = act(a, kind, chain_moves), w = act(b, kind, 0);
                if (r != w) return done + ": got " + r + ", without moves " + w;
            }
            if (a.eof() != b.eof() || a.line() != b.line() || a.position() != b.position()) return done + ": eof, line or position are different without moves";
            return "";
        };
        auto compare = [&](int i, int kind) -> string {
            if (s[i].weak) return compare_weak(i, kind);
            string a = act(*s[i].p, kind, chain_moves), b = act(*shadow[s[i].id], kind, 0);
            ++steps;
            if (a != b) return done + ": got " + a + ", without moves " + b;
            a = state(*s[i].p);
            b = state(*shadow[s[i].id]);
            if (a != b) return done + ": state " + a + ", without moves " + b;
            trace += a;
            return "";
        };
        for (auto& o : seq) {
            done += " " + show_op(o);
            if (o.move) {
                if (o.kind == 2) { s[o.from].p.reset(); s[o.from].id = -1; continue; }
                if (!s[o.from].p || s[o.from].id < 0) continue;
                if (o.kind == 0) {
                    auto n = s[o.from].p->move_out();
                    s[o.to].p = std::move(n);
                } else {
                    if (!s[o.to].p) continue;
                    s[o.to].p->assign_from(*s[o.from].p);
                    if (o.to == o.from) s[o.to].weak = true;
                }
                if (o.to != o.from) {
                    s[o.to].id = s[o.from].id;
                    s[o.to].weak = s[o.from].weak;
                    s[o.from].id = -1;
                    s[o.from].weak = false;
                }
                if (s[o.to].weak) {
                    const iparser &a = *s[o.to].p, &b = *shadow[s[o.to].id];
                    if (a.eof() != b.eof() || a.line() != b.line() || a.position() != b.position()) return done + ": eof, line or position are different without moves";
                    continue;
                }
                string a = state(*s[o.to].p), b = state(*shadow[s[o.to].id]);
                if (a != b) return done + ": state " + a + ", without moves " + b;
                if (s[o.to].p->raw_header().vals != shadow[s[o.to].id]->raw_header().vals) return done + ": raw_header " + vk::show(s[o.to].p->raw_header().vals);
                continue;
            }
            if (!s[o.from].p || s[o.from].id < 0) continue;
            string r = compare(o.from, o.kind);
            if (!r.empty()) return r;
        }
        for (int i = 0; i < 3; ++i)
            for (int k = 0; s[i].p && s[i].id >= 0 && k < 12; ++k) {
                bool eof = shadow[s[i].id]->eof();
                string r = compare(i, k % 3);
                if (!r.empty()) return "rest of " + string(1, char('A' + i)) + " after" + r;
                if (eof) break;
            }
        return "";
    }
    void check(const string& t0, const string& t1, const vector<op>& seq, int mode, int files, int chain_moves) {
        if (!x.take()) return;
        ++x.evals;
        vector<source> src(2);
        const string* t[2] = {&t0, &t1};
        for (int i = 0; i < 2; ++i) {
            if (files >> i & 1) {
                src[i].file = true;
                src[i].path = x.scratch + "/f" + std::to_string(i);
                static string written[2];
                static bool have[2];
                if (!have[i] || written[i] != *t[i]) { vk::write_file(src[i].path, *t[i]); written[i] = *t[i]; have[i] = true; }
            } else {
                src[i].buf = guards[i].put(*t[i]);
                src[i].size = t[i]->size();
            }
        }
        for (int i = 0; i < 2; ++i) delims[i] = t[i]->find(';') != string::npos ? ";" : ",";
        string bad;
        static string trace;
        size_t steps = 0;
        trace.clear();
        trace.reserve(10000);
#ifndef VK_SANITIZED
        vk::g_alloc.live = 0;
        vk::g_alloc.on = true;
#endif
        { string b = play(src, seq, mode, chain_moves, trace, steps);
#ifndef VK_SANITIZED
          vk::g_alloc.on = false;
#endif
          bad = b;
          if (!b.empty()) { string().swap(b); }
#ifndef VK_SANITIZED
          if (!bad.empty()) vk::g_alloc.live = 0;
#endif
        }
        x.transitions += steps + seq.size();
        x.states += steps + 1;
        size_t moves = 0;
        for (auto& o : seq) moves += o.move;
        if (moves && steps > 2) ++x.nontrivial;
        auto where = [&] { string s = show(e.c) + " " + mode_name(mode) + " A " + vk::show(t0) + " B " + vk::show(t1) + (files ? " files " + std::to_string(files) : ""); return s; };
        if (!bad.empty()) return x.violation(where() + " after" + bad);
#ifndef VK_SANITIZED
        if (vk::g_alloc.live != 0) {
            string d;
            for (auto& o : seq) d += " " + show_op(o);
            return x.violation(where() + " after" + d + ": " + std::to_string(vk::g_alloc.live) + " allocations not released");
        }
#endif
        x.outcome(trace);
        x.sample([&] { string d; for (auto& o : seq) d += " " + show_op(o); return where() + d; });
    }
};

template <typename L>
void run(vk::ctx& x) {
    explorer e{x, {",", ","}, entry<L>()};
    bool th = x.thorough;
    vector<op> ops;
    for (int s = 0; s < 2; ++s) for (int k = 0; k < NREAD; ++k) { if (s == 1 && (k == READ1 || k == READ3 || k == HEADER)) continue; ops.push_back({false, k, s, s}); }
    ops.push_back({false, READ2, 2, 2});
    ops.push_back({false, USE, 2, 2});
    for (int f = 0; f < 3; ++f) for (int t = 0; t < 3; ++t) if (f != t) { ops.push_back({true, 1, f, t}); if (t == 2 || f == 2) ops.push_back({true, 0, f, t}); }
    ops.push_back({true, 2, 0, 0});
    ops.push_back({true, 1, 0, 0});
    x.bound("operations", ops.size());
    bool q = e.e.c.quote && e.e.c.ml;
    vector<std::pair<string, string>> texts{{"a,b\n1,2\nx,y\n\n3,4\n5,6", "b,a\n7,8\nz\n9,w\n"}, {q ? "a,b\n\"m\nn\",2\n\"q\n1,2\n" : "a,b\n1\n2,3,4\n5,x\n", ""}};
    // line ends, delimiters
    if (q) texts.push_back({"\"1\r\n2\r\n3\",b\r\n\"m\r\n\r\nn\",2\r\n3,4\r\n\"q\r\n\"", "\"m\nn\";c\n\"o\n\np\";2\n1;2"});
    else texts.push_back({"a,b\r\n1,2\r\n\r\n3,x", "c;a;d\n3;4;5\n;;\n1;2;3\n"});
    if (e.e.c.ignore_empty) texts.push_back({"\n\r\n\na,b\n1,2\n\n\n3,4\n", "\nb,a\n\n7,8\n"});
    if (th) texts.push_back({string(300, 'l') + ",b\n1," + string(200, 'r') + "\n3,4\n", "a,b\n"});
    size_t depth = th ? 5 : 4;
#ifdef VK_SANITIZED
    --depth;
#endif
    x.bound("depth", depth);
    for (size_t d = 0; d <= depth; ++d)
        vk::seqs_n(ops.size(), d, [&](const vector<int>& ix) {
            // the last operation has to matter, and there has to be a move
            bool mv = d < 2;
            size_t h = 0;
            for (int i : ix) { mv |= ops[i].move && ops[i].kind < 2; h = h * 7 + size_t(i); }
            if (!mv && std::find_if(ix.begin(), ix.end(), [&](int i) { return ops[i].kind == CHAIN && !ops[i].move; }) == ix.end()) return;
            vector<op> s;
            for (int i : ix) s.push_back(ops[i]);
            if (d < depth) {
                for (auto& [a, b] : texts)
                    for (int mode = 0; mode < 3; ++mode)
                        for (int files = 0; files < (d < 3 ? 4 : 1); ++files) e.check(a, b, s, mode, files, 1 + int(h % 2));
            } else {
                if (!th && h % 2) return;
                auto& [a, b] = texts[h / 2 % texts.size()];
                e.check(a, b, s, int(h / 2 / texts.size() % 3), int(h / 4 % 8) < 2 ? 1 + int(h % 3) : 0, 1 + int(h / 2 % 2));
            }
        });
    // moves after every number of rows, back and forth
    string big = "a,b\n";
    for (int i = 0; i < 40; ++i) big += i % 7 == 3 ? "x\n" : i % 5 == 1 && q ? "\"r\n" + string(size_t(i) * 9, 's') + "\",2\n" : std::to_string(i) + "," + string(size_t(i) * 11, 'v') + "\n";
    for (int n = 0; n < 46; ++n)
        for (int k = 0; k < NREAD; ++k)
            for (int how = 0; how < 5; ++how)
                for (int files = 0; files < 4; ++files) {
                    vector<op> s(size_t(n), op{false, READ2, 0, 0});
                    if (k != READ2) s.push_back({false, k, 0, 0});
                    if (how == 0) s.push_back({true, 0, 0, 2});
                    if (how == 1) { s.push_back({true, 0, 0, 2}); s.push_back({true, 1, 2, 0}); }
                    if (how == 2) { s.push_back({false, READ2, 1, 1}); s.push_back({true, 1, 0, 1}); s.push_back({false, k, 1, 1}); s.push_back({true, 1, 1, 0}); }
                    if (how == 3) { s.push_back({true, 0, 0, 2}); s.push_back({true, 1, 1, 0}); s.push_back({true, 1, 2, 1}); }
                    if (how == 4) s.push_back({true, 1, 0, 0});
                    s.push_back({false, CHAIN, 0, 0});
                    e.check(big, big + "77,88\n", s, k % 3, files, 1 + n % 2);
                }
}

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
void explore(vk::ctx& x) {
#if PART == 0
    run<opts<>>(x);
#elif PART == 1
    run<opts<Q, E, ss::multiline>>(x);
#elif PART == 2
    run<opts<ss::ignore_empty, Q, ss::multiline_restricted<1>>>(x);
#endif
}
