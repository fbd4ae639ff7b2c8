// C22: all histories of calls on one converter (or splitter) up to a depth; the
// last call is compared with the same call on a new object.
#include "common.hpp"
#include "iparser.hpp"
using std::string;
using std::vector;

enum { CONVERT, SPLIT, CACHED, ELEMS, COPY, MOVE };
struct op { int kind; int line, delim, sig; };
struct answer {
    bool ok = true, threw = false;
    vector<string> vals;
    string msg;
    bool operator==(const answer& o) const { return ok == o.ok && threw == o.threw && vals == o.vals && msg == o.msg; }
};
static string show(const answer& a) { return a.ok ? vk::show(a.vals) : "error(" + a.msg + ") " + vk::show(a.vals); }

struct thing {
    string a;
    int b = 0;
    thing() = default;
    thing(string x, int y) : a(std::move(x)), b(y) {}
};
struct tied_thing {
    string a;
    int b = 0;
    auto tied() { return std::tie(a, b); }
};
inline void emit(vector<string>& v, const thing& t) { v.push_back(t.a); v.push_back(std::to_string(t.b)); }
inline void emit(vector<string>& v, const tied_thing& t) { v.push_back(t.a); v.push_back(std::to_string(t.b)); }

// a conversion which adds to its value, and gives up in the middle
struct items { vector<char> v; };
inline void emit(vector<string>& v, const items& t) { v.push_back("items " + string(t.v.begin(), t.v.end())); }
namespace ss {
template <>
inline bool extract(const char* begin, const char* end, items& value) {
    for (; begin != end; ++begin) {
        value.v.push_back(*begin);
        if (*begin >= '0' && *begin <= '9') return false;
    }
    return true;
}
} // namespace ss

static const char* sig_names[] = {"string", "string,string", "int", "string,int", "optional<int>,void,string", "object thing<string,int>", "tied_thing", "tuple<string,string,string>", "string,gt<int,1>", "optional<items>,variant<items,string>", "items"};
constexpr int NSIGS = 11;
struct from_line { char* p; const string& d; };
struct from_elems { const ss::split_data& e; };
struct from_cache {};

template <typename C, typename S>
void convert_as(C& c, int sig, S s, vector<string>& out) {
    auto go = [&](auto&&... args) {
        switch (sig) {
        case 0: emit(out, c.template convert<string>(args...)); break;
        case 1: emit(out, c.template convert<string, string>(args...)); break;
        case 2: emit(out, c.template convert<int>(args...)); break;
        case 3: emit(out, c.template convert<string, int>(args...)); break;
        case 4: emit(out, c.template convert<std::optional<int>, void, string>(args...)); break;
        case 5: emit(out, c.template convert_object<thing, string, int>(args...)); break;
        case 6: emit(out, c.template convert<tied_thing>(args...)); break;
        case 7: emit(out, c.template convert<std::tuple<string, string, string>>(args...)); break;
        case 9: emit(out, c.template convert<std::optional<items>, std::variant<items, string>>(args...)); break;
        case 10: emit(out, c.template convert<items>(args...)); break;
        case 8: emit(out, c.template convert<string, ss::gt<int, 1>>(args...)); break;
        }
    };
    if constexpr (std::is_same_v<S, from_line>) go(s.p, s.d);
    else if constexpr (std::is_same_v<S, from_elems>) go(s.e);
    else go();
}

template <typename L, int M>
struct explorer {
    using O = with_mode<L, M>;
    using C = typename O::template apply<ss::converter>;
    static constexpr bool constant = O::template apply<ss::setup>::quote::enabled == false && O::template apply<ss::setup>::escape::enabled == false;
    vk::ctx& x;
    vector<string> lines, delims;
    vector<op> ops;
    std::vector<vector<std::unique_ptr<answer>>> memo;

    struct object {
        std::unique_ptr<C> c{new C};
        std::vector<std::unique_ptr<string>> keep;
        int line = -1, delim = -1;      // of the last split
        bool split_threw = false;
        ss::split_data saved;           // the columns of the split before
        int saved_line = -1, saved_delim = -1;
        vector<string> saved_text;
        bool other_line = false;        // split since
        int splits = 0, saved_split = 0;
        bool reuse = false;             // all lines in the same memory
        char memory[256] = {};
    };
    template <typename F> answer guarded(object& o, F&& f) {
        answer a;
        if constexpr (M == THR) {
            try { f(a); } catch (const ss::exception& e) { a.ok = false; a.threw = true; a.vals.clear(); a.msg = e.what(); }
        } else {
            f(a);
            a.ok = o.c->valid();
            if constexpr (M == STR) a.msg = o.c->error_msg();
        }
        return a;
    }
    char* fresh(object& o, int line) {
        if (o.reuse) {
            auto& l = lines[size_t(line)];
            memcpy(o.memory, l.c_str(), l.size() + 1);
            if (line != o.saved_line) o.other_line = true;
            return o.memory;
        }
        o.keep.push_back(std::make_unique<string>(lines[size_t(line)]));
        return o.keep.back()->data();
    }
    bool possible(const object& o, const op& p) const {
        if (p.kind == CACHED) return o.line >= 0 && !(M == THR && o.split_threw);
        if (p.kind == ELEMS) {
            if (o.saved_line < 0) return false;
            // the columns of a failed split are only known to be bad until the next split
            bool same = o.saved_split == o.splits;
            if (o.reuse && !same) {
                // columns of another line, or of a line modified since, have been overwritten
                if (o.other_line) return false;
                for (size_t i = 0; i < o.saved.size(); ++i) if (string(o.saved[i].first, o.saved[i].second) != o.saved_text[i]) return false;
            }
            model::cfg c = cfg_of(L{});
            c.delim = delims[size_t(o.saved_delim)];
            auto& l = lines[size_t(o.saved_line)];
            return same || l.empty() || model::split_line(c, l).e == model::err::ok;
        }
        return true;
    }
    answer act(object& o, const op& p) {
        switch (p.kind) {
        case CONVERT: {
            o.line = p.line; o.delim = p.delim; o.split_threw = false; ++o.splits;
            answer a = guarded(o, [&](answer& r) { convert_as(*o.c, p.sig, from_line{fresh(o, p.line), delims[size_t(p.delim)]}, r.vals); });
            if (a.threw) { // by the split or by the conversion
                answer s = reference(op{SPLIT, p.line, p.delim, 0});
                o.split_threw = s.threw;
            }
            return a;
        }
        case SPLIT: {
            o.line = p.line; o.delim = p.delim; o.split_threw = false; ++o.splits;
            // the validity of a split shows when it is converted
            answer a;
            auto f = [&] {
                auto s = o.c->split(fresh(o, p.line), delims[size_t(p.delim)]);
                o.saved = s; o.saved_split = o.splits; o.other_line = false;
                o.saved_text.clear();
                if (o.reuse) for (auto& [b, e] : s) o.saved_text.emplace_back(b, e);
                o.saved_line = p.line; o.saved_delim = p.delim;
                if (!s.empty() && lines[size_t(p.line)].find_first_of("\"\\") == string::npos)
                    for (auto& [b, e] : s) a.vals.emplace_back(b, e);
            };
            if constexpr (M == THR) {
                try { f(); } catch (const ss::exception& e) { a.ok = false; a.threw = true; a.msg = e.what(); o.split_threw = true; }
            } else f();
            return a;
        }
        case CACHED: return guarded(o, [&](answer& r) { convert_as(*o.c, p.sig, from_cache{}, r.vals); });
        case ELEMS: return guarded(o, [&](answer& r) { convert_as(*o.c, p.sig, from_elems{o.saved}, r.vals); });
        case COPY: o.c.reset(new C(static_cast<const C&>(*o.c))); return {};
        case MOVE: { std::unique_ptr<C> n(new C(std::move(*o.c))); *o.c = std::move(*n); return {}; }
        }
        return {};
    }
    // the same call on a new object
    const answer& reference(const op& p) {
        size_t i = (size_t(p.line) * delims.size() + size_t(p.delim)) * 2 + (p.kind == SPLIT);
        if (memo.size() <= i) memo.resize(i + 1);
        auto& m = memo[i];
        if (m.size() <= size_t(p.sig)) m.resize(size_t(p.sig) + 1);
        auto& r = m[size_t(p.sig)];
        if (!r) { object o; r = std::make_unique<answer>(act(o, op{p.kind == SPLIT ? SPLIT : CONVERT, p.line, p.delim, p.sig})); }
        return *r;
    }
    string show_op(const op& p) {
        switch (p.kind) {
        case CONVERT: return string("convert<") + sig_names[p.sig] + ">(" + vk::show(lines[size_t(p.line)]) + "," + vk::show(delims[size_t(p.delim)]) + ")";
        case SPLIT: return "s=split(" + vk::show(lines[size_t(p.line)]) + "," + vk::show(delims[size_t(p.delim)]) + ")";
        case CACHED: return string("convert<") + sig_names[p.sig] + ">()";
        case ELEMS: return string("convert<") + sig_names[p.sig] + ">(s)";
        case COPY: return "copied";
        }
        return "moved";
    }
    void check(const vector<int>& ix, bool reuse = false) {
        if (!x.take()) return;
        object o;
        o.reuse = reuse;
        const op& last = ops[size_t(ix.back())];
        for (size_t i = 0; i + 1 < ix.size(); ++i) {
            if (!possible(o, ops[size_t(ix[i])])) return;
            act(o, ops[size_t(ix[i])]);
        }
        if (!possible(o, last)) return;
        ++x.evals;
        x.transitions += ix.size();
        x.states += ix.size();
        op same = last;
        if (last.kind == CACHED) { same.line = o.line; same.delim = o.delim; }
        if (last.kind == ELEMS) { same.line = o.saved_line; same.delim = o.saved_delim; }
        answer got = act(o, last);
        if (last.kind >= COPY) { if (!(got == answer{})) x.violation("copy"); return; }
        const answer& want = reference(same);
        auto where = [&] { string s = show(cfg_of(L{})) + " " + mode_name(M) + (reuse ? " in the same memory:" : ":"); for (int i : ix) s += " " + show_op(ops[size_t(i)]); return s; };
        // columns handed over do not tell why their split failed
        bool same_text = got == want;
        if (last.kind == ELEMS && !got.ok && !want.ok) same_text = true;
        if (!same_text && last.kind == ELEMS && o.saved.empty() && !got.ok && x.known("empty-columns")) same_text = true;
        if (!same_text) return x.violation(where() + " gives " + show(got) + ", on a new object " + show(want));
        if (constant)
            for (auto& k : o.keep) {
                bool found = false;
                for (auto& l : lines) found |= l == *k;
                // (lines in the same memory are compared below)
                if (!found) return x.violation(where() + " modified the line: " + vk::show(*k));
            }
        if (constant && reuse && o.line >= 0 && o.memory != lines[size_t(o.line)]) return x.violation(where() + " modified the line: " + vk::show(o.memory));
        if (want.ok) ++x.nontrivial;
        x.outcome(show(want));
        x.sample([&] { return where() + " -> " + show(want); });
    }
};

template <typename L, int M>
void run_mode(vk::ctx& x) {
    explorer<L, M> e{x, {}, {}, {}, {}};
    auto c = cfg_of(L{});
    e.lines = {"a,b", "1", "", "x,12", "3,,z", "a;b;c", string(140, 'k') + ",5"};
    if (c.quote) { for (auto s : {"\"q,r\",8", "\"open", "a,\"b", "\"a\"b,c", "\"d\"\"d\",\"\""}) e.lines.push_back(s); }
    if (!c.esc.empty()) { for (auto s : {"e\\,f,4", "g,h\\"}) e.lines.push_back(s); }
    if (!c.tl.empty() || !c.tr.empty()) e.lines.push_back(" t , 9 ");
    e.delims = {",", ";", "", ",,", ",\""};
    for (int l = 0; l < int(e.lines.size()); ++l) {
        for (int s = 0; s < NSIGS; ++s) if (s < 4 || (l + s) % 3 == 0) e.ops.push_back({CONVERT, l, 0, s});
        e.ops.push_back({SPLIT, l, 0, 0});
    }
    for (int d = 1; d < 4; ++d) { e.ops.push_back({CONVERT, 0, d, 1}); e.ops.push_back({CONVERT, 5, d, 0}); e.ops.push_back({CONVERT, 5, d, 7}); e.ops.push_back({SPLIT, 4, d, 0}); e.ops.push_back({SPLIT, 5, d, 0}); }
    for (int s = 0; s < NSIGS; ++s) { e.ops.push_back({CACHED, 0, 0, s}); e.ops.push_back({ELEMS, 0, 0, s}); }
    e.ops.push_back({COPY, 0, 0, 0});
    e.ops.push_back({MOVE, 0, 0, 0});
    x.bound("calls_alphabet", e.ops.size());
    {
        // lines of equal lengths, one after another in the same memory
        vector<string> few{"a,b", "c;d", "7,8", "123", ",,,", "", "4", "x,12", "3,,z"};
        if (c.quote) for (auto s : {"\"q\"", "\"q,", "\"\",", "q\"q"}) few.push_back(s);
        if (!c.esc.empty()) for (auto s : {"\\,2", "5,\\", "\\\\,"}) few.push_back(s);
        few.swap(e.lines);
        vector<op> ops;
        ops.swap(e.ops);
        for (int l = 0; l < int(e.lines.size()); ++l) {
            for (int s : {0, 1, 2, 3}) e.ops.push_back({CONVERT, l, 0, s});
            e.ops.push_back({SPLIT, l, 0, 0});
            if (l < 4) e.ops.push_back({CONVERT, l, 1, 1});
            if (l < 4) e.ops.push_back({SPLIT, l, 1, 1});
        }
        if (c.quote) {
            // a line which is malformed with one delimiter and not with another
            for (auto s : {"a,\"b", "a,\"b\"c"}) {
                int l = int(e.lines.size());
                e.lines.push_back(s);
                for (int d : {0, 4}) { e.ops.push_back({SPLIT, l, d, 0}); e.ops.push_back({CONVERT, l, d, 1}); }
            }
        }
        for (int s : {0, 1, 2, 3}) { e.ops.push_back({CACHED, 0, 0, s}); e.ops.push_back({ELEMS, 0, 0, s}); }
        x.bound("calls_in_the_same_memory", e.ops.size());
        for (size_t d = 1; d <= 3; ++d)
            vk::seqs_n(e.ops.size(), d, [&](const vector<int>& ix) {
                if (d == 3 && !x.thorough && (ix[0] + ix[1] + ix[2]) % 2 && !(e.ops[size_t(ix[0])].kind == SPLIT && e.ops[size_t(ix[2])].kind == ELEMS)) return;
                e.check(ix, true);
            });
        few.swap(e.lines);
        ops.swap(e.ops);
        e.memo.clear();
    }
    size_t depth = 3;
    x.bound("depth", x.thorough ? 4 : depth);
    for (size_t d = 1; d <= depth; ++d)
        vk::seqs_n(e.ops.size(), d, [&](const vector<int>& ix) { e.check(ix); });
    if (x.thorough) { // deeper over fewer calls
        vector<op> all;
        all.swap(e.ops);
        for (size_t i = 0; i < all.size(); ++i) if (all[i].kind >= SPLIT || all[i].sig == 1 || all[i].sig == 0) e.ops.push_back(all[i]);
        vk::seqs_n(e.ops.size(), 4, [&](const vector<int>& ix) { e.check(ix); });
    }
}
template <typename L>
void run(vk::ctx& x) { run_mode<L, BOOL>(x); run_mode<L, STR>(x); run_mode<L, THR>(x); }

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
void explore(vk::ctx& x) {
#if PART == 0
    run<opts<>>(x);
#elif PART == 1
    run<opts<Q>>(x);
#elif PART == 2
    run<opts<E>>(x);
#elif PART == 3
    run<opts<Q, E>>(x);
#elif PART == 4
    run<opts<Q, ss::multiline>>(x);
#elif PART == 5
    run<opts<ss::trim<' '>>>(x);
#elif PART == 6
    run<opts<Q, E, ss::trim<' '>, ss::multiline_restricted<1>>>(x);
#elif PART == 7
    run<opts<E, ss::multiline, ss::ignore_empty>>(x);
#endif
}
