// C13: long chains. Every alternative must give what a plain read of the same row
// as that alternative gives: outcome, values and message.
#define SIGS sig_list<sig<'s'>>
#define MODES 3
#include "common.hpp"
#include "iparser.hpp"
using std::string;
using std::vector;
static vk::guard_page guard(1 << 16);

struct obj {
    string a;
    int b;
    string c;
    bool operator==(const obj& o) const { return a == o.a && b == o.b && c == o.c; }
    bool operator!=(const obj& o) const { return !(*this == o); }
};
inline void emit(vector<string>& v, const obj& o) { v.push_back(o.a); v.push_back(std::to_string(o.b)); v.push_back(o.c); }

struct note {
    bool answer = true;
    vector<string> seen;
};
struct callback {
    note& n;
    template <typename T, typename... Ts>
    bool operator()(const T& t, const Ts&... ts) const {
        vector<string> v;
        emit(v, t);
        (emit(v, ts), ...);
        n.seen.push_back(vk::show(v));
        return n.answer;
    }
};

constexpr int NALT = 7;
static const char* alt_names[NALT] = {"<int>", "<int,int>", "<int,int,int>", "<string,int,string>", "object<string,int,string>", "<string,void,int,string>", "<string,optional<int>,double,char,string>"};
#define ALT(I, METHOD, ...) if constexpr (A == I) return c.template METHOD<__VA_ARGS__>(callback{n});
#define ALTS(T, O) \
    ALT(0, T, int) ALT(1, T, int, int) ALT(2, T, int, int, int) ALT(3, T, string, int, string) ALT(4, O, obj, string, int, string) \
    ALT(5, T, string, void, int, string) ALT(6, T, string, std::optional<int>, double, char, string)
template <int A, typename P> auto first(P& c, note& n) { ALTS(try_next, try_object) }
template <int A, typename C> auto more(C& c, note& n) { ALTS(or_else, or_object) }
#define PLAIN(I, METHOD, ...) if constexpr (A == I) emit(r.vals, p.template METHOD<__VA_ARGS__>());
template <int A, typename P> row plain(P& p) {
    row r;
    PLAIN(0, get_next, int) PLAIN(1, get_next, int, int) PLAIN(2, get_next, int, int, int) PLAIN(3, get_next, string, int, string)
    PLAIN(4, get_object, obj, string, int, string) PLAIN(5, get_next, string, void, int, string) PLAIN(6, get_next, string, std::optional<int>, double, char, string)
    r.ok = p.valid();
    if (!r.ok) r.vals.clear();
    return r;
}

template <typename L, int M>
struct explorer {
    using P = typename with_mode<L, M>::template apply<ss::parser>;
    vk::ctx& x;
    model::cfg c = cfg_of(L{});
    // the text, and per alternative the rows of plain reads
    string text;
    vector<row> rows[NALT];

    template <int A> void record() {
        rows[A].clear();
        P p{guard.put(text), text.size(), c.delim};
        for (size_t k = 0, past = 0; k < text.size() + 4 && past < 2; ++k) {
            if (p.eof()) ++past;
            row r = plain<A>(p);
            if constexpr (M == STR) if (!r.ok) r.msg = p.error_msg();
            rows[A].push_back(r);
        }
    }
    template <int... A> void record_all(std::integer_sequence<int, A...>) { (record<A>(), ...); }

    struct state {
        P& p;
        size_t row, decisions;
        size_t step = 0;
        bool done = false;      // an alternative has succeeded
        string done_value;
        string message;         // of the last failure; empty: a failed check
        vector<string> values;
        string bad;
    };
    template <typename V> static void slots(vector<string>& v, const V& values) {
        std::apply([&](const auto&... o) { ((v.push_back(o ? [&] { vector<string> w; emit(w, *o); return vk::show(w); }() : string("-"))), ...); }, values);
    }
    template <typename C> void judge(C& ch, state& s, int alt, const note& n) {
        const row& want = rows[alt][s.row];
        string slot = "-";
        vector<string> calls;
        if (!s.done) {
            if (want.ok) {
                calls.push_back(vk::show(want.vals));
                if (n.answer) { s.done = true; slot = vk::show(want.vals); }
                else s.message.clear();
            } else s.message = want.msg;
        }
        s.values.push_back(slot);
        ++s.step;
        string at = " after " + std::to_string(s.step) + " alternatives, the last is " + alt_names[alt];
        if (n.seen != calls) { s.bad = at + ": callbacks " + vk::show(n.seen) + ", expected " + vk::show(calls); return; }
        vector<string> got;
        slots(got, ch.values());
        if (got != s.values) { s.bad = at + ": values " + vk::show(got) + ", expected " + vk::show(s.values); return; }
        if (s.p.valid() != s.done) { s.bad = at + (s.done ? ": not valid" : ": valid"); return; }
        size_t errors = 0;
        string m = "-";
        if constexpr (M == STR) ch.on_error([&](const string& e) { ++errors; m = e; });
        else ch.on_error([&] { ++errors; });
        if (errors != size_t(!s.done)) { s.bad = at + ": on_error is called " + std::to_string(errors) + " times"; return; }
        if constexpr (M == STR) {
            if (!s.done && (m != s.p.error_msg() || (s.message.empty() ? m.empty() : m != s.message))) { s.bad = at + ": message " + vk::show(m) + ", a plain read gives " + vk::show(s.message); return; }
            if (s.done && !s.p.error_msg().empty()) { s.bad = at + ": message after a success"; return; }
        }
    }
    template <int Rot, int Step, int N, int I, typename C> void go(C& ch, state& s) {
        if constexpr (I < N) {
            constexpr int A = (Rot + I * Step) % NALT;
            note n;
            n.answer = !(s.decisions >> I & 1);
            auto next = more<A>(ch, n);
            judge(next, s, A, n);
            if (s.bad.empty()) go<Rot, Step, N, I + 1>(next, s);
        }
    }
    template <int Rot, int Step> void chain() {
        constexpr int N = NALT;
        for (size_t d = 0; d < 1u << N; ++d) {
            if (!x.take()) continue;
            // a decision without effect is not repeated
            ++x.evals;
            size_t effect = 0;
            P p{guard.put(text), text.size(), c.delim};
            for (size_t k = 0; k < rows[0].size(); ++k) {
                state s{p, k, d};
                note n;
                n.answer = !(d & 1);
                bool eof = p.eof();
                auto ch = first<Rot % NALT>(p, n);
                judge(ch, s, Rot % NALT, n);
                if (s.bad.empty()) go<Rot, Step, N, 1>(ch, s);
                ++x.states;
                x.transitions += s.step;
                if (!s.bad.empty()) return x.violation(show(c) + " " + mode_name(M) + " " + vk::show(text) + " chain from " + alt_names[Rot] + " by " + std::to_string(Step) + " decisions " + std::to_string(d) + " row " + std::to_string(k) + s.bad);
                if (s.done && s.values[0] == "-") ++effect;
                x.outcome(vk::show(s.values));
                if (eof != (k + 2 >= rows[0].size())) return x.violation(show(c) + " " + vk::show(text) + ": " + std::to_string(k) + " rows with chains, " + std::to_string(rows[0].size() - 2) + " without");
            }
            if (effect) ++x.nontrivial;
            if (d == 0) x.sample([&] { return show(c) + vk::show(text) + " from " + alt_names[Rot]; });
        }
    }
    template <int... R> void chains(std::integer_sequence<int, R...>) { (chain<R, 1>(), ...); (chain<R, 3>(), ...); }
    void run() {
        vector<string> lines{"1", "x", "1,2", "x,2", "1,2,3", "a,2,b", "a,b,c", "", "a,2,3,d", "a,b,1.5,c,d", "a,2,.5,cc,d", ",,,,", "1,2,3,4,5"};
        if (c.quote) { lines.push_back("\"q"); lines.push_back("\"q\"z,1"); lines.push_back("\"a\"\"\n,\",\"2\",\"\"\"\""); }
        if (!c.esc.empty()) { lines.push_back("\\,,2,\\\\"); lines.push_back("e\\"); }
        size_t depth = x.thorough ? 3 : 2;
        x.bound("rows", depth);
        x.bound("alternatives", NALT);
        for (size_t n = 1; n <= depth; ++n)
            vk::seqs_n(lines.size(), n, [&](const vector<int>& ix) {
                text.clear();
                for (int i : ix) text += lines[i] + "\n";
                if (n == 1 && ix[0] % 2) text.pop_back();
                record_all(std::make_integer_sequence<int, NALT>{});
                chains(std::make_integer_sequence<int, NALT>{});
            });
    }
};

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
void explore(vk::ctx& x) {
#if PART == 0
    explorer<opts<>, STR>{x}.run();
#elif PART == 1
    explorer<opts<Q, E, ss::multiline_restricted<1>>, STR>{x}.run();
#elif PART == 2
    explorer<opts<Q, ss::multiline, ss::ignore_empty>, STR>{x}.run();
#elif PART == 3
    explorer<opts<Q, E, ss::multiline>, BOOL>{x}.run();
#endif
}
