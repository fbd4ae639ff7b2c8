// C18: distinct parsers and converters, interleaved call by call, one inside the
// callbacks of another, and on two threads switched at every basic block.
#include "common.hpp"
#include "iparser.hpp"
#include <algorithm>
#include <atomic>
#include <climits>
#include <memory>
#include <thread>
#include <variant>
#if defined(VK_SCHED)
#include <linux/futex.h>
#include <sys/syscall.h>
#endif
using std::string;
using std::vector;

static thread_local std::function<void()>* g_hook = nullptr; // called by conversions

struct hooked { string s; };
namespace ss {
template <> inline bool extract(const char* b, const char* e, hooked& v) {
    if (g_hook) (*g_hook)();
    v.s.assign(b, e);
    return v.s != "bad";
}
}
struct hook_valid {
    bool ss_valid(const string& s) const { if (g_hook) (*g_hook)(); return s != "no"; }
    const char* error() const { return "hook_valid"; }
};
template <typename T> struct checked {
    using type = T;
    bool ss_valid(const T&) const { if (g_hook) (*g_hook)(); return true; }
};
struct pair_obj {
    hooked a;
    int b;
    auto tied() { return std::tie(a, b); }
};
inline void emit(vector<string>& v, const hooked& h) { v.push_back(h.s); }
inline void emit(vector<string>& v, const pair_obj& h) { v.push_back(h.a.s); v.push_back(std::to_string(h.b)); }
namespace ss { inline void emit(vector<string>& v, const int8& h) { v.push_back(std::to_string(int(int8_t(h)))); } }

// something which is used call by call
struct actor {
    virtual ~actor() = default;
    virtual string step(size_t k) = 0;
};
template <typename T> string text_of(const T& t) {
    vector<string> v;
    emit(v, t);
    string r;
    for (auto& s : v) r += s + "|";
    return r;
}
template <typename P> string state_of(const P& p) {
    return string(p.valid() ? "ok " : "bad ") + (p.eof() ? "eof " : "") + std::to_string(p.line()) + "@" + std::to_string(p.position());
}
static string g_files[2];
static string data_of(int kind, int v) {
    string d(1, char('a' + v)), n(1, char('1' + v));
    string big(size_t(100 + 90 * v), char('g' + v));
    switch (kind) {
    case 0: return n + "0," + n + ".5," + d + "x\n" + n + "1,bad\n" + n + "2,-" + n + "e3,y" + d + "\n" + n + "3,0." + n + n + n + n + "7,\n" + n + "4,1," + d + "\n";
    case 1: return "\"q" + d + "\",\"m" + d + "\n" + big + "\"\n\"" + d + "\"x,y\ne\\" + d + "\\\n," + n + "\n\"o" + d + "\n";
    case 2: return "c" + d + ",b,a" + d + "\n1" + n + ",2,3" + n + "\n4" + n + ",5\n6" + n + ",7,8" + n + "\n9" + n + ",x,y\n";
    case 3: return "\"" + d + "\",1" + n + "\nx" + d + "\n\"" + d + "\"z,2\n" + d + ",3" + n + "\n";
    case 4: return n + "\n" + n + "," + d + "\n" + d + "\n" + d + "," + d + "," + n + "\n" + n + n + "\n";
    case 7: return "h" + d + "," + n + "\nbad,1\nk" + d + big + ",2" + n + "\nz" + d + ",x\nw" + d + ",3\n";
    case 8: return "r1" + d + "," + n + "\n" + big + "," + n + "\nshort\nr4" + d + "," + n + "\nr5" + d + ",6\n";
    default: return "head" + d + "\n\n" + d + big + ",x\n\n\"" + d + "\nq\",\"" + big + "\"\n\"1\n2\n3\",4\n" + d + ",5\n";
    }
}

template <typename P> struct on_data {
    string data;
    P p;
    on_data(int kind, int v, bool file) : data(data_of(kind, v)), p(file ? P(g_files[v] + std::to_string(kind)) : P(data.data(), data.size())) {}
};

struct a0 : actor {
    on_data<ss::parser<>> d;
    a0(int v) : d(0, v, false) {}
    string step(size_t) override { auto t = d.p.get_next<int, double, string>(); return text_of(t) + state_of(d.p); }
};
struct a1 : actor {
    on_data<ss::parser<ss::string_error, ss::quote<'"'>, ss::escape<'\\'>, ss::multiline>> d;
    a1(int v) : d(1, v, true) {}
    string step(size_t) override { auto t = d.p.get_next<string, string>(); return text_of(t) + state_of(d.p) + d.p.error_msg(); }
};
struct a2 : actor {
    on_data<ss::parser<ss::string_error>> d;
    int v;
    a2(int w) : d(2, w, false), v(w) {}
    string step(size_t k) override {
        string f(1, char('a' + v));
        if (k == 0) { d.p.use_fields("a" + f, "c" + f); return state_of(d.p) + d.p.error_msg(); }
        if (k == 2) return (d.p.field_exists("a" + f) ? "yes" : "no") + vk::show(d.p.header()) + d.p.raw_header() + state_of(d.p);
        auto t = d.p.get_next<int, string>();
        return text_of(t) + state_of(d.p) + d.p.error_msg();
    }
};
struct a3 : actor {
    on_data<ss::parser<ss::throw_on_error, ss::quote<'"'>>> d;
    a3(int v) : d(3, v, false) {}
    string step(size_t) override {
        try { auto t = d.p.get_next<ss::ne<string>, ss::lt<int, 14>>(); return text_of(t) + state_of(d.p); }
        catch (const ss::exception& e) { return string(e.what()) + state_of(d.p); }
    }
};
struct a4 : actor {
    on_data<ss::parser<>> d;
    a4(int v) : d(4, v, false) {}
    string step(size_t) override {
        string log;
        auto [a, b, c] = d.p.try_next<int>([&](int i) { if (g_hook) (*g_hook)(); log += "i" + std::to_string(i); return i < 20; })
                             .on_error([&] { if (g_hook) (*g_hook)(); log += "e"; })
                             .or_else<int, string>([&](int i, const string& s) { if (g_hook) (*g_hook)(); log += std::to_string(i) + s; })
                             .or_else<hooked>()
                             .values();
        return log + text_of(a) + text_of(b) + text_of(c) + state_of(d.p);
    }
};
struct a5 : actor {
    ss::converter<ss::quote<'"'>, ss::trim<' '>> c;
    string d;
    a5(int v) : d(1, char('a' + v)) {}
    string step(size_t k) override {
        string l = k % 3 == 0 ? " \"" + d + "\"\"" + d + "\" , x" + d : k % 3 == 1 ? d + ",\"" + d + "\"" + d : d + " ; " + d;
        if (k % 2) { auto t = c.convert<string, hooked>(l.data(), k % 3 == 2 ? ";" : ","); return text_of(t) + (c.valid() ? "ok" : "bad"); }
        string r;
        for (auto& [b, e] : c.split(l.data(), k % 3 == 2 ? " ;" : ",")) r += string(b, e) + "|";
        return r + text_of(c.convert<string, string>());
    }
};
struct a6 : actor {
    ss::converter<ss::string_error> c;
    string n;
    int v;
    a6(int w) : n(1, char('1' + w)), v(w) {}
    string step(size_t k) override {
        string l;
        switch (k % 5) {
        case 0: { l = n + ".25e-" + n + ",-inf," + n; auto t = c.convert<double, float, ss::int8>(l.c_str()); return text_of(t) + c.error_msg(); }
        case 1: { l = n + n + ",true," + n; auto t = c.convert<ss::gt<int, 15>, bool, char>(l.c_str()); return text_of(t) + c.error_msg(); }
        case 2: { l = n + ",x" + n; auto t = c.convert<ss::ax<int, 1, 3>, std::variant<int, string>>(l.c_str()); return text_of(t) + c.error_msg(); }
        case 3: { l = "y" + n + "," + string(70, n[0]) + ".5"; auto t = c.convert<std::optional<int>, double>(l.c_str()); return text_of(t) + c.error_msg(); }
        default: { l = "z" + n; auto t = c.convert<checked<string>, int>(l.c_str()); return text_of(t) + c.error_msg(); }
        }
    }
};
struct a7 : actor {
    on_data<ss::parser<ss::string_error>> d;
    a7(int v) : d(7, v, true) {}
    string step(size_t k) override {
        if (k == 3) return (d.p.ignore_next() ? "more" : "none") + state_of(d.p);
        string r;
        for (auto& o : d.p.iterate_object<pair_obj, checked<hooked>, int>()) { r = text_of(o); break; }
        return r + state_of(d.p) + d.p.error_msg();
    }
};
struct a8 : actor {
    using P = ss::parser<ss::string_error>;
    string data;
    std::unique_ptr<P> p;
    a8(int v) : data(data_of(8, v)), p(new P(data.data(), data.size())) {}
    string step(size_t k) override {
        if (k % 2) { P t(std::move(*p)); *p = std::move(t); }
        else { auto n = std::make_unique<P>(std::move(*p)); p = std::move(n); }
        auto t = p->get_next<string, int>();
        return text_of(t) + state_of(*p) + p->error_msg();
    }
};
struct a9 : actor {
    on_data<ss::parser<ss::ignore_empty, ss::ignore_header, ss::quote<'"'>, ss::multiline_restricted<1>>> d;
    a9(int v) : d(9, v, true) {}
    string step(size_t) override { auto t = d.p.get_next<string, hook_valid_string>(); return text_of(t) + state_of(d.p); }
    struct hook_valid_string { using type = string; bool ss_valid(const string& s) const { return hook_valid{}.ss_valid(s); } const char* error() const { return "e"; } };
};
constexpr int KINDS = 10;
static const char* kind_names[KINDS] = {"parser", "quote/escape/multiline file", "use_fields", "throw_on_error", "try_next chain", "converter quote", "converter values", "iterate_object file", "moved parser", "ignore_* file"};
static std::unique_ptr<actor> make_actor(int kind, int v) {
    switch (kind) {
    case 0: return std::make_unique<a0>(v);
    case 1: return std::make_unique<a1>(v);
    case 2: return std::make_unique<a2>(v);
    case 3: return std::make_unique<a3>(v);
    case 4: return std::make_unique<a4>(v);
    case 5: return std::make_unique<a5>(v);
    case 6: return std::make_unique<a6>(v);
    case 7: return std::make_unique<a7>(v);
    case 8: return std::make_unique<a8>(v);
    default: return std::make_unique<a9>(v);
    }
}
constexpr size_t STEPS = 6;
// results of an actor which is alone
static const vector<string>& alone(int kind, int v) {
    static vector<string> memo[KINDS][2];
    auto& m = memo[kind][v];
    if (m.empty()) {
        auto a = make_actor(kind, v);
        for (size_t k = 0; k < STEPS; ++k) m.push_back(a->step(k));
    }
    return m;
}
static void write_files(vk::ctx& x) {
    for (int v = 0; v < 2; ++v) {
        g_files[v] = x.scratch + "/f" + char('0' + v) + "_";
        for (int k = 0; k < KINDS; ++k)
            if (k != 5 && k != 6) vk::write_file(g_files[v] + std::to_string(k), data_of(k, v));
    }
}
static string name(int kind, int v) { return string("[") + kind_names[kind] + (v ? " 2]" : " 1]"); }

#ifdef VK_SCHED
////////////////
// two threads, switched at basic blocks
////////////////
struct sched {
    std::atomic<int> turn{-1}; // -1: nobody, 2: free
    std::atomic<uint64_t> progress{0};
    bool done[2] = {false, false};
    uint64_t count[2] = {0, 0};
    // switches: while thread w runs, away from it at its count-th block
    struct sw { int w; uint64_t at; };
    sw plan[4];
    int nplan = 0, next = 0;
    bool gave_up = false;
};
static sched S;
static thread_local int t_me = -1;
#define PLAIN __attribute__((no_sanitize_coverage, noinline))
PLAIN static void fwait(int val, int ms) {
    timespec ts{ms / 1000, (ms % 1000) * 1000000l};
    syscall(SYS_futex, reinterpret_cast<int*>(&S.turn), FUTEX_WAIT_PRIVATE, val, &ts, nullptr, 0);
}
PLAIN static void fwake() { syscall(SYS_futex, reinterpret_cast<int*>(&S.turn), FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0); }
PLAIN static void give(int to) { S.turn.store(to); fwake(); }
PLAIN static void wait_turn(int me) {
    for (int spin = 0; spin < 200; ++spin) {
        int t = S.turn.load();
        if (t == me || t == 2) return;
    }
    uint64_t last = S.progress.load();
    int idle = 0;
    while (true) {
        int t = S.turn.load();
        if (t == me || t == 2) return;
        fwait(t, 100);
        uint64_t p = S.progress.load();
        // the running thread waits for something (a lock) which this one holds
        if (S.turn.load() == t && t != -1 && p == last) { if (++idle >= 5) { S.gave_up = true; give(2); return; } }
        else idle = 0;
        last = p;
    }
}
extern "C" PLAIN void __sanitizer_cov_trace_pc() {
    int me = t_me;
    if (me < 0) return;
    t_me = -1;
    uint64_t c = ++S.count[me];
    S.progress.store(S.progress.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
    if (S.turn.load(std::memory_order_relaxed) != 2 && S.next < S.nplan && S.plan[S.next].w == me && S.plan[S.next].at == c && !S.done[1 - me]) {
        ++S.next;
        give(1 - me);
        wait_turn(me);
    }
    t_me = me;
}
struct job { int kind, v; size_t from, to; };
static job g_jobs[2];
static vector<string> g_res[2];
static std::atomic<int> g_round[2];
PLAIN static void work(int me) {
    vector<string>& out = g_res[me];
    job j = g_jobs[me];
    wait_turn(me);
    t_me = me;
    {
        auto a = make_actor(j.kind, j.v);
        for (size_t k = 0; k < j.to; ++k) out[k] = a->step(k);
    }
    t_me = -1;
    S.done[me] = true;
    if (S.turn.load() != 2) give(1 - me);
}
PLAIN static void worker(int me) {
    int r = 0;
    while (true) {
        while (g_round[me].load() == r) syscall(SYS_futex, reinterpret_cast<int*>(&g_round[me]), FUTEX_WAIT_PRIVATE, r, nullptr, nullptr, 0);
        r = g_round[me].load();
        if (r < 0) return;
        work(me);
    }
}
PLAIN static void kick(int me) {
    ++g_round[me];
    syscall(SYS_futex, reinterpret_cast<int*>(&g_round[me]), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
PLAIN static void execute(const job& a, const job& b, const vector<sched::sw>& plan) {
    static bool started = false;
    if (!started) { started = true; for (int i = 0; i < 2; ++i) std::thread(worker, i).detach(); }
    g_jobs[0] = a; g_jobs[1] = b;
    for (int i = 0; i < 2; ++i) { g_res[i].assign(STEPS, ""); S.done[i] = false; S.count[i] = 0; }
    S.nplan = 0;
    for (auto& p : plan) S.plan[S.nplan++] = p;
    S.next = 0;
    S.gave_up = false;
    S.turn.store(-1);
    kick(0);
    kick(1);
    give(0);
    // both are done once nobody has a turn left
    while (!(*(volatile bool*)&S.done[0] && *(volatile bool*)&S.done[1])) sched_yield();
    // wait until the threads are back in worker()
    std::atomic_thread_fence(std::memory_order_seq_cst);
}
static void threads(vk::ctx& x) {
    bool th = x.thorough;
    auto verify = [&](const job& a, const job& b, const vector<sched::sw>& plan) {
        execute(a, b, plan);
        ++x.evals;
        x.transitions += S.count[0] + S.count[1];
        ++x.states;
        if (S.next == int(plan.size()) && !plan.empty()) ++x.nontrivial;
        const job* j[2] = {&a, &b};
        for (int i = 0; i < 2; ++i)
            for (size_t k = 0; k < j[i]->to; ++k)
                if (g_res[i][k] != alone(j[i]->kind, j[i]->v)[k]) {
                    string s = "threads " + name(a.kind, a.v) + " and " + name(b.kind, b.v) + ", switched";
                    for (auto& p : plan) s += " away from " + std::to_string(p.w + 1) + " at block " + std::to_string(p.at);
                    x.violation(s + ": call " + std::to_string(k) + " of " + std::to_string(i + 1) + " gives " + vk::show(g_res[i][k]) + ", alone " + vk::show(alone(j[i]->kind, j[i]->v)[k]));
                    return false;
                }
        return true;
    };
    // every pair, one switch at every block of the first
    for (int a = 0; a < KINDS; ++a)
        for (int b = 0; b < KINDS; ++b) {
            job ja{a, 0, 0, STEPS}, jb{b, 1, 0, STEPS};
            // blocks of the first, when nothing is switched
            static uint64_t blocks[KINDS];
            for (int k : {a, b}) { (void)alone(k, 0); (void)alone(k, 1); }
            execute(ja, jb, {});
            execute(ja, jb, {});
            blocks[a] = S.count[0];
            uint64_t stride = th ? 1 : a == b ? 1 : 7;
            for (uint64_t s = 0; s < (blocks[a] + 63) / 64; ++s) {
                if (!x.take()) continue;
                for (uint64_t i = 0; i < 64; i += stride)
                    if (!verify(ja, jb, {{0, s * 64 + i + 1}})) return;
            }
            x.sample([&] { return name(a, 0) + " with " + name(b, 1) + ": " + std::to_string(blocks[a]) + " blocks"; });
        }
    x.bound("switches_pairs", 1);
    // two switches: the second thread is left in the middle as well
    for (int a = 0; a < KINDS; ++a) {
        job ja{a, 0, 0, th ? 3u : 2u}, jb{a, 1, 0, th ? 3u : 2u};
        execute(ja, jb, {});
        execute(ja, jb, {});
        uint64_t na = S.count[0], nb = S.count[1];
        uint64_t sa = th ? 1 : 1 + na / 90, sb = th ? 1 + nb / 800 : 1 + nb / 90;
        x.bound("two_switches_stride", std::max(sa, sb));
        for (uint64_t i = 1; i <= na; i += sa) {
            if (!x.take()) continue;
            for (uint64_t k = 1; k <= nb; k += sb)
                if (!verify(ja, jb, {{0, i}, {1, k}})) return;
        }
    }
}
#endif

#ifdef VK_TSAN
// free running threads, monitored by the race detector
static void races(vk::ctx& x) {
    for (int a = 0; a < KINDS; ++a)
        for (int b = a; b < KINDS; ++b)
            for (int rep = 0; rep < 2; ++rep) {
                if (!x.take()) continue;
                ++x.evals; ++x.nontrivial; x.states += 2; x.transitions += 2 * STEPS;
                vector<string> r[2];
                auto body = [&](int i, int kind) {
                    auto t = make_actor(kind, i);
                    for (size_t k = 0; k < STEPS; ++k) r[i].push_back(t->step(k));
                };
                std::thread t0(body, 0, rep ? b : a), t1(body, 1, rep ? a : b);
                t0.join();
                t1.join();
                if (r[0] != alone(rep ? b : a, 0) || r[1] != alone(rep ? a : b, 1)) return x.violation("threads " + name(a, 0) + name(b, 1) + ": other results than alone");
                x.outcome(name(a, 0) + name(b, 0));
            }
}
#endif

#if !defined(VK_SCHED) && !defined(VK_TSAN)
////////////////
// one thread, call by call
////////////////
static void interleaved(vk::ctx& x, const vector<std::pair<int, int>>& who, size_t steps) {
    size_t n = who.size();
    vector<int> order;
    for (size_t i = 0; i < n; ++i) order.insert(order.end(), steps, int(i));
    do {
        if (!x.take()) continue;
        ++x.evals;
        ++x.nontrivial;
        vector<std::unique_ptr<actor>> a(n);
        vector<size_t> k(n, 0);
        for (int i : order) {
            ++x.transitions;
            ++x.states;
            auto& p = a[size_t(i)];
            if (!p) p = make_actor(who[size_t(i)].first, who[size_t(i)].second);
            size_t s = k[size_t(i)]++;
            string r = p->step(s);
            if (r != alone(who[size_t(i)].first, who[size_t(i)].second)[s]) {
                string d;
                for (auto& w : who) d += name(w.first, w.second);
                d += " in order";
                for (int o : order) d += " " + std::to_string(o + 1);
                return x.violation(d + ": call " + std::to_string(s) + " of " + std::to_string(i + 1) + " gives " + vk::show(r) + ", alone " + vk::show(alone(who[size_t(i)].first, who[size_t(i)].second)[s]));
            }
        }
        x.sample([&] { string d; for (auto& w : who) d += name(w.first, w.second); for (int o : order) d += " " + std::to_string(o + 1); return d; });
    } while (std::next_permutation(order.begin(), order.end()));
}
// inner calls are made from within the n-th conversion, restriction or callback of outer
static void nested(vk::ctx& x, int outer, int inner, size_t at, size_t calls, int depth3) {
    if (!x.take()) return;
    ++x.evals;
    auto o = make_actor(outer, 0);
    std::unique_ptr<actor> in, in2;
    size_t hooks = 0, k = 0, k2 = 0;
    string bad;
    std::function<void()> h = [&] {
        if (hooks++ < at) return;
        auto* save = g_hook;
        std::function<void()> h2 = [&] {
            auto* s2 = g_hook;
            g_hook = nullptr;
            if (!in2) in2 = make_actor(depth3, 0);
            if (k2 < STEPS) { string r = in2->step(k2); if (r != alone(depth3, 0)[k2]) bad = "innermost call " + std::to_string(k2) + " gives " + vk::show(r); ++k2; }
            g_hook = s2;
        };
        g_hook = depth3 >= 0 ? &h2 : nullptr;
        for (size_t c = 0; c < calls && k < STEPS; ++c, ++k) {
            if (!in) in = make_actor(inner, 1);
            string r = in->step(k);
            ++x.transitions;
            if (r != alone(inner, 1)[k]) bad = "inner call " + std::to_string(k) + " gives " + vk::show(r) + ", alone " + vk::show(alone(inner, 1)[k]);
        }
        if (calls == STEPS) in.reset(), k = 0;
        g_hook = save;
    };
    g_hook = &h;
    for (size_t s = 0; s < STEPS; ++s) {
        string r = o->step(s);
        ++x.transitions;
        ++x.states;
        if (r != alone(outer, 0)[s] && bad.empty()) bad = "outer call " + std::to_string(s) + " gives " + vk::show(r) + ", alone " + vk::show(alone(outer, 0)[s]);
    }
    g_hook = nullptr;
    if (k || calls == STEPS) ++x.nontrivial;
    if (!bad.empty()) x.violation(name(inner, 1) + " used within conversions and callbacks of " + name(outer, 0) + " from the " + std::to_string(at) + "th: " + bad);
    x.outcome(std::to_string(hooks));
}
#endif

void explore(vk::ctx& x) {
    write_files(x);
    (void)sigs();
    for (int k = 0; k < KINDS; ++k) { (void)alone(k, 0); (void)alone(k, 1); }
#if defined(VK_SCHED)
    threads(x);
#elif defined(VK_TSAN)
    races(x);
#else
    bool th = x.thorough;
    for (int a = 0; a < KINDS; ++a)
        for (int b = 0; b < KINDS; ++b)
            for (size_t n = 1; n <= STEPS; ++n) interleaved(x, {{a, 0}, {b, 1}}, n);
    for (int a = 0; a < KINDS; ++a)
        for (int b = a; b < KINDS; ++b)
            for (int c = b; c < KINDS; ++c)
                interleaved(x, {{a, 0}, {b, 1}, {c, 0}}, th ? 4 : a == b || b == c ? 3 : 2);
    x.bound("instances", 3);
    x.bound("calls_each", STEPS);
    for (int o : {4, 5, 6, 7, 9})
        for (int i = 0; i < KINDS; ++i)
            for (size_t at = 0; at < 14; ++at)
                for (size_t calls : {size_t(1), size_t(2), STEPS}) {
                    nested(x, o, i, at, calls, -1);
                    for (int d = 0; d < KINDS; ++d) if (at < 5) nested(x, o, i, at, calls, d);
                }
#endif
}
