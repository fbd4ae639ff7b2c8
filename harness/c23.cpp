// C23: conversions, restrictions, constructors and callbacks which throw, at any
// place of a row, a chain and the input, in lock step with the model.
#include "common.hpp"
#include "iparser.hpp"
using std::string;
using std::vector;
static vk::guard_page guard(1 << 20);

struct user_error { string what; int kind; };

// a column type whose conversion throws for some texts
struct T1 { string s; };
static uint64_t g_calls = 0;
static int g_how = 0; // what is thrown
[[noreturn]] static void throw_it(const string& w) {
    ++g_calls;
    if (g_how == 0) throw user_error{w, 1};
    if (g_how == 1) throw std::runtime_error(w);
    if (g_how == 2) throw w;
    throw std::bad_alloc();
}
namespace ss {
template <> inline bool extract(const char* b, const char* e, T1& v) {
    if (e - b == 1 && *b == 'T') throw_it("extract");
    if (e - b == 1 && *b == 'x') return false;
    v.s.assign(b, e);
    return true;
}
}
// a restriction which throws
struct R1 {
    bool ss_valid(const string& s) const {
        if (s == "T" || s == "R") throw_it("ss_valid");
        return s != "x";
    }
};
template <typename T> struct restr {
    using type = T;
    bool ss_valid(const T& v) const { if (v.s == "R") throw_it("ss_valid"); return v.s != "y"; }
    const char* error() const { return "restr"; }
};
struct obj {
    string a, b;
    obj() = default;
    obj(T1 x, T1 y) : a(x.s), b(y.s) { if (a == "O") throw_it("constructor"); }
};
struct tied_obj { T1 a, b; auto tied() { return std::tie(a, b); } };
inline void emit(vector<string>& v, const T1& t) { v.push_back(t.s); }
inline void emit(vector<string>& v, const obj& t) { v.push_back(t.a); v.push_back(t.b); }
inline void emit(vector<string>& v, const tied_obj& t) { v.push_back(t.a.s); v.push_back(t.b.s); }
template <typename T> void emit(vector<string>& v, const std::variant<int, T>& t) { if (t.index()) emit(v, std::get<1>(t)); else emit(v, std::get<0>(t)); }

enum { NEXT, RESTR, OBJECT, TIED, OPTIONAL, SECOND, ITER, ITEROBJ, IGNORE, TRY_CB, TRY_OR, OR_CB, ON_ERR, TRY_OBJ, PLAIN, USE, NOPS };
static const char* op_names[] = {"get_next<T,T>", "get_next<restr<T>,T>", "get_object<obj,T,T>", "get_next<tied>", "get_next<optional<T>,variant<int,T>>", "get_next<string,restr<T>>", "iterate<T,T> one", "iterate_object<obj,T,T> one", "ignore_next",
                                 "try_next<T,T>(throws)", "try_next<int>.or_else<T,T>", "try_next<int>.or_else<string,string>(throws)", "try_next<int>.on_error(throws)", "try_next<int>.or_object<obj,T,T>", "get_next<string,string>", "use_fields(b,a)"};

struct outcome {
    enum { VALUE, FAIL, USER, NONE } k = NONE;
    vector<string> vals;
    string what;
    bool operator==(const outcome& o) const { return k == o.k && vals == o.vals && what == o.what; }
};
static string show(const outcome& o) {
    return o.k == outcome::VALUE ? vk::show(o.vals) : o.k == outcome::FAIL ? "failure" : o.k == outcome::NONE ? "nothing" : "exception " + o.what;
}

template <typename L, int M>
struct explorer {
    using O = with_mode<L, M>;
    using P = typename O::template apply<ss::parser>;
    vk::ctx& x;

    // what the user's code sees, column by column and in this order
    static outcome expect_cols(const vector<string>& c, int op) {
        outcome o;
        auto fail = [&] { o.k = outcome::FAIL; o.vals.clear(); return o; };
        auto user = [&](string w) { o.k = outcome::USER; o.vals.clear(); o.what = g_how == 3 ? "bad_alloc" : w; return o; };
        if (c.size() != 2) return fail();
        auto t1 = [&](const string& s) { return s == "T" ? 2 : s == "x" ? 0 : 1; }; // 2 throws
        switch (op) {
        case PLAIN: break;
        case OPTIONAL:
            if (c[0] == "T") return user("extract");
            o.k = outcome::VALUE;
            o.vals.push_back(c[0] == "x" ? "<none>" : c[0]);
            { int v; if (model_int(c[1], v)) { o.vals.push_back(c[1]); return o; } }
            if (c[1] == "T") return user("extract");
            if (c[1] == "x") return fail();
            o.vals.push_back(c[1]);
            return o;
        case SECOND:
            if (c[1] == "T") return user("extract");
            if (c[1] == "x") return fail();
            if (c[1] == "R") return user("ss_valid");
            if (c[1] == "y") return fail();
            break;
        case RESTR:
            if (t1(c[0]) == 2) return user("extract");
            if (t1(c[0]) == 0) return fail();
            if (c[0] == "R") return user("ss_valid");
            if (c[0] == "y") return fail();
            if (t1(c[1]) == 2) return user("extract");
            if (t1(c[1]) == 0) return fail();
            break;
        default:
            for (auto& s : c) {
                if (t1(s) == 2) return user("extract");
                if (t1(s) == 0) return fail();
            }
            if ((op == OBJECT || op == ITEROBJ || op == TRY_OBJ) && c[0] == "O") return user("constructor");
            break;
        }
        o.k = outcome::VALUE;
        o.vals = c;
        return o;
    }
    struct mparser {
        model::parser m;
        bool swapped = false;
        size_t width = 0;
    };
    static outcome expect(mparser& mp, int op) {
        auto& m = mp.m;
        if (op == USE) {
            if (m.eof()) return {}; // not of interest here
            mp.swapped = true;
            if (m.next == m.header) m.skip_line();
            return {};
        }
        if (op == IGNORE) { m.ignore(); return {}; }
        outcome fail;
        fail.k = outcome::FAIL;
        if (m.eof()) {
            if (op == ITER || op == ITEROBJ) return {};
            if (op == ON_ERR) { outcome o; o.k = outcome::USER; o.what = g_how == 3 ? "bad_alloc" : "on_error"; return o; }
            return fail;
        }
        auto rec = m.read();
        bool bad = rec->e != model::err::ok;
        vector<string> c = rec->cols;
        if (mp.swapped && c.size() == 2) std::swap(c[0], c[1]);
        if (op == ON_ERR) {
            // int of a row of two columns never converts, nor do bad rows
            int v;
            auto cc = model::columns_for(*rec, 1);
            if (!bad && !mp.swapped && cc.size() == 1 && model_int(cc[0], v)) { outcome o; o.k = outcome::VALUE; o.vals = {cc[0]}; return o; }
            outcome o; o.k = outcome::USER; o.what = g_how == 3 ? "bad_alloc" : "on_error"; return o;
        }
        if (op == TRY_OR || op == OR_CB || op == TRY_OBJ) {
            int v;
            auto cc = model::columns_for(*rec, 1);
            if (!bad && !mp.swapped && cc.size() == 1 && model_int(cc[0], v)) { outcome o; o.k = outcome::VALUE; o.vals = {cc[0]}; return o; }
        }
        if (bad) return fail;
        if (op == OR_CB && !mp.swapped && model::columns_for(*rec, 1).size() == 1) c = {"1", "2"}; // the last alternative calls back
        outcome o = expect_cols(c, op == OR_CB ? int(PLAIN) : op);
        if ((op == TRY_CB || op == OR_CB) && o.k == outcome::VALUE) { o.k = outcome::USER; o.vals.clear(); o.what = g_how == 3 ? "bad_alloc" : "callback"; }
        return o;
    }

    outcome act(P& p, int op) {
        outcome o;
        auto done = [&](const auto& t) {
            if (p.valid()) { o.k = outcome::VALUE; emit(o.vals, t); }
            else o.k = outcome::FAIL;
        };
        auto chain = [&](const auto& c) {
            std::apply([&](const auto&... e) { ((e ? (o.k = outcome::VALUE, emit(o.vals, *e)) : void()), ...); }, c);
            if (o.k != outcome::VALUE) o.k = outcome::FAIL;
        };
        (void)chain;
        auto cb = [](const auto&...) { throw_it("callback"); };
        (void)cb;
        try {
            switch (op) {
            case NEXT: done(p.template get_next<T1, T1>()); break;
            case RESTR: done(p.template get_next<restr<T1>, T1>()); break;
            case OBJECT: done(p.template get_object<obj, T1, T1>()); break;
            case TIED: done(p.template get_next<tied_obj>()); break;
            case OPTIONAL: done(p.template get_next<std::optional<T1>, std::variant<int, T1>>()); break;
            case SECOND: done(p.template get_next<string, restr<T1>>()); break;
            case PLAIN: done(p.template get_next<string, string>()); break;
            case ITER: for (auto&& t : p.template iterate<T1, T1>()) { done(t); break; } break;
            case ITEROBJ: for (auto&& t : p.template iterate_object<obj, T1, T1>()) { done(t); break; } break;
            case IGNORE: p.ignore_next(); break;
            case USE: if (!p.eof()) p.use_fields("b", "a"); break;
            default:
                if constexpr (M != THR) {
                    if (op == TRY_CB) chain(p.template try_next<T1, T1>(cb).values());
                    if (op == TRY_OR) chain(p.template try_next<int>().template or_else<T1, T1>().values());
                    if (op == OR_CB) chain(p.template try_next<int>().template or_else<string, string>(cb).template or_else<string>(cb).values());
                    if (op == ON_ERR) chain(p.template try_next<int>().on_error([] { throw_it("on_error"); }).template or_else<string>().values());
                    if (op == TRY_OBJ) chain(p.template try_next<int>().template or_object<obj, T1, T1>().values());
                }
            }
        } catch (const user_error& e) { o.k = outcome::USER; o.what = g_how == 0 && e.kind == 1 ? e.what : "other type " + e.what;
        } catch (const ss::exception& e) { o.k = outcome::FAIL; o.vals.clear();
        } catch (const std::bad_alloc& e) { o.k = outcome::USER; o.what = g_how == 3 ? "bad_alloc" : "other type";
        } catch (const std::runtime_error& e) { o.k = outcome::USER; o.what = g_how == 1 && typeid(e) == typeid(std::runtime_error) ? e.what() : "other type";
        } catch (const string& e) { o.k = outcome::USER; o.what = g_how == 2 ? e : "other type"; }
        return o;
    }

    // the sequence is repeated until the end of the input and past it
    void check(const string& t, const vector<int>& seq, int how, bool file) {
        if (!x.take()) return;
        ++x.evals;
        g_how = how;
        model::cfg c = cfg_of(L{});
        mparser m{model::parser(c, t), false, 0};
        source s;
        std::unique_ptr<P> p;
        if (file) { string path = x.scratch + "/f"; vk::write_file(path, t); p.reset(new P(path, ",")); }
        else p.reset(new P(guard.put(t), t.size(), ","));
        string done;
        auto where = [&] { return show(c) + " " + mode_name(M) + (file ? " file " : " buffer ") + vk::show(t) + " throwing kind " + std::to_string(how) + " after" + done; };
        size_t after = 0, threw = 0;
        for (size_t k = 0; after <= seq.size(); ++k) {
            if (m.m.eof()) ++after;
            int op = seq[k % seq.size()];
            ++x.transitions;
            ++x.states;
            done += string(" ") + op_names[op];
            outcome want = expect(m, op);
            outcome got = act(*p, op);
            if (!(want == got)) return x.violation(where() + ": got " + show(got) + ", expected " + show(want));
            if (p->eof() != m.m.eof()) return x.violation(where() + ": eof() is " + (p->eof() ? "true" : "false"));
            if (p->line() != m.m.line() || p->position() != m.m.position())
                return x.violation(where() + ": line " + std::to_string(p->line()) + " position " + std::to_string(p->position()) + ", expected " + std::to_string(m.m.line()) + " and " + std::to_string(m.m.position()));
            if (want.k == outcome::USER) ++threw;
            bool reads = false;
            for (int o : seq) reads |= o != USE;
            if (!reads && k > 3) break;
        }
        if (threw) ++x.nontrivial;
        x.outcome(done + std::to_string(threw));
        x.sample([&] { return where() + ": " + std::to_string(threw) + " exceptions"; });
    }
};

template <typename L, int M>
void run_mode(vk::ctx& x) {
    explorer<L, M> e{x};
    model::cfg c = cfg_of(L{});
    bool q = c.quote;
    vector<string> rows{"1,2", "T,3", "4,T", "x,T", "R,5", "O,6", "7", "", "y,R"};
    if (q) { rows.push_back("\"T\",8"); rows.push_back("\"bad\"z,9"); }
    if (q && c.ml) { rows.push_back("\"m\nT\",T"); rows.push_back("\"m\nn\",x"); rows.push_back("\"open"); }
    bool th = x.thorough;
    vector<int> ops;
    for (int i = 0; i < NOPS; ++i) if (M != THR || i < TRY_CB || i > TRY_OBJ) ops.push_back(i);
    size_t nr = th ? 3 : 2, depth = th ? 3 : 2;
    x.bound("rows", nr + 1);
    x.bound("operations_depth", depth);
    auto texts = [&](size_t n, auto&& f) {
        vk::seqs_n(rows.size(), n, [&](const vector<int>& ix) {
            string t;
            size_t h = 0;
            for (int i : ix) { t += rows[size_t(i)] + "\n"; h = h * 5 + size_t(i); }
            f(t, h);
        });
    };
    for (int head = 0; head < 2; ++head)
        for (size_t n = 1; n <= nr + 1; ++n)
            texts(n, [&](const string& b, size_t h) {
                string t = (head ? "a,b\n" : "") + b;
                if (h % 3 == 0) t.pop_back();
                for (size_t d = 1; d <= (n <= nr ? depth : 1); ++d)
                    vk::seqs_n(ops.size(), d, [&](const vector<int>& ix) {
                        vector<int> seq;
                        bool use = false;
                        for (int i : ix) { seq.push_back(ops[size_t(i)]); use |= ops[size_t(i)] == USE; ++h; }
                        if (use != (head == 1)) return;
                        for (int how = 0; how < 4; ++how)
                            if (d < 2 || th || size_t(how) == h % 4) e.check(t, seq, how, (h / 4) % 4 == 0);
                    });
            });
}
template <typename L>
void run(vk::ctx& x) { run_mode<L, BOOL>(x); run_mode<L, STR>(x); run_mode<L, THR>(x); }

using Q = ss::quote<'"'>;
void explore(vk::ctx& x) {
#if PART == 0
    run<opts<>>(x);
#elif PART == 1
    run<opts<Q, ss::multiline>>(x);
#elif PART == 2
    run<opts<ss::ignore_empty, Q, ss::escape<'\\'>>>(x);
#elif PART == 3
    run<opts<Q, ss::escape<'\\'>, ss::multiline_restricted<1>, ss::ignore_empty>>(x);
#endif
}
