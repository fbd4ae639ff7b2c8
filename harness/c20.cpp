// C20: every memory request of a run fails in turn (alone, or with all later ones
// of the call), and reading the file fails at every byte.
#define SIGS sig_list<sig<'s'>, sig<'s', 's'>, sig<'i', 's'>, sig<'v', 'o'>, sig<'s', 's', 's'>>
#define VK_CHAIN 1
#include "common.hpp"
#include "iparser.hpp"
#include "alloc.hpp"
#include "cookie.hpp"
VK_COOKIE_MAIN
using std::string;
using std::vector;
static vk::guard_page guard(1 << 20);

enum { READ1, READ2, READ3, READ4, READ5, IGNORE, USE, HEADER, CHAIN, MOVE, NOPS };
static const char* names[] = {"get_next<s>", "get_next<ss>", "get_next<is>", "get_next<vo>", "get_next<sss>", "ignore_next", "use_fields(b,a)", "header/field_exists", "try_next<i>.or_else<ss>", "moved"};

struct explorer {
    vk::ctx& x;
    setup_entry e;

    struct model_rows {
        vector<model::record> recs;
        size_t j = 0; // rows before have been returned or skipped
    };
    struct result {
        bool threw = false;      // std::bad_alloc
        bool other = false;      // another exception
        row r;
        string text;             // for comparing runs
    };
    static void act(std::unique_ptr<iparser>& p, int op, result& o) {
        vk::g_alloc.armed = true;
        try {
            switch (op) {
            case IGNORE: p->ignore_next(); break;
            case USE: o.r = p->use_fields({"b", "a"}); break;
            case HEADER: o.r = p->header(); for (auto n : {"b", "zz"}) { row f = p->field_exists(n); o.r.vals.insert(o.r.vals.end(), f.vals.begin(), f.vals.end()); o.r.msg += f.msg; } break;
            case CHAIN: o.r.vals = p->chain(0); break;
            case MOVE: { auto n = p->move_out(); p->assign_from(*n); } break;
            default: o.r = p->next(op); break;
            }
        } catch (const std::bad_alloc&) { o.threw = true;
        } catch (...) { o.other = true; }
        vk::g_alloc.armed = false;
    }

    // which rows of the input are equal to the delivered one
    static bool matches(const model::record& rec, const string& sg, const row& r, bool swapped) {
        if (rec.e != model::err::ok) return false;
        auto c = model::columns_for(rec, sg.size());
        if (swapped) { if (c.size() != 2) return false; std::swap(c[0], c[1]); }
        row w = model_convert(c, sg);
        return w == r;
    }

    struct run_info {
        long allocs = 0, failed = 0;
        bool threw = false, open_failed = false;
        size_t rows = 0, calls = 0;
        uint64_t trace = 14695981039346656037ull;
        string bad;
        vector<string> looks;  // results of the calls which concern the header, by call
    };

    run_info play(const string& t, const vector<int>& seq, int mode, bool file, const string& path, const vector<model::record>& recs, long limit_end, long fail_at, bool burst, const vector<string>* want = nullptr) {
        run_info ri;
        auto& g = vk::g_alloc;
        g.armed = false;
        g.count = 0; g.failed = 0; g.live = 0;
        g.fail_at = fail_at;
        g.fail_until = burst ? 1l << 40 : -1;
        g.on = true;
        vk::g_env.opened = vk::g_env.closed = 0;
        {
            std::unique_ptr<iparser> p;
            source s;
            s.file = file;
            s.path = path;
            if (!file) { s.buf = guard.put(t); s.size = t.size(); }
            bool other = false;
            g.armed = true;
            try { p = e.make[mode](s, ","); }
            catch (const std::bad_alloc&) { ri.threw = true; }
            catch (const ss::exception&) { ri.open_failed = true; }
            catch (...) { other = true; }
            g.armed = false;
            if (g.failed) { g.fail_at = -1; g.fail_until = -1; }
            if (other) ri.bad = "the constructor threw something else";
            // a use_fields which fails for lack of memory took effect or did not,
            // for all of the following rows
            bool swapped = false, swap_unsure = false;
            size_t j = 0, after = 0;
            if (p && !p->valid()) ri.open_failed = true;
            for (size_t k = 0; p && ri.bad.empty() && after <= seq.size(); ++k) {
                if (p->eof()) ++after;
                if (k > (recs.size() + 3) * seq.size() * 3 + 20) { ri.bad = "the end of the input is not reached"; break; }
                int op = seq[k % seq.size()];
                if (op == USE && (k >= seq.size() || e.c.ignore_header)) { if (seq.size() == 1) break; continue; }
                bool looks = op == USE || op == HEADER || op == MOVE;
                long failed = g.failed;
                result o;
                bool was_eof = p->eof();
                act(p, op, o);
                ++ri.calls;
                bool hit = g.failed != failed;
                if (g.failed) { g.fail_at = -1; g.fail_until = -1; }
                if (o.other) { ri.bad = string(names[op]) + " threw something else"; break; }
                for (auto& v : o.r.vals) for (char ch : v + "|") ri.trace = (ri.trace ^ uint64_t((unsigned char)ch)) * 1099511628211ull;
                for (char ch : o.r.msg + (o.r.ok ? "+" : "-") + (p->eof() ? "e" : "n") + (p->valid() ? "v" : "i")) ri.trace = (ri.trace ^ uint64_t((unsigned char)ch)) * 1099511628211ull;
                if (o.threw && !hit && limit_end < 0) { ri.bad = string(names[op]) + " threw bad_alloc although nothing failed"; break; }
                if (o.threw) { ri.threw = true; if (op == USE && !swapped) swap_unsure = true; }
                if (op == USE && !o.threw && o.r.ok) { swapped = true; swap_unsure = false; }
                if (op == USE || op == HEADER) {
                    bool wrong = false;
                    g.on = false;
                    {
                    string s = o.threw ? "bad_alloc" : (o.r.ok ? "+" : "-") + o.r.msg;
                    for (auto& v : o.r.vals) s += "|" + v;
                    ri.looks.resize(k);
                    ri.looks.push_back(s);
                    // what failed before does not concern the header
                    wrong = want && !o.threw && !was_eof && k < want->size() && s != (*want)[k];
                    }
                    g.on = true;
                    if (wrong) { ri.bad = string(names[op]) + " behaves differently than without failures"; break; }
                }
                if (looks && seq.size() == 1 && k > 2) break;
                if (o.threw || looks || op == IGNORE) continue;
                string sg = op == CHAIN ? string("ss") : sigs()[size_t(op)];
                row r = o.r;
                if (op == CHAIN) {
                    if (mode == THR || r.vals.size() < 3 || r.vals.back() != "valid" || r.vals[1] == "<none>") continue;
                    r.ok = true;
                    r.vals = {r.vals[1], r.vals[2]};
                }
                if (!r.ok) continue;
                if (was_eof) { ri.bad = "a row " + show(r) + " after the end"; break; }
                size_t m = j;
                bool way = swapped;
                while (m < recs.size() && !matches(recs[m], sg, r, swapped)) ++m;
                if (swap_unsure) {
                    size_t n = j;
                    while (n < recs.size() && !matches(recs[n], sg, r, !swapped)) ++n;
                    if (n < m) { way = !swapped; m = n; }
                    // rows which do not depend on the order decide nothing
                    if (m < recs.size() && !matches(recs[m], sg, r, !way)) { swapped = way; swap_unsure = false; }
                }
                if (m == recs.size()) { ri.bad = string(names[op]) + " returned " + show(r) + " which is not a row of the input" + (j ? " behind row " + std::to_string(j) : ""); break; }
                if (limit_end >= 0 && recs[m].end > size_t(limit_end)) { ri.bad = string(names[op]) + " returned " + show(r) + " which could not be read completely"; break; }
                j = m + 1;
                ++ri.rows;
            }
        }
        ri.failed = g.failed;
        ri.allocs = g.count;
        string b;
        b.swap(ri.bad);
        g.on = false;
        ri.bad = string(b.begin(), b.end());
        g.on = true;
        string().swap(b);
        g.on = false;
        if (ri.bad.empty() && g.live != 0) ri.bad = std::to_string(g.live) + " allocations not released";
        if (ri.bad.empty() && file && vk::g_env.on && vk::g_env.opened != vk::g_env.closed) ri.bad = "the file was not closed";
        return ri;
    }

    vector<model::record> records(const string& t) {
        vector<model::record> r;
        model::cfg c = e.c;
        model::parser m(c, t);
        // with use_fields the header may be skipped, the rows stay the same
        while (auto rec = m.read()) r.push_back(*rec);
        return r;
    }
    string where(const string& t, const vector<int>& seq, int mode, bool file) {
        string s = show(e.c) + " " + mode_name(mode) + (file ? " file " : " buffer ") + vk::show(t) + " with";
        for (int o : seq) s += string(" ") + names[o];
        return s;
    }
    void check_alloc(const string& t, const vector<int>& seq, int mode, bool file) {
        if (!x.take()) return;
        auto recs = records(t);
        string path = x.scratch + "/f";
        vk::g_env.on = file;
        vk::g_env.path = path;
        vk::g_env.data = t;
        vk::g_env.error_at = -1;
        vk::g_env.chunks.clear();
        if (file) vk::write_file(path, t);
        auto clean = play(t, seq, mode, file, path, recs, -1, -1, false);
        ++x.evals;
        if (!clean.bad.empty()) return x.violation(where(t, seq, mode, file) + " without failures: " + clean.bad);
        for (long k = 0; k < clean.allocs; ++k)
            for (int burst = 0; burst < 2; ++burst) {
                auto r = play(t, seq, mode, file, path, recs, -1, k, burst, &clean.looks);
                ++x.evals;
                x.transitions += r.calls + 1;
                ++x.states;
                if (r.failed) ++x.nontrivial;
                string w = where(t, seq, mode, file) + ", memory request " + std::to_string(k) + (burst ? " and later ones fail: " : " fails: ");
                if (!r.bad.empty()) return x.violation(w + r.bad);
                // requests made within the C and C++ libraries may be made up for
                if (r.failed && !r.threw && !(file && r.open_failed) && r.trace != clean.trace)
                    return x.violation(w + "bad_alloc does not reach the caller");
                x.outcome(std::to_string(r.rows) + (r.threw ? "t" : "") + (r.open_failed ? "o" : "") + std::to_string(clean.rows));
            }
        x.sample([&] { return where(t, seq, mode, file) + ": " + std::to_string(clean.allocs) + " requests"; });
    }
    void check_read(const string& t, const vector<int>& seq, int mode, int err, size_t chunk, bool transient) {
        if (!x.take()) return;
        auto recs = records(t);
        string path = x.scratch + "/g";
        for (size_t at = 0; at <= t.size(); ++at) {
            vk::g_env.on = true;
            vk::g_env.path = path;
            vk::g_env.data = t;
            vk::g_env.error_at = long(at);
            vk::g_env.transient = transient;
            vk::g_env.error_no = err;
            vk::g_env.chunks.assign(chunk ? t.size() : 0, chunk);
            if (at == 0) vk::write_file(path, t);
            auto r = play(t, seq, mode, true, path, recs, transient ? long(t.size()) : long(at), -1, false);
            ++x.evals;
            x.transitions += r.calls + 1;
            ++x.states;
            if (vk::g_env.errors) ++x.nontrivial;
            vk::g_env.errors = 0;
            if (!r.bad.empty()) return x.violation(where(t, seq, mode, true) + ", reading fails at byte " + std::to_string(at) + (transient ? " once" : "") + " (" + strerror(err) + "): " + r.bad);
            if (r.threw && err != ENOMEM) return x.violation(where(t, seq, mode, true) + ", reading fails at byte " + std::to_string(at) + ": bad_alloc");
            x.outcome(std::to_string(r.rows));
        }
        x.sample([&] { return where(t, seq, mode, true) + " failing at every byte"; });
    }
    void check_open(int mode, int how) {
        if (!x.take()) return;
        ++x.evals;
        ++x.nontrivial;
        vk::g_env.on = false;
        source s;
        s.file = true;
        string dir = x.scratch + "/d";
        mkdir(dir.c_str(), 0700);
        s.path = how == 0 ? x.scratch + "/none" : how == 1 ? dir : how == 2 ? "" : how == 3 ? x.scratch + "/f/x" : dir + "/" + string(5000, 'n');
        std::unique_ptr<iparser> p;
        bool threw = false;
        try { p = e.make[mode](s, ","); } catch (const ss::exception&) { threw = true; }
        auto bad = [&](string w) { x.violation(show(e.c) + " " + mode_name(mode) + " path kind " + std::to_string(how) + ": " + w); };
        if (how != 1) {
            if (mode == THR && !threw) return bad("opening does not throw");
            if (mode != THR && (threw || p->valid())) return bad("opening does not fail");
        }
        if (!p) return;
        if (!p->eof()) return bad("not at the end");
        for (int k = 0; k < 3; ++k) if (p->next(k).ok) return bad("a row is delivered");
        if (p->ignore_next()) return bad("ignore_next is true");
    }
};

template <typename L>
void run(vk::ctx& x) {
    explorer e{x, entry<L>()};
    auto& c = e.e.c;
    (void)sigs();
    bool q = c.quote, th = x.thorough;
    string big1(150, 'p'), big2(300, 's');
    vector<string> rows{"1,2", "33", "", "44,x,55", big1 + "," + big2, big2 + big2, string(40, ',')};
    if (q) { rows.push_back("\"66\"\"\",\"7,7\""); rows.push_back("\"8\"8,9"); }
    if (q && c.ml) { rows.push_back("\"m1\nm2\nm3\",m4"); rows.push_back("\"" + big1 + "\n" + big2 + "\r\n" + big1 + "\""); rows.push_back("\"l1\nl2,l3"); }
    if (!c.esc.empty()) rows.push_back(c.ml ? "e1\\\ne2,e3\\\\" : "e1\\,e2,e3\\\\");
    vector<string> texts;
    for (size_t i = 0; i < rows.size(); ++i) {
        texts.push_back(rows[i]);
        for (size_t j = 0; j < rows.size(); ++j) {
            texts.push_back(rows[i] + "\n" + rows[j] + "\n");
            for (size_t k = 0; k < rows.size(); ++k)
                if (th || (i + 2 * j + 3 * k) % 13 == 0) texts.push_back("a,b\n" + rows[i] + "\r\n" + rows[j] + "\n" + rows[k]);
        }
    }
    vk::words(string("a,\n") + (q ? "\"" : "") + c.esc, 0, th ? 5 : 2, [&](const string& w) { texts.push_back(w); });
    for (string h : {"a,b", "a,a"}) texts.push_back(h + "\n1,2\n3,4\r\n5,6,7\n8,9\n10,11");
    x.bound("texts", texts.size());
    vector<vector<int>> seqs;
    for (int i = 0; i < NOPS; ++i) { seqs.push_back({i}); if (i > READ5) for (int j : {READ1, READ2, READ4}) { seqs.push_back({i, j}); } }
    seqs.push_back({READ2, READ1});
    seqs.push_back({READ5, READ3, CHAIN});
    seqs.push_back({READ2, USE, READ2});
    seqs.push_back({HEADER, USE, READ2, MOVE, IGNORE});
    seqs.push_back({USE, USE, READ2});
    seqs.push_back({HEADER, HEADER, READ2});
    size_t h = 0;
    for (auto& t : texts)
        for (auto& s : seqs) {
            bool small = t.size() < 20;
            for (int mode = 0; mode < 3; ++mode)
                for (int file = 0; file < 2; ++file) {
                    ++h;
                    if (!th && (h % (small ? 2 : 5))) continue;
                    if (mode == THR && s[0] == CHAIN && s.size() == 1) continue;
                    e.check_alloc(t, s, mode, file);
                }
        }
    for (auto& t : texts)
        for (size_t i = 0; i < seqs.size(); ++i) {
            if (seqs[i].size() == 1 && seqs[i][0] >= IGNORE) continue;
            for (int mode = 0; mode < 3; ++mode)
                for (int v = 0; v < 6; ++v) {
                    ++h;
                    if (!th && h % (t.size() < 20 ? 4 : 41)) continue;
                    if (mode == THR && seqs[i][0] == CHAIN) continue;
                    e.check_read(t, seqs[i], mode, v % 3 == 0 ? EIO : v % 3 == 1 ? EISDIR : ENOMEM, v < 3 ? 0 : v, v % 2);
                }
        }
    for (int mode = 0; mode < 3; ++mode)
        for (int how = 0; how < 5; ++how) e.check_open(mode, how);
}

// converters on their own: a failing call changes nothing for the following ones
template <typename L, int M>
void run_converter(vk::ctx& x) {
    using C = typename with_mode<L, M>::template apply<ss::converter>;
    auto c = cfg_of(L{});
    vector<string> lines{"1,2", "7", "", string(130, 'p') + "," + string(200, 'q'), "x,y,z", string(60, ','), "12,notanumber"};
    if (c.quote) { lines.push_back("\"q,\"\"r\",s"); lines.push_back("\"open"); lines.push_back("\"a\"b,c"); }
    if (!c.esc.empty()) { lines.push_back("e\\,f,9"); lines.push_back("end\\"); }
    // kinds of calls
    enum { CSS, CS, CIS, COS, SPLIT_C, TUP, NK };
    struct res { bool threw = false, ss_error = false, valid = false; string msg; vector<string> vals; };
    auto call = [](C& cv, int kind, char* l, res& r) {
        try {
            switch (kind) {
            case CSS: emit(r.vals, cv.template convert<string, string>(l)); break;
            case CS: emit(r.vals, cv.template convert<string>(l)); break;
            case CIS: emit(r.vals, cv.template convert<int, string>(l)); break;
            case COS: emit(r.vals, cv.template convert<std::optional<int>, void, string>(l)); break;
            case SPLIT_C: cv.split(l); emit(r.vals, cv.template convert<string, int>()); break;
            case TUP: emit(r.vals, cv.template convert<std::tuple<string, string, string>>(l, ",")); break;
            }
            r.valid = cv.valid();
            if constexpr (M == STR) r.msg = cv.error_msg();
        } catch (const std::bad_alloc&) { r.threw = true;
        } catch (const ss::exception& e) { vk::g_alloc.armed = false; r.ss_error = true; r.msg = e.what(); }
    };
    auto& g = vk::g_alloc;
    for (size_t l1 = 0; l1 < lines.size(); ++l1)
        for (int k1 = 0; k1 < NK; ++k1)
            for (size_t l2 = 0; l2 < lines.size(); ++l2)
                for (int k2 = 0; k2 < NK; ++k2) {
                    if (!x.take()) continue;
                    res want;
                    { C f; string b = lines[l2]; call(f, k2, b.data(), want); }
                    for (long n = 0;; ++n) {
                        ++x.evals;
                        x.transitions += 3;
                        ++x.states;
                        string b0 = lines[l1], b1 = lines[l1], b2 = lines[l2];
                        bool hit, bad = false;
                        res r2;
                        g.live = g.count = g.failed = 0;
                        g.armed = false;
                        g.on = true;
                        {
                            C cv;
                            res r0, r1, r3;
                            if (n % 2) call(cv, CSS, b0.data(), r0);
                            g.fail_at = n / 2; g.fail_until = -1; g.armed = true;
                            call(cv, k1, b1.data(), r1);
                            hit = g.failed > 0;
                            g.armed = false; g.fail_at = -1;
                            call(cv, k2, b2.data(), r3);
                            bad = r3.threw != want.threw || r3.ss_error != want.ss_error || r3.valid != want.valid || r3.msg != want.msg || (r3.valid && r3.vals != want.vals);
                            g.on = false;
                            r2 = r3;
                            g.on = true;
                        }
                        g.on = false;
                        if (hit) ++x.nontrivial;
                        string w = show(c) + " converter " + mode_name(M) + " call " + std::to_string(k1) + " on " + vk::show(lines[l1]) + " memory request " + std::to_string(n / 2) + " fails, then call " + std::to_string(k2) + " on " + vk::show(lines[l2]);
                        if (bad) return x.violation(w + ": got " + vk::show(r2.vals) + " " + r2.msg + ", expected " + vk::show(want.vals) + " " + want.msg);
                        if (g.live) return x.violation(w + ": " + std::to_string(g.live) + " allocations not released");
                        x.outcome(std::to_string(n) + want.msg);
                        if (!hit && n % 2) break;
                    }
                }
}

using Q = ss::quote<'"'>;
using E = ss::escape<'\\'>;
void explore(vk::ctx& x) {
#if PART == 0
    run<opts<>>(x);
#elif PART == 1
    run<opts<Q, ss::multiline>>(x);
#elif PART == 2
    run<opts<Q, E, ss::multiline_restricted<2>>>(x);
#elif PART == 3
    run<opts<E, ss::multiline, ss::ignore_empty>>(x);
#elif PART == 4
    run<opts<ss::ignore_header, Q>>(x);
#elif PART == 5
    run_converter<opts<>, BOOL>(x);
    run_converter<opts<>, STR>(x);
    run_converter<opts<>, THR>(x);
    run_converter<opts<Q, E>, STR>(x);
    run_converter<opts<Q, E, ss::multiline>, BOOL>(x);
    run_converter<opts<Q, E>, THR>(x);
#endif
}
