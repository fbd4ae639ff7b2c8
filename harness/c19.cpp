// C19: the behaviour of a setup does not depend on the order of its options or on
// wrapping them. The instantiations (gen.hpp) are generated by c19.py.
#include "common.hpp"
#include "iparser.hpp"
using std::string;
using std::vector;

using runner = string (*)(const string& text, vector<row>* rows);

template <int M, typename F>
row attempt(F&& f) {
    row r;
    if constexpr (M == THR) {
        try { r.ok = f(r); }
        catch (const ss::exception& e) { r.msg = e.what(); }
    } else {
        r.ok = f(r);
    }
    if (!r.ok) r.vals.clear();
    return r;
}

template <typename P, typename C, int M, bool IH>
string run(const string& text, vector<row>* rows) {
    string t;
    P p(text.data(), text.size());
    auto note = [&](const row& r) {
        t += show(r);
        t += p.valid() ? " valid" : " invalid";
        if constexpr (M == STR) t += p.error_msg();
        t += (p.eof() ? " eof " : " ") + std::to_string(p.line()) + "@" + std::to_string(p.position()) + "; ";
    };
    if constexpr (!IH) {
        note(attempt<M>([&](row& r) { r.vals = p.header(); return p.valid(); }));
        t += p.raw_header() + ";";
    }
    bool past = false;
    for (size_t n = 0; n < 12 && !past; ++n) {
        past = p.eof();
        row r;
        if (n % 2) r = attempt<M>([&](row& w) { emit(w.vals, p.template get_next<string>()); return p.valid(); });
        else r = attempt<M>([&](row& w) { emit(w.vals, p.template get_next<string, string>()); return p.valid(); });
        note(r);
        rows->push_back(r);
    }
    C c;
    string line = text.substr(0, text.find('\n'));
    note(attempt<M>([&](row& r) { for (auto& [b, e] : c.split(line.data())) r.vals.emplace_back(b, e); return true; }));
    note(attempt<M>([&](row& r) { emit(r.vals, c.template convert<string, string>()); return c.valid(); }));
    return t;
}

struct variant { const char* name; runner fn; };
struct group { const char* name; model::cfg c; int mode; vector<variant> v; };
#include "gen.hpp"

void explore(vk::ctx& x) {
    auto groups = make_groups();
    size_t len = x.thorough ? 5 : 4;
    x.bound("text_length", len);
    for (auto& g : groups) {
        vk::words("a,\"\\ \n", 0, len, [&](const string& text) {
            if (!x.take()) return;
            vector<row> rows;
            string want = g.v[0].fn(text, &rows);
            model::parser m(g.c, text);
            size_t n = 0;
            for (auto& r : rows) {
                row w = model_next(m, n++ % 2 ? "s" : "ss");
                ++x.states;
                if (!(w == r)) { x.violation(string("setup ") + g.v[0].name + " on " + vk::show(text) + ": read " + std::to_string(n) + " gives " + show(r) + ", expected " + show(w)); return; }
                if (w.ok) x.nontrivial++;
            }
            x.outcome(want);
            for (size_t i = 1; i < g.v.size(); ++i) {
                ++x.evals;
                ++x.transitions;
                vector<row> other;
                string got = g.v[i].fn(text, &other);
                if (got != want) { x.violation(string("setup ") + g.v[i].name + " on " + vk::show(text) + " gives " + got + " but " + g.v[0].name + " gives " + want); return; }
            }
            x.sample([&] { return string(g.name) + " " + vk::show(text) + ": " + want; });
        });
    }
}
