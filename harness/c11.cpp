// C11: rows map onto the requested types.
#include "common.hpp"
#include SSP_HEADER
#include <optional>
using std::string;
using std::vector;

static vk::guard_page guard(1 << 16);
static vk::ctx* X;

// the type alphabet
template <size_t D> struct type_of;
template <> struct type_of<0> { using t = int; };
template <> struct type_of<1> { using t = string; };
template <> struct type_of<2> { using t = void; };
template <> struct type_of<3> { using t = ss::gt<int, 1>; };
template <> struct type_of<4> { using t = std::optional<int>; };
static const char letters[] = "isvro";

constexpr size_t digit(size_t i, size_t p) { for (; p; --p) i /= 5; return i % 5; }
template <size_t I, size_t P> using nth = typename type_of<digit(I, P)>::t;

static void emit(vector<string>& v, int i) { v.push_back("int " + std::to_string(i)); }
static void emit(vector<string>& v, const string& s) { v.push_back("string " + s); }
static void emit(vector<string>& v, const std::optional<int>& o) { v.push_back(o ? "some " + std::to_string(*o) : string("none")); }
template <typename... T>
void emit(vector<string>& v, const std::tuple<T...>& t) { std::apply([&](const auto&... e) { (emit(v, e), ...); }, t); }

struct result { bool ok = false; vector<string> vals; string msg; };

// reference ---------------------------------------------------------------
static bool is_int(const string& s, int& o) {
    size_t i = !s.empty() && s[0] == '-';
    if (i >= s.size() || s.size() > 9) return false;
    for (size_t k = i; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return false;
    o = atoi(s.c_str());
    return true;
}
struct expect { bool ok = true; vector<string> vals, defaults; int column = 0; bool count = false, restriction = false; };
static expect reference(const string& types, const vector<string>& cells) {
    expect e;
    for (char t : types) if (t != 'v') e.defaults.push_back(t == 's' ? "string " : t == 'o' ? "none" : "int 0");
    if (types.size() != cells.size()) { e.ok = false; e.count = true; return e; }
    for (size_t i = 0; i < cells.size(); ++i) {
        int v = 0;
        switch (types[i]) {
        case 'v': break;
        case 's': e.vals.push_back("string " + cells[i]); break;
        case 'o': e.vals.push_back(is_int(cells[i], v) ? "some " + std::to_string(v) : string("none")); break;
        default:
            if (!is_int(cells[i], v) || (types[i] == 'r' && v <= 1)) {
                e.restriction = types[i] == 'r' && is_int(cells[i], v);
                e.ok = false;
                e.column = int(i) + 1;
                return e;
            }
            e.vals.push_back("int " + std::to_string(v));
        }
    }
    return e;
}

static bool judge(const string& what, const string& types, const vector<string>& cells, const result& r, bool msg = true) {
    expect e = reference(types, cells);
    auto fail = [&](const string& s) { X->violation(what + " types " + types + " row " + vk::show(cells) + ": " + s); return false; };
    if (r.ok != e.ok) return fail(r.ok ? "accepted as " + vk::show(r.vals) : "rejected " + r.msg);
    if (e.ok) return r.vals == e.vals ? true : fail("got " + vk::show(r.vals) + ", expected " + vk::show(e.vals));
    if (r.vals != e.defaults) return fail("values after a failure are " + vk::show(r.vals));
    if (!msg) return true;
    if (e.count) {
        size_t a = r.msg.find("expected: " + std::to_string(types.size())), b = r.msg.find("got: " + std::to_string(cells.size()));
        size_t got0 = cells == vector<string>{""} ? r.msg.find("got: 0") : b;
        if (a == string::npos || (b == string::npos && got0 == string::npos)) return fail("message " + vk::show(r.msg));
        return true;
    }
    if (r.msg.find("column " + std::to_string(e.column) + ":") == string::npos) return fail("message " + vk::show(r.msg) + ", column " + std::to_string(e.column) + " is the first to fail");
    if ((r.msg.find("validation error") != string::npos) != e.restriction) return fail("message " + vk::show(r.msg));
    return true;
}

// every type list -----------------------------------------------------------
using conv_t = ss::converter<ss::string_error>;
using fn = void (*)(conv_t&, char* line, result&);
struct list { string types; fn f; };

template <typename... T>
void convert_list(conv_t& c, char* line, result& r) {
    auto v = c.template convert<T...>(line);
    r.ok = c.valid();
    r.msg = c.error_msg();
    emit(r.vals, v);
}
template <size_t I, size_t... P>
void add(vector<list>& v, std::index_sequence<P...>) {
    if constexpr (!((digit(I, P) == 2) && ...)) {
        string t{letters[digit(I, P)]...};
        v.push_back({t, &convert_list<nth<I, P>...>});
    }
}
template <size_t N, size_t Off, size_t Step, size_t... I>
void add_all(vector<list>& v, std::index_sequence<I...>) { (add<I * Step + Off>(v, std::make_index_sequence<N>{}), ...); }

static const vector<string> cells{"5", "1", "x", "", "-7"};
template <typename F>
void all_rows(size_t lo, size_t hi, size_t k, F&& f) {
    for (size_t n = lo; n <= hi; ++n)
        vk::seqs_n(k, n, [&](const vector<int>& ix) {
            vector<string> row;
            string line;
            for (size_t i = 0; i < n; ++i) { row.push_back(cells[ix[i]]); line += (i ? "," : "") + row[i]; }
            f(row, line);
        });
}

static void lists_x_rows(const vector<list>& v) {
    conv_t c;
    for (auto& l : v)
        all_rows(1, l.types.size() < 4 ? 5 : 4, l.types.size() < 3 || X->thorough ? 5 : 4, [&](const vector<string>& row, const string& line) {
            if (!X->take()) return;
            ++X->evals;
            ++X->transitions;
            result r;
            l.f(c, guard.putz(line), r);
            if (r.ok) ++X->nontrivial;
            X->outcome(l.types + (r.ok ? "+" : r.msg));
            judge("convert", l.types, row, r);
            X->sample([&] { return "convert " + l.types + " " + vk::show(row) + " -> " + (r.ok ? vk::show(r.vals) : r.msg); });
        });
    X->states += v.size();
    X->bound("type_lists_in_a_part", v.size());
}

// access forms ----------------------------------------------------------------
template <typename... T>
struct object { // built from the values
    std::tuple<T...> v{};
    object() = default;
    object(T... t) : v{t...} {}
};
template <typename... T>
struct tied_object {
    std::tuple<T...> v{};
    tied_object() = default;
    tied_object(T... t) : v{t...} {}
    auto tied() { return std::apply([](auto&... e) { return std::tie(e...); }, v); }
};
struct shape_xy { // an aggregate, as the documentation has it
    string name;
    int x = 0, y = 0;
    auto tied() { return std::tie(name, x, y); }
};
static void emit(vector<string>& v, const shape_xy& o) { emit(v, o.name); emit(v, o.x); emit(v, o.y); }

template <typename... T> void emit(vector<string>& v, const object<T...>& o) { emit(v, o.v); }
template <typename... T> void emit(vector<string>& v, const tied_object<T...>& o) { emit(v, o.v); }

template <typename Tuple> struct plain_of;
template <typename... T> struct plain_of<std::tuple<T...>> { using obj = object<T...>; using tied = tied_object<T...>; };

struct record { string what; result r; };

template <typename... T>
struct forms {
    using ret = ss::no_void_validator_tup_t<T...>;
    static constexpr bool tuple = ss::is_instance_of_v<std::tuple, ret>;
    using tup = std::conditional_t<tuple, ret, std::tuple<ret>>;
    using obj = typename plain_of<tup>::obj;
    using tied = typename plain_of<tup>::tied;
    static constexpr bool plain = std::is_same_v<std::tuple<std::conditional_t<std::is_void_v<T>, int, T>...>, tup>; // no void, no restriction

    template <typename C, typename V>
    static void put(vector<record>& out, const string& w, const C& c, const V& v) {
        result r;
        r.ok = c.valid();
        r.msg = c.error_msg();
        emit(r.vals, v);
        out.push_back({w, r});
    }
    static vector<record> converter_forms(const string& line) {
        vector<record> o;
        ss::converter<ss::string_error> c;
        string l;
        auto fresh = [&] { l = line; return l.data(); };
        put(o, "convert<Ts>(line)", c, c.template convert<T...>(fresh()));
        put(o, "convert_object<obj,Ts>(line)", c, c.template convert_object<obj, T...>(fresh()));
        { auto& s = c.split(fresh()); put(o, "convert<Ts>(split)", c, c.template convert<T...>(s)); put(o, "convert_object<obj,Ts>(split)", c, c.template convert_object<obj, T...>(s)); }
        (void)c.split(fresh());
        put(o, "convert<Ts>()", c, c.template convert<T...>());
        put(o, "convert_object<obj,Ts>()", c, c.template convert_object<obj, T...>());
        if constexpr (plain) {
            put(o, "convert<tuple>(line)", c, c.template convert<tup>(fresh()));
            put(o, "convert<tied>(line)", c, c.template convert<tied>(fresh()));
            put(o, "convert_object<obj,tuple>(line)", c, c.template convert_object<obj, tup>(fresh()));
            { auto& s = c.split(fresh()); put(o, "convert<tuple>(split)", c, c.template convert<tup>(s)); put(o, "convert<tied>(split)", c, c.template convert<tied>(s)); }
            put(o, "convert<tuple>()", c, c.template convert<tup>());
            put(o, "convert<tied>()", c, c.template convert<tied>());
        }
        return o;
    }
    using parser = ss::parser<ss::string_error>;
    // the results of reading a whole text by each form
    static vector<std::pair<string, vector<result>>> parser_forms(const string& text) {
        const size_t most = size_t(std::count(text.begin(), text.end(), '\n')) + 50;
        vector<std::pair<string, vector<result>>> all;
        auto with = [&](const string& name, auto&& read) {
            parser p{text.data(), text.size()};
            vector<record> o;
            size_t guard = 0;
            while (!p.eof() && guard++ < most) { auto v = read(p); put(o, name, p, v); }
            vector<result> rs;
            for (auto& r : o) rs.push_back(r.r);
            all.push_back({name, rs});
        };
        with("get_next<Ts>", [](parser& p) { return p.get_next<T...>(); });
        with("get_object<obj,Ts>", [](parser& p) { return p.get_object<obj, T...>(); });
        auto iterate = [&](const string& name, auto&& range) {
            parser p{text.data(), text.size()};
            vector<record> o;
            for (auto& v : range(p)) { put(o, name, p, v); if (o.size() > most) break; }
            vector<result> rs;
            for (auto& r : o) rs.push_back(r.r);
            all.push_back({name, rs});
        };
        iterate("iterate<Ts>", [](parser& p) { return p.iterate<T...>(); });
        iterate("iterate_object<obj,Ts>", [](parser& p) { return p.iterate_object<obj, T...>(); });
        // the operations of the iterator
        auto step = [&](const string& name, auto&& range) {
            for (int form = 0; form < 4; ++form) {
                static const char* forms[] = {" postfix", " prefix and copies", " begin for each row", " reads in between"};
                parser p{text.data(), text.size()};
                vector<result> rs;
                auto note = [&](auto& v, bool ok, const string& msg) { result r; r.ok = ok; r.msg = msg; emit(r.vals, v); rs.push_back(r); };
                auto it_range = range(p);
                if (form == 2) {
                    while (rs.size() < most) {
                        auto it = it_range.begin();
                        if (it == it_range.end()) break;
                        note(*it, p.valid(), p.error_msg());
                    }
                } else {
                    auto it = it_range.begin();
                    auto last = it_range.end();
                    if (last != it_range.end() || !(last == last)) X->violation(name + ": ends differ");
                    if (it != last && (it == last || !(it == it) || it != it)) X->violation(name + ": == and != disagree");
                    while (it != last && rs.size() < most) {
                        bool ok = p.valid();
                        string msg = p.error_msg();
                        if (form == 0) {
                            auto old = it++;
                            note(*old, ok, msg);
                        } else if (form == 1) {
                            auto copy = it;
                            auto& r = ++it;
                            if (&r != &it) X->violation(name + ": ++ does not return the iterator");
                            note(*copy.operator->(), ok, msg);
                        } else {
                            note(*it, ok, msg);
                            if (!p.eof()) { auto v = p.get_next<T...>(); note(v, p.valid(), p.error_msg()); }
                            ++it;
                        }
                    }
                    if (it != last || !(it == last)) { ++it; }
                }
                all.push_back({name + forms[form], rs});
            }
        };
        step("iterate<Ts>", [](parser& p) { return p.iterate<T...>(); });
        step("iterate_object<obj,Ts>", [](parser& p) { return p.iterate_object<obj, T...>(); });
        with("try_next<Ts>", [](parser& p) {
            auto [v] = p.try_next<T...>().values();
            if (bool(v) != p.valid()) X->violation("try_next: the value does not agree with valid()");
            return v ? *v : ret{};
        });
        with("try_object<obj,Ts>", [](parser& p) {
            auto [v] = p.try_object<obj, T...>().values();
            if (bool(v) != p.valid()) X->violation("try_object: the value does not agree with valid()");
            return v ? *v : obj{};
        });
        if constexpr (plain) {
            with("get_next<tuple>", [](parser& p) { return p.get_next<tup>(); });
            with("get_next<tied>", [](parser& p) { return p.get_next<tied>(); });
            with("get_object<obj,tuple>", [](parser& p) { return p.get_object<obj, tup>(); });
            iterate("iterate<tuple>", [](parser& p) { return p.iterate<tup>(); });
            iterate("iterate<tied>", [](parser& p) { return p.iterate<tied>(); });
        }
        return all;
    }
    static void run(const string& types) {
        size_t n = types.size();
        all_rows(1, n + 1, 5, [&](const vector<string>& row, const string& line) {
            if (!X->take()) return;
            for (auto& r : converter_forms(line)) {
                ++X->evals;
                ++X->transitions;
                if (r.r.ok) ++X->nontrivial;
                if (!judge(r.what, types, row, r.r)) break;
            }
        });
        // texts of up to 3 rows
        vector<vector<string>> rows;
        vector<string> lines;
        all_rows(n, n, n > 2 ? 3 : 4, [&](const vector<string>& r, const string& l) { if (l.empty()) return; rows.push_back(r); lines.push_back(l); });
        rows.push_back(vector<string>(n + 1, "5"));
        lines.push_back(vk::repeat("5,", n) + "5");
        if (rows.size() > 14 && !X->thorough) { // good and bad rows alike
            vector<vector<string>> r2;
            vector<string> l2;
            for (size_t i = 0; i < rows.size(); i += rows.size() / 9) { r2.push_back(rows[i]); l2.push_back(lines[i]); }
            rows = r2;
            lines = l2;
        }
        auto read_all = [&](const vector<int>& ix) {
                if (!X->take()) return;
                const size_t k = ix.size();
                string text;
                for (int i : ix) text += lines[i] + "\n";
                for (auto& [name, rs] : parser_forms(text)) {
                    ++X->evals;
                    ++X->transitions;
                    if (rs.size() != k) { X->violation(name + " types " + types + " text " + vk::show(text) + ": " + std::to_string(rs.size()) + " rows"); return; }
                    for (size_t i = 0; i < k; ++i) { if (rs[i].ok) ++X->nontrivial; if (!judge(name + " of row " + std::to_string(i) + " of " + vk::show(text), types, rows[ix[i]], rs[i])) return; }
                }
        };
        for (size_t k = 0; k <= 3; ++k) vk::seqs_n(rows.size(), k, read_all);
        // long texts
        for (size_t k : {9, 33, 66, 129, 300})
            for (size_t step = 0; step < 4; ++step) {
                vector<int> ix;
                for (size_t i = 0; i < k; ++i) ix.push_back(int((step < 2 ? i * (step + 1) : i / (step * 3)) % rows.size()));
                read_all(ix);
            }
        X->bound("rows_of_long_texts", 300);
        X->states += rows.size();
    }
};

// many columns
template <size_t... I>
void wide_row(std::index_sequence<I...>) {
    constexpr size_t N = sizeof...(I);
    ss::converter<ss::string_error> c;
    for (size_t bad = 0; bad <= N; ++bad) {
        if (!X->take()) continue;
        ++X->evals;
        string types, line;
        vector<string> row;
        for (size_t i = 0; i < N; ++i) { types += "isvro"[i % 5]; row.push_back(i == bad ? "x" : std::to_string(i + 2)); line += (i ? "," : "") + row[i]; }
        result r;
        emit(r.vals, c.template convert<typename type_of<I % 5>::t...>(line.c_str()));
        r.ok = c.valid();
        r.msg = c.error_msg();
        if (!judge("convert", types, row, r)) return;
        ++X->evals;
        ss::converter<ss::throw_on_error> tc;
        result t;
        t.vals = reference(types, row).defaults;
        try {
            vector<string> v;
            emit(v, tc.template convert<typename type_of<I % 5>::t...>(line.c_str()));
            t.vals = v;
            t.ok = true;
        } catch (const ss::exception& e) { t.msg = e.what(); }
        judge("throwing convert", types, row, t);
    }
}

// numbers of columns which are equal to the wanted one in fewer bits
void many_columns() {
    ss::converter<ss::string_error> c;
    for (size_t base : {0, 16, 32, 64, 128, 256, 512, 768, 1024, 4096, 32768, 65536, 131072, 1 << 20})
        for (size_t n = base; n < base + 5; ++n)
            for (int form = 0; form < 4; ++form) {
                if (n == 0 || !X->take()) continue;
                X->evals += 3;
                vector<string> row;
                string line;
                for (size_t i = 0; i < n; ++i) { row.push_back(std::to_string(i % 10)); line += (i ? "," : "") + row[i]; }
                auto one = [&](const string& types, auto&& f) {
                    ++X->transitions;
                    result r;
                    emit(r.vals, f());
                    r.ok = c.valid();
                    r.msg = c.error_msg();
                    judge("convert of " + std::to_string(n) + " columns", types, row, r);
                };
                if (form == 0) one("i", [&] { return c.convert<int>(line.c_str()); });
                if (form == 1) one("is", [&] { return c.convert<int, string>(line.c_str()); });
                if (form == 2) one("isi", [&] { return c.convert<int, string, int>(line.c_str()); });
                if (form == 3) one("vsii", [&] { return c.convert<void, string, int, int>(line.c_str()); });
                if (form == 3) {
                    string text = line + "\n1,2\n";
                    ss::parser<ss::string_error> p{text.data(), text.size()};
                    result r;
                    emit(r.vals, p.get_next<int, string>());
                    r.ok = p.valid();
                    if (r.ok != (n == 2)) X->violation("a row of " + std::to_string(n) + " columns is " + (r.ok ? "" : "not ") + "two columns");
                    emit(r.vals, p.get_next<int, string>());
                    if (!p.valid()) X->violation("the row behind " + std::to_string(n) + " columns is not read");
                }
            }
    X->bound("columns_max", (1 << 20) + 4);
}

template <typename S>
void aggregates() {
    ss::converter<ss::string_error> c;
    all_rows(1, 4, 5, [&](const vector<string>& row, const string& line) {
        if (!X->take()) return;
        auto one = [&](const string& what, auto&& f) {
            ++X->evals;
            ++X->transitions;
            string l = line;
            S v = f(l.data());
            result r;
            r.ok = c.valid();
            r.msg = c.error_msg();
            emit(r.vals, v);
            if (r.ok) ++X->nontrivial;
            judge(what, "sii", row, r);
        };
        one("convert<aggregate>", [&](char* l) { return c.convert<S>(l); });
        one("convert_object<aggregate>", [&](char* l) { return c.convert_object<S, string, int, int>(l); });
    });
    using parser = ss::parser<ss::string_error>;
    vector<string> lines{"a,1,2", "5,1,1", "x,,1", "a,1", "-7,5,-7", ",1,x"};
    vector<vector<string>> rows{{"a", "1", "2"}, {"5", "1", "1"}, {"x", "", "1"}, {"a", "1"}, {"-7", "5", "-7"}, {"", "1", "x"}};
    for (size_t k = 0; k <= 4; ++k)
        vk::seqs_n(rows.size(), k, [&](const vector<int>& ix) {
            if (!X->take()) return;
            string text;
            for (int i : ix) text += lines[i] + "\n";
            for (int form = 0; form < 6; ++form) {
                parser p{text.data(), text.size()};
                size_t n = 0;
                auto note = [&](const S& v) {
                    ++X->evals;
                    ++X->transitions;
                    result r;
                    r.ok = p.valid();
                    r.msg = p.error_msg();
                    emit(r.vals, v);
                    if (n < k) judge("aggregate form " + std::to_string(form) + " of " + vk::show(text), "sii", rows[ix[n]], r);
                    ++n;
                };
                switch (form) {
                case 0: while (!p.eof() && n < 9) note(p.get_next<S>()); break;
                case 1: while (!p.eof() && n < 9) note(p.get_object<S, string, int, int>()); break;
                case 2: for (auto& v : p.iterate<S>()) { note(v); if (n > 9) break; } break;
                case 3: for (auto&& v : p.iterate_object<S, string, int, int>()) { note(v); if (n > 9) break; } break;
                case 4: while (!p.eof() && n < 9) { auto [v] = p.try_next<S>().values(); note(v ? *v : S{}); } break;
                case 5: while (!p.eof() && n < 9) { auto [v] = p.try_object<S, string, int, int>().values(); note(v ? *v : S{}); } break;
                }
                if (n != k) X->violation("aggregate form " + std::to_string(form) + " of " + vk::show(text) + ": " + std::to_string(n) + " rows");
            }
        });
}

void explore(vk::ctx& x) {
    X = &x;
#if PART < 8
    vector<list> v;
    if (PART == 0) {
        add_all<1, 0, 1>(v, std::make_index_sequence<5>{});
        add_all<2, 0, 1>(v, std::make_index_sequence<25>{});
    }
    add_all<3, PART, 8>(v, std::make_index_sequence<(125 - PART + 7) / 8>{});
    add_all<4, PART, 8>(v, std::make_index_sequence<(625 - PART + 7) / 8>{});
    lists_x_rows(v);
#elif PART == 8
    forms<int>::run("i");
    forms<string>::run("s");
    forms<ss::gt<int, 1>>::run("r");
    forms<int, string>::run("is");
#elif PART == 9
    forms<void, int>::run("vi");
    forms<int, ss::gt<int, 1>>::run("ir");
    forms<string, void, int>::run("svi");
    wide_row(std::make_index_sequence<40>{});
    many_columns();
#elif PART == 10
    forms<int, string, int>::run("isi");
    forms<int, std::optional<int>>::run("io");
    forms<std::optional<int>, void, ss::gt<int, 1>>::run("ovr");
#elif PART == 11
    aggregates<shape_xy>();
#endif
}
