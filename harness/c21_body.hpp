// Workload of C21, included once per variant of the library: 'ss' is a macro which
// names the variant's namespace, VARIANT is the namespace of this copy.
namespace ss {
template <>
inline bool extract(const char* b, const char* e, ::shape& v) {
    v.s.assign(b, e);
    return v.s != "bad";
}
} // namespace ss

namespace VARIANT {
using std::string;
enum { NOPS = 11 };
using std::vector;

template <char A> struct check_len {
    bool ss_valid(const string& s) const { return s.size() != 2; }
    const char* error() const { return "two characters"; }
};
struct tied_t { string a; int b = 0; auto tied() { return std::tie(a, b); } };
struct made_t { made_t() = default; made_t(string x, string y) : t(x + "/" + y) {} string t; };

inline void put(string& o, const string& s) { o += vk::show(s); }
inline void put(string& o, std::string_view s) { o += vk::show(string(s)); }
inline void put(string& o, bool b) { o += b ? "true" : "false"; }
inline void put(string& o, char c) { o += "'" + string(1, c) + "'"; }
inline void put(string& o, float d) { char b[64]; snprintf(b, sizeof b, "%a", double(d)); o += b; }
inline void put(string& o, double d) { char b[64]; snprintf(b, sizeof b, "%a", d); o += b; }
inline void put(string& o, const ::shape& s) { o += "shape" + s.s; }
inline void put(string& o, const tied_t& s) { o += s.a + ":" + std::to_string(s.b); }
inline void put(string& o, const made_t& s) { o += s.t; }
inline void put(string& o, const ss::int8& s) { o += std::to_string(int(int8_t(s))); }
inline void put(string& o, const ss::uint8& s) { o += std::to_string(int(uint8_t(s))); }
template <typename T> std::enable_if_t<std::is_integral_v<T>> put(string& o, T i) { o += std::to_string(i); }
template <typename T> void put(string& o, const std::optional<T>& v);
template <typename... Ts> void put(string& o, const std::variant<Ts...>& v);
template <typename... Ts> void put(string& o, const std::tuple<Ts...>& v);
template <typename T> void put(string& o, const std::optional<T>& v) { if (v) put(o, *v); else o += "none"; }
template <typename... Ts> void put(string& o, const std::variant<Ts...>& v) { o += std::to_string(v.index()); std::visit([&](const auto& e) { put(o, e); }, v); }
template <typename... Ts> void put(string& o, const std::tuple<Ts...>& v) { std::apply([&](const auto&... e) { ((put(o, e), o += ","), ...); }, v); }

template <int M, typename X, typename F> void note(string& o, X& x, F&& f) {
    try { f(); }
    catch (const ss::exception& e) { o += string("ss::exception ") + e.what(); }
    catch (const std::bad_alloc&) { o += "bad_alloc"; }
    o += x.valid() ? " valid" : " invalid";
    if constexpr (M == 1) o += x.error_msg();
    o += "; ";
}
template <int M, typename P> void state(string& o, P& p) {
    o += (p.eof() ? "eof " : "") + std::to_string(p.line()) + "@" + std::to_string(p.position()) + "\n";
}

// M: 0 default, 1 string_error, 2 throw_on_error
template <typename P, int M, bool IH> void op(string& o, std::unique_ptr<P>& q, int k) {
    P& p = *q;
    vk::g_alloc.mark(7919 + k);
    note<M>(o, p, [&] {
        vk::g_alloc.mark(7907);
        switch (k) {
        case 0: put(o, p.template get_next<string, string>()); break;
        case 1: put(o, p.template get_next<string>()); break;
        case 2: put(o, p.template get_next<int, std::optional<char>>()); break;
        case 3: o += p.ignore_next() ? "more" : "none"; break;
        case 4:
            if constexpr (M != 2) {
                auto t = p.template try_next<int>([&](int i) { o += "i" + std::to_string(i); return i != 1; })
                             .on_error([&] { o += "failed "; })
                             .template or_else<string, ::shape>([&](const string& a, const ::shape&) { o += "two " + a; })
                             .template or_object<made_t, string, string>()
                             .template or_else<ss::ne<string>>()
                             .values();
                put(o, t);
            } else {
                put(o, p.template get_object<made_t, string, string>());
            }
            break;
        case 5:
            if constexpr (!IH) {
                for (auto& h : p.header()) put(o, h);
                o += p.raw_header();
                note<M>(o, p, [&] { o += p.field_exists("a") ? "yes" : "no"; });
                p.use_fields("b", "a");
            } else {
                put(o, p.template get_next<tied_t>());
            }
            break;
        case 6:
            if constexpr (true) {
                int n = 0;
                for (auto& t : p.template iterate<std::string_view, check_len<'a'>>()) { put(o, t); if (++n == 2) break; }
            }
            break;
        case 7: { auto n = std::make_unique<P>(std::move(p)); P& r = *n; *q = std::move(r); n.reset(); break; }
        case 8:
            for (auto& t : p.template iterate_object<tied_t, string, int>()) { put(o, t); break; }
            break;
        case 9: // rarer calls, a failing one does not end the others
            if constexpr (!IH) {
                note<M>(o, p, [&] { p.use_fields("a", "a"); });
                note<M>(o, p, [&] { p.use_fields("b", "a", "b"); });
                note<M>(o, p, [&] { p.use_fields(); });
                note<M>(o, p, [&] { p.use_fields("nope"); });
                note<M>(o, p, [&] { p.use_fields("a", "nope"); });
                note<M>(o, p, [&] { o += p.field_exists("nope") ? "yes" : "no"; });
            }
            note<M>(o, p, [&] { put(o, p.template get_next<string, void, ss::ax<int, 1>>()); });
            note<M>(o, p, [&] { put(o, p.template get_next<std::tuple<ss::ne<string>, string>>()); });
            state<M>(o, p);
            if constexpr (!IH) note<M>(o, p, [&] { p.use_fields(string("b")); });
            note<M>(o, p, [&] { put(o, p.template get_next<int>()); });
            note<M>(o, p, [&] { put(o, p.template get_object<made_t, string, string>()); });
            break;
        case NOPS - 1:
            if constexpr (!IH) { p.use_fields("a"); }
            if constexpr (M != 2) {
                put(o, p.template try_object<tied_t, string, int>([](const tied_t& s) { return s.a != "a"; }).template or_else<string>([](const string& s) { return s.size() > 1; })
                           .template or_object<made_t, string, string>([] { return false; }).on_error([&] { o += "all failed "; }).template or_else<std::optional<int>, string>().values());
            }
            { string n; for (auto it = p.template iterate<string>().begin(); it != p.template iterate<string>().end(); ++it) { n += *it; if (n.size() > 3) break; } o += n; }
            break;
        }
    });
    state<M>(o, *q);
}

template <typename P, int M, bool IH> string play(const request& r) {
    string o;
    std::unique_ptr<P> p;
    try {
        if (r.path) p = std::make_unique<P>(string(r.path), string(r.delim));
        else p = std::make_unique<P>(r.data, r.size, r.delim);
    }
    catch (const ss::exception& e) { return string("constructor: ") + e.what(); }
    catch (const std::bad_alloc&) { return "constructor: bad_alloc"; }
    if constexpr (M == 1) o += p->error_msg();
    state<M>(o, *p);
    bool past = false;
    for (size_t n = 0; n < 14 && !past; ++n) {
        past = p->eof();
        op<P, M, IH>(o, p, r.ops[n % r.nops]);
    }
    return o;
}

template <typename C, int M> string convert(const request& r) {
    string o;
    C c;
    static vk::guard_page g(1 << 16);
    auto line = [&] { return g.putz(string(r.data, r.size)); };
    auto show_split = [&](const auto& s, const char* base) { for (auto& [b, e] : s) o += std::to_string(b - base) + "+" + vk::show(string(b, e)); };
    note<M>(o, c, [&] { char* l = line(); show_split(c.split(l, r.delim), l); o += vk::show(string(l)); });
    note<M>(o, c, [&] { put(o, c.template convert<string, string>(line(), r.delim)); });
    note<M>(o, c, [&] { put(o, c.template convert<int, void, std::optional<int>>()); });
    C d(c);
    note<M>(o, d, [&] { put(o, d.template convert<tied_t>(line(), r.delim)); });
    note<M>(o, d, [&] { put(o, d.template convert_object<made_t, string, string>(d.split(line(), r.delim))); });
    note<M>(o, c, [&] { put(o, c.template convert<std::variant<int, double, string>>(line(), r.delim)); });
    note<M>(o, c, [&] { put(o, c.template convert<ss::ne<string>>(c.split(line(), r.delim))); });
    return o;
}

template <typename T> void one(string& o, const char* b, const char* e) {
    T v{};
    bool ok = ss::extract(b, e, v);
    if (ok) put(o, v); else o += "no";
    o += " ";
}
inline string extracts(const request& r) {
    string o;
    const char *b = r.data, *e = r.data + r.size;
    one<short>(o, b, e); one<unsigned short>(o, b, e); one<int>(o, b, e); one<unsigned>(o, b, e); one<long>(o, b, e); one<unsigned long>(o, b, e);
    one<long long>(o, b, e); one<unsigned long long>(o, b, e); one<ss::int8>(o, b, e); one<ss::uint8>(o, b, e);
    one<char>(o, b, e); one<signed char>(o, b, e); one<unsigned char>(o, b, e); one<bool>(o, b, e); one<float>(o, b, e); one<double>(o, b, e);
    one<string>(o, b, e); one<std::string_view>(o, b, e); one<std::optional<int>>(o, b, e); one<std::optional<double>>(o, b, e);
    one<std::variant<int, double, bool, char, string>>(o, b, e); one<std::variant<short, ::shape>>(o, b, e); one<::shape>(o, b, e);
    return o;
}
template <typename T> void restricted(string& o, ss::converter<ss::string_error>& c, const char* l) {
    put(o, c.template convert<T>(l));
    o += c.valid() ? " " : c.error_msg() + " ";
}
inline string restrictions(const request& r) {
    string o, l(r.data, r.size);
    ss::converter<ss::string_error> c;
    restricted<ss::ax<int, 1, 3, -2>>(o, c, l.c_str()); restricted<ss::nx<int, 1, 3, -2>>(o, c, l.c_str());
    restricted<ss::gt<int, 1>>(o, c, l.c_str()); restricted<ss::gte<int, 1>>(o, c, l.c_str());
    restricted<ss::lt<int, 1>>(o, c, l.c_str()); restricted<ss::lte<int, 1>>(o, c, l.c_str());
    restricted<ss::ir<int, -1, 2>>(o, c, l.c_str()); restricted<ss::oor<int, -1, 2>>(o, c, l.c_str());
    restricted<ss::gt<double, 1>>(o, c, l.c_str()); restricted<ss::lte<float, 2>>(o, c, l.c_str()); restricted<ss::ir<char, '0', '2'>>(o, c, l.c_str());
    restricted<ss::ne<string>>(o, c, l.c_str()); restricted<check_len<'b'>>(o, c, l.c_str()); restricted<ss::ax<char, '1', '2'>>(o, c, l.c_str());
    restricted<std::optional<short>>(o, c, l.c_str()); restricted<ss::nx<unsigned, 1, 3>>(o, c, l.c_str());
    return o;
}

inline string read_op(const request& r) { return (void)r, ""; }

#define RUN(IH, ...) {&play<ss::parser<__VA_ARGS__>, 0, IH>, &play<ss::parser<__VA_ARGS__ ADD ss::string_error>, 1, IH>, &play<ss::parser<__VA_ARGS__ ADD ss::throw_on_error>, 2, IH>}
#define CONV(...) {&convert<ss::converter<__VA_ARGS__>, 0>, &convert<ss::converter<__VA_ARGS__ ADD ss::string_error>, 1>, &convert<ss::converter<__VA_ARGS__ ADD ss::throw_on_error>, 2>}
inline vector<vector<string (*)(const request&)>> programs() {
    return {
#define ADD
#if PART == 0
        RUN(false, ),
#endif
#undef ADD
#define ADD ,
#if PART == 1
        RUN(false, ss::quote<'"'>, ss::escape<'\\'>, ss::multiline),
#elif PART == 2
        RUN(false, ss::quote<'"'>, ss::multiline_restricted<1>, ss::ignore_empty),
#elif PART == 3
        RUN(false, ss::escape<'\\'>, ss::trim<' '>, ss::multiline_restricted<2>),
#elif PART == 4
        RUN(true, ss::quote<'"'>, ss::escape<'\\'>, ss::trim_left<' '>, ss::ignore_header),
#elif PART == 5
        RUN(true, ss::trim_right<' '>, ss::ignore_empty, ss::ignore_header),
#elif PART == 6
        CONV(ss::quote<'"'>), CONV(ss::escape<'\\'>, ss::trim<' '>), CONV(ss::quote<'"'>, ss::escape<'\\'>, ss::trim_left<' '>, ss::trim_right<'_'>),
        CONV(ss::quote<'"'>, ss::escape<'\\'>, ss::multiline),
#elif PART == 7
        {&extracts}, {&restrictions},
#endif
#undef ADD
    };
}
#undef RUN
#undef CONV
} // namespace VARIANT
