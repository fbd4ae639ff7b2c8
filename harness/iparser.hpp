// Type-erased view of ss::parser so that explorers can treat setups, error modes
// and sources uniformly. Uses the public API only.
#pragma once
#include "setups.hpp"
#include <memory>
#include <tuple>
#include <string_view>
#include <variant>

enum emode { BOOL = 0, STR = 1, THR = 2 };
inline const char* mode_name(int m) { return m == BOOL ? "default" : m == STR ? "string_error" : "throw_on_error"; }

template <typename L, int M>
struct with_mode_of {
    using type = cat<L, std::conditional_t<M == STR, opts<ss::string_error>, std::conditional_t<M == THR, opts<ss::throw_on_error>, opts<>>>>;
};
template <typename L, int M>
using with_mode = typename with_mode_of<L, M>::type;

// predefined setups: 0 ss::setup<...>, 1 std::tuple<...>, 2 ss::setup<std::tuple<...>>, 3 ss::setup<ss::setup<...>>
template <int W, typename L>
struct wrapped {};
template <typename... O> using setup_of_tuple = ss::setup<std::tuple<O...>>;
template <typename... O> using setup_of_setup = ss::setup<ss::setup<O...>>;
template <int W, typename L, int M>
struct with_mode_of<wrapped<W, L>, M> {
    using in = with_mode<L, M>;
    using type = std::conditional_t<W == 0, opts<typename in::template apply<ss::setup>>, std::conditional_t<W == 1, opts<typename in::template apply<std::tuple>>,
                 std::conditional_t<W == 2, opts<typename in::template apply<setup_of_tuple>>, opts<typename in::template apply<setup_of_setup>>>>>;
};
template <int W, typename L>
model::cfg cfg_of(wrapped<W, L>) { return cfg_of(L{}); }

struct row {
    bool ok = false;
    std::vector<std::string> vals;
    std::string msg;
    bool threw_other = false;
    bool operator==(const row& o) const { return ok == o.ok && vals == o.vals; }
};

inline std::string show(const row& r) {
    return r.ok ? vk::show(r.vals) : "error" + (r.msg.empty() ? "" : "(" + r.msg + ")");
}

// textual form of every value type used by the explorers
inline void emit(std::vector<std::string>& v, const std::string& s) { v.push_back(s); }
inline void emit(std::vector<std::string>& v, std::string_view s) { v.emplace_back(s); }
inline void emit(std::vector<std::string>& v, int i) { v.push_back(std::to_string(i)); }
inline void emit(std::vector<std::string>& v, double d) { v.push_back(std::to_string(d)); }
inline void emit(std::vector<std::string>& v, char c) { v.push_back(std::string(1, c)); }
template <typename... Ts>
void emit(std::vector<std::string>& v, const std::tuple<Ts...>& t);
template <typename... Ts>
void emit(std::vector<std::string>& v, const std::variant<Ts...>& t);
template <typename T>
void emit(std::vector<std::string>& v, const std::optional<T>& o) {
    if (o) emit(v, *o); else v.push_back("<none>");
}
template <typename... Ts>
void emit(std::vector<std::string>& v, const std::tuple<Ts...>& t) {
    std::apply([&](const auto&... e) { (emit(v, e), ...); }, t);
}
template <typename... Ts>
void emit(std::vector<std::string>& v, const std::variant<Ts...>& t) {
    std::visit([&](const auto& e) { emit(v, e); }, t);
}

struct source {
    bool file = false;
    std::string path;
    const char* buf = nullptr;
    size_t size = 0;
    std::string name() const { return file ? path : std::string("CSV data buffer"); }
};

// signature: one letter per column. s string, i int, v string_view, o optional<int>
template <char C> struct sig_type;
template <> struct sig_type<'s'> { using type = std::string; };
template <> struct sig_type<'i'> { using type = int; };
template <> struct sig_type<'v'> { using type = std::string_view; };
template <> struct sig_type<'o'> { using type = std::optional<int>; };
template <> struct sig_type<'_'> { using type = void; };
template <char... Cs>
struct sig {
    using type = std::tuple<typename sig_type<Cs>::type...>;
    static std::string text() { return {Cs...}; }
};
template <typename... S>
struct sig_list {};

#ifndef SIGS
#define SIGS sig_list<sig<'s'>, sig<'s', 's'>, sig<'s', 's', 's'>, sig<'s', 's', 's', 's'>, sig<'s', 's', 's', 's', 's'>, sig<'i'>, sig<'i', 'i'>, sig<'s', 'i'>>
#endif

template <typename... S>
std::vector<std::string> sig_texts(sig_list<S...>) { return {S::text()...}; }
inline const std::vector<std::string>& sigs() {
    static const std::vector<std::string> v = sig_texts(SIGS{});
    return v;
}
inline int sig_index(const std::string& s) {
    for (size_t i = 0; i < sigs().size(); ++i) if (sigs()[i] == s) return int(i);
    return -1;
}

struct iparser {
    virtual ~iparser() = default;
    virtual row next(int sig) = 0;
    virtual bool ignore_next() = 0;
    virtual bool valid() const = 0;
    virtual bool eof() const = 0;
    virtual size_t line() const = 0;
    virtual size_t position() const = 0;
    virtual std::string error_msg() const = 0;
    virtual row header() = 0;
    virtual row raw_header() = 0;
    virtual row field_exists(const std::string& f) = 0;
    virtual row use_fields(const std::vector<std::string>& f) = 0;
    virtual std::unique_ptr<iparser> move_out() = 0;
    virtual void assign_from(iparser& o) = 0;
    // a chain of two conversions of one row; the parser is moved away and back in between
    virtual std::vector<std::string> chain(int moves) = 0;
};

template <typename L, int M>
struct adapter final : iparser {
    using O = with_mode<L, M>;
    using P = typename O::template apply<ss::parser>;
    static constexpr bool has_header = !O::template apply<ss::setup>::ignore_header;
    P p;

    explicit adapter(const source& s, const std::string& d)
        : p(s.file ? P(s.path, d) : P(s.buf, s.size, d)) {}
    explicit adapter(P&& o) : p(std::move(o)) {}

    template <typename F>
    row guarded(F&& f) {
        row r;
        if constexpr (M == THR) {
            try {
                f(r);
                r.ok = true;
            } catch (const ss::exception& e) {
                r.vals.clear();
                r.msg = e.what();
            }
        } else {
            f(r);
            r.ok = p.valid();
            if constexpr (M == STR) if (!r.ok) r.msg = p.error_msg();
            if (!r.ok) r.vals.clear();
        }
        return r;
    }

    template <typename S>
    static row next_one(adapter& a) {
        return a.guarded([&](row& r) { emit(r.vals, a.p.template get_next<typename S::type>()); });
    }
    template <typename... S>
    row dispatch(int s, sig_list<S...>) {
        using fn = row (*)(adapter&);
        static constexpr fn table[] = {&next_one<S>...};
        return table[s](*this);
    }
    row next(int s) override { return dispatch(s, SIGS{}); }
    bool ignore_next() override { return p.ignore_next(); }
    bool valid() const override { return p.valid(); }
    bool eof() const override { return p.eof(); }
    size_t line() const override { return p.line(); }
    size_t position() const override { return p.position(); }
    std::string error_msg() const override {
        if constexpr (M == STR) return p.error_msg(); else return {};
    }
    row header() override {
        if constexpr (has_header) return guarded([&](row& r) { r.vals = p.header(); });
        else return {};
    }
    row raw_header() override {
        row r;
        r.ok = true;
        if constexpr (has_header) r.vals = {p.raw_header()};
        return r;
    }
    row field_exists(const std::string& f) override {
        if constexpr (has_header) return guarded([&](row& r) { r.vals = {p.field_exists(f) ? "yes" : "no"}; });
        else return {};
    }
    row use_fields(const std::vector<std::string>& f) override {
        if constexpr (has_header)
            return guarded([&](row&) {
                switch (f.size()) {
                case 0: return p.use_fields();
                case 1: return p.use_fields(f[0]);
                case 2: return p.use_fields(f[0], f[1]);
                case 3: return p.use_fields(f[0].c_str(), f[1], f[2]);
                default: return p.use_fields(f);
                }
            });
        else return {};
    }
    std::unique_ptr<iparser> move_out() override { return std::make_unique<adapter>(std::move(p)); }
    void assign_from(iparser& o) override { p = std::move(static_cast<adapter&>(o).p); }
    std::vector<std::string> chain(int moves) override {
        std::vector<std::string> r;
#ifdef VK_CHAIN
        if constexpr (M != THR) {
            auto c = p.template try_next<int>();
            if (moves == 1) { P t(std::move(p)); p = std::move(t); }
            if (moves == 2) { P t(std::move(p)); P u(std::move(t)); t = std::move(u); p = std::move(t); }
            auto [a, b] = c.template or_else<std::string, std::string>().values();
            emit(r, a);
            if (b) emit(r, *b); else r.push_back("<none>");
            r.push_back(p.valid() ? "valid" : "invalid");
        }
#endif
        return r;
    }
};

using maker = std::unique_ptr<iparser> (*)(const source&, const std::string& delim);

template <typename L, int M>
std::unique_ptr<iparser> make_parser(const source& s, const std::string& d) {
    return std::make_unique<adapter<L, M>>(s, d);
}

struct setup_entry {
    model::cfg c;
    maker make[3];
};

#ifndef MODES
#define MODES 7
#endif
template <typename L>
setup_entry entry() {
    setup_entry e{};
    e.c = cfg_of(L{});
    if constexpr ((MODES >> BOOL) & 1) e.make[BOOL] = &make_parser<L, BOOL>;
    if constexpr ((MODES >> STR) & 1) e.make[STR] = &make_parser<L, STR>;
    if constexpr ((MODES >> THR) & 1) e.make[THR] = &make_parser<L, THR>;
    return e;
}

////////////////
// expected results
////////////////

inline bool model_int(const std::string& s, int& out) {
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && s[i] == '-') neg = true, ++i;
    if (i >= s.size() || s.size() - i > 25) return false; // long leading zeros are not used
    long long v = 0;
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') return false;
        v = v * 10 + (s[i] - '0');
        if (v > 3000000000ll) return false;
    }
    if (neg) v = -v;
    if (v < -2147483648ll || v > 2147483647ll) return false;
    out = int(v);
    return true;
}

// converts columns by signature; the result of reading one record
inline row model_convert(const std::vector<std::string>& cols, const std::string& sg) {
    row r;
    if (cols.size() != sg.size()) { r.msg = "columns"; return r; }
    for (size_t i = 0; i < cols.size(); ++i) {
        int v;
        switch (sg[i]) {
        case 's': case 'v': r.vals.push_back(cols[i]); break;
        case 'o': r.vals.push_back(model_int(cols[i], v) ? std::to_string(v) : "<none>"); break;
        case 'i':
            if (!model_int(cols[i], v)) { r.vals.clear(); r.msg = "conversion"; return r; }
            r.vals.push_back(std::to_string(v));
            break;
        case '_': break;
        }
    }
    r.ok = true;
    return r;
}

inline row model_row(const model::record& rec, const std::string& sg) {
    row r;
    if (rec.e != model::err::ok) { r.msg = model::name(rec.e); return r; }
    return model_convert(model::columns_for(rec, sg.size()), sg);
}

inline row model_next(model::parser& m, const std::string& sg) {
    auto rec = m.read();
    if (!rec) { row r; r.msg = "eof"; return r; }
    return model_row(*rec, sg);
}
