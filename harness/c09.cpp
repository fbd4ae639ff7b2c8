// C09: bool, character, string, optional, variant and user-defined columns.
#include "common.hpp"
#include SSP_HEADER
#include <optional>
#include <variant>
using std::string;
using std::vector;
template <typename T> using opt = std::optional<T>;
template <typename... T> using var = std::variant<T...>;

// a user-defined conversion: accepts texts of even length without 'r'
struct custom { string text; };
static vector<string> g_calls;
static const char* g_lo;
static const char* g_hi;
static bool g_outside;
template <>
bool ss::extract(const char* b, const char* e, custom& v) {
    g_calls.emplace_back(b, e);
    if (g_lo && (b < g_lo || e > g_hi)) g_outside = true;
    v.text = "custom " + string(b, e);
    return g_calls.back().size() % 2 == 0 && g_calls.back().find('r') == string::npos;
}
// a user-defined conversion without default state
struct upper { char c = '?'; };
template <>
bool ss::extract(const char* b, const char* e, upper& v) {
    if (e - b != 1 || *b < 'A' || *b > 'Z') return false;
    v.c = *b;
    return true;
}

// reference: rendered value, or nothing if the conversion fails
template <typename T> struct ref;
template <> struct ref<bool> { static opt<string> get(const string& s) { if (s == "1" || s == "true") return "true"; if (s == "0" || s == "false") return "false"; return {}; }
    static string show(bool b) { return b ? "true" : "false"; } };
template <typename C> struct ref_char { static opt<string> get(const string& s) { if (s.size() == 1) return "char " + s; return {}; } static string show(C c) { return "char " + string(1, char(c)); } };
template <> struct ref<char> : ref_char<char> {};
template <> struct ref<signed char> : ref_char<signed char> {};
template <> struct ref<unsigned char> : ref_char<unsigned char> {};
template <> struct ref<string> { static opt<string> get(const string& s) { return "text " + s; } static string show(const string& s) { return "text " + s; } };
template <> struct ref<std::string_view> { static opt<string> get(const string& s) { return "view " + s; } static string show(std::string_view s) { return "view " + string(s); } };
template <> struct ref<custom> { static opt<string> get(const string& s) { if (s.size() % 2 || s.find('r') != string::npos) return {}; return "custom " + s; } static string show(const custom& c) { return c.text; } };
template <> struct ref<upper> { static opt<string> get(const string& s) { if (s.size() != 1 || s[0] < 'A' || s[0] > 'Z') return {}; return "upper " + s; } static string show(const upper& c) { return "upper " + string(1, c.c); } };
static bool digits(const string& s, size_t i) { if (i >= s.size()) return false; for (size_t k = i; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return false; return true; }
template <typename T> struct ref_int {
    static opt<string> get(const string& s) {
        size_t i = std::is_signed_v<T> && !s.empty() && s[0] == '-' ? 1 : 0;
        if (!digits(s, i)) return {};
        __int128 v = 0;
        for (size_t k = i; k < s.size(); ++k) v = std::min<__int128>(v * 10 + (s[k] - '0'), __int128(1) << 64);
        if (i) v = -v;
        if (v < std::numeric_limits<T>::min() || v > std::numeric_limits<T>::max()) return {};
        return "int " + std::to_string((long long)v);
    }
    static string show(long long v) { return "int " + std::to_string(v); }
};
template <> struct ref<int> : ref_int<int> {};
template <> struct ref<unsigned> : ref_int<unsigned> {};
template <> struct ref<short> : ref_int<short> {};
template <> struct ref<long long> : ref_int<long long> {};
template <> struct ref<ss::int8> : ref_int<int8_t> {};
template <> struct ref<ss::uint8> : ref_int<uint8_t> {};
template <> struct ref<double> {
    static opt<string> get(const string& s) {
        size_t i = 0, d = 0;
        if (i < s.size() && s[i] == '-') ++i;
        string low;
        for (char c : s.substr(i)) low += char(tolower(c));
        if (low == "inf" || low == "nan" || low == "infinity") return show(strtod(s.c_str(), nullptr));
        while (i < s.size() && isdigit(s[i])) ++i, ++d;
        if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit(s[i])) ++i, ++d; }
        if (!d) return {};
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            ++i;
            if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
            size_t k = i;
            while (i < s.size() && isdigit(s[i])) ++i;
            if (k == i) return {};
        }
        if (i != s.size()) return {};
        return show(strtod(s.c_str(), nullptr));
    }
    static string show(double v) { char b[64]; snprintf(b, sizeof b, "double %.17g", v); return b; }
};
template <> struct ref<float> {
    static opt<string> get(const string& s) { if (!ref<double>::get(s)) return {}; return show(strtof(s.c_str(), nullptr)); }
    static string show(float v) { char b[64]; snprintf(b, sizeof b, "float %.9g", double(v)); return b; }
};
template <typename T> struct ref<opt<T>> {
    static opt<string> get(const string& s) { auto r = ref<T>::get(s); return r ? "opt " + *r : string("none"); }
    static string show(const opt<T>& o) { return o ? "opt " + ref<T>::show(*o) : "none"; }
};
template <typename... T> struct ref<var<T...>> {
    static opt<string> get(const string& s) {
        opt<string> r;
        size_t i = 0;
        ((r || ((r = ref<T>::get(s)) ? (r = std::to_string(i) + ":" + *r, true) : (++i, false))), ...);
        return r;
    }
    static string show(const var<T...>& v) { return std::visit([&](const auto& e) { return std::to_string(v.index()) + ":" + ref<std::decay_t<decltype(e)>>::show(e); }, v); }
};

static vk::guard_page guard(1 << 16), guard2(1 << 16);

static string quoted(const string& s) {
    string r = "\"";
    for (char c : s) { if (c == '"') r += c; r += c; }
    return r + "\"";
}

template <typename T, bool HasCustom>
struct one_type {
    vk::ctx& x;
    string name;
    ss::converter<ss::quote<'"'>, ss::string_error> q{};
    ss::converter<> plain{};

    void fail(const string& s, const string& how, bool ok, const string& got, const opt<string>& want) {
        x.violation(name + " from " + vk::show(s) + " " + how + ": " + (ok ? vk::show(got) : "rejected") + ", expected " + (want ? vk::show(*want) : "rejected"));
    }
    template <typename R, typename Get>
    void compare(const string& s, const string& how, bool ok, const R& r, Get&& get, const opt<string>& want) {
        string got = ok ? ref<T>::show(get(r)) : "";
        if (ok != bool(want) || (ok && got != *want)) fail(s, how, ok, got, want);
        else if (!ok && ref<T>::show(get(r)) != ref<T>::show(T{})) x.violation(name + " from " + vk::show(s) + " " + how + ": not default-constructed after a failure");
    }
    void check(const string& s, bool deep) {
        ++x.evals;
        auto want = ref<T>::get(s);
        if (want) ++x.nontrivial;
        x.outcome(want ? *want : "rejected");
        x.sample([&] { return name + " " + vk::show(s) + " -> " + (want ? *want : string("rejected")); });
        char* p = guard.putz(s);
        g_lo = g_hi = nullptr;
        g_outside = false;
        {
            T v{};
            g_calls.clear();
            bool ok = ss::extract(p, p + s.size(), v);
            string got = ok ? ref<T>::show(v) : "";
            if (ok != bool(want) || (ok && got != *want)) return fail(s, "extract", ok, got, want);
            for (auto& c : g_calls) if (c != s) return x.violation(name + " from " + vk::show(s) + ": user conversion called with " + vk::show(c));
            if (g_calls.size() > 1) return x.violation(name + " from " + vk::show(s) + ": user conversion called more than once");
            if (HasCustom && g_calls.empty() && !want) return x.violation(name + " from " + vk::show(s) + ": user conversion not called");
            // into an object which already holds something else
            T u{};
            for (const char* prev : {"1", "0", "x", "12"}) ss::extract(prev, prev + strlen(prev), u);
            ok = ss::extract(p, p + s.size(), u);
            if (ok != bool(want) || (ok && ref<T>::show(u) != *want)) return fail(s, "extract over another value", ok, ref<T>::show(u), want);
        }
        if (!deep) return;
        bool nul = s.find('\0') != string::npos, nl = s.find('"') != string::npos || s.find(',') != string::npos;
        auto id = [](const T& v) -> const T& { return v; };
        auto line = [&](const string& l) { char* z = guard2.putz(l); g_lo = z; g_hi = z + l.size(); g_outside = false; g_calls.clear(); ++x.transitions; return z; };
        if (!nul) {
            auto r = q.convert<T>(line(quoted(s)));
            compare(s, "as a quoted column", q.valid(), r, id, want);
            auto r2 = q.convert<T, string, T>(line(quoted(s) + ",\"y,\"\"\"," + quoted(s)));
            compare(s, "as first of three quoted columns", q.valid(), r2, [](auto& t) { return std::get<0>(t); }, want);
            compare(s, "as last of three quoted columns", q.valid(), r2, [](auto& t) { return std::get<2>(t); }, want);
            if (HasCustom && want && !g_calls.empty() && (g_calls.size() != 2 || g_calls[0] != s || g_calls[1] != s))
                x.violation(name + " from " + vk::show(s) + ": user conversion of two quoted columns called with " + vk::show(g_calls));
            if (g_outside) x.violation(name + " from " + vk::show(s) + ": user conversion called with a range outside the line");
            // an invalid neighbour
            auto r3 = q.convert<int, T>(line("x," + quoted(s)));
            if (q.valid() || ref<T>::show(std::get<1>(r3)) != ref<T>::show(T{})) x.violation(name + " from " + vk::show(s) + ": values after a failing column before it");
        }
        if (!nul && !nl) {
            auto r = plain.convert<T>(line(s));
            compare(s, "as a column", plain.valid(), r, id, want);
            auto r2 = plain.convert<string, T>(line("1" + string(1, ',') + s));
            compare(s, "as second column", plain.valid(), r2, [](auto& t) { return std::get<1>(t); }, want);
            auto r3 = plain.convert<T, string>(line(s + ",1"));
            compare(s, "as first column", plain.valid(), r3, [](auto& t) { return std::get<0>(t); }, want);
            auto r4 = plain.convert<T, void, T>(line(s + "::" + s + "1::" + s), "::");
            if (s.find(':') == string::npos) compare(s, "with a long delimiter", plain.valid(), r4, [](auto& t) { return std::get<1>(t); }, want);
        }
    }
};

static void texts(vk::ctx& x, const std::function<void(const string&, bool)>& f) {
    bool th = x.thorough;
    auto run = [&](const string& w, bool deep) { if (x.take()) f(w, deep); };
    size_t l1 = th ? 5 : 4, l2 = th ? 5 : 4;
    x.bound("texts_max_length_alphabet_12", l1);
    vk::words("01-.etrufal ", 0, l1, [&](const string& w) { run(w, w.size() < 4); });
    vk::words("falsetruFT0", l1 + 1, th ? 6 : 5, [&](const string& w) { run(w, false); });
    string b = string("01AaZz,\"r:\t-\n") + string("\0\xff", 2);
    x.bound("texts_max_length_alphabet_15", l2 - 1);
    vk::words(b, 0, l2 - 1, [&](const string& w) { run(w, true); });
    // all one and two byte texts
    for (int c = 0; c < 256; ++c) {
        run(string(1, char(c)), true);
        for (int d = 0; d < 256; ++d) run(string{char(c), char(d)}, c % 16 == 0);
    }
    // near misses of every spelling
    for (string w : {"true", "false", "0", "1", "True", "TRUE", "yes", "12", "-12", "127", "128", "-128", "-129", "255", "256", "-1", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "32767", "32768", "1.5", "-.5e3", "nan", "1e", "AZ", "ab", "abcd"}) {
        run(w, true);
        for (size_t p = 0; p <= w.size(); ++p)
            for (int c = 0; c < 256; ++c) {
                string s = w;
                s.insert(p, 1, char(c));
                run(s, c > 31 && c < 127);
                if (p < w.size()) { s = w; s[p] = char(c); run(s, c > 31 && c < 127); }
            }
        for (size_t i = 0; i <= w.size(); ++i) for (size_t j = i; j <= w.size(); ++j) { run(w.substr(0, i) + w.substr(j), true); run(w.substr(0, j) + w.substr(i), true); }
    }
    for (size_t n : {8, 9, 10, 11, 17, 18, 19, 20, 21, 30, 36}) for (char c : {'0', '1', '9'}) {
        for (string h : {"", "-", "1.", "-0.", ".", "0.", "1", "-1"}) for (string t : {"", ".", ".5", "e0", "e1", "e", "x", " "}) run(h + string(n, c) + t, true);
    }
    for (size_t n : {10, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 1000, 5000}) for (char c : {'0', '1', 'a', ' ', 'A'}) { run(string(n, c), true); run("true" + string(n, c), true); run(string(n, c) + "1", true); }
}

template <typename T, bool C = false>
void run(vk::ctx& x, const char* n) {
    one_type<T, C> t{x, n};
    texts(x, [&](const string& s, bool d) { t.check(s, d); });
    ++x.states;
}

#define R(...) run<__VA_ARGS__>(x, #__VA_ARGS__)
void explore(vk::ctx& x) {
    using sv = std::string_view;
#if PART == 0
    R(bool); R(char); R(signed char); R(unsigned char); R(string); R(sv);
#elif PART == 1
    R(opt<bool>); R(opt<char>); R(opt<int>); R(opt<string>); R(opt<ss::int8>); R(opt<opt<int>>);
#elif PART == 2
    R(var<int, string>); R(var<bool, int, double, string>); R(var<char, int>); R(var<double, bool>); R(var<int, double, bool>);
#elif PART == 3
    R(var<ss::int8, ss::uint8, short, unsigned, double>); R(var<opt<int>, string>); R(var<unsigned, int>); R(var<string, int>); R(var<upper, bool, ss::int8, ss::uint8, short, unsigned, int, double, char, string>);
#elif PART == 4
    R(custom, true); R(opt<custom>, true); R(var<int, custom>, true); R(var<custom, bool>, true); R(var<upper, custom, sv>, true); R(var<upper, char, bool>);
#elif PART == 5
    R(var<float, string>); R(opt<double>); R(var<float, int, bool>); R(var<opt<custom>, int>, true); R(var<short, long long, float, sv>);
#endif
}
