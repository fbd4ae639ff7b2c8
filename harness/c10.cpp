// C10: restrictions.
#include "common.hpp"
#include SSP_HEADER
#include <limits>
#include <optional>
using std::string;
using std::vector;

static vk::guard_page guard(1 << 16);
static vk::ctx* X;

template <typename T>
static bool same(const T& a, const T& b) { return a == b || (a != a && b != b); }

template <typename R, typename T, bool Full>
struct tester {
    string name, error;
    std::function<bool(const T&)> pred;
    std::function<std::optional<T>(const string&)> conv;
    ss::converter<ss::string_error, ss::quote<'"'>> s{};
    std::conditional_t<Full, ss::converter<ss::throw_on_error, ss::quote<'"'>>, int> t{};
    std::conditional_t<Full, ss::converter<ss::quote<'"'>>, int> b{};

    template <typename... Ts, typename Get>
    void one(const string& line, const string& text, int col, const string& how, Get&& get, bool accepted, bool converts, const T& v) {
        ++X->evals;
        ++X->transitions;
        auto fail = [&](const string& what) { X->violation(name + " " + how + " in row " + vk::show(line) + ": " + what); };
        char* p = guard.putz(line);
        auto r = s.template convert<Ts...>(p);
        if (s.valid() != accepted) return fail(accepted ? "rejected: " + s.error_msg() : "accepted");
        if (accepted && !same<T>(get(r), v)) return fail("the value is changed");
        if constexpr (Full) {
            p = guard.putz(line);
            auto rb = b.template convert<Ts...>(p);
            if (b.valid() != accepted) return fail(string(accepted ? "rejected" : "accepted") + " without string_error");
            p = guard.putz(line);
            string what;
            bool threw = false;
            decltype(r) rt{};
            try { rt = t.template convert<Ts...>(p); } catch (const ss::exception& e) { threw = true; what = e.what(); }
            if (threw == accepted) return fail(string(accepted ? "rejected" : "accepted") + " with throw_on_error");
            if (accepted && (!same<T>(get(rb), v) || !same<T>(get(rt), v))) return fail("the value is changed");
            if (!accepted && what != s.error_msg()) return fail("message " + vk::show(s.error_msg()) + " and exception " + vk::show(what));
        }
        if (accepted) return;
        string msg = s.error_msg();
        bool has = msg.find(error) != string::npos, inv = msg.find("invalid conversion") != string::npos;
        if (converts && (!has || inv)) return fail("message " + vk::show(msg) + " instead of " + vk::show(error));
        if (!converts && (has || !inv)) return fail("message " + vk::show(msg) + " for an unconvertible text");
        if (msg.find("column " + std::to_string(col) + ":") == string::npos) return fail("message " + vk::show(msg) + " names another column than " + std::to_string(col));
        if (msg.find("'" + text + "'") == string::npos) return fail("message " + vk::show(msg) + " names another text than " + vk::show(text));
    }
    void check(const string& x) {
        if (!X->take()) return;
        static_assert(std::is_same_v<ss::no_void_validator_tup_t<R>, T>);
        static_assert(std::is_same_v<ss::no_void_validator_tup_t<R, int>, std::tuple<T, int>>);
        static_assert(std::is_same_v<ss::no_void_validator_tup_t<void, R>, T>);
        std::optional<T> c = conv(x);
        T v = c ? *c : T{};
        if (v != v && name[0] == 'o') return; // whether NaN is outside a range is a matter of taste
        bool acc = c && pred(v);
        if (acc) ++X->nontrivial;
        X->outcome(name + (acc ? "+" : c ? "-" : "x"));
        X->sample([&] { return name + " " + vk::show(x) + " -> " + (acc ? "accepted" : c ? "excluded" : "unconvertible"); });
        auto self = [](auto& r) -> auto& { return r; };
        auto g0 = [](auto& r) -> auto& { return std::get<0>(r); };
        auto g1 = [](auto& r) -> auto& { return std::get<1>(r); };
        auto g2 = [](auto& r) -> auto& { return std::get<2>(r); };
        string q = "\"" + x + "\"";
        one<R>(x, x, 1, "alone", self, acc, bool(c), v);
        if constexpr (!Full) {
            one<int, R, string>("7," + x + ",z", x, 2, "between", g1, acc, bool(c), v);
            return;
        } else {
        one<R>(q, x, 1, "alone quoted", self, acc, bool(c), v);
        one<R, int>(x + ",7", x, 1, "first of two", g0, acc, bool(c), v);
        one<int, R>("7," + x, x, 2, "second of two", g1, acc, bool(c), v);
        one<void, R>("7," + x, x, 2, "after a skipped column", self, acc, bool(c), v);
        one<R, void>(q + ",7", x, 1, "before a skipped column", self, acc, bool(c), v);
        one<int, R, string>("7," + x + ",z", x, 2, "between", g1, acc, bool(c), v);
        one<R, R, R>(x + "," + x + "," + q, x, 1, "three times, first", g0, acc, bool(c), v);
        one<R, R, R>(x + "," + x + "," + q, x, 1, "three times, last", g2, acc, bool(c), v);
        one<int, void, string, R>("1,,a," + x, x, 4, "fourth", g2, acc, bool(c), v);
        one<T, R>(x + "," + x, x, c ? 2 : 1, "behind the same unrestricted type", g1, acc, bool(c), v);
        }
    }
};

template <typename T>
std::optional<T> ints(const string& s) {
    size_t i = std::is_signed_v<T> && !s.empty() && s[0] == '-' ? 1 : 0;
    if (i >= s.size()) return {};
    __int128 v = 0;
    for (size_t k = i; k < s.size(); ++k) { if (s[k] < '0' || s[k] > '9') return {}; v = v * 10 + (s[k] - '0'); if (v > (__int128(1) << 64)) return {}; }
    if (i) v = -v;
    if (v < std::numeric_limits<T>::min() || v > std::numeric_limits<T>::max()) return {};
    return T(v);
}
static std::optional<char> chars(const string& s) { if (s.size() == 1) return s[0]; return {}; }
static std::optional<double> doubles(const string& s) { if (s.empty()) return {}; char* e; double d = strtod(s.c_str(), &e); if (*e || s[0] == ' ' || s[0] == '+') return {}; return d; }
static std::optional<string> strings(const string& s) { return s; }
static std::optional<std::string_view> views(const string& s) { static std::set<string> keep; return std::string_view(*keep.insert(s).first); }

template <typename T> struct texts;
template <typename T> struct int_texts {
    static vector<string> get() {
        vector<string> v;
        int w = X->thorough ? 200 : 40;
        for (int i = -w; i <= w; ++i) v.push_back(std::to_string(i));
        for (long long c : {(long long)std::numeric_limits<T>::min(), (long long)std::numeric_limits<T>::max(), 127ll, 128ll, 255ll, 256ll, 32767ll, 65535ll, 65536ll, 2147483647ll, 4294967296ll})
            for (int d = -3; d <= 3; ++d) v.push_back(std::to_string((__int128(c) + d > __int128(INT64_MAX)) || (__int128(c) + d < __int128(INT64_MIN)) ? c : c + d));
        for (const char* s : {"", "x", "1x", " 1", "+1", "--1", "1.0", "007", "-0"}) v.push_back(s);
        return v;
    }
};
template <> struct texts<int> : int_texts<int> {};
template <> struct texts<short> : int_texts<short> {};
template <> struct texts<unsigned> : int_texts<unsigned> {};
template <> struct texts<long long> : int_texts<long long> {};
template <> struct texts<char> { static vector<string> get() { vector<string> v{"", "ab", "AA"}; for (int c = 1; c < 256; ++c) if (c != ',' && c != '"') v.push_back(string(1, char(c))); return v; } };
template <> struct texts<double> { static vector<string> get() { vector<string> v{"", "x", "1e", "inf", "-inf", "nan", "-nan", "16777217", "-16777217", "-0", "2.9999999999999996", "3.0000000000000004", "1e300", "-1e-300", "4.999999999999999", "5.000000000000001"}; for (int i = -60; i <= 60; ++i) { char b[32]; snprintf(b, sizeof b, "%.3f", i / 8.0); v.push_back(b); } return v; } };
template <> struct texts<float> : texts<double> {};
template <> struct texts<ss::int8> : int_texts<short> {};
template <> struct texts<ss::uint8> : int_texts<short> {};
template <> struct texts<unsigned short> : int_texts<unsigned short> {};
template <> struct texts<string> { static vector<string> get() { vector<string> v; vk::words("aB 0'-", 0, X->thorough ? 5 : 3, [&](const string& w) { v.push_back(w); }); return v; } };
template <> struct texts<std::string_view> : texts<string> {};
template <typename T> std::optional<T> to(const string& s) {
    if constexpr (std::is_same_v<T, char>) return chars(s);
    else if constexpr (std::is_same_v<T, double>) return doubles(s);
    else if constexpr (std::is_same_v<T, float>) { if (!doubles(s)) return {}; return strtof(s.c_str(), nullptr); }
    else if constexpr (std::is_same_v<T, string>) return strings(s);
    else if constexpr (std::is_same_v<T, std::string_view>) return views(s);
    else if constexpr (std::is_same_v<T, ss::int8>) { auto i = ints<int8_t>(s); if (!i) return {}; return T(*i); }
    else if constexpr (std::is_same_v<T, ss::uint8>) { auto i = ints<uint8_t>(s); if (!i) return {}; return T(*i); }
    else return ints<T>(s);
}

template <typename R, typename T, bool Full = true>
void run(const string& name, const string& error, std::function<bool(const T&)> pred) {
    tester<R, T, Full> t{name, error, pred, &to<T>};
    for (auto& s : texts<T>::get()) t.check(s);
    ++X->states;
}

// parameter tables per type
template <typename T> struct params { static constexpr T v[] = {T(-2), T(0), T(3), T(7)}; };
template <> struct params<unsigned> { static constexpr unsigned v[] = {0, 3, 7, 4294967295u}; };
template <> struct params<char> { static constexpr char v[] = {'A', 'a', '0', char(200)}; };
template <> struct params<long long> { static constexpr long long v[] = {-2, 0, 4294967296ll, INT64_MAX}; };
template <typename T> string pn(T v) { return std::to_string((long long)(v)); }

// all parameter lists: digits of I in base 4
// all row shapes for a few of the lists
template <typename T, size_t I> constexpr bool full = I % 16 == 6;
constexpr size_t digit(size_t i, size_t p) { for (; p; --p) i /= 4; return i % 4; }
template <typename T, size_t I, size_t... P>
void lists(std::index_sequence<P...>) {
    string n = "<";
    ((n += pn(params<T>::v[digit(I, P)]) + (P + 1 < sizeof...(P) ? "," : ">")), ...);
    auto in = [](const T& x) { return ((x == params<T>::v[digit(I, P)]) || ...); };
    run<ss::ax<T, params<T>::v[digit(I, P)]...>, T, full<T, I>>("ax" + n, "value excluded", [=](const T& x) { return !in(x); });
    run<ss::nx<T, params<T>::v[digit(I, P)]...>, T, full<T, I>>("nx" + n, "value excluded", [=](const T& x) { return in(x); });
}
template <typename T, size_t N, size_t... I>
void all_lists(std::index_sequence<I...>) { (lists<T, I>(std::make_index_sequence<N>{}), ...); }

template <typename T, size_t I>
void single() {
    constexpr T N = params<T>::v[I];
    run<ss::gt<T, N>, T, I == 2>("gt<" + pn(N) + ">", "validation error", [](const T& x) { return x > N; });
    run<ss::gte<T, N>, T, I == 2>("gte<" + pn(N) + ">", "validation error", [](const T& x) { return x >= N; });
    run<ss::lt<T, N>, T, I == 2>("lt<" + pn(N) + ">", "validation error", [](const T& x) { return x < N; });
    run<ss::lte<T, N>, T, I == 2>("lte<" + pn(N) + ">", "validation error", [](const T& x) { return x <= N; });
}
template <typename T, size_t I, size_t J>
void pairs() {
    constexpr T A = params<T>::v[I], B = params<T>::v[J];
    run<ss::ir<T, A, B>, T, I == 1 && J == 2>("ir<" + pn(A) + "," + pn(B) + ">", "validation error", [](const T& x) { return x >= A && x <= B; });
    run<ss::oor<T, A, B>, T, I == 1 && J == 2>("oor<" + pn(A) + "," + pn(B) + ">", "validation error", [](const T& x) { return x < A || x > B; });
}
template <typename T> void singles() { single<T, 0>(); single<T, 1>(); single<T, 2>(); single<T, 3>(); }
template <typename T, size_t... IJ> void all_pairs(std::index_sequence<IJ...>) { (pairs<T, IJ / 4, IJ % 4>(), ...); }
template <typename T> void comparisons() { singles<T>(); all_pairs<T>(std::make_index_sequence<16>{}); }

// bounds of another type than the values: the comparison is one of numbers
template <typename T, auto N>
void foreign() {
    string n = pn(N) + ">, another type";
    run<ss::gt<T, N>, T, false>("gt<" + n, "validation error", [](const T& x) { return x > N; });
    run<ss::gte<T, N>, T, false>("gte<" + n, "validation error", [](const T& x) { return x >= N; });
    run<ss::lt<T, N>, T, false>("lt<" + n, "validation error", [](const T& x) { return x < N; });
    run<ss::lte<T, N>, T, false>("lte<" + n, "validation error", [](const T& x) { return x <= N; });
    run<ss::ir<T, N, N>, T, false>("ir<N," + n, "validation error", [](const T& x) { return x >= N && x <= N; });
    run<ss::ir<T, T(-3), N>, T, false>("ir<-3," + n, "validation error", [](const T& x) { return x >= T(-3) && x <= N; });
    run<ss::ir<T, N, T(90)>, T, false>("ir<90," + n, "validation error", [](const T& x) { return x >= N && x <= T(90); });
    run<ss::oor<T, T(-3), N>, T, false>("oor<-3," + n, "validation error", [](const T& x) { return x < T(-3) || x > N; });
    run<ss::oor<T, N, T(90)>, T, false>("oor<N,90" + n, "validation error", [](const T& x) { return x < N || x > T(90); });
    run<ss::ax<T, N>, T, false>("ax<" + n, "value excluded", [](const T& x) { return x != N; });
    run<ss::ax<T, T(5), N, T(7)>, T, false>("ax<5,N,7" + n, "value excluded", [](const T& x) { return x != T(5) && x != N && x != T(7); });
    run<ss::nx<T, N>, T, false>("nx<" + n, "value excluded", [](const T& x) { return x == N; });
    run<ss::nx<T, T(5), N, T(7)>, T, false>("nx<5,N,7" + n, "value excluded", [](const T& x) { return x == T(5) || x == N || x == T(7); });
}

template <typename T, auto A, auto B>
void narrow() {
    string n = pn(A) + "," + pn(B) + ">";
    run<ss::gt<T, A>, T, false>("gt<" + n, "validation error", [](const T& x) { return x > A; });
    run<ss::gte<T, A>, T, false>("gte<" + n, "validation error", [](const T& x) { return x >= A; });
    run<ss::lt<T, B>, T, false>("lt<" + n, "validation error", [](const T& x) { return x < B; });
    run<ss::lte<T, B>, T, false>("lte<" + n, "validation error", [](const T& x) { return x <= B; });
    run<ss::ir<T, A, B>, T, false>("ir<" + n, "validation error", [](const T& x) { return x >= A && x <= B; });
    run<ss::ax<T, A, B>, T, false>("ax<" + n, "value excluded", [](const T& x) { return x != A && x != B; });
    run<ss::nx<T, A, B, 0>, T, false>("nx<" + n, "value excluded", [](const T& x) { return x == A || x == B || x == 0; });
}

// user-defined restrictions
struct even { bool ss_valid(const int& v) const { return v % 2 == 0; } const char* error() const { return "number not even"; } };
struct vowel { bool ss_valid(const char& c) const { return string("aeiou").find(c) != string::npos; } };
struct short_text { bool ss_valid(const string& s) const { return s.size() < 3; } const char* error() const { return "text too long"; } };
struct initial { bool ss_valid(const std::string_view& s) const { return !s.empty() && s[0] == 'a'; } const char* error() const { return "wrong initial"; } };
struct stateful { int calls = 0; bool ss_valid(const int& v) { ++calls; return calls == 1 && v > 0; } const char* error() { return calls == 1 ? "not positive" : "reused"; } };

// lists of up to 12 values in both orders, every second number
template <int N, int... I>
void long_list(std::integer_sequence<int, I...>) {
    auto in = [](int v) { return v >= 0 && v < 2 * N && v % 2 == 0; };
    string n = std::to_string(N) + " values>";
    run<ss::ax<int, 2 * I...>, int>("ax<" + n, "value excluded", [=](const int& v) { return !in(v); });
    run<ss::nx<int, 2 * I...>, int>("nx<" + n, "value excluded", [=](const int& v) { return in(v); });
    run<ss::ax<int, 2 * (N - 1 - I)...>, int>("ax<falling " + n, "value excluded", [=](const int& v) { return !in(v); });
    run<ss::nx<int, 2 * (N - 1 - I)...>, int>("nx<falling " + n, "value excluded", [=](const int& v) { return in(v); });
}
template <int... N> void long_lists() { (long_list<N>(std::make_integer_sequence<int, N>{}), ...); }

void explore(vk::ctx& x) {
    X = &x;
#if PART == 0
    all_lists<int, 1>(std::make_index_sequence<4>{});
    all_lists<int, 2>(std::make_index_sequence<16>{});
    comparisons<int>();
#elif PART == 1
    all_lists<int, 3>(std::make_index_sequence<64>{});
#elif PART == 2
    all_lists<char, 1>(std::make_index_sequence<4>{});
    all_lists<char, 2>(std::make_index_sequence<16>{});
    comparisons<char>();
#elif PART == 3
    comparisons<short>();
    comparisons<unsigned>();
    all_lists<unsigned, 2>(std::make_index_sequence<16>{});
#elif PART == 4
    comparisons<long long>();
    all_lists<long long, 2>(std::make_index_sequence<16>{});
    run<ss::ne<string>, string>("ne<string>", "empty field", [](const string& s) { return !s.empty(); });
    run<ss::ne<std::string_view>, std::string_view>("ne<string_view>", "empty field", [](const std::string_view& s) { return !s.empty(); });
    run<even, int>("user even", "number not even", [](const int& v) { return v % 2 == 0; });
    run<vowel, char>("user vowel", "validation error", [](const char& c) { return string("aeiou").find(c) != string::npos; });
    run<short_text, string>("user short_text", "text too long", [](const string& s) { return s.size() < 3; });
    run<initial, std::string_view>("user initial", "wrong initial", [](const std::string_view& s) { return !s.empty() && s[0] == 'a'; });
    run<stateful, int>("user stateful", "not positive", [](const int& v) { return v > 0; });
#elif PART == 5
    run<ss::gt<double, 3>, double>("gt<double,3>", "validation error", [](const double& v) { return v > 3; });
    run<ss::gte<double, 3>, double>("gte<double,3>", "validation error", [](const double& v) { return v >= 3; });
    run<ss::lt<double, 5>, double>("lt<double,5>", "validation error", [](const double& v) { return v < 5; });
    run<ss::lte<double, 5>, double>("lte<double,5>", "validation error", [](const double& v) { return v <= 5; });
    run<ss::ir<double, -2, 5>, double>("ir<double,-2,5>", "validation error", [](const double& v) { return v >= -2 && v <= 5; });
    run<ss::oor<double, -2, 5>, double>("oor<double,-2,5>", "validation error", [](const double& v) { return v < -2 || v > 5; });
    run<ss::ax<double, 1, 2>, double>("ax<double,1,2>", "value excluded", [](const double& v) { return v != 1 && v != 2; });
    run<ss::nx<double, 1, 2, -1>, double>("nx<double,1,2,-1>", "value excluded", [](const double& v) { return v == 1 || v == 2 || v == -1; });
    long_lists<4, 5, 6, 7, 8, 9, 12>();
    run<ss::ax<int, 1, 2, 3, 4, 5, 6>, int>("ax<1..6>", "value excluded", [](const int& v) { return v < 1 || v > 6; });
    run<ss::nx<int, 6, 5, 4, 3, 2, 1>, int>("nx<6..1>", "value excluded", [](const int& v) { return v >= 1 && v <= 6; });
    run<ss::nx<char, 'A', 'B', 'C', 'D'>, char>("nx<ABCD>", "value excluded", [](const char& v) { return v >= 'A' && v <= 'D'; });
#elif PART == 6
    foreign<short, 70000>();
    foreign<short, -70000>();
    foreign<short, 65541>(); // 5 as a short
    narrow<ss::int8, -3, 90>();
    narrow<ss::int8, -261, 300>();
    narrow<ss::uint8, 5, 256>();
    narrow<float, -2, 7>();
    narrow<float, -16777216, 16777216>();
    narrow<double, -16777217, 16777217>();
    foreign<int, 4294967303ll>(); // 7 as an int
    foreign<int, -4294967289ll>();
    foreign<long long, 7>();
    foreign<long long, short(-2)>();
#elif PART == 7
    foreign<unsigned short, 65541>();
    foreign<unsigned short, 7>();
    foreign<unsigned, 4294967303ull>();
    foreign<int, short(3)>();
    foreign<int, 'A'>();
    foreign<int, true>();
#endif
}
