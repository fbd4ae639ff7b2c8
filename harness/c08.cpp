// C08: floating point columns, with and without fast_float.
#include "literals.hpp"
#include <clocale>
#include <cmath>
#include <sys/stat.h>
#include <limits>
using std::string;
using std::vector;

// minimal unsigned big integer, little endian base 2^32
struct big {
    vector<uint32_t> d;
    big(uint64_t v = 0) { while (v) { d.push_back(uint32_t(v)); v >>= 32; } }
    void mul(uint32_t m, uint32_t add = 0) {
        uint64_t c = add;
        for (auto& x : d) { c += uint64_t(x) * m; x = uint32_t(c); c >>= 32; }
        if (c) d.push_back(uint32_t(c));
        trim();
    }
    void trim() { while (!d.empty() && !d.back()) d.pop_back(); }
    void shl(size_t n) {
        if (d.empty()) return;
        d.insert(d.begin(), n / 32, 0u);
        if (n % 32) {
            uint32_t c = 0;
            for (auto& x : d) { uint32_t nx = (x << (n % 32)) | c; c = x >> (32 - n % 32); x = nx; }
            if (c) d.push_back(c);
        }
    }
    void mul_pow(uint32_t b, size_t e) { for (; e; --e) mul(b); }
    uint32_t divmod(uint32_t m) {
        uint64_t r = 0;
        for (size_t i = d.size(); i-- > 0;) { r = (r << 32) | d[i]; d[i] = uint32_t(r / m); r %= m; }
        trim();
        return uint32_t(r);
    }
    string str() const {
        big b = *this;
        string s;
        do { s.insert(s.begin(), char('0' + b.divmod(10))); } while (!b.d.empty());
        return s;
    }
    int cmp(const big& o) const {
        if (d.size() != o.d.size()) return d.size() < o.d.size() ? -1 : 1;
        for (size_t i = d.size(); i-- > 0;) if (d[i] != o.d[i]) return d[i] < o.d[i] ? -1 : 1;
        return 0;
    }
};

// compares D * 10^E with M * 2^K
static int compare(const string& digits, long E, uint64_t M, long K) {
    big a, b(M);
    for (char c : digits) a.mul(10, uint32_t(c - '0'));
    if (E >= 0) a.mul_pow(10, size_t(E)); else b.mul_pow(10, size_t(-E));
    if (K >= 0) b.shl(size_t(K)); else a.shl(size_t(-K));
    return a.cmp(b);
}

struct literal {
    bool ok = false, neg = false, inf = false, nan = false;
    string digits; // without leading zeros
    long exp = 0;
};

static literal parse(const string& s) {
    literal l;
    size_t i = 0;
    if (i < s.size() && s[i] == '-') { l.neg = true; ++i; }
    string rest, low;
    rest = s.substr(i);
    for (char c : rest) low += (c >= 'A' && c <= 'Z') ? char(c + 32) : c;
    if (low == "inf" || low == "infinity") { l.ok = l.inf = true; return l; }
    if (low == "nan") { l.ok = l.nan = true; return l; }
    if (low.size() > 4 && low.compare(0, 4, "nan(") == 0 && low.back() == ')' && low.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789_", 4) == low.size() - 1) { l.ok = l.nan = true; return l; }
    bool any = false;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') { l.digits += s[i++]; any = true; }
    if (i < s.size() && s[i] == '.') {
        ++i;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { l.digits += s[i++]; --l.exp; any = true; }
    }
    if (!any) return l;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        ++i;
        bool en = false;
        if (i < s.size() && (s[i] == '-' || s[i] == '+')) en = s[i++] == '-';
        long e = 0;
        bool ed = false;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { e = std::min(100000l, e * 10 + (s[i++] - '0')); ed = true; }
        if (!ed) return l;
        l.exp += en ? -e : e;
    }
    if (i != s.size()) return l;
    l.ok = true;
    l.digits.erase(0, std::min(l.digits.find_first_not_of('0'), l.digits.size()));
    return l;
}

template <typename T>
struct fmt {
    static constexpr int p = std::numeric_limits<T>::digits, emin = std::numeric_limits<T>::min_exponent - p;
    static constexpr int emax = std::numeric_limits<T>::max_exponent - p; // of the last digit
};

// is v the representable value nearest to the literal (ties to even)
template <typename T>
bool nearest(const literal& l, T v) {
    using F = fmt<T>;
    if (l.nan) return std::isnan(v);
    if (std::isnan(v)) return false;
    bool zero = l.digits.empty();
    if (std::signbit(v) != l.neg) return false;
    if (l.inf) return std::isinf(v);
    T a = std::fabs(v);
    if (zero) return a == 0;
    // far out of range
    long mag = long(l.digits.size()) + l.exp;
    if (mag > 400) return std::isinf(a);
    if (mag < -400) return a == 0;
    if (std::isinf(a)) return compare(l.digits, l.exp, (2ull << F::p) - 1, F::emax - 1) >= 0;
    int e;
    T f = std::frexp(a, &e);
    uint64_t m = uint64_t(std::ldexp(f, F::p));
    long k = e - F::p;
    if (a == 0) { m = 0; k = F::emin; }
    if (k < F::emin) { m >>= (F::emin - k); k = F::emin; } // subnormal
    // upper midpoint
    int c = compare(l.digits, l.exp, 2 * m + 1, k - 1);
    if (c > 0 || (c == 0 && m % 2)) return false;
    if (k == F::emax && m == (1ull << F::p) - 1 && c == 0) return false; // rounds to infinity
    if (m == 0) return true;
    bool edge = m == (1ull << (F::p - 1)) && k > F::emin;
    c = edge ? compare(l.digits, l.exp, 4 * m - 1, k - 2) : compare(l.digits, l.exp, 2 * m - 1, k - 1);
    return c > 0 || (c == 0 && (edge || m % 2 == 0));
}

template <typename T>
struct one_type {
    vk::ctx& x;
    string name;

    void check(const string& s, int depth = 0) {
        ++x.evals;
        ++x.transitions;
        T v{};
        string why;
        bool got = vk::convert_text<T>(s, v, why, depth);
        literal l = parse(s);
        char gv[64];
        snprintf(gv, sizeof gv, "%.17g", double(v));
        if (l.ok) ++x.nontrivial;
        if (got != l.ok) x.violation(name + " from " + vk::show(s) + ": " + (got ? string("accepted as ") + gv : "rejected"));
        else if (got && !nearest(l, v)) {
#ifdef SSP_DISABLE_FAST_FLOAT
            // glibc misrounds some values next to the subnormal range, by one unit
            T c = sizeof(T) == 4 ? T(strtof(s.c_str(), nullptr)) : T(strtod(s.c_str(), nullptr));
            T off = std::max(std::nextafter(v, T(INFINITY)) - v, v - std::nextafter(v, T(-INFINITY)));
            if (c == v && std::fabs(v) <= std::numeric_limits<T>::min() && (nearest(l, T(v + off)) || nearest(l, T(v - off))) && x.known("libc-subnormal")) return;
#endif
            x.violation(name + " from " + vk::show(s) + ": value " + gv);
        }
        else if (!why.empty()) x.violation(name + " from " + vk::show(s) + ": " + why);
        x.outcome(got ? gv : "rejected");
        x.sample([&] { return name + " " + vk::show(s) + " -> " + (got ? string(gv) : "rejected"); });
    }

    // exact decimal expansion of m * 2^k, as digits and exponent of ten
    static std::pair<string, long> expand(uint64_t m, long k) {
        big b(m);
        if (k >= 0) { b.shl(size_t(k)); return {b.str(), 0}; }
        b.mul_pow(5, size_t(-k));
        return {b.str(), k};
    }
    void spellings(const string& d, long e, bool all) {
        check(d + "e" + std::to_string(e));
        if (!all) return;
        check("-" + d + "E" + std::to_string(e));
        if (e < 0 && d.size() + size_t(-e) < 1500) {
            string z = d;
            if (z.size() <= size_t(-e)) z = string(size_t(-e) - z.size() + 1, '0') + z;
            string plain = z.substr(0, z.size() - size_t(-e)) + "." + z.substr(z.size() - size_t(-e));
            check(plain);
            check("-" + plain + "000");
            if (plain[0] == '0' && plain[1] == '.') check(plain.substr(1));
        } else if (e >= 0 && e < 400) {
            check(d + string(size_t(e), '0'));
            check(d + string(size_t(e), '0') + ".0");
        }
        check(d.substr(0, 1) + "." + d.substr(1) + "e" + std::to_string(e + long(d.size()) - 1));
    }
    void around(uint64_t m, long k, bool all) {
        // the value and the midpoints to its neighbours, slightly below, exactly and above
        for (uint64_t mm : {4 * m, 4 * m + 2, 4 * m - 2, 4 * m + 1, 4 * m - 1}) {
            if (!m && mm > 2) continue;
            auto [d, e] = expand(mm, k - 2);
            spellings(d, e, all);
            if (mm % 4 == 0) continue;
            spellings(d + "00000000000000000001", e - 20, all);
            string b = d;
            size_t i = b.size();
            while (i > 0 && b[i - 1] == '0') b[--i] = '9';
            if (i > 0) { --b[i - 1]; spellings(b + "9999999999", e - 10, all); }
        }
    }

    void explore() {
        bool th = x.thorough;
        string a = "015.-e ";
        size_t l1 = th ? 7 : 6, l2 = th ? 5 : 4;
        x.bound("texts_max_length_alphabet_7", l1);
        vk::words(a, 0, l1, [&](const string& w) { if (x.take()) check(w, w.size() < 5); });
        string b = string("0179.,-+eE xXpPfF#") + string("\t\0\xff", 3);
        x.bound("texts_max_length_alphabet_21", l2);
        vk::words(b, 0, l2, [&](const string& w) { if (x.take()) check(w, w.size() < 4); });
        for (string w : {"", "1", "-1", "1.5", "-1.5e-3", "1e5", ".5", "5.", "0", "-0", "inf", "-inf", "nan", "-nan", "infinity", "INFINITY", "NaN", "iNf", "0x1", "1e", "1e+", "1e-", "0.0e0"})
            for (size_t p = 0; p <= w.size(); ++p)
                for (int c = 0; c < 256; ++c) {
                    if (!x.take()) continue;
                    string s = w;
                    s.insert(p, 1, char(c));
                    check(s, 1);
                    if (p < w.size()) { s = w; s[p] = char(c); check(s, 1); s = w; s.erase(p, 1); check(s, 1); }
                }
        // case variations of the words
        for (string w : {"inf", "nan", "infinity"})
            for (unsigned m = 0; m < 1u << w.size(); ++m) {
                if (!x.take()) continue;
                string s = w;
                for (size_t i = 0; i < w.size(); ++i) if (m >> i & 1) s[i] = char(s[i] - 32);
                for (string pre : {"", "-", "+", " ", "--"}) for (string post : {"", " ", "x", "1", "y"}) check(pre + s + post, 1);
            }
        // NaN with a payload
        vk::words(string("1aZ_()- ,\0.", 11), 0, th ? 6 : 4, [&](const string& w) { if (x.take()) for (string pre : {"nan(", "-NaN(", "nan", "+nan(", "inf("}) { check(pre + w, w.size() < 3); check(pre + w + ")", w.size() < 3); } });
        for (int c = 0; c < 256; ++c) for (string w : {"", "1", "ab"}) if (x.take()) { check("nan(" + w + char(c) + ")"); check("nan(" + w + char(c)); check("nan(" + w + ")" + char(c)); }
        // lengths across internal buffers
        size_t ml = th ? 1200 : 300;
        x.bound("literal_length_swept_to", ml);
        for (size_t n = 0; n <= ml; ++n) {
            if (!x.take()) continue;
            string z(n, '0'), o(n, '1'), k(n, '9');
            for (string s : {z + "1", z + "1.5", "1" + z, "0." + z + "1", "1." + z, "1." + z + "1", o, k, "1." + o, "0." + k, "1e" + z + "1", "1e-" + z + "1", "." + z + "1", "1" + z + "e-" + std::to_string(n),
                             "0." + z + "1e" + std::to_string(n + 1), "1e" + std::to_string(n), "1e-" + std::to_string(n), "9e" + std::to_string(n), "17976931348623157" + z})
                for (string sg : {"", "-"})
                    for (string tail : {"", "x", " ", "e", ".", "-"}) check(sg + s + tail, n < 70 || n % 64 < 2);
            check(string(n, ' '), 1);
            check("1" + string(n, ' '), 1);
            check(string(n, '-') + "1", 1);
            check(string(n, 'x'), 1);
        }
        // what no literal begins with, in front of literals of every length
        for (size_t n = 0; n <= ml; ++n)
            for (string pre : {"+", " ", "\t", "\n", "0x", "0X", "-0x", "x", "--", "+-", "-+", "- ", "e", "-e", "_", "(", "$", "#", "\xa0", "0b", "1,"}) {
                if (!x.take()) continue;
                string z(n, '0'), o(n, '1');
                for (string s : {z + "1", o, "1." + o, "." + z + "1", "1e" + z + "1", string("inf") + z, string("nan") + z}) check(pre + s, n < 70 && n % 8 == 0);
            }
        // very long literals, zeros do not change the value
        for (size_t n : {400, 511, 512, 513, 767, 768, 769, 799, 800, 801, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 9999, 10000, 16384, 32767, 32768, 65000, 65400}) {
            if (!x.take()) continue;
            string z(n, '0');
            for (string s : {z + "1", z + "1.5", "1" + z, "0." + z + "1", "1." + z, "0." + z + "1e" + std::to_string(n + 1), "1e" + z + "1", "1e-" + z + "2", "." + z + "1", "1" + z + "e-" + std::to_string(n), z + ".25", z})
                for (string sg : {"", "-"})
                    for (string tail : {"", "x", " ", "e", ".", "-", "e1"}) check(sg + s + tail);
            check(string(n, ' ') + "1");
            check("1" + string(n, ' '));
            check("nan(" + z + ")");
            check("nan(" + z);
            check("-" + string(n, '-') + "1");
            if (n > 1100) continue;
            for (char c : {'1', '9', '5'}) for (string s : {string(n, c) + "e-" + std::to_string(n), "0." + string(n, c), "2." + string(n, c), "4503599627370496.5" + z + c, "16777217." + z + c, "9007199254740993" + ("." + z) + c}) { check(s); check("-" + s); check(s + "e"); }
        }
        // rounding: mantissas x exponents
        using F = fmt<T>;
        vector<uint64_t> ms;
        uint64_t top = 1ull << (F::p - 1);
        for (uint64_t d = 0; d < (th ? 64u : 4u); ++d) { ms.push_back(top + d); ms.push_back(2 * top - 1 - d); ms.push_back(top + top / 2 + d); }
        for (int i = 0; i < F::p - 1; i += th ? 1 : 5) ms.push_back(top | (1ull << i));
        uint64_t r = 88172645463325252ull;
        for (int i = 0; i < (th ? 200 : 6); ++i) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; ms.push_back(top | (r & (top - 1))); }
        x.bound("mantissas", ms.size());
        long step = sizeof(T) == 4 || th ? 1 : 13;
        for (long k = F::emin; k <= F::emax; k += step)
            for (uint64_t m : ms)
                if (x.take()) around(m, k, k % (13 * 7) == 0 || k < F::emin + 3 || k + 3 > F::emax || (k > -70 && k < 20 && k % 7 == 0));
        for (long k : {F::emax, F::emin, F::emin + 1}) for (uint64_t m : ms) if (x.take()) around(m, k, true);
        // subnormal numbers and zero
        for (uint64_t m = 0; m < (th ? 300u : 40u); ++m) { if (x.take()) around(m, F::emin, true); if (x.take()) around(top - 1 - m, F::emin, true); if (x.take()) around(top / 2 + m, F::emin, true); }
        // decimal neighbourhoods
        for (long e = -360; e <= 330; e += th ? 1 : 3)
            for (const char* d : {"1", "2", "5", "9", "12345678", "99999999", "33554433", "9007199254740993", "17976931348623157", "17976931348623159", "34028235", "340282356779733661637539395458142568447", "22250738585072011", "22250738585072014", "24703282292062327", "4940656458412465", "11754942807573643", "14012984643248170709", "7006492321624085354618", "7006492321624085354619"})
                if (x.take()) { check(string(d) + "e" + std::to_string(e)); check(string("-0.") + d + "e" + std::to_string(e)); }
    }

    // the locale which the program has set does not matter
    void localized(const string& point) {
        size_t l1 = x.thorough ? 7 : 5, l2 = x.thorough ? 6 : 4;
        x.bound("texts_max_length_in_a_locale", l1);
        vk::words("015.,-e", 0, l1, [&](const string& w) { if (x.take()) check(w, 1); });
        vector<string> tokens{"1", "0", "-", ".", ",", "'", " ", "e", "E", "+", "x", "inf", "nan", point, "\xc2\xa0"};
        for (size_t n = 1; n <= l2; ++n)
            vk::seqs_n(tokens.size(), n, [&](const vector<int>& ix) {
                if (!x.take()) return;
                string t;
                for (int i : ix) t += tokens[size_t(i)];
                check(t, 1);
            });
        for (size_t n = 0; n <= 300; ++n) {
            if (!x.take()) continue;
            string z(n, '0'), k(n, '9');
            for (const string& p : {string("."), string(","), point})
                for (string s : {"0" + p + z + "1", z + p + "1", "1" + p + z, "1" + p + k, k + p + k, p + k, "-" + p + z + "5e" + std::to_string(n), z + p + z})
                    for (string tail : {string(), string("x"), string("."), p, p + "0"}) check(s + tail, 1);
        }
    }
};

// a program which has set a locale of another decimal point
static void locales(vk::ctx& x) {
    string dir = x.scratch + "/locales";
    mkdir(dir.c_str(), 0700);
    setenv("LOCPATH", dir.c_str(), 1);
    for (const char* n : {"de_DE", "ps_AF"}) {
        string name = string(n) + ".UTF-8";
        if (system(("localedef -c -f UTF-8 -i " + string(n) + " " + dir + "/" + name + " >/dev/null 2>&1").c_str()) == -1) continue;
        if (!setlocale(LC_NUMERIC, name.c_str())) continue;
        string point = localeconv()->decimal_point;
        x.bound("locale_" + string(n), 1);
        one_type<float>{x, "float in the locale " + name}.localized(point);
        one_type<double>{x, "double in the locale " + name}.localized(point);
        setlocale(LC_NUMERIC, "C");
    }
}

void explore(vk::ctx& x) {
#if PART == 2
    locales(x);
    return;
#elif PART == 0
    one_type<float>{x, "float"}.explore();
#else
    one_type<double>{x, "double"}.explore();
#endif
}
