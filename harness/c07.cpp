// C07: integer columns.
#include "literals.hpp"
#include <limits>
using std::string;
using std::vector;

template <typename T> struct base { using type = T; };
template <> struct base<ss::int8> { using type = int8_t; };
template <> struct base<ss::uint8> { using type = uint8_t; };

typedef __int128 wide;

static string dec(wide v) {
    bool neg = v < 0;
    if (neg) v = -v;
    string r;
    do { r.insert(r.begin(), char('0' + int(v % 10))); v /= 10; } while (v);
    return neg ? "-" + r : r;
}

// decides the literal without arithmetic on the value: by digit strings
static bool expected(const string& s, bool is_signed, const string& min_digits, const string& max_digits, string& canon) {
    size_t i = 0;
    bool neg = false;
    if (is_signed && !s.empty() && s[0] == '-') neg = true, i = 1;
    if (i >= s.size()) return false;
    for (size_t k = i; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return false;
    while (i + 1 < s.size() && s[i] == '0') ++i;
    string d = s.substr(i);
    const string& lim = neg ? min_digits : max_digits;
    if (d.size() > lim.size() || (d.size() == lim.size() && d > lim)) return false;
    canon = (neg && d != "0" ? "-" : "") + d;
    return true;
}

template <typename T>
struct one_type {
    vk::ctx& x;
    string name;
    using B = typename base<T>::type;
    string mn = dec(-wide(std::numeric_limits<B>::min())), mx = dec(wide(std::numeric_limits<B>::max()));

    void check(const string& s, int depth = 0) {
        ++x.evals;
        ++x.transitions;
        T v{};
        string why, canon;
        bool got = vk::convert_text<T>(s, v, why, depth);
        bool want = expected(s, std::is_signed_v<B>, mn, mx, canon);
        if (want) ++x.nontrivial;
        string gv = dec(wide(B(v)));
        if (got != want) x.violation(name + " from " + vk::show(s) + ": " + (got ? "accepted as " + gv : "rejected"));
        else if (got && gv != canon) x.violation(name + " from " + vk::show(s) + ": value " + gv);
        else if (!why.empty()) x.violation(name + " from " + vk::show(s) + ": " + why);
        x.outcome(want ? canon : "rejected");
        x.sample([&] { return name + " " + vk::show(s) + " -> " + (want ? canon : string("rejected")); });
    }

    void texts() {
        size_t l1 = x.thorough ? 7 : 6, l2 = x.thorough ? 5 : 4;
        string a = "01289-+ ";
        x.bound("texts_max_length_alphabet_8", l1);
        vk::words(a, 0, l1, [&](const string& w) { if (x.take()) check(w, w.size() < l1); });
        string b = string("09-+ \t.,xXeEaF_'uL", 18) + string("\0\x80\xff\n", 4);
        x.bound("texts_max_length_alphabet_22", l2);
        vk::words(b, 0, l2, [&](const string& w) { if (x.take()) check(w, w.size() < l2); });
        // every byte in every position of short literals
        for (string w : {"", "1", "12", "-1", "-12", "127", "0"})
            for (size_t p = 0; p <= w.size(); ++p)
                for (int c = 0; c < 256; ++c) {
                    if (!x.take()) continue;
                    string s = w;
                    s.insert(p, 1, char(c));
                    check(s, 1);
                    if (p < w.size()) { s = w; s[p] = char(c); check(s, 1); }
                }
    }
    void values() {
        auto forms = [&](wide v, size_t zeros) {
            string d = dec(v < 0 ? -v : v), sg = v < 0 ? "-" : "";
            check(sg + d);
            for (size_t z = 1; z <= zeros; ++z) check(sg + string(z, '0') + d, z == 1);
            if (zeros) { check("+" + d); check(" " + d); check(d + " "); check("-" + d, 1); check(d + "0"); check(d + "-"); check("0x" + d); check(d + ".0"); check(d + "e0"); check("--" + d); }
        };
        wide m = sizeof(B) <= 2 ? 66000 : x.thorough ? 200000 : 20000;
        for (wide v = -m; v <= m; ++v) if (x.take()) forms(v, sizeof(B) <= 2 ? 2 : 0);
        x.bound("all_values_up_to", uint64_t(m));
        // around the limits of every type, multiples of 2^8..2^64 and of powers of ten
        vector<wide> centers;
        for (int k = 7; k <= 70; ++k) { centers.push_back(wide(1) << k); for (int f : {3, 5, 9, 10, 11}) centers.push_back((wide(1) << k) * f); }
        wide p = 1;
        for (int k = 0; k < 30; ++k, p *= 10) { centers.push_back(p); centers.push_back(p * wide(std::numeric_limits<B>::max() % 1000 + 1)); }
        for (wide c : {wide(std::numeric_limits<B>::max()), -wide(std::numeric_limits<B>::min())}) { centers.push_back(c); centers.push_back(c * 10); centers.push_back(c / 10); centers.push_back(c * 2); }
        wide w = x.thorough ? 300 : 20;
        for (wide c : centers)
            for (wide d = -w; d <= w; ++d)
                if (x.take()) { forms(c + d, d > -3 && d < 3 ? 3 : 0); forms(-(c + d), d > -3 && d < 3 ? 3 : 0); }
        x.bound("window_around_limits", uint64_t(w));
        // long literals
        for (size_t n = 0; n <= (x.thorough ? 2000u : 400u); ++n) {
            if (!x.take()) continue;
            string z(n, '0');
            for (string d : {string("0"), string("1"), mx, mn, dec(wide(std::numeric_limits<B>::max()) + 1), dec(-wide(std::numeric_limits<B>::min()) + 1), string("x"), string(" ")}) {
                check(z + d);
                check("-" + z + d);
                check(d + z);
                check("-" + d + z);
            }
        }
        // every digit changed at every position of the limits
        for (string lim : {mx, mn})
            for (size_t i = 0; i < lim.size(); ++i)
                for (char d = '0'; d <= '9'; ++d) {
                    if (!x.take()) continue;
                    string s = lim;
                    s[i] = d;
                    check(s, 1);
                    check("-" + s, 1);
                    check(s.substr(0, i) + d + s.substr(i), 1);
                }
    }
};

template <typename T>
void run(vk::ctx& x, const char* n) {
    one_type<T> t{x, n};
    t.texts();
    t.values();
    ++x.states;
}

void explore(vk::ctx& x) {
#if PART == 0
    run<short>(x, "short");
    run<unsigned short>(x, "unsigned short");
    run<ss::int8>(x, "ss::int8");
#elif PART == 1
    run<int>(x, "int");
    run<unsigned>(x, "unsigned");
    run<ss::uint8>(x, "ss::uint8");
#elif PART == 2
    run<long>(x, "long");
    run<unsigned long>(x, "unsigned long");
#elif PART == 3
    run<long long>(x, "long long");
    run<unsigned long long>(x, "unsigned long long");
#endif
}
