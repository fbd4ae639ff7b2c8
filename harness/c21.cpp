// C21: the individual headers (without fast_float), ssp.hpp and the regenerated
// single header in one program, each in a namespace of its own, run in lock step.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cerrno>
#include <charconv>
#include <climits>
#include <cstdint>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <variant>
#include <vector>
#ifndef VK_SANITIZED
#include "alloc.hpp"
#else // memory is watched instead of failing
namespace vk { struct alloc_state { bool on = false, armed = true; long live = 0, count = 0, fail_at = -1, fail_until = -1, failed = 0; unsigned long long shape = 0; void mark(unsigned long long) {} }; inline alloc_state g_alloc; }
#endif
#include "cookie.hpp"
VK_COOKIE_MAIN
struct shape { std::string s; };
struct request {
    const char* data;
    size_t size;
    const char* path = nullptr;
    const char* delim = ",";
    const int* ops = nullptr;
    size_t nops = 0;
};
#define SSP_DISABLE_FAST_FLOAT

#define VARIANT v_headers
#define ss ss_headers
#include <ss/parser.hpp>
#include "c21_body.hpp"
#undef ss
#undef VARIANT
#define VARIANT v_single
#define ss ss_single
#include SSP_SINGLE
#include "c21_body.hpp"
#undef ss
#undef VARIANT
#define VARIANT v_generated
#define ss ss_generated
#include SSP_GENERATED
#include "c21_body.hpp"
#undef ss
#undef VARIANT

using std::string;
using std::vector;
using fn = string (*)(const request&);
static vk::guard_page guard(1 << 20);
static const char* names[] = {"headers", "ssp.hpp", "generated header"};

struct explorer {
    vk::ctx& x;
    vector<vector<fn>> progs[3] = {v_headers::programs(), v_single::programs(), v_generated::programs()};

    bool lockstep(size_t prog, size_t mode, const string& text, const request& r, const string& what, long fail_at = -1, bool burst = false) {
        string got[3];
        long allocs[3];
        for (int v = 0; v < 3; ++v) {
            auto& g = vk::g_alloc;
            ++x.evals;
            g.fail_at = fail_at;
            g.fail_until = burst ? 1l << 40 : -1;
            g.count = g.live = g.failed = 0;
            g.armed = true;
            g.on = fail_at >= 0;
            try { got[v] = progs[v][prog][mode](r); }
            catch (const std::bad_alloc&) { got[v] = "bad_alloc"; }
            catch (const std::exception& e) { got[v] = string("exception ") + e.what(); }
            g.on = false;
            allocs[v] = g.failed;
            ++x.transitions;
        }
        ++x.states;
        if (got[0].find(" valid") != string::npos) ++x.nontrivial;
        for (int v = 1; v < 3; ++v)
            if (got[v] != got[0]) {
                x.violation("program " + std::to_string(prog) + " mode " + std::to_string(mode) + " on " + vk::show(text) + what + ": " + names[v] + " gives\n" + got[v] + "\nbut the headers give\n" + got[0]);
                return false;
            }
        x.outcome(got[0]);
        x.sample([&] { return vk::show(text) + what + ": " + got[0].substr(0, 300); });
        (void)allocs;
        return true;
    }

    // whether the three forms request the same memory in the same order: only then
    // "the k-th request fails" is the same event for all
    bool alike(size_t prog, size_t mode, const request& r) {
        unsigned long long shape[3];
        for (int v = 0; v < 3; ++v) {
            auto& g = vk::g_alloc;
            g.fail_at = -1;
            g.shape = 0;
            g.on = true;
            { string s = progs[v][prog][mode](r); g.on = false; }
            shape[v] = g.shape;
        }
        return shape[0] == shape[1] && shape[0] == shape[2];
    }

    bool both(size_t prog, size_t mode, const string& t, const int* ops, size_t nops, const string& path, const char* delim = ",") {
        string w;
        for (size_t i = 0; i < nops; ++i) w += " op" + std::to_string(ops[i]);
        request r{guard.put(t), t.size(), nullptr, delim, ops, nops};
        if (!lockstep(prog, mode, t, r, w + " buffer")) return false;
        r.path = path.c_str();
        return lockstep(prog, mode, t, r, w + " file");
    }

#ifdef VK_SANITIZED
    static constexpr bool watched = true;
#else
    static constexpr bool watched = false;
#endif

    void rows() {
        string path = x.scratch + "/data.csv";
        auto& env = vk::g_env;
        env.path = path;
        env.on = true;
        bool th = x.thorough;
        const char* special = PART == 0 ? "a1b,\n\r" : PART == 1 ? "a,\"\\\n\r" : PART == 2 ? "a1,\"\n\r" : PART == 3 ? "a, \\\n" : PART == 4 ? "a, \"\\\n" : "a1, \n\r";
        vector<vector<int>> scripts;
        for (int a = 0; a < 11; ++a) { scripts.push_back({a}); for (int b = 0; b < 11; ++b) if (a != b) scripts.push_back({a, b}); }
        const size_t all = scripts.size(); // 121: each alone first, then with the others
        if (th) vk::seqs_n(11, 3, [&](const vector<int>& s) { scripts.push_back(s); });
        auto run = [&](const string& t) { // quick: longest texts with a quarter of the pairs
            if (!x.take()) return;
            env.data = t;
            for (size_t m = 0; m < 3; ++m)
                for (auto& s : scripts)
                    if (th || t.size() < 4 || s.size() == 1 || (s[0] < s[1] && (s[0] + s[1] + t[0] + t[3]) % 2)) if (!both(0, m, t, s.data(), s.size(), path)) return;
        };
        size_t len = th ? 5 : 4;
        if (watched) --len;
        vk::words(special, 0, len, run);
        x.bound("text_length", len);
        // whole rows
        vector<string> lines{"", "a", "a,b", "1", "1,2", "a,b,c", "b,a", "bad,1", "xx", "12,y", "a,1"};
        if (PART == 1 || PART == 2 || PART == 4) for (auto s : {"\"a\",\"b\"", "\"x,\"\"y\",1", "\"q\"z,1", "\"open,1", "\"m\nn\",2", "\"1\n2\n3\",4"}) lines.push_back(s);
        if (PART == 1 || PART == 3 || PART == 4) for (auto s : {"a\\,b,c", "e\\\nf,1", "\\", "x\\\\,1", "g\\\nh\\\ni\\\nj,5"}) lines.push_back(s);
        if (PART >= 3) for (auto s : {" a , b ", "  ", "a  b ,1 "}) lines.push_back(s);
        size_t rows = th ? 4 : 3;
        if (watched) --rows;
        for (size_t n = 1; n <= rows; ++n)
            vk::seqs_n(lines.size(), n, [&](const vector<int>& w) {
                for (auto eol : {"\n", "\r\n"}) {
                    if (!th && n == rows && (w[0] + w[1] + w[n - 1]) % 2 == (eol[0] == '\n')) continue;
                    string t;
                    for (int i : w) t += lines[size_t(i)] + eol;
                    if (!x.take()) continue;
                    env.data = t;
                    for (size_t m = 0; m < 3; ++m)
                        for (size_t s = 0; s < all; s += n == rows ? 11 : 1)
                            if (!both(0, m, t, scripts[s].data(), scripts[s].size(), path)) return;
                }
            });
        x.bound("rows", rows);
        // growth of buffers
        for (size_t n = 0; n < (th ? 1100u : 280u); ++n)
            for (int k = 0; k < 6; ++k) {
                string b(n, 'x'), t;
                switch (k) {
                case 0: t = b + ",1\na,b\n"; break;
                case 1: t = "a,b\n" + b + "\n1," + b; break;
                case 2: t = "\"" + b + "\n" + b + "\",y\nc,d\n"; break;
                case 3: t = b + "\\\n" + b + ",z\nc,d\n"; break;
                case 4: t = "a,b\r\n" + b + ",\"" + b + "\"\r\nc,d"; break;
                default: t = "\"" + b + "\"\",\n" + b + "\n\n\nq\",1\n1,2"; break;
                }
                if (!x.take()) continue;
                env.data = t;
                for (size_t m = 0; m < 3; ++m)
                    for (size_t s = 0; s < all; s += 11)
                        if (!both(0, m, t, scripts[s].data(), scripts[s].size(), path)) return;
            }
        // delimiters
        for (auto d : {";", "::", "ab", ""}) {
            vk::words(string(d) + "a\"\n", 0, 4, [&](const string& t) {
                if (!x.take()) return;
                env.data = t;
                for (size_t m = 0; m < 3; ++m)
                    for (size_t s = 0; s < all; s += 11)
                        if (!both(0, m, t, scripts[s].data(), scripts[s].size(), path, d)) return;
            });
        }
        // no source
        for (size_t m = 0; m < 3; ++m)
            for (auto& s : scripts) {
                if (!x.take()) continue;
                request r{nullptr, 0, nullptr, ",", s.data(), s.size()};
                if (!lockstep(0, m, "", r, " null buffer")) return;
                string no = x.scratch + "/missing";
                r.path = no.c_str();
                if (!lockstep(0, m, "", r, " missing file")) return;
            }
        // faults: every request of memory, every byte of the file
        for (auto t : {string("a,b\n1,2\nx,y\n"), "\"a\n" + string(150, 'b') + "\",2\n3,4\nbad\n", string("a\\\nb,c\n") + string(130, 'd') + ",e\n\n5,6\n", string("h,a,b\n1,2,3\n\"u\n")})
            for (size_t s = 0; s < all; ++s)
                for (size_t m = 0; m < 3; ++m) {
                    if (watched || !x.take()) continue;
                    env.data = t;
                    for (int file = 0; file < 2; ++file) {
                        request r{guard.put(t), t.size(), file ? path.c_str() : nullptr, ",", scripts[s].data(), scripts[s].size()};
                        if (alike(0, m, r)) for (long f = 0; f < (th ? 200 : 60); f += th ? 1 : 2)
                            if (!lockstep(0, m, t, r, " request " + std::to_string(f) + " fails", f, false)) return;
                        if (file) for (size_t e = 0; e <= t.size(); e += t.size() > 40 ? 7 : 1) {
                            env.error_at = long(e);
                            bool ok = lockstep(0, m, t, r, " reading fails at " + std::to_string(e));
                            env.error_at = -1;
                            if (!ok) return;
                        }
                    }
                }
    }

    void lines() {
        bool th = x.thorough;
        for (size_t p = 0; p < progs[0].size(); ++p)
            for (auto d : {",", "::", "ab", "", " "})
                vk::words(p == 0 ? "a1,\": \n" : p == 1 ? "1a,\\ :b" : p == 2 ? "a_,\"\\ :" : "a,\"\\\n:b", 0, (th ? 6 : 5) - 2 * watched, [&](const string& t) {
                    if (!x.take()) return;
                    for (size_t m = 0; m < 3; ++m) {
                        request r{t.data(), t.size(), nullptr, d};
                        if (!lockstep(p, m, t, r, string(" delimiter '") + d + "'")) return;
                    }
                });
        x.bound("line_length", th ? 6 : 5);
    }

    void values() {
        bool th = x.thorough;
        auto run = [&](const string& t) {
            if (!x.take()) return;
            request r{guard.put(t), t.size()};
            if (!lockstep(0, 0, t, r, "") || t.find('\0') != string::npos) return;
            lockstep(1, 0, t, r, "");
        };
        vk::words("-+0139.eEinfta", 0, (th ? 5 : 4) - watched, run);
        x.bound("value_length", th ? 5 : 4);
        for (int a = 0; a < 256; ++a) { run(string(1, char(a))); for (int b = 0; b < 256; ++b) { run(string{char(a), char(b)}); run(string{'1', char(a), char(b)}); } }
        for (auto s : {"true", "false", "inf", "-inf", "infinity", "nan", "-nan", "INF", "NaN", "bad", "0x1p3", "1e5", "1.5e-7", "-2.25E+3", "9007199254740993", "16777217"})
            for (size_t i = 0; i <= string(s).size(); ++i)
                for (int b = 0; b < 256; ++b) { string t = s; run(t.substr(0, i) + char(b) + t.substr(i)); if (i < t.size()) { t[i] = char(b); run(t); } }
        for (unsigned long long lim : {127ull, 128ull, 255ull, 32767ull, 65535ull, 2147483647ull, 4294967295ull, 9223372036854775807ull, 18446744073709551608ull})
            for (unsigned long long d = 0; d < 16; ++d) for (auto sign : {"", "-", "-0", "00", "+"}) for (auto more : {"", "0", ".5", " ", "e1"}) run(sign + std::to_string(lim - 8 + d) + more);
        for (size_t n = 1; n < 400; ++n) for (auto pre : {"", "-", "0.", "1.", "-7"}) for (auto post : {"", "e-5", "e300", "x", "."}) run(pre + string(n, '3') + post);
        for (int e = -400; e <= 400; ++e) for (auto m : {"1", "4.9406564584124654", "-2.2250738585072011", "1.7976931348623157", "9.9", "3.4028235677973366"}) run(string(m) + "e" + std::to_string(e));
    }
};

void explore(vk::ctx& x) {
    explorer e{x};
    if (PART < 6) e.rows();
    else if (PART == 6) e.lines();
    else e.values();
}
