// Text -> value through the public API, with hostile surroundings.
#pragma once
#include "common.hpp"
#include SSP_HEADER
#include <optional>

namespace vk {
inline guard_page& lit_guard() { static guard_page g(1 << 16); return g; }

// converts text in three surroundings; the answers have to be the same
template <typename T>
bool convert_text(const std::string& s, T& out, std::string& why, int depth) {
    // 1. nothing readable behind the text
    char* p = lit_guard().put(s);
    T a{};
    bool ok = ss::extract(p, p + s.size(), a);
    out = a;
    if (depth == 0) return ok;
    // 2. followed by text which would continue a literal
    for (const char* tail : {"1", "e1", ".5", "x"}) {
        std::string t = s + tail;
        char* q = lit_guard().put(t);
        T b{};
        bool ok2 = ss::extract(q, q + s.size(), b);
        if (ok2 != ok || (ok && memcmp(&a, &b, sizeof a) != 0)) { why = std::string("depends on the text behind it: ") + tail; return ok; }
    }
    if (s.find('\0') != std::string::npos) return ok;
    // 3. as a column
    static ss::converter<> c;
    std::string l = s + ";" + s;
    char* z = lit_guard().putz(l);
    auto r = c.convert<T, T>(z, ";");
    if (c.valid() != ok) { why = "differs as a column"; return ok; }
    if (ok && (memcmp(&std::get<0>(r), &a, sizeof a) || memcmp(&std::get<1>(r), &a, sizeof a))) why = "another value as a column";
    return ok;
}
} // namespace vk
