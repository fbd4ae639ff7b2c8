// Compile-time setups paired with the model's run-time description of them.
#pragma once
#include "model.hpp"
#include SSP_HEADER

template <typename... O>
struct opts {
    template <template <typename...> class T, typename... Extra>
    using apply = T<O..., Extra...>;
};

template <typename A, typename B>
struct cat2;
template <typename... A, typename... B>
struct cat2<opts<A...>, opts<B...>> { using type = opts<A..., B...>; };
template <typename A, typename B>
using cat = typename cat2<A, B>::type;

template <typename T>
struct tag {};

template <char C> void describe(model::cfg& c, tag<ss::quote<C>>) { c.quote = C; }
template <char... C> void describe(model::cfg& c, tag<ss::escape<C...>>) { c.esc = {C...}; }
template <char... C> void describe(model::cfg& c, tag<ss::trim<C...>>) { c.tl = c.tr = {C...}; }
template <char... C> void describe(model::cfg& c, tag<ss::trim_left<C...>>) { c.tl = {C...}; }
template <char... C> void describe(model::cfg& c, tag<ss::trim_right<C...>>) { c.tr = {C...}; }
template <size_t N> void describe(model::cfg& c, tag<ss::multiline_restricted<N>>) { c.ml = true; c.limit = N; }
inline void describe(model::cfg& c, tag<ss::ignore_empty>) { c.ignore_empty = true; }
inline void describe(model::cfg& c, tag<ss::ignore_header>) { c.ignore_header = true; }
inline void describe(model::cfg&, tag<ss::string_error>) {}
inline void describe(model::cfg&, tag<ss::throw_on_error>) {}

template <typename... O>
model::cfg cfg_of(opts<O...>) {
    model::cfg c;
    (describe(c, tag<O>{}), ...);
    return c;
}

inline std::string show(const model::cfg& c) {
    std::string r = "{";
    if (c.quote) r += std::string("quote ") + c.quote + " ";
    if (!c.esc.empty()) r += "escape " + c.esc + " ";
    if (!c.tl.empty() || !c.tr.empty()) {
        auto vis = [](std::string s) { for (auto& x : s) if (x == ' ') x = '_'; else if (x == '\t') x = 't'; return s; };
        if (c.tl == c.tr) r += "trim " + vis(c.tl) + " ";
        else r += "trim_left " + vis(c.tl) + " trim_right " + vis(c.tr) + " ";
    }
    if (c.ml) r += "multiline " + (c.limit ? std::to_string(c.limit) : std::string("*")) + " ";
    if (c.ignore_empty) r += "ignore_empty ";
    if (c.ignore_header) r += "ignore_header ";
    return r + "delim '" + c.delim + "'}";
}

// tuple of n strings
template <size_t N, typename T, typename... Ts>
struct n_of : n_of<N - 1, T, T, Ts...> {};
template <typename T, typename... Ts>
struct n_of<0, T, Ts...> { using type = std::tuple<Ts...>; };
template <size_t N, typename T>
using tuple_n = typename n_of<N, T>::type;

inline void flatten(std::vector<std::string>& v, const std::string& s) { v.push_back(s); }
template <typename... Ts>
void flatten(std::vector<std::string>& v, const std::tuple<Ts...>& t) {
    std::apply([&](const auto&... e) { (v.push_back(std::string(e)), ...); }, t);
}
