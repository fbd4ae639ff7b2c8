// Reference model of the documented behaviour. Written from the README, kept
// boring: strings are copied freely, nothing is done in place, no look-ahead.
#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <vector>

namespace model {

struct cfg {
    char quote = 0;
    std::string esc;
    std::string tl;   // characters trimmed on the left
    std::string tr;   // characters trimmed on the right
    bool ml = false;  // multiline
    size_t limit = 0; // 0: unlimited
    bool ignore_empty = false;
    bool ignore_header = false;
    std::string delim = ",";

    bool ml_esc() const { return ml && !esc.empty(); }
    bool ml_quote() const { return ml && quote; }
};

enum class err { ok, empty_delim, mismatched, open_quote, open_escape, limit };

inline const char* name(err e) {
    switch (e) {
    case err::ok: return "ok";
    case err::empty_delim: return "empty delimiter";
    case err::mismatched: return "mismatched quote";
    case err::open_quote: return "unterminated quote";
    case err::open_escape: return "unterminated escape";
    case err::limit: return "multiline limit";
    }
    return "?";
}

struct split {
    err e = err::ok;
    std::vector<std::string> cols;
    uint64_t steps = 0; // automaton transitions taken
};

inline bool in(const std::string& set, char c) {
    return set.find(c) != std::string::npos;
}

inline bool at(const std::string& s, size_t i, const std::string& d) {
    return s.compare(i, d.size(), d) == 0 && i + d.size() <= s.size();
}

// splits one complete line
inline split split_line(const cfg& c, const std::string& s) {
    split r;
    if (c.delim.empty()) {
        r.e = err::empty_delim;
        return r;
    }
    size_t i = 0;
    while (true) { // one column per iteration, begins at i
        while (i < s.size() && in(c.tl, s[i])) ++i, ++r.steps;
        std::string col;
        if (c.quote && i < s.size() && s[i] == c.quote) {
            ++i;
            while (true) {
                ++r.steps;
                if (i >= s.size()) { r.e = err::open_quote; return r; }
                if (in(c.esc, s[i])) {
                    if (i + 1 >= s.size()) { r.e = err::open_escape; return r; }
                    col += s[i + 1];
                    i += 2;
                    continue;
                }
                if (s[i] != c.quote) { col += s[i++]; continue; }
                // closing quote, or the first of a double quote
                size_t j = i + 1;
                while (j < s.size() && in(c.tr, s[j])) ++j;
                if (j >= s.size()) { r.cols.push_back(col); return r; }
                if (at(s, j, c.delim)) { i = j + c.delim.size(); break; }
                if (s[i + 1] == c.quote) { col += c.quote; i += 2; continue; }
                r.e = err::mismatched;
                return r;
            }
            r.cols.push_back(col);
            continue;
        }
        while (true) {
            ++r.steps;
            size_t j = i;
            while (j < s.size() && in(c.tr, s[j])) ++j;
            if (j >= s.size()) { r.cols.push_back(col); return r; }
            if (at(s, j, c.delim)) { i = j + c.delim.size(); break; }
            if (j > i) { col += s.substr(i, j - i); i = j; continue; }
            if (in(c.esc, s[i])) {
                if (i + 1 >= s.size()) { r.e = err::open_escape; return r; }
                col += s[i + 1];
                i += 2;
                continue;
            }
            col += s[i++];
        }
        r.cols.push_back(col);
    }
}

// a record of the input: one or more physical lines
struct record {
    size_t begin = 0, end = 0;         // byte range, including line ends
    size_t first_line = 0, lines = 0;  // physical lines, 0-based
    std::string text;                  // joined text without the last line end
    err e = err::ok;
    bool empty = false;                // the line is empty: zero columns
    std::vector<std::string> cols;
    uint64_t steps = 0;
};

struct phys { size_t begin, end; std::string body, eol; };

inline std::vector<phys> physical_lines(const std::string& t) {
    std::vector<phys> r;
    size_t i = 0;
    while (i < t.size()) {
        size_t nl = t.find('\n', i);
        phys p;
        p.begin = i;
        if (nl == std::string::npos) {
            p.end = t.size();
            p.body = t.substr(i);
        } else {
            p.end = nl + 1;
            size_t e = nl;
            if (e > i && t[e - 1] == '\r') --e;
            p.body = t.substr(i, e - i);
            p.eol = t.substr(e, nl + 1 - e);
        }
        r.push_back(p);
        i = p.end;
    }
    return r;
}

inline bool escaped_end(const cfg& c, const std::string& s) {
    size_t n = 0;
    while (n < s.size() && in(c.esc, s[s.size() - 1 - n])) ++n;
    return n % 2 == 1;
}

// The input as seen by the parser. Where a record begins depends on what was
// done with the lines before it (a header is one physical line), hence records
// are computed from a line index on demand.
struct input {
    cfg c;
    std::string text;
    std::vector<phys> lines;

    input(const cfg& cc, const std::string& t) : c(cc), text(t), lines(physical_lines(t)) {}

    // first line index >= i at which a record can begin
    size_t skip_empty(size_t i) const {
        if (c.ignore_empty)
            while (i < lines.size() && lines[i].body.empty()) ++i;
        return i;
    }

    size_t offset(size_t i) const { return i < lines.size() ? lines[i].begin : text.size(); }

    // record beginning at line i
    record at(size_t i) const {
        record r;
        r.first_line = i;
        r.begin = offset(i);
        r.text = lines[i].body;
        size_t j = i + 1, used = 0;
        auto more = [&](err open) {
            if (c.limit && used >= c.limit) { r.e = err::limit; return false; }
            ++used;
            if (j >= lines.size()) { r.e = open; return false; }
            r.text += lines[j - 1].eol + lines[j].body;
            ++j;
            return true;
        };
        bool go = true;
        while (go) {
            if (c.ml_esc() && escaped_end(c, r.text)) { go = more(err::open_escape); continue; }
            split s = split_line(c, r.text);
            r.steps += s.steps;
            if (s.e == err::open_quote && c.ml_quote()) { go = more(err::open_quote); continue; }
            r.e = s.e;
            r.cols = s.cols;
            break;
        }
        r.lines = j - i;
        r.end = j <= lines.size() && j > 0 ? lines[j - 1].end : text.size();
        if (r.e == err::ok && r.text.empty()) { r.empty = true; r.cols.clear(); }
        if (r.e != err::ok) r.cols.clear();
        return r;
    }
};

// columns presented to a conversion which expects n columns
inline std::vector<std::string> columns_for(const record& r, size_t n) {
    if (r.empty && n == 1) return {""};
    return r.cols;
}

// The parser as a state machine; 'next' is the line index of the next record.
struct parser {
    input in;
    size_t next = 0;
    size_t header = 0;

    explicit parser(const cfg& c, const std::string& t) : in(c, t) {
        next = header = in.skip_empty(0);
        if (c.ignore_header && !eof()) skip_line();
    }
    bool eof() const { return next >= in.lines.size(); }
    size_t position() const { return eof() ? in.text.size() : in.lines[next].begin; }
    size_t line() const { return eof() ? in.lines.size() : next; }
    void skip_line() { next = in.skip_empty(next + 1); }
    std::optional<record> read() {
        if (eof()) return std::nullopt;
        record r = in.at(next);
        next = in.skip_empty(next + r.lines);
        return r;
    }
    bool ignore() {
        if (!eof()) read();
        return !eof();
    }
};

} // namespace model
