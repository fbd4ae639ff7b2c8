// Sizes beyond 2^31 and 2^32: positions in long sources (C14, PART 14) and long
// lines (C05, PART 5). The source is a pattern which is mapped again and again
// (buffer) or produced by the stream (file), so little memory is touched.
#define VK_NO_RLIMIT
#include "common.hpp"
#include SSP_HEADER
#include <algorithm>
using std::string;
using std::string_view;
using std::vector;
typedef unsigned long long ull;

// a source: bytes [0, head), a period repeated, a tail
struct source {
    string head, period, tail;
    uint64_t repeats = 0;
    uint64_t size() const { return head.size() + uint64_t(period.size()) * repeats + tail.size(); }
    size_t read(uint64_t off, char* b, size_t n) const {
        size_t done = 0;
        while (done < n && off < size()) {
            const string* s;
            uint64_t o = off, body = uint64_t(period.size()) * repeats;
            if (o < head.size()) s = &head;
            else if ((o -= head.size()) < body) { s = &period; o %= period.size(); }
            else { o -= body; s = &tail; }
            size_t k = std::min<uint64_t>(n - done, s->size() - o);
            memcpy(b + done, s->data() + o, k);
            done += k;
            off += k;
        }
        return done;
    }
};
static const source* g_src;
static string g_path;
static uint64_t g_off, g_opened;
static ssize_t src_read(void*, char* b, size_t n) {
    size_t k = g_src->read(g_off, b, n);
    g_off += k;
    return ssize_t(k);
}
static int src_seek(void*, off64_t* o, int whence) {
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? off64_t(g_off) : off64_t(g_src->size());
    if (base + *o < 0) return -1;
    g_off = uint64_t(*o += base);
    return 0;
}
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" FILE* __wrap_fopen(const char* path, const char* mode) {
    if (g_path != path) return __real_fopen(path, mode);
    cookie_io_functions_t io{};
    io.read = src_read;
    io.seek = src_seek;
    ++g_opened;
    g_off = 0;
    FILE* f = fopencookie(nullptr, mode, io);
    if (f) setvbuf(f, nullptr, _IOFBF, 1 << 20);
    return f;
}

// the same bytes in memory; head and tail have to be pages
struct mapping {
    char* p = nullptr;
    uint64_t size = 0;
    explicit mapping(const source& s) {
        size = s.size();
        p = static_cast<char*>(::mmap(nullptr, size + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (p == MAP_FAILED) { perror("mmap"); std::_Exit(3); }
        int fd = memfd_create("vk", 0);
        if (fd < 0 || ::ftruncate(fd, off_t(s.period.size())) != 0) { perror("memfd"); std::_Exit(3); }
        put(p, s.head);
        for (uint64_t i = 0; i < s.repeats; ++i) {
            void* q = ::mmap(p + s.head.size() + i * s.period.size(), s.period.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
            if (q == MAP_FAILED) { perror("mmap"); std::_Exit(3); }
            if (i == 0) memcpy(q, s.period.data(), s.period.size());
        }
        put(p + s.head.size() + s.repeats * s.period.size(), s.tail);
        ::close(fd);
    }
    void put(char* at, const string& s) {
        if (s.empty()) return;
        void* q = ::mmap(at, s.size(), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
        if (q == MAP_FAILED) { perror("mmap"); std::_Exit(3); }
        memcpy(at, s.data(), s.size());
    }
    ~mapping() { ::munmap(p, size + 4096); }
};

template <typename... O>
static void with_parser(vk::ctx& x, const source& s, bool file, const string& what, void (*body)(vk::ctx&, const source&, ss::parser<O...>&, const string&)) {
    if (!x.take()) return;
    ++x.evals;
    g_src = &s;
    if (file) {
        g_path = x.scratch + "/big";
        vk::write_file(g_path, s.head + s.period);
        g_opened = 0;
        ss::parser<O...> p{g_path};
        if (!g_opened) { fprintf(stderr, "the file is not opened with fopen\n"); return; }
        body(x, s, p, what + " file");
        ++x.nontrivial;
    } else {
        mapping m(s);
        ss::parser<O...> p{m.p, size_t(m.size)};
        body(x, s, p, what + " buffer");
        ++x.nontrivial;
    }
}

#if PART == 14
// lengths of the lines of one period, line end included
static vector<uint64_t> g_lines;
static bool near(uint64_t pos, uint64_t len) {
    for (uint64_t edge : {1ull << 31, 1ull << 32}) {
        uint64_t lo = edge - 3 * len, hi = edge + 3 * len;
        if (pos >= lo && pos <= hi) return true;
    }
    return false;
}
template <typename... O>
static void positions(vk::ctx& x, const source& s, ss::parser<O...>& p, const string& what) {
    uint64_t pos = s.head.size(), line = 0;
    auto fail = [&](const string& w) {
        x.violation(what + " at byte " + std::to_string(pos) + " line " + std::to_string(line) + ": " + w);
    };
    // the head is one line
    auto first = p.template get_next<string_view, string_view>();
    (void)first;
    if (!p.valid()) return fail("the first row is invalid");
    ++line;
    uint64_t n = s.repeats * g_lines.size() + 1; // the tail is a line
    for (uint64_t i = 0;; ++i) {
        vk::g_stuck = 0;
        ++x.states;
        ++x.transitions;
        if (p.position() != pos) return fail("position " + std::to_string(p.position()));
        if (p.line() != line) return fail("line " + std::to_string(p.line()));
        if (p.eof() != (i == n)) return fail("eof " + std::to_string(p.eof()));
        if (i == n) {
            if (p.position() != s.size()) return fail("the size of the source is " + std::to_string(s.size()));
            if (p.ignore_next()) return fail("ignore_next after the end");
            return;
        }
        const uint64_t len = i + 1 == n ? s.tail.size() : g_lines[i % g_lines.size()];
        const char last = i + 1 == n ? 't' : char('b' + i % g_lines.size());
        if (near(pos, len) || i + 3 > n || i < 2) {
            auto [a, b] = p.template get_next<string_view, string_view>();
            if (!p.valid()) return fail("the row is invalid");
            const bool nl = i + 1 != n;
            if (a.size() != len - 2 - nl || a.find_first_not_of('a') != a.npos || b != string(1, last)) return fail("wrong values");
        } else if (i % 5 == 0) {
            // a row which fails (one column too many)
            (void)p.template get_next<int, void, void>();
            if (p.valid()) return fail("three columns");
        } else {
            p.ignore_next();
        }
        pos += len;
        ++line;
    }
}
void explore(vk::ctx& x) {
    source s;
    s.head = string(4093, 'h') + ",x\n";
    s.tail = string(4095, 'a');
    s.tail[4093] = ',';
    s.tail[4094] = 't';
    const size_t period = 1 << 23;
    for (size_t k = 0, left = period; left; ++k) {
        size_t len = left < (3u << 20) ? left : (1u << 20) + 7 * k + 3;
        left -= len;
        string l(len, 'a');
        l[len - 1] = '\n';
        l[len - 2] = char('b' + k);
        l[len - 3] = ',';
        g_lines.push_back(len);
        s.period += l;
    }
    s.repeats = (1ull << 32) / period + 2;
    x.bound("source_size", s.size());
    x.bound("lines_per_period", g_lines.size());
    for (bool file : {true, false}) with_parser<>(x, s, file, "long source", positions<>);
    if (x.thorough) for (bool file : {true, false}) with_parser<ss::string_error, ss::quote<'"'>, ss::multiline>(x, s, file, "long source, multiline", positions<ss::string_error, ss::quote<'"'>, ss::multiline>);
}
#else
template <typename... O>
static void long_line(vk::ctx& x, const source& s, ss::parser<O...>& p, const string& what) {
    vk::g_hang_ticks = 60; // one call takes seconds
    // head: "h...,x\n", line: a...a,b\n, tail of the line in tail, then c,d
    auto fail = [&](const string& w) { x.violation(what + ": " + w); };
    const uint64_t len = s.period.size() * s.repeats;
    ++x.states;
    ++x.transitions;
    auto h = p.template get_next<string_view, string_view>();
    if (!p.valid() || std::get<0>(h).size() != s.head.size() - 3) return fail("first row");
    if (p.position() != s.head.size() || p.line() != 1 || p.eof()) return fail("position " + std::to_string(p.position()) + " before the long line");
    {
        auto [a, b] = p.template get_next<string_view, string_view>();
        if (!p.valid()) return fail("the long row is invalid");
        if (a.size() != len) return fail("the long column has " + std::to_string(a.size()) + " bytes");
        for (size_t i = 0; i < a.size(); i += s.period.size())
            if (memcmp(a.data() + i, s.period.data(), s.period.size()) != 0) return fail("the long column is wrong near " + std::to_string(i));
        if (b != "b") return fail("the column after it is wrong");
    }
    if (p.position() != s.size() - 4 || p.line() != 2 || p.eof()) return fail("position " + std::to_string(p.position()) + " after the long line");
    auto [c, d] = p.template get_next<string_view, string_view>();
    if (!p.valid() || c != "c" || d != "d") return fail("the row after it is wrong");
    if (!p.eof() || p.position() != s.size() || p.line() != 3) return fail("no end");
}
// bytes of memory which can be used
static uint64_t available() {
    uint64_t kb = ~0ull >> 10;
    if (FILE* f = __real_fopen("/proc/meminfo", "r")) {
        char l[200];
        while (fgets(l, sizeof l, f))
            if (sscanf(l, "MemAvailable: %lu", &kb) == 1) break;
        fclose(f);
    }
    return kb << 10;
}
void explore(vk::ctx& x) {
    source s;
    s.head = string(4093, 'h') + ",x\n";
    s.period = string(1 << 22, 'a');
    s.tail = ",b\nc,d\n";
    for (uint64_t size : {1ull << 31, 1ull << 32}) {
        if (size >> 32 && !x.thorough) continue;
        s.repeats = size / s.period.size() + 1;
        x.bound("longest_line", s.period.size() * s.repeats + 2);
        if (available() < 3 * size + (2ull << 30)) {
            x.bound("lines_skipped_for_lack_of_memory", 1);
            continue;
        }
        for (bool file : {true, false}) with_parser<>(x, s, file, "line of " + std::to_string(size), long_line<>);
    }
}
#endif
