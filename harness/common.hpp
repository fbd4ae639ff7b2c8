// Shared runtime of all explorers: case numbering, sharding, replay, crash and
// hang attribution, result reporting. No dependency on the code under test.
#pragma once
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vk {

// printable form of arbitrary bytes (also used inside JSON after escaping)
inline std::string show(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '\t') r += "\\t";
        else if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += char(c);
        if (r.size() > 400) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    }
    return r + "\"";
}

inline std::string show(const std::vector<std::string>& v) {
    std::string r = "[";
    size_t n = 0;
    for (auto& s : v) {
        if (n++) r += ",";
        if (n > 12) { r += "...(" + std::to_string(v.size()) + ")"; break; }
        r += show(s);
    }
    return r + "]";
}

inline std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

struct shared_state {
    volatile uint64_t current;   // number of the case being executed
    volatile uint64_t done;      // executed cases
    char note[1024];             // description of the running case (replay only)
};

struct ctx {
    // configuration
    bool thorough = false;
    uint64_t shard = 0, nshards = 1;
    int64_t only = -1;           // replay a single case
    bool verbose = false;
    std::string scratch;         // private scratch directory
    std::string out;

    // statistics
    uint64_t counter = 0;        // all cases numbered so far
    uint64_t evals = 0;          // executions of the implementation
    uint64_t states = 0;         // model states visited (distinct per case)
    uint64_t transitions = 0;    // model transitions taken
    uint64_t nontrivial = 0;     // executions with a non-trivial outcome
    uint64_t violations = 0;
    std::set<uint64_t> outcomes; // distinct observed outcomes (hashed, capped)
    std::vector<std::string> samples;
    uint64_t next_sample = 3;
    struct viol { uint64_t n; std::string desc; };
    std::vector<viol> viols;
    std::vector<std::pair<std::string, uint64_t>> bounds; // reported bounds
    shared_state* sh = nullptr;
    shared_state local{};

    // true if the caller has to run this case
    bool take() {
        uint64_t n = counter++;
        if (only >= 0) {
            if (n != uint64_t(only)) return false;
        } else if (n % nshards != shard) {
            return false;
        }
        sh->current = n;
        sh->done = sh->done + 1;
        return true;
    }
    // skip n cases quickly (not run by this shard)
    template <typename F>
    void sample(F&& f) {
        if (samples.size() < 6 && sh->done >= next_sample) {
            samples.push_back(f());
            next_sample = sh->done * 5 + 7;
        }
    }
    void outcome(const std::string& s) {
        if (outcomes.size() < 200000) outcomes.insert(std::hash<std::string>{}(s));
    }
    void bound(const std::string& k, uint64_t v) { bounds.emplace_back(k, v); }

    // a class of failures listed in KNOWN_FINDINGS.txt
    uint64_t known_hits = 0;
    bool known(const std::string& tag) {
        const char* l = getenv("VK_KNOWN");
        if (!l || ("," + std::string(l) + ",").find("," + tag + ",") == std::string::npos) return false;
        ++known_hits;
        return true;
    }

    void violation(const std::string& desc) {
        ++violations;
        if (viols.size() < 5) viols.push_back({sh->current, desc});
        if (verbose) fprintf(stderr, "VIOLATION-DETAIL case %llu: %s\n",
                             (unsigned long long)sh->current, desc.c_str());
        if (violations >= 50) { finish(); std::_Exit(0); }
    }

    void finish() {
        FILE* f = ::fopen(out.c_str(), "w");
        if (!f) { perror("out"); std::_Exit(3); }
        fprintf(f, "{\"cases\":%llu,\"evals\":%llu,\"states\":%llu,\"transitions\":%llu,"
                   "\"nontrivial\":%llu,\"total\":%llu,\"outcomes\":%zu,\"violations\":%llu,\n\"viols\":[",
                (unsigned long long)sh->done, (unsigned long long)evals,
                (unsigned long long)states, (unsigned long long)transitions,
                (unsigned long long)nontrivial, (unsigned long long)counter,
                outcomes.size(), (unsigned long long)violations);
        for (size_t i = 0; i < viols.size(); ++i)
            fprintf(f, "%s{\"n\":%llu,\"desc\":%s}", i ? "," : "",
                    (unsigned long long)viols[i].n, jesc(viols[i].desc).c_str());
        if (known_hits) bound("known_findings_seen_in_a_shard", known_hits);
        fprintf(f, "],\n\"samples\":[");
        for (size_t i = 0; i < samples.size(); ++i)
            fprintf(f, "%s%s", i ? "," : "", jesc(samples[i]).c_str());
        fprintf(f, "],\n\"bounds\":{");
        for (size_t i = 0; i < bounds.size(); ++i)
            fprintf(f, "%s%s:%llu", i ? "," : "", jesc(bounds[i].first).c_str(),
                    (unsigned long long)bounds[i].second);
        fprintf(f, "}}\n");
        fclose(f);
    }
};

inline ctx* g_ctx = nullptr;
inline uint64_t g_last_done = ~0ull;
inline int g_stuck = 0;
inline int g_hang_ticks = 10; // x 2 s without progress

inline void on_alarm(int) {
    uint64_t d = g_ctx->sh->done;
    if (d == g_last_done) {
        if (++g_stuck >= g_hang_ticks) {
            const char m[] = "HANG: no progress\n";
            ssize_t r = ::write(2, m, sizeof m - 1);
            (void)r;
            ::_exit(77);
        }
    } else {
        g_stuck = 0;
        g_last_done = d;
    }
}

inline void start(ctx& c, int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--tier") c.thorough = v == "thorough";
        else if (k == "--shard") c.shard = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--nshards") c.nshards = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--only") c.only = strtoll(v.c_str(), nullptr, 10);
        else if (k == "--scratch") c.scratch = v;
        else if (k == "--out") c.out = v;
        else if (k == "--verbose") c.verbose = v == "1";
        else if (k == "--hang") g_hang_ticks = atoi(v.c_str());
        else if (k == "--state") {
            int fd = ::open(v.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ::ftruncate(fd, sizeof(shared_state)) == 0) {
                void* p = ::mmap(nullptr, sizeof(shared_state), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) c.sh = static_cast<shared_state*>(p);
            }
            if (fd >= 0) ::close(fd);
        }
    }
    if (!c.sh) c.sh = &c.local;
    g_ctx = &c;
    struct sigaction sa {};
    sa.sa_handler = on_alarm;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, nullptr);
    itimerval tv{{2, 0}, {2, 0}};
    setitimer(ITIMER_REAL, &tv, nullptr);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VK_NO_RLIMIT)
    rlimit rl{3ull << 30, 3ull << 30};
    setrlimit(RLIMIT_AS, &rl);
#endif
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
}

////////////////
// enumeration
////////////////

// all strings over 'alphabet' of exactly length n, in lexicographic order
template <typename F>
void words_n(const std::string& alphabet, size_t n, F&& f) {
    std::vector<size_t> idx(n, 0);
    std::string w(n, alphabet.empty() ? ' ' : alphabet[0]);
    if (n && alphabet.empty()) return;
    while (true) {
        f(static_cast<const std::string&>(w));
        size_t i = n;
        while (i > 0) {
            --i;
            if (++idx[i] < alphabet.size()) { w[i] = alphabet[idx[i]]; break; }
            idx[i] = 0;
            w[i] = alphabet[0];
            if (i == 0) return;
        }
        if (n == 0) return;
    }
}

// all strings of length lo..hi, shortest first
template <typename F>
void words(const std::string& alphabet, size_t lo, size_t hi, F&& f) {
    for (size_t n = lo; n <= hi; ++n) words_n(alphabet, n, f);
}

// all sequences over {0..k-1} of exactly length n
template <typename F>
void seqs_n(size_t k, size_t n, F&& f) {
    std::vector<int> w(n, 0);
    while (true) {
        f(static_cast<const std::vector<int>&>(w));
        size_t i = n;
        while (i > 0) {
            --i;
            if (size_t(++w[i]) < k) break;
            w[i] = 0;
            if (i == 0) return;
        }
        if (n == 0) return;
    }
}

inline std::string repeat(const std::string& w, size_t k) {
    std::string r;
    r.reserve(w.size() * k);
    for (size_t i = 0; i < k; ++i) r += w;
    return r;
}

// memory directly followed by an inaccessible page; put(s) places s so that the
// byte after it is inaccessible
class guard_page {
    char* base_ = nullptr;
    size_t cap_ = 0;

public:
    explicit guard_page(size_t cap = 1 << 20) {
        size_t pg = 4096;
        cap_ = (cap + pg - 1) / pg * pg;
        void* p = ::mmap(nullptr, cap_ + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) std::abort();
        base_ = static_cast<char*>(p);
        ::mprotect(base_ + cap_, pg, PROT_NONE);
    }
    guard_page(const guard_page&) = delete;
    ~guard_page() { ::munmap(base_, cap_ + 4096); }
    char* put(const std::string& s) {
        if (s.size() > cap_) std::abort();
        char* p = base_ + cap_ - s.size();
        if (!s.empty()) memcpy(p, s.data(), s.size());
        return p;
    }
    char* putz(const std::string& s) { // with terminating NUL as last byte
        char* p = base_ + cap_ - s.size() - 1;
        memcpy(p, s.c_str(), s.size() + 1);
        return p;
    }
};

inline void write_file(const std::string& path, const std::string& data) {
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) { perror(path.c_str()); std::_Exit(3); }
    size_t off = 0;
    while (off < data.size()) {
        ssize_t r = ::write(fd, data.data() + off, data.size() - off);
        if (r <= 0) { perror("write"); std::_Exit(3); }
        off += size_t(r);
    }
    ::close(fd);
}

} // namespace vk

#ifndef VK_NO_MAIN
void explore(vk::ctx& c);
int main(int argc, char** argv) {
    static vk::ctx c;
    vk::start(c, argc, argv);
    explore(c);
    c.finish();
    std::_Exit(0);
}
#endif
