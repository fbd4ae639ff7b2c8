// Environment of the file reader: fopen() of a registered path yields a stream
// whose reads are answered by the explorer (fragment sizes, errors). If the code
// under test does not use fopen the real file with the same bytes is used.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/types.h>
#include <vector>

namespace vk {
struct cookie_env {
    bool on = false;
    std::string path, data;
    std::vector<size_t> chunks; // sizes of successive reads, 0: everything left
    long error_at = -1;         // byte offset at which reading fails
    int error_no = 5;           // EIO
    bool transient = false;     // reading fails only once
    bool seekable = true;       // or like a pipe
    // observed
    size_t opened = 0, closed = 0, reads = 0, errors = 0;
};
inline cookie_env g_env;

struct cookie_stream {
    size_t off = 0, chunk = 0;
    bool failed = false, used = false;
};
inline cookie_stream g_streams[16];
inline cookie_stream* new_stream() {
    for (auto& s : g_streams)
        if (!s.used) { s = {}; s.used = true; return &s; }
    std::abort();
}
inline ssize_t cookie_read(void* p, char* b, size_t n) {
    auto* s = static_cast<cookie_stream*>(p);
    ++g_env.reads;
    size_t left = s->off < g_env.data.size() ? g_env.data.size() - s->off : 0;
    if (g_env.error_at >= 0 && !(g_env.transient && s->failed)) {
        size_t upto = size_t(g_env.error_at);
        if (s->off >= upto) { ++g_env.errors; s->failed = true; errno = g_env.error_no; return -1; }
        left = std::min(left, upto - s->off);
    }
    size_t k = std::min(n, left);
    if (s->chunk < g_env.chunks.size() && g_env.chunks[s->chunk]) k = std::min(k, g_env.chunks[s->chunk]);
    ++s->chunk;
    memcpy(b, g_env.data.data() + s->off, k);
    s->off += k;
    return ssize_t(k);
}
inline int cookie_seek(void* p, off64_t* o, int whence) {
    auto* s = static_cast<cookie_stream*>(p);
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? off64_t(s->off) : off64_t(g_env.data.size());
    if (base + *o < 0) return -1;
    s->off = size_t(*o += base);
    return 0;
}
inline int cookie_close(void* p) {
    static_cast<cookie_stream*>(p)->used = false;
    ++g_env.closed;
    return 0;
}
} // namespace vk

extern "C" FILE* __real_fopen(const char* path, const char* mode);
extern "C" inline FILE* vk_fopen(const char* path, const char* mode) {
    if (vk::g_env.on && vk::g_env.path == path) {
        cookie_io_functions_t io{};
        io.read = vk::cookie_read;
        io.seek = vk::g_env.seekable ? vk::cookie_seek : nullptr;
        io.close = vk::cookie_close;
        auto* s = vk::new_stream();
        FILE* f = fopencookie(s, mode, io);
        if (f) ++vk::g_env.opened;
        else s->used = false;
        return f;
    }
    return __real_fopen(path, mode);
}
#define VK_COOKIE_MAIN extern "C" FILE* __wrap_fopen(const char* p, const char* m) { return vk_fopen(p, m); }
