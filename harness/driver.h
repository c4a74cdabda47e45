// Common parts of the drivers: guarded memory, crash reports, data streams, text input.

#pragma once

#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <sys/mman.h>
#include <unistd.h>

// One thread of calls, or several (with their own objects and memory).
#ifdef THREADS
#define PER_THREAD thread_local
#else
#define PER_THREAD
#endif

namespace drv
{
    inline PER_THREAD std::string out;             // results not written yet
    
    inline void flush()
    {
        size_t o = 0;
        while (o < out.size())
        {
            auto r = ::write(1, out.data() + o, out.size() - o);
            if (r <= 0) _exit(4);
            o += size_t(r);
        }
        out.clear();
    }
    
    // The results so far are worth keeping when the library crashes.
    inline void on_signal(int s)
    {
        char t[32];
        flush();
        int n = snprintf(t, sizeof t, "!crash %d\n", s);
        if (::write(1, t, size_t(n)) < 0) {}
        _exit(3);
    }
    
    inline void catch_signals()
    {
        static uint8_t stack[1 << 16];
        stack_t ss{};
        ss.ss_sp = stack;
        ss.ss_size = sizeof stack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK;
        for (int s: {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM})
        {
            sigaction(s, &sa, nullptr);
        }
    }
    
    // A piece of memory between two inaccessible pages.
    struct arena
    {
        uint8_t* base;
        size_t size;
        
        explicit arena(size_t n)
        {
            size_t page = 4096;
            size = (n + page - 1) / page * page;
            auto p = static_cast<uint8_t*>(mmap(nullptr, size + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (p == MAP_FAILED || mprotect(p + page, size, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(5); }
            base = p + page;
        }
        
        // place "e": up to the end; "pK": K bytes after the start; "z": nowhere
        uint8_t* place(const char* w, size_t n)
        {
            if (w[0] == 'z' && n == 0) return nullptr;
            if (n > size) { fprintf(stderr, "arena too small\n"); _exit(5); }
            if (w[0] == 'p')
            {
                size_t k = size_t(atoi(w + 1));
                if (k + n <= size) return base + k;
            }
            return base + size - n;
        }
    };
    
    // Told about every operand that is placed, if set.
    inline void (*on_place)(arena&, const uint8_t*, size_t, bool) = nullptr;
    
    using bytes = std::vector<uint8_t>;
    inline std::vector<bytes> streams;
    inline PER_THREAD std::map<int, bytes> mem;
    
    inline void load_streams(const char* name)
    {
        auto f = fopen(name, "rb");
        if (!f) { perror(name); _exit(5); }
        uint32_t n;
        while (fread(&n, 4, 1, f) == 1)
        {
            bytes b(n);
            if (n && fread(b.data(), 1, n, f) != n) _exit(5);
            streams.push_back(b);
        }
        fclose(f);
    }
    
    // In variants of a script every stream has another content: streams come in sets of that many.
    inline int set_size = 0, set = 0;
    
    inline const bytes& stream(int m)
    {
        if (set_size && m >= 1 && m <= set_size) return streams.at(size_t(m - 1 + set * set_size));
        if (m >= 1 && size_t(m) <= streams.size()) return streams[size_t(m) - 1];
        return mem[m];
    }
    
    constexpr size_t unit = size_t(1) << 28;
    
    // Memory full of zeros that ends before an inaccessible page.
    inline const uint8_t* zeros(size_t n)
    {
        static uint8_t* end = nullptr;
        constexpr size_t most = 18 * unit;
        if (!end)
        {
            auto p = static_cast<uint8_t*>(mmap(nullptr, most + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (p == MAP_FAILED || mprotect(p + most, 4096, PROT_NONE)) { perror("mmap"); _exit(5); }
            end = p + most;
        }
        if (n > most) { fprintf(stderr, "too many zeros\n"); _exit(5); }
        return end - n;
    }
    
    // A huge region that shows the same 4 MiB again and again.
    inline uint8_t* mirror(size_t n)
    {
        constexpr size_t piece = size_t(1) << 22;
        static uint8_t* base = nullptr;
        constexpr size_t most = 17 * unit;
        if (!base)
        {
            int fd = memfd_create("mirror", 0);
            if (fd < 0 || ftruncate(fd, piece)) { perror("memfd"); _exit(5); }
            base = static_cast<uint8_t*>(mmap(nullptr, most, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (base == MAP_FAILED) { perror("mmap"); _exit(5); }
            for (size_t i = 0; i < most; i += piece)
            {
                if (mmap(base + i, piece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); _exit(5); }
            }
        }
        if (n > most) { fprintf(stderr, "mirror too small\n"); _exit(5); }
        return base;
    }
    
    // Text of n times the character c and an ending, before an inaccessible page.
    inline const char* text(size_t n, char c, const bytes& v)
    {
        constexpr size_t piece = size_t(1) << 22;
        constexpr size_t most = 18 * unit;
        static std::map<char, char*> ends;
        auto& end = ends[c];
        if (!end)
        {
            int fd = memfd_create("text", 0);
            if (fd < 0 || ftruncate(fd, piece)) { perror("memfd"); _exit(5); }
            auto base = static_cast<char*>(mmap(nullptr, most + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (base == MAP_FAILED) { perror("mmap"); _exit(5); }
            for (size_t i = 0; i < most; i += piece)
            {
                // The last piece is memory of its own.
                auto own = i + piece == most;
                if (mmap(base + i, piece, PROT_READ | PROT_WRITE, own ? MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED : MAP_SHARED | MAP_FIXED, own ? -1 : fd, 0) == MAP_FAILED) { perror("mmap"); _exit(5); }
            }
            std::memset(base, c, piece);
            end = base + most;
        }
        if (n + v.size() > most || v.size() > piece) { fprintf(stderr, "text too long\n"); _exit(5); }
        std::memset(end - piece, c, piece);
        if (!v.empty()) std::memcpy(end - v.size(), v.data(), v.size());
        return end - v.size() - n;
    }
    
    // Room for n bytes before an inaccessible page; all but its last 4 MiB are the same memory.
    inline uint8_t* long_room(size_t n)
    {
        constexpr size_t piece = size_t(1) << 22;
        constexpr size_t most = 34 * unit;
        static uint8_t* end = nullptr;
        if (!end)
        {
            int fd = memfd_create("room", 0);
            if (fd < 0 || ftruncate(fd, piece)) { perror("memfd"); _exit(5); }
            auto base = static_cast<uint8_t*>(mmap(nullptr, most + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (base == MAP_FAILED) { perror("mmap"); _exit(5); }
            for (size_t i = 0; i < most; i += piece)
            {
                auto own = i + piece == most;
                if (mmap(base + i, piece, PROT_READ | PROT_WRITE, own ? MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED : MAP_SHARED | MAP_FIXED, own ? -1 : fd, 0) == MAP_FAILED) { perror("mmap"); _exit(5); }
            }
            end = base + most;
        }
        if (n > most) { fprintf(stderr, "room too small\n"); _exit(5); }
        std::memset(end - piece, 0xA5, piece);
        return end - n;
    }
    
    // Ordinary memory.
    inline uint8_t* room(size_t n)
    {
        auto p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(5); }
        return static_cast<uint8_t*>(p);
    }
    
    inline void hex(const uint8_t* p, size_t n)
    {
        static const char d[] = "0123456789abcdef";
        if (n == 0) out += '-';
        for (size_t i = 0; i < n; i += 1) { out += d[p[i] >> 4]; out += d[p[i] & 15]; }
    }
    
    inline bytes unhex(const std::string& s)
    {
        bytes b;
        if (s == "-") return b;
        for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(uint8_t(std::stoi(s.substr(i, 2), nullptr, 16)));
        return b;
    }
    
    // Value of the byte i of an output before the call.
    inline uint8_t canary(size_t i) { return uint8_t(0xA5 ^ (i * 7) ^ (i >> 8)); }
    
    struct tokens
    {
        std::vector<std::string> t;
        size_t i = 0;
        
        explicit tokens(const std::string& line)
        {
            size_t b = 0;
            while (b < line.size())
            {
                auto e = line.find(' ', b);
                if (e == std::string::npos) e = line.size();
                if (e > b) t.push_back(line.substr(b, e - b));
                b = e + 1;
            }
        }
        const std::string& str() { if (i >= t.size()) { fprintf(stderr, "short line\n"); _exit(5); } return t[i++]; }
        long num() { return std::stol(str()); }
        bool more() const { return i < t.size(); }
    };
    
    // An input reference: stream, offset, size, place.  Stream -1: zeros, whose size grows by
    // 2^28 times the offset.
    struct input
    {
        int m;
        size_t s, n;
        std::string w;
        const uint8_t* p = nullptr;
        
        explicit input(tokens& t)
        {
            m = int(t.num());
            s = size_t(t.num());
            n = size_t(t.num());
            w = t.str();
            if (m == -1) n += s * unit;
        }
        const uint8_t* source() const { return n ? m == -1 ? zeros(n) : stream(m).data() + s : nullptr; }
        const uint8_t* in(arena& a)
        {
            if (m == -1) return p = zeros(n);
            auto q = a.place(w.c_str(), n);
            if (n) memcpy(q, source(), n);
            if (on_place) on_place(a, q, n, true);
            return p = q;
        }
        bool intact() const { return n == 0 || p == nullptr || m == -1 || memcmp(p, source(), n) == 0; }
    };
    
    // Marks around a piece of an arena.
    struct margin
    {
        static constexpr long most = 96;
        const uint8_t *b, *p, *q, *e;
        
        margin(arena& a, const uint8_t* p, size_t n) : p(p), q(p + n)
        {
            b = p - a.base < most ? a.base : p - most;
            e = a.base + a.size - q < most ? a.base + a.size : q + most;
            if (!p) { b = p = q = e = a.base; }
            for (auto i = b; i < e; i += 1) if (i < p || i >= q) *const_cast<uint8_t*>(i) = mark(i);
        }
        bool intact() const
        {
            for (auto i = b; i < p; i += 1) if (*i != mark(i)) return false;
            for (auto i = q; i < e; i += 1) if (*i != mark(i)) return false;
            return true;
        }
        static uint8_t mark(const uint8_t* i) { return canary(size_t(uintptr_t(i) & 0xffff) + 77); }
    };
    
    // An output buffer of a given capacity.
    struct output
    {
        uint8_t* p;
        size_t n;
        margin m;
        
        output(arena& a, const std::string& w, size_t n) : p(a.place(w.c_str(), n)), n(n), m(a, p, n)
        {
            for (size_t i = 0; i < n; i += 1) p[i] = canary(i);
            if (on_place) on_place(a, p, n, false);
        }
        // Whether nothing but the first r bytes has been written.
        bool intact(size_t r) const
        {
            for (size_t i = r; i < n; i += 1) if (p[i] != canary(i)) return false;
            return m.intact();
        }
        void report(size_t r)
        {
            out += std::to_string(r);
            out += ' ';
            hex(p, r < n ? r : n);
            if (!intact(r)) out += " !stray";
        }
    };
}
