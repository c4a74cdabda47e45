// Records which bytes of the operands a call reads and writes.  During a call all memory of the
// operands is inaccessible; every access faults, is recorded with its width (a table from the
// disassembly of this program), and then executed alone with the page open.

#pragma once

#include <algorithm>
#include <ucontext.h>

namespace trc
{
    struct region
    {
        char name;
        uint8_t* base;                  // of the mapping, inaccessible pages included
        size_t size;
        uint8_t* p = nullptr;           // the operand
        size_t n = 0;
        std::vector<uint8_t> seen;      // 1: read, 2: written, 4: read, but was no input and not written before
        bool input = false;
    };

    inline std::vector<region> regions;
    struct entry { uint64_t at; uint32_t width; };
    inline std::vector<entry> widths;
    inline bool on = false;
    inline uint8_t* opened[8];
    inline int opened_count = 0;
    inline size_t faults = 0;
    inline bool unknown = false;

    inline void load_widths(const char* name)
    {
        auto f = fopen(name, "r");
        if (!f) { perror(name); _exit(5); }
        unsigned long a;
        unsigned w;
        while (fscanf(f, "%lx %u", &a, &w) == 2) widths.push_back({a, w});
        fclose(f);
        std::sort(widths.begin(), widths.end(), [](auto& a, auto& b) { return a.at < b.at; });
    }

    inline unsigned width(uint64_t ip)
    {
        auto i = std::lower_bound(widths.begin(), widths.end(), ip, [](auto& a, uint64_t x) { return a.at < x; });
        if (i != widths.end() && i->at == ip) return i->width;
        unknown = true;
        return 1;
    }

    inline void add(char name, drv::arena& a) { regions.push_back({name, a.base - 4096, a.size + 8192, nullptr, 0, {}, false}); regions.back().seen.resize(a.size + 8192); }

    inline region& of(char name) { for (auto& r: regions) if (r.name == name) return r; _exit(5); }

    // Operands of the next call.
    inline void operand(char name, const uint8_t* p, size_t n, bool input)
    {
        auto& r = of(name);
        r.p = const_cast<uint8_t*>(p);
        r.n = n;
        r.input = input;
    }

    inline void close_pages()
    {
        for (int i = 0; i < opened_count; i += 1) mprotect(opened[i], 4096, PROT_NONE);
        opened_count = 0;
    }

    inline void on_fault(int s, siginfo_t* si, void* u)
    {
        auto c = static_cast<ucontext_t*>(u);
        auto a = static_cast<uint8_t*>(si->si_addr);
        for (auto& r: regions)
        {
            if (!on || a < r.base || a >= r.base + r.size) continue;
            auto w = width(uint64_t(c->uc_mcontext.gregs[REG_RIP]));
            bool write = c->uc_mcontext.gregs[REG_ERR] & 2;
            size_t o = size_t(a - r.base);
            for (size_t i = o; i < o + w && i < r.size; i += 1)
            {
                if (write) r.seen[i] |= 2;
                else
                {
                    bool in = r.input && r.base + i >= r.p && r.base + i < r.p + r.n;
                    r.seen[i] |= in || (r.seen[i] & 2) ? 1 : 4;
                }
            }
            // Open this page, and the next one if the access reaches it.
            for (auto q = a; q <= a + w - 1 && q < r.base + r.size; q += 4096)
            {
                auto page = reinterpret_cast<uint8_t*>(uintptr_t(q) & ~uintptr_t(4095));
                if (opened_count == 8) drv::on_signal(s);
                mprotect(page, 4096, PROT_READ | PROT_WRITE);
                opened[opened_count++] = page;
            }
            auto last = reinterpret_cast<uint8_t*>(uintptr_t(a + w - 1) & ~uintptr_t(4095));
            if (last < r.base + r.size && opened_count < 8)
            {
                mprotect(last, 4096, PROT_READ | PROT_WRITE);
                opened[opened_count++] = last;
            }
            faults += 1;
            c->uc_mcontext.gregs[REG_EFL] |= 0x100;
            return;
        }
        drv::on_signal(s);
    }

    inline void on_step(int, siginfo_t*, void* u)
    {
        auto c = static_cast<ucontext_t*>(u);
        close_pages();
        c->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    }

    inline void catch_faults()
    {
        struct sigaction sa{};
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        sa.sa_sigaction = on_fault;
        sigaction(SIGSEGV, &sa, nullptr);
        sa.sa_sigaction = on_step;
        sigaction(SIGTRAP, &sa, nullptr);
    }

    inline void begin()
    {
        for (auto& r: regions)
        {
            std::fill(r.seen.begin(), r.seen.end(), 0);
            mprotect(r.base, r.size, PROT_NONE);
        }
        on = true;
    }

    inline void end()
    {
        on = false;
        close_pages();
        for (auto& r: regions) mprotect(r.base + 4096, r.size - 8192, PROT_READ | PROT_WRITE);
    }

    // " @<region>:<kind>:<from>:<to>" for every maximal range, relative to the operand.
    inline void report()
    {
        static const struct { char name; uint8_t mask; } kinds[] = {{'r', 1}, {'w', 2}, {'u', 4}};
        for (auto& r: regions)
        {
            for (auto& k: kinds)
            {
                long d = long(r.p ? r.p - r.base : 0);
                size_t i = 0;
                while (i < r.size)
                {
                    if (!(r.seen[i] & k.mask)) { i += 1; continue; }
                    auto b = i;
                    while (i < r.size && (r.seen[i] & k.mask)) i += 1;
                    drv::out += std::string(" @") + r.name + ":" + k.name + ":" + std::to_string(long(b) - d) + ":" + std::to_string(long(i) - d);
                }
            }
            // What was placed in f and g is used by later calls, too.
            if (r.name == 'f' || r.name == 'g') continue;
            r.p = nullptr;
            r.n = 0;
            r.input = false;
        }
    }
}

// The program's own memory functions, a byte at a time: what they touch is what they were asked to.
extern "C"
{
#define PLAIN __attribute__((noinline, optimize("O1", "no-tree-loop-distribute-patterns")))
    PLAIN void* memcpy(void* d, const void* s, size_t n)
    {
        for (size_t i = 0; i < n; i += 1) static_cast<uint8_t*>(d)[i] = static_cast<const uint8_t*>(s)[i];
        return d;
    }
    PLAIN void* memmove(void* d, const void* s, size_t n)
    {
        auto x = static_cast<uint8_t*>(d);
        auto y = static_cast<const uint8_t*>(s);
        if (x < y) for (size_t i = 0; i < n; i += 1) x[i] = y[i];
        else for (size_t i = n; i > 0; i -= 1) x[i - 1] = y[i - 1];
        return d;
    }
    PLAIN void* memset(void* d, int v, size_t n)
    {
        for (size_t i = 0; i < n; i += 1) static_cast<uint8_t*>(d)[i] = uint8_t(v);
        return d;
    }
    PLAIN int memcmp(const void* a, const void* b, size_t n)
    {
        auto x = static_cast<const uint8_t*>(a), y = static_cast<const uint8_t*>(b);
        for (size_t i = 0; i < n; i += 1) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
        return 0;
    }
    PLAIN int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
#undef PLAIN
}
