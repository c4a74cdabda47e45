// Another processor: CPUID and XGETBV of this program are answered from the environment, and the
// instruction set extensions that it executes are recorded.  All these instructions are replaced
// by breakpoints, before anything else of the program runs.
//
// MILO_CPU: max leaf, leaf 1 ecx and edx, leaf 7 ebx, xcr0, noise (hexadecimal), where noise is what the other
// leaves contain; MILO_SITES: a file with lines "address class" for all these instructions.

#pragma once

#include <ucontext.h>

namespace cpu
{
    struct site { uint64_t at; uint8_t kind; uint8_t byte; };
    inline site* sites;
    inline size_t count;
    inline char names[32][16];
    inline int kinds;
    inline bool executed[32];
    inline bool xgetbv_wrong;
    inline unsigned max_leaf, l1c, l1d, l7b, xcr0, noise;

    inline void put(uint64_t at, uint8_t b) { *reinterpret_cast<volatile uint8_t*>(at) = b; }

    inline void arm()
    {
        for (size_t i = 0; i < count; i += 1) put(sites[i].at, 0xCC);
        for (auto& x: executed) x = false;
    }

    inline void on_trap(int s, siginfo_t*, void* u)
    {
        auto g = static_cast<ucontext_t*>(u)->uc_mcontext.gregs;
        auto at = uint64_t(g[REG_RIP]) - 1;
        size_t b = 0, e = count;
        while (b < e) { auto m = (b + e) / 2; if (sites[m].at < at) b = m + 1; else e = m; }
        if (b == count || sites[b].at != at) drv::on_signal(s);
        auto k = sites[b].kind;
        if (k == 0)
        {
            auto a = unsigned(g[REG_RAX]), c = unsigned(g[REG_RCX]);
            unsigned r[4] = {noise, noise, noise, noise};
            if (a == 0) { r[0] = max_leaf; r[1] = 0x756e6547; r[3] = 0x49656e69; r[2] = 0x6c65746e; }
            else if (a == 1) { r[0] = 0x000806f8; r[1] = 0x00100800; r[2] = l1c; r[3] = l1d; }
            else if (a == 7 && c == 0 && max_leaf >= 7) { r[0] = 2; r[1] = l7b; }
            else if (a >= 0x80000000) { r[0] = a == 0x80000000 ? 0x80000008 : 0; r[1] = r[2] = r[3] = 0; }
            g[REG_RAX] = r[0];
            g[REG_RBX] = r[1];
            g[REG_RCX] = r[2];
            g[REG_RDX] = r[3];
            g[REG_RIP] = greg_t(at + 2);
        }
        else if (k == 1)
        {
            // Without OSXSAVE the instruction does not exist.
            if (!(l1c & (1u << 27))) drv::on_signal(SIGILL);
            if (unsigned(g[REG_RCX])) drv::on_signal(SIGSEGV);
            g[REG_RAX] = xcr0;
            g[REG_RDX] = 0;
            g[REG_RIP] = greg_t(at + 3);
        }
        else
        {
            executed[k] = true;
            put(at, sites[b].byte);
            g[REG_RIP] = greg_t(at);
        }
    }

    // " ^class,class": extensions executed since the session began.
    inline void report()
    {
        drv::out += " ^";
        bool any = false;
        for (int i = 2; i < kinds; i += 1)
        {
            if (!executed[i]) continue;
            if (any) drv::out += ',';
            drv::out += names[i];
            any = true;
        }
        if (!any) drv::out += '-';
    }
}

extern "C" char __executable_start, etext;

__attribute__((constructor(101)))
static void other_processor()
{
    using namespace cpu;
    auto f = fopen(getenv("MILO_SITES"), "r");
    if (!f || sscanf(getenv("MILO_CPU"), "%x %x %x %x %x %x", &max_leaf, &l1c, &l1d, &l7b, &xcr0, &noise) != 6) _exit(5);
    size_t cap = 1 << 16;
    sites = static_cast<site*>(malloc(cap * sizeof(site)));
    strcpy(names[0], "cpuid");
    strcpy(names[1], "xgetbv");
    kinds = 2;
    unsigned long a;
    char n[16];
    while (fscanf(f, "%lx %15s", &a, n) == 2)
    {
        int k = 0;
        while (k < kinds && strcmp(names[k], n)) k += 1;
        if (k == kinds) { if (kinds == 32) _exit(5); strcpy(names[kinds++], n); }
        if (count == cap) _exit(5);
        sites[count++] = {a, uint8_t(k), *reinterpret_cast<uint8_t*>(a)};
    }
    fclose(f);
    auto b = uintptr_t(&__executable_start) & ~uintptr_t(4095), e = (uintptr_t(&etext) + 4095) & ~uintptr_t(4095);
    if (mprotect(reinterpret_cast<void*>(b), e - b, PROT_READ | PROT_WRITE | PROT_EXEC)) { perror("mprotect"); _exit(5); }
    struct sigaction sa{};
    sa.sa_flags = SA_SIGINFO;
    sa.sa_sigaction = on_trap;
    sigaction(SIGTRAP, &sa, nullptr);
    arm();
}
