// Executes verifications one instruction at a time and records the instructions executed and the
// bytes of the presented tag they access.
//
// usage: verify_time SCRIPT > RESULTS
//
// A line of the script: form (0 pointer, 1 container, 2 one call) again (verify a second time)
// key nonce aad text (hexadecimal) xor (16 bytes, what the presented tag differs in).
// A line of results: verdict (1 authentic), number of the trace.  Afterwards the different traces:
// "T" and for each instruction its address, "-i:j" for an access to bytes i to j of the tag.

#include <milo/error.h>
#include <milo/option.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/detail/alias.h>

#include "driver.h"

#include <array>
#include <fstream>
#include <iostream>
#include <ucontext.h>

using namespace milo::primitive;
using namespace drv;

#ifndef PRIMITIVE
#define PRIMITIVE aead_chacha_20_poly_1305
#endif

static arena T(4096);
static int64_t trace[1 << 22];
static volatile size_t steps = 0;
static bool on = false;
static bool open_page = false;

static void on_step(int s, siginfo_t*, void* u)
{
    auto c = static_cast<ucontext_t*>(u);
    if (!on) on_signal(s);
    if (open_page) mprotect(T.base, 4096, PROT_NONE);
    open_page = false;
    if (steps == sizeof trace / sizeof *trace) { fprintf(stderr, "too many instructions\n"); _exit(5); }
    trace[steps] = int64_t(c->uc_mcontext.gregs[REG_RIP]);
    steps = steps + 1;
}

static void on_fault(int s, siginfo_t* si, void* u)
{
    auto a = static_cast<uint8_t*>(si->si_addr);
    auto c = static_cast<ucontext_t*>(u);
    if (!on || a < T.base || a >= T.base + 4096 || open_page) on_signal(s);
    if (c->uc_mcontext.gregs[REG_ERR] & 2) on_signal(s);
    trace[steps] = -int64_t(a - T.base) - 1;
    steps = steps + 1;
    mprotect(T.base, 4096, PROT_READ);
    open_page = true;
}

__attribute__((noinline)) static void begin()
{
    mprotect(T.base, 4096, PROT_NONE);
    steps = 0;
    on = true;
    asm volatile("lea -128(%%rsp), %%rsp\n pushfq\n orq $0x100, (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp" ::: "memory", "cc");
}

__attribute__((noinline)) static void end()
{
    asm volatile("lea -128(%%rsp), %%rsp\n pushfq\n andq $~0x100, (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp" ::: "memory", "cc");
    on = false;
    mprotect(T.base, 4096, PROT_READ | PROT_WRITE);
}

using apie = aead::apie<PRIMITIVE>;

// Opaque, so that the traced call does all of its work between begin and end.
#define OPAQUE __attribute__((noipa))

OPAQUE static void verify_pointer(apie& o, const uint8_t* p, milo::error& e) { o.verify(p, 16, e); }
OPAQUE static void verify_container(apie& o, const std::array<uint8_t, 16>& a, milo::error& e) { o.verify(a, e); }
OPAQUE static void decrypt(const bytes& key, const bytes& iv, const bytes& aad, const bytes& cipher, const uint8_t* p, bytes& plain, milo::error& e)
{
    aead::decrypt<PRIMITIVE>(key.data(), key.size(), iv.data(), iv.size(), aad.data(), aad.size(), cipher.data(), cipher.size(), p, 16, plain.data(), e);
}

int main(int argc, char** argv)
{
    if (argc != 2) return 5;
    catch_signals();
    struct sigaction sa{};
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sa.sa_sigaction = on_step;
    sigaction(SIGTRAP, &sa, nullptr);
    sa.sa_sigaction = on_fault;
    sigaction(SIGSEGV, &sa, nullptr);
    std::map<std::vector<int64_t>, int> seen;
    std::vector<std::vector<int64_t>> all;
    std::ifstream script(argv[1]);
    std::string line;
    while (std::getline(script, line))
    {
        tokens t(line);
        int form = int(t.num()), again = int(t.num());
        auto key = unhex(t.str()), iv = unhex(t.str()), aad = unhex(t.str()), text = unhex(t.str()), x = unhex(t.str());
        bytes cipher(text.size()), plain(text.size());
        uint8_t tag[16];
        aead::encrypt<PRIMITIVE>(key.data(), key.size(), iv.data(), iv.size(), aad.data(), aad.size(), text.data(), text.size(), cipher.data(), tag);
        auto p = T.place(form == 1 ? "p64" : "e", 16);
        for (size_t i = 0; i < 16; i += 1) p[i] = tag[i] ^ x[i];
        milo::error e;
        if (form == 2)
        {
            begin();
            decrypt(key, iv, aad, cipher, p, plain, e);
            end();
        }
        else
        {
            apie o;
            o.initialize(key.data(), key.size(), iv.data(), iv.size());
            o.aad(aad.data(), aad.size());
            o.decrypt(cipher.data(), cipher.size(), plain.data());
            auto& a = *reinterpret_cast<std::array<uint8_t, 16>*>(p);
            if (again)
            {
                milo::error f;
                bytes z(16, 7);
                o.verify(z, f);
            }
            if (form == 0) { begin(); verify_pointer(o, p, e); end(); }
            else { begin(); verify_container(o, a, e); end(); }
        }
        std::vector<int64_t> v(trace, trace + steps);
        // Positions relative to the tag.
        for (auto& y: v) if (y < 0) y = -(-1 - y - int64_t(p - T.base)) - 1;
        auto i = seen.find(v);
        if (i == seen.end()) { i = seen.emplace(v, int(all.size())).first; all.push_back(v); }
        out += std::to_string(e ? 0 : 1) + " " + std::to_string(i->second) + "\n";
    }
    for (auto& v: all)
    {
        out += "T";
        for (auto y: v) out += " " + std::to_string(y);
        out += "\n";
        if (all.size() > 200) break;
    }
    flush();
    return 0;
}
