// Interpreter for call schedules over milo's public streaming interface.
//
// usage: interp STREAMS SCRIPT > RESULTS
//
// STREAMS: for each stream a little endian 32 bit size and its bytes.  SCRIPT: one call per line;
// RESULTS: one line per line of the script, what the call delivered.  TYPES names a file with
// lines X(kind, "name", type) for the primitives to offer.  Inputs and outputs lie between
// inaccessible pages.

#include <milo/error.h>
#include <milo/option.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>

#include "driver.h"
#ifdef TRACE
#include "trace.h"
#endif
#ifdef CPU
#include "cpu.h"
#endif

#include <array>
#include <functional>
#include <memory>

namespace mp = milo::primitive;
using namespace milo::primitive;
namespace option = milo::option;
using namespace drv;

static int code_of(const milo::error& e) { return int(static_cast<milo::error::code>(e)); }

#ifdef REGISTERS
// Calls f(x) with marks in the registers that a callee keeps, and tells what is there afterwards: rbx, rbp,
// r12 - r15; the control bits of mxcsr, the control and the tag word of the x87; the direction flag.
extern "C" void call_marked(void (*f)(void*), void* x, uint64_t* kept);
asm(R"(
    .intel_syntax noprefix
    .text
    .globl call_marked
call_marked:
    push rbx
    push rbp
    push r12
    push r13
    push r14
    push r15
    push rdx
    mov rax, rdi
    mov rdi, rsi
    movabs rbx, 0x1122334455667701
    movabs rbp, 0x1122334455667702
    movabs r12, 0x1122334455667703
    movabs r13, 0x1122334455667704
    movabs r14, 0x1122334455667705
    movabs r15, 0x1122334455667706
    call rax
    mov rdx, [rsp]
    mov [rdx], rbx
    mov [rdx + 8], rbp
    mov [rdx + 16], r12
    mov [rdx + 24], r13
    mov [rdx + 32], r14
    mov [rdx + 40], r15
    sub rsp, 32
    stmxcsr [rsp]
    mov eax, [rsp]
    mov [rdx + 48], rax
    fnstenv [rsp]
    mov eax, [rsp]
    mov [rdx + 56], rax
    mov eax, [rsp + 8]
    mov [rdx + 64], rax
    fldenv [rsp]
    add rsp, 32
    pushfq
    pop [rdx + 72]
    cld
    pop rdx
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbp
    pop rbx
    ret
    .att_syntax
)");

// What the calls since the last report left there, as long as it is what they found.
static uint64_t left[10];
static bool changed = false;

static void marked(void (*f)(void*), void* x)
{
    uint64_t k[10];
    call_marked(f, x, k);
    k[6] &= 0xffc0, k[7] &= 0xffff, k[8] &= 0xffff, k[9] &= 0x400;
    if (!changed) memcpy(left, k, sizeof k);
    for (uint64_t i = 0; i < 6; i += 1) changed |= k[i] != 0x1122334455667701 + i;
    changed |= k[6] != 0x1f80 || k[7] != 0x37f || k[8] != 0xffff || k[9];
}
#endif

// The call proper, whose operands are all placed.
template<typename F>
static auto call(F f)
{
#ifdef REGISTERS
    using R = decltype(f());
    if constexpr (std::is_void_v<R>)
    {
        marked([](void* x) { (*static_cast<F*>(x))(); }, &f);
        return;
    }
    else
    {
        struct { F& f; R r; } s{f, R()};
        marked([](void* x) { auto& y = *static_cast<decltype(s)*>(x); y.r = y.f(); }, &s);
        return s.r;
    }
#else
#ifdef TRACE
    struct scope
    {
        scope() { trc::begin(); }
        ~scope() { trc::end(); trc::report(); out += ' '; }
    } s;
#endif
    return f();
#endif
}

#ifdef RESIDUE
// Memory of objects, seen when it is given back.
struct residue
{
    static constexpr size_t room = 4096;
    static inline const uint8_t* from = nullptr;
    static inline size_t size = 0;
    static inline bool tell = false;
    alignas(64) static inline uint8_t pool[64][room];
    static inline bool used[64];
    
    static void* give(size_t n)
    {
        for (size_t i = 0; i < 64; i += 1)
        {
            if (used[i] || n > room) continue;
            used[i] = true;
            memset(pool[i], 0x5A, room);
            __asm__ volatile("" : : "r"(pool[i]) : "memory");
            return pool[i];
        }
        _exit(5);
    }
    
    __attribute__((noinline)) static void take(void* p)
    {
        __asm__ volatile("" : : "r"(p) : "memory");
        used[(static_cast<uint8_t*>(p) - pool[0]) / ptrdiff_t(room)] = false;
        if (!tell) return;
        out += std::to_string(size) + " ";
        hex(from, size);
    }
};
#endif

struct object
{
    std::string type;
    virtual ~object() = default;
#ifdef RESIDUE
    static void* operator new(size_t n) { return residue::give(n); }
    static void operator delete(void* p) { residue::take(p); }
    virtual void watch() = 0;
#endif
    virtual object* copy() = 0;
    virtual object* move() = 0;
    virtual void assign(object&) = 0;
    virtual void reset() { bad(); }
    virtual void key(input&) { bad(); }
    virtual void hkdf(input&, input&, input&) { bad(); }
    virtual void pbkdf(input&, input&, uint32_t) { bad(); }
    virtual void pair(input&, input&) { bad(); }
    virtual void update(const uint8_t*, size_t) { bad(); }
    virtual size_t digest(uint8_t*, size_t) { bad(); return 0; }
    virtual size_t derive(uint8_t*, size_t) { bad(); return 0; }
    virtual size_t crypt(bool, const uint8_t*, size_t, uint8_t*) { bad(); return 0; }
    virtual int verify(const uint8_t*, size_t, int) { bad(); return 0; }
    virtual void defaults(int) { bad(); }
    virtual std::string sizes() { bad(); return ""; }
    static void bad() { fprintf(stderr, "call on an object of another kind\n"); _exit(5); }
};

#if defined(TRACE) || defined(RESIDUE)
static arena A(1 << 13), B(1 << 13), C(1 << 13), O(1 << 13), F(1 << 13), G(1 << 13);
#else
static PER_THREAD arena A(1 << 21), B(1 << 20), C(1 << 20), O(1 << 21);
#endif
template<typename T>
static std::string sizes_of()
{
    size_t d = 0, b = 0, k = 0, v = 0;
    if constexpr (requires { T::digest_size; }) d = T::digest_size;
    if constexpr (requires { T::block_size; }) b = T::block_size;
    if constexpr (requires { T::key_size; }) k = T::key_size;
    if constexpr (requires { T::iv_size; }) v = T::iv_size;
    return std::to_string(d) + " " + std::to_string(b) + " " + std::to_string(k) + " " + std::to_string(v);
}

// Digests of the default size: to memory, as a value, into containers.
template<typename T>
static void digest_by_default(T& o, int form)
{
    auto tell = [](size_t r, const void* p, size_t n)
    {
        out += std::to_string(r) + " ";
        hex(static_cast<const uint8_t*>(p), r < n ? r : n);
    };
    if (form == 0)
    {
        output b(O, "e", T::digest_size);
        b.report(o.digest(b.p));
    }
    else if (form == 1) { auto d = o.digest(); tell(d.size(), d.data(), d.size()); }
    else if (form == 2) { std::vector<uint8_t> d; auto r = o.digest(d); tell(r == d.size() ? r : 0, d.data(), d.size()); }
    else if (form == 3) { auto d = o.template digest<std::array<char, T::digest_size>>(); tell(d.size(), d.data(), d.size()); }
    else { std::array<char, T::digest_size> d{}; auto r = o.digest(d); tell(r, d.data(), d.size()); }
}

static PER_THREAD std::vector<std::unique_ptr<bytes>> kept;      // memory that must outlive the call

template<typename D, typename T>
struct base : object
{
    T o;
    base() = default;
    explicit base(const T& t) : o(t) {}
    explicit base(T&& t) : o(std::move(t)) {}
    object* copy() override { auto d = new D(static_cast<const T&>(o)); d->type = type; return d; }
    object* move() override { auto d = new D(std::move(o)); d->type = type; return d; }
    void assign(object& s) override { o = static_cast<D&>(s).o; }
    std::string sizes() override { return sizes_of<T>(); }
#ifdef RESIDUE
    void watch() override { residue::from = reinterpret_cast<const uint8_t*>(&o); residue::size = sizeof(T); }
#endif
};

template<typename I>
struct hash_object : base<hash_object<I>, mp::hash::apie<I>>
{
    void defaults(int form) override { digest_by_default(this->o, form); }
    using base<hash_object<I>, mp::hash::apie<I>>::base;
    void reset() override { this->o.initialize(); }
    void update(const uint8_t* p, size_t n) override { call([&] { this->o.update(p, n); }); }
    size_t digest(uint8_t* p, size_t n) override { return call([&] { return this->o.digest(p, n); }); }
};

template<typename I>
struct mac_object : base<mac_object<I>, mp::mac::apie<I>>
{
    void defaults(int form) override { digest_by_default(this->o, form); }
    using base<mac_object<I>, mp::mac::apie<I>>::base;
    void key(input& k) override { auto p = k.in(A); call([&] { this->o.initialize(p, k.n); }); }
    void update(const uint8_t* p, size_t n) override { call([&] { this->o.update(p, n); }); }
    size_t digest(uint8_t* p, size_t n) override { return call([&] { return this->o.digest(p, n); }); }
};

template<typename I>
struct hkdf_object : base<hkdf_object<I>, mp::kdf::apie<I>>
{
    using base<hkdf_object<I>, mp::kdf::apie<I>>::base;
    void hkdf(input& i, input& s, input& f) override
    {
        // The info is used by later calls, too.
#if defined(TRACE) || defined(RESIDUE)
        auto z = f.in(F);
#else
        kept.push_back(std::make_unique<bytes>(f.source(), f.source() + f.n));
        auto z = kept.back()->data();
#endif
        auto x = i.in(A), y = s.in(B);
        call([&] { this->o.initialize(x, i.n, y, s.n, z, f.n); });
    }
    size_t derive(uint8_t* p, size_t n) override { return call([&] { return this->o.derive(p, n); }); }
};

template<typename I>
struct pbkdf_object : base<pbkdf_object<I>, mp::kdf::apie<I>>
{
    using base<pbkdf_object<I>, mp::kdf::apie<I>>::base;
    void pbkdf(input& i, input& s, uint32_t c) override
    {
#if defined(TRACE) || defined(RESIDUE)
        const uint8_t *x = i.in(F), *y = s.in(G);
#else
        kept.push_back(std::make_unique<bytes>(s.source(), s.source() + s.n));
        kept.push_back(std::make_unique<bytes>(i.source(), i.source() + i.n));
        auto x = kept.back()->data(), y = kept[kept.size() - 2]->data();
#endif
        call([&] { this->o.initialize(x, i.n, y, s.n, c); });
    }
    size_t derive(uint8_t* p, size_t n) override { return call([&] { return this->o.derive(p, n); }); }
};

template<typename I>
struct cipher_object : base<cipher_object<I>, mp::cipher::apie<I>>
{
    using base<cipher_object<I>, mp::cipher::apie<I>>::base;
    void pair(input& k, input& v) override { auto x = k.in(A), y = v.in(B); call([&] { this->o.initialize(x, k.n, y, v.n); }); }
    size_t crypt(bool e, const uint8_t* p, size_t n, uint8_t* q) override
    {
        return call([&] { return e ? this->o.encrypt(p, n, q) : this->o.decrypt(p, n, q); });
    }
};

template<typename I>
struct aead_object : base<aead_object<I>, mp::aead::apie<I>>
{
    using base<aead_object<I>, mp::aead::apie<I>>::base;
    void pair(input& k, input& v) override { auto x = k.in(A), y = v.in(B); call([&] { this->o.initialize(x, k.n, y, v.n); }); }
    void update(const uint8_t* p, size_t n) override { call([&] { this->o.aad(p, n); }); }
    size_t crypt(bool e, const uint8_t* p, size_t n, uint8_t* q) override
    {
        return call([&] { return e ? this->o.encrypt(p, n, q) : this->o.decrypt(p, n, q); });
    }
    size_t digest(uint8_t* p, size_t n) override { return call([&] { return this->o.digest(p, n); }); }
    template<typename X>
    int verify_thing(const X& x, int form)
    {
        if (form == 2)
        {
            try { call([&] { this->o.verify(x); }); return 1; }
            catch (const milo::error& e) { return code_of(e) == milo::error::aead_verify ? 0 : 2; }
        }
        milo::error e = form ? milo::error::aead_verify : milo::error::none;
        call([&] { this->o.verify(x, e); });
        return !e ? 1 : code_of(e) == milo::error::aead_verify ? 0 : 2;
    }
    
    template<size_t N>
    int verify_array(const uint8_t* p, int form)
    {
        std::array<uint8_t, N> x;
        std::memcpy(x.data(), p, N);
        return verify_thing(x, form);
    }
    
    int verify_container(const uint8_t* p, size_t n, int form)
    {
        if (form >= 3) return verify_thing(std::string_view(reinterpret_cast<const char*>(p), n), form - 3);
        switch (n)
        {
            case 1: return verify_array<1>(p, form);
            case 8: return verify_array<8>(p, form);
            case 15: return verify_array<15>(p, form);
            case 16: return verify_array<16>(p, form);
            case 17: return verify_array<17>(p, form);
            default: return verify_thing(bytes(p, p + n), form);
        }
    }
    
    // Verdict: 1 accepted, 0 rejected, 2 anything else.
    int verify(const uint8_t* p, size_t n, int form) override
    {
        // 0, 1: memory, with an error that is clear or set before; 2: memory, without one; from 3 on
        // the same with containers.
        if (form >= 3) return verify_container(p, n, form - 3);
        if (form == 2)
        {
            try { call([&] { this->o.verify(p, n); }); return 1; }
            catch (const milo::error& e) { return code_of(e) == milo::error::aead_verify ? 0 : 2; }
        }
        milo::error e = form ? milo::error::aead_verify : milo::error::none;
        call([&] { this->o.verify(p, n, e); });
        return !e ? 1 : code_of(e) == milo::error::aead_verify ? 0 : 2;
    }
};

static std::map<std::string, std::function<object*()>> factory;

// Sealing and opening in one call.
struct one_shot
{
    std::function<void(input&, input&, input&, input&, int, int, int)> seal;
    std::function<void(input&, input&, input&, input&, input&, int)> open;
};
static std::map<std::string, one_shot> one_shots;
#ifdef TRACE
static arena D(1 << 13), E(1 << 13);
#else
static PER_THREAD arena D(1 << 20), E(1 << 20);
#endif

static bytes copy_of(const input& i) { return i.n ? bytes(i.source(), i.source() + i.n) : bytes(); }

template<typename I>
static void seal(input& k, input& v, input& a, input& p, int form, int st, int su)
{
    bytes c, t;
    size_t r, q;
    if (form == 0 && p.w == "i")
    {
        // Over the plaintext.
        output g(E, p.w, 16);
        auto x = const_cast<uint8_t*>(p.in(O));
        margin z(O, x, p.n);
        auto pk = k.in(A), pv = v.in(B), pa = a.in(C);
        auto [x0, x1] = call([&] { return mp::aead::encrypt<I>(pk, k.n, pv, v.n, pa, a.n, x, p.n, x, g.p); });
        r = x0;
        q = x1;
        if (!g.intact(16) || !z.intact() || !k.intact() || !v.intact() || !a.intact()) out += "!stray ";
        c.assign(x, x + (r < p.n ? r : p.n));
        t.assign(g.p, g.p + 16);
    }
    else if (form == 0)
    {
        output o(O, p.w, p.n);
        output g(E, p.w, 16);
        auto pk = k.in(A), pv = v.in(B), pa = a.in(C), pp = p.in(D);
        auto [x0, x1] = call([&] { return mp::aead::encrypt<I>(pk, k.n, pv, v.n, pa, a.n, pp, p.n, o.p, g.p); });
        r = x0;
        q = x1;
        if (!o.intact(r) || !g.intact(16) || !k.intact() || !v.intact() || !a.intact() || !p.intact()) out += "!stray ";
        c.assign(o.p, o.p + (r < p.n ? r : p.n));
        t.assign(g.p, g.p + 16);
    }
    else
    {
        auto ck = copy_of(k), cv = copy_of(v), ca = copy_of(a), cp = copy_of(p);
        if (form == 1)
        {
            std::array<uint8_t, 16> g;
            auto [x0, x1] = mp::aead::encrypt<I>(ck, cv, ca, cp, c, g);
            r = x0;
            q = x1;
            t.assign(g.begin(), g.end());
        }
        else
        {
            auto [x0, x1] = mp::aead::encrypt<I>(ck, cv, ca, cp);
            c = bytes(x0.begin(), x0.end());
            t = bytes(x1.begin(), x1.end());
            r = c.size();
            q = t.size();
        }
        if (c.size() != r) out += "!size ";
    }
    if (q != 16) out += "!tagsize ";
    out += std::to_string(r) + " ";
    hex(c.data(), c.size());
    out += " ";
    hex(t.data(), t.size());
    if (st) mem[st] = c;
    if (su) mem[su] = t;
}

template<typename I>
static void open(input& k, input& v, input& a, input& c, input& t, int form)
{
    milo::error e = form & 1 ? milo::error::aead_verify : milo::error::none;
    bytes p;
    size_t r = 0;
    bool threw = false;
    try
    {
        if (form <= 2 && c.w == "i")
        {
            // Over the ciphertext.
            auto x = const_cast<uint8_t*>(c.in(O));
            margin z(O, x, c.n);
            auto pk = k.in(A), pv = v.in(B), pa = a.in(C), pt = t.in(E);
            r = call([&]
            {
                return form < 2 ?
                    mp::aead::decrypt<I>(pk, k.n, pv, v.n, pa, a.n, x, c.n, pt, t.n, x, e) :
                    mp::aead::decrypt<I>(pk, k.n, pv, v.n, pa, a.n, x, c.n, pt, t.n, x);
            });
            if (!z.intact() || !k.intact() || !v.intact() || !a.intact() || !t.intact()) out += "!stray ";
            p.assign(x, x + (r < c.n ? r : c.n));
        }
        else if (form <= 2)
        {
            output o(O, c.w, c.n);
            auto pk = k.in(A), pv = v.in(B), pa = a.in(C), pc = c.in(D), pt = t.in(E);
            r = call([&]
            {
                return form < 2 ?
                    mp::aead::decrypt<I>(pk, k.n, pv, v.n, pa, a.n, pc, c.n, pt, t.n, o.p, e) :
                    mp::aead::decrypt<I>(pk, k.n, pv, v.n, pa, a.n, pc, c.n, pt, t.n, o.p);
            });
            if (!o.intact(r) || !k.intact() || !v.intact() || !a.intact() || !c.intact() || !t.intact()) out += "!stray ";
            p.assign(o.p, o.p + (r < c.n ? r : c.n));
        }
        else
        {
            auto ck = copy_of(k), cv = copy_of(v), ca = copy_of(a), cc = copy_of(c), ct = copy_of(t);
            if (form == 3) r = mp::aead::decrypt<I>(ck, cv, ca, cc, ct, p, e);
            else if (form == 4) r = mp::aead::decrypt<I>(ck, cv, ca, cc, ct, p);
            else
            {
                auto x = form == 5 ? mp::aead::decrypt<I>(ck, cv, ca, cc, ct, e) : mp::aead::decrypt<I>(ck, cv, ca, cc, ct);
                p = bytes(x.begin(), x.end());
                r = p.size();
            }
            if (p.size() != r) out += "!size ";
        }
    }
    catch (const milo::error& x) { e = x; threw = true; p.clear(); r = 0; }
    // With an error argument nothing is thrown, without one every error is.
    if (threw && !(form == 2 || form == 4 || form == 6)) out += "!threw ";
    out += !e ? "1 " : code_of(e) == milo::error::aead_verify ? "0 " : "2 ";
    if (e && !threw && (form == 2 || form == 4 || form == 6)) out += "!silent ";
    out += std::to_string(r) + " ";
    hex(p.data(), p.size());
}

template<typename I> static void one_shot_of(const char* n, std::true_type) { one_shots[n] = one_shot{seal<I>, open<I>}; }
template<typename I> static void one_shot_of(const char*, std::false_type) {}

enum class kinds { hash, mac, hkdf, pbkdf, cipher, aead };

static void register_types()
{
#define X(kind, name, ...) factory[name] = []() -> object* { return new kind##_object<__VA_ARGS__>; }; \
    one_shot_of<__VA_ARGS__>(name, std::bool_constant<kinds::kind == kinds::aead>());
#include TYPES
#undef X
}

static PER_THREAD std::map<int, std::unique_ptr<object>> objects;

template<typename K>
static void run_codec(const std::string& op, bool hex_codec, tokens& t)
{
    input x(t);
    auto p = x.in(A);
    using api = mp::codec::apie<K>;
    if (op == "cesz") { out += std::to_string(call([&] { return api::encode_size(p, x.n); })); }
    else if (op == "cdsz") { out += std::to_string(call([&] { return api::decode_size(p, x.n); })); }
    else if (op == "cenc")
    {
        // Capacity: what the result takes.
        auto w = t.str();
        size_t n = hex_codec ? 2 * x.n : (x.n + 2) / 3 * 4;
        output o(O, w, n);
        o.report(call([&] { return api::encode(p, x.n, o.p); }));
    }
    else
    {
        // Capacity: given by the script.  Forms: 0, 1 with an error argument, 2 with an exception.
        auto w = t.str();
        auto form = t.num();
        output o(O, w, size_t(t.num()));
        int code;
        if (form == 2)
        {
            try { auto r = call([&] { return api::decode(p, x.n, o.p); }); o.report(r); code = 0; }
            catch (const milo::error& e) { out += "-1 -"; code = code_of(e); if (!o.m.intact()) out += " !stray"; }
        }
        else
        {
            milo::error e = form ? milo::error::aead_verify : milo::error::none;
            auto r = call([&] { return api::decode(p, x.n, o.p, e); });
            o.report(r);
            code = code_of(e);
        }
        out += " e" + std::to_string(code);
    }
    if (!x.intact()) out += " !input";
}

// Very long inputs: zeros, and texts of the digit of value zero with another ending.
template<typename K>
static void run_long_codec(const std::string& op, char zero, tokens& t)
{
    using api = mp::codec::apie<K>;
    auto n = size_t(t.num()) * unit;
    n += size_t(t.num());
    auto tell = [](size_t r) { out += std::to_string(r / unit) + " " + std::to_string(r % unit); };
    auto last = [&](const uint8_t* p, size_t r, size_t room, size_t k)
    {
        out += ' ';
        if (k > r) k = r;
        if (r > room) { out += "!size"; return; }
        hex(p + r - k, k);
    };
    if (op == "ceszz") { tell(call([&] { return api::encode_size(zeros(n), n); })); }
    else if (op == "cencz")
    {
        auto k = size_t(t.num());
        auto most = zero == '0' ? 2 * n : (n + 2) / 3 * 4;
        auto p = long_room(most);
        auto r = call([&] { return api::encode(zeros(n), n, p); });
        tell(r);
        last(p, r, most, k);
    }
    else
    {
        auto v = unhex(t.str());
        auto p = text(n, zero, v);
        if (op == "cdszz") { tell(call([&] { return api::decode_size(p, n + v.size()); })); return; }
        auto k = size_t(t.num());
        auto form = t.num();
        auto most = zero == '0' ? (n + v.size() + 1) / 2 : (n + v.size() + 3) / 4 * 3;
        auto q = long_room(most);
        milo::error e = form ? milo::error::aead_verify : milo::error::none;
        auto r = call([&] { return api::decode(p, n + v.size(), q, e); });
        tell(r);
        last(q, r, most, k);
        out += " e" + std::to_string(code_of(e));
    }
}

static void run(const std::string& op, tokens& t)
{
    auto check = [](input& i) { if (!i.intact()) out += " !input"; };
    if (op == "S")
    {
        objects.clear();
        mem.clear();
        kept.clear();
#ifdef CPU
        cpu::arm();
#endif
    }
    else if (op == "new")
    {
        int o = int(t.num());
        auto name = t.str();
        auto f = factory.find(name);
        if (f == factory.end()) { fprintf(stderr, "unknown type %s\n", name.c_str()); _exit(5); }
        objects[o].reset(f->second());
        objects[o]->type = name;
    }
#ifdef RESIDUE
    else if (op == "V") { drv::set = int(t.num()); drv::set_size = int(t.num()); }
    else if (op == "drop")
    {
        auto o = int(t.num());
        objects.at(o)->watch();
        residue::tell = true;
        objects.erase(o);
        residue::tell = false;
    }
#else
    else if (op == "drop") { objects.erase(int(t.num())); }
#endif
    else if (op == "cpy") { int d = int(t.num()); objects[d].reset(objects.at(int(t.num()))->copy()); }
    else if (op == "mov") { int d = int(t.num()); objects[d].reset(objects.at(int(t.num()))->move()); }
    else if (op == "asg") { int d = int(t.num()); objects.at(d)->assign(*objects.at(int(t.num()))); }
    else if (op == "mset") { int m = int(t.num()); mem[m] = unhex(t.str()); }
    else if (op == "mflip") { int m = int(t.num()); auto i = size_t(t.num()); mem[m].at(i - 1) ^= uint8_t(t.num()); }
    else if (op == "mcut") { int m = int(t.num()); mem[m].resize(size_t(t.num())); }
    else if (op == "madd") { int m = int(t.num()); auto b = unhex(t.str()); mem[m].insert(mem[m].end(), b.begin(), b.end()); }
    else if (op == "seal")
    {
        auto& f = one_shots.at(t.str());
        input k(t), v(t), a(t), p(t);
        int form = int(t.num()), st = int(t.num()), su = int(t.num());
        f.seal(k, v, a, p, form, st, su);
    }
    else if (op == "open")
    {
        auto& f = one_shots.at(t.str());
        input k(t), v(t), a(t), c(t), g(t);
        f.open(k, v, a, c, g, int(t.num()));
    }
    else if (op[0] == 'c' && (op == "cencz" || op == "cdecz" || op == "ceszz" || op == "cdszz"))
    {
        auto k = t.str();
        if (k == "base_16") run_long_codec<mp::codec_base_16>(op, '0', t); else run_long_codec<mp::codec_base_64>(op, 'A', t);
    }
    else if (op[0] == 'c' && (op == "cenc" || op == "cdec" || op == "cesz" || op == "cdsz"))
    {
        auto k = t.str();
        if (k == "base_16") run_codec<mp::codec_base_16>(op, true, t); else run_codec<mp::codec_base_64>(op, false, t);
    }
    else
    {
        auto& o = *objects.at(int(t.num()));
        if (op == "rst") { o.reset(); }
        else if (op == "key") { input k(t); o.key(k); check(k); }
        else if (op == "hkdf") { input a(t), b(t), c(t); o.hkdf(a, b, c); check(a); check(b); }
        else if (op == "pbk") { input a(t), b(t); auto c = uint32_t(t.num()); o.pbkdf(a, b, c); }
        else if (op == "cip" || op == "aead") { input a(t), b(t); o.pair(a, b); check(a); check(b); }
        else if (op == "upd" || op == "aad") { input a(t); auto p = a.in(A); o.update(p, a.n); check(a); }
        else if (op == "digd") { o.defaults(int(t.num())); }
        else if (op == "siz") { out += o.sizes(); }
#ifdef REGISTERS
        else if (op == "regs")
        {
            std::string r;
            for (auto x : left) for (int i = 0; i < 8; i += 1) r += " " + std::to_string(x >> 8 * i & 255);
            out += r.substr(1);
            changed = false;
        }
#endif
        else if (op == "dig" || op == "der")
        {
            auto n = size_t(t.num());
            auto w = t.str();
            int st = op == "dig" ? int(t.num()) : 0;
            output b(O, w, n);
            auto r = op == "dig" ? o.digest(b.p, n) : o.derive(b.p, n);
            b.report(r);
            if (st) mem[st] = bytes(b.p, b.p + (r < n ? r : n));
        }
        else if (op == "enc" || op == "dec")
        {
            input a(t);
            auto w = t.str();
            int st = int(t.num());
            size_t r;
            if (w == "i")
            {
                auto p = const_cast<uint8_t*>(a.in(O));
                margin z(O, p, a.n);
                r = o.crypt(op == "enc", p, a.n, p);
                out += std::to_string(r);
                out += ' ';
                hex(p, r < a.n ? r : a.n);
                if (!z.intact()) out += " !stray";
                if (st) mem[st] = bytes(p, p + (r < a.n ? r : a.n));
            }
            else
            {
                auto p = a.in(A);
                output b(O, w, a.n);
                r = o.crypt(op == "enc", p, a.n, b.p);
                b.report(r);
                check(a);
                if (st) mem[st] = bytes(b.p, b.p + (r < a.n ? r : a.n));
            }
        }
        else if (op == "encz" || op == "decz")
        {
            auto n = size_t(t.num()) * unit;
            n += size_t(t.num());
            auto k = size_t(t.num());
            // 0: one call, its output to a small piece of memory shown again and again; 1: one
            // call with memory for all of its output; 2: pieces of 4 MiB.
            auto mode = t.num();
            size_t r = 0;
            uint8_t* p = mode == 1 ? room(n) : mirror(n);
            if (mode == 2)
            {
                constexpr size_t piece = size_t(1) << 22;
                for (size_t i = 0; i < n; i += piece)
                {
                    auto x = n - i < piece ? n - i : piece;
                    r += o.crypt(op == "encz", zeros(x), x, p + i);
                }
            }
            else r = o.crypt(op == "encz", zeros(n), n, p);
            out += std::to_string(r / unit) + " " + std::to_string(r % unit) + " ";
            hex(p + n - k, k);
            if (mode == 1) munmap(p, n);
        }
        else if (op == "derz")
        {
            auto n = size_t(t.num());
            auto k = size_t(t.num());
            auto p = mirror(n + k) + k;
            auto r = o.derive(p, n);
            out += std::to_string(r) + " ";
            hex(p + n - k, k);
        }
        else if (op == "ver")
        {
            input a(t);
            auto p = a.in(A);
            auto v = o.verify(p, a.n, int(t.num()));
            out += std::to_string(v);
            check(a);
        }
        else { fprintf(stderr, "unknown call %s\n", op.c_str()); _exit(5); }
    }
}

static void run_line(const std::string& s)
{
    tokens t(s);
    auto op = t.str();
    try { run(op, t); }
    catch (const milo::error& e) { out += "!exception " + std::to_string(code_of(e)); }
    catch (const std::exception& e) { out += std::string("!exception ") + e.what(); }
#ifdef CPU
    if (op != "S") cpu::report();
#endif
    out += '\n';
}

static std::vector<std::string> load_script(const char* name)
{
    auto f = fopen(name, "r");
    if (!f) { perror(name); _exit(5); }
    char* line = nullptr;
    size_t cap = 0;
    std::vector<std::string> r;
    while (getline(&line, &cap, f) > 0)
    {
        std::string s(line);
        while (!s.empty() && s.back() == '\n') s.pop_back();
        r.push_back(s);
    }
    free(line);
    fclose(f);
    return r;
}

static void run_script(const char* name)
{
    for (auto& s: load_script(name))
    {
        run_line(s);
#ifndef THREADS
        if (out.size() > (1 << 16)) flush();
#endif
    }
}

#ifdef THREADS
// usage: interp STREAMS SCRIPT... : every script in a thread of its own, results to SCRIPT.out.
// With PRESS=MS in the environment every session is repeated for that many milliseconds, by all
// threads at the same time, and each of its distinct results is written once.
#include <atomic>
#include <barrier>
#include <chrono>
#include <thread>

static std::string press(const std::vector<std::string>& script, int ms, std::barrier<>& b)
{
    constexpr size_t most = 4;
    std::string all;
    for (size_t i = 0, j = 0; i < script.size(); i = j)
    {
        for (j = i + 1; j < script.size() && script[j] != "S"; j += 1) {}
        std::vector<std::string> seen;
        size_t runs = 0;
        b.arrive_and_wait();
        auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
        do
        {
            out.clear();
            for (auto k = i; k < j; k += 1) run_line(script[k]);
            runs += 1;
            bool known = false;
            for (auto& s: seen) known = known || s == out;
            if (!known) seen.push_back(out);
        }
        while (seen.size() < most && std::chrono::steady_clock::now() < end);
        all += "=" + std::to_string(runs) + "\n";
        for (auto& s: seen) all += s + "=\n";
    }
    return all;
}

int main(int argc, char** argv)
{
    catch_signals();
    register_types();
    load_streams(argv[1]);
    zeros(0);
    std::atomic<int> ready = 0;
    std::vector<std::thread> ts;
    auto ms = getenv("PRESS");
    std::barrier<> b(argc - 2);
    for (int i = 2; i < argc; i += 1)
    {
        ts.emplace_back([&, i]
        {
            A.place("e", 0);
            O.place("e", 0);
            ready += 1;
            while (ready < argc - 2) {}
            if (ms) out = press(load_script(argv[i]), atoi(ms), b); else run_script(argv[i]);
            auto f = fopen((std::string(argv[i]) + ".out").c_str(), "w");
            if (!f) _exit(5);
            fwrite(out.data(), 1, out.size(), f);
            fclose(f);
        });
    }
    for (auto& t: ts) t.join();
    return 0;
}
#else
int main(int argc, char** argv)
{
    catch_signals();
    register_types();
#ifdef TRACE
    // usage: interp STREAMS SCRIPT WIDTHS
    trc::load_widths(argv[3]);
    trc::catch_faults();
    static const std::pair<char, arena*> all[] = {{'a', &A}, {'b', &B}, {'c', &C}, {'d', &D}, {'t', &E}, {'o', &O}, {'f', &F}, {'g', &G}};
    for (auto& [n, a]: all) trc::add(n, *a);
    on_place = [](arena& a, const uint8_t* p, size_t n, bool input)
    {
        for (auto& [x, y]: all) if (y == &a) trc::operand(x, p, n, input);
    };
#endif
    if (argc < 3) return 5;
    load_streams(argv[1]);
    run_script(argv[2]);
    flush();
    return 0;
}
#endif
