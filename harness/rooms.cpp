// Interpreter for call schedules in which memory is refused at chosen points.
//
// usage: rooms STREAMS SCRIPT > RESULTS
//
// As interp.cpp, but every line of the script starts with a form (see below) and a number k: the
// k-th request for memory during the call is refused (none if k is 0); after that the call is
// made again with all the memory it asks for.  Every result is followed by
//     $ FORM ROOM NEED N K REFUSED PLAIN
// the kind of output, the room it had, the room it needs, the requests of the completed call,
// k, what the refused call raised (0: nothing, 1: that which the container raises, 2: something
// else), and requests that no container made.

#include <milo/container.h>
#include <milo/error.h>
#include <milo/option.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>

#include "driver.h"

#include <array>
#include <functional>
#include <memory>
#include <new>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <vector>

namespace mp = milo::primitive;
using namespace drv;

//-------------------------------------------------------------------------------------------
// Memory.

static bool armed;              // a call of the library is being made
static long requests, refuse_at, plain;

struct refused { int mark = 4711; };

static bool request()
{
    if (!armed) return true;
    requests += 1;
    if (requests != refuse_at) return true;
    armed = false;              // what raising the exception needs does not count
    return false;
}

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* malloc(size_t n) noexcept { plain += armed; return __libc_malloc(n); }
extern "C" void free(void* p) noexcept { __libc_free(p); }
extern "C" void* calloc(size_t n, size_t m) noexcept { plain += armed; return __libc_calloc(n, m); }
extern "C" void* realloc(void* p, size_t n) noexcept { plain += armed; return __libc_realloc(p, n); }

static void* obtain(size_t n)
{
    if (!request()) throw std::bad_alloc();
    auto p = __libc_malloc(n);
    if (!p) _exit(5);
    return p;
}
void* operator new(size_t n) { return obtain(n); }
void* operator new[](size_t n) { return obtain(n); }
void operator delete(void* p) noexcept { __libc_free(p); }
void operator delete[](void* p) noexcept { __libc_free(p); }
void operator delete(void* p, size_t) noexcept { __libc_free(p); }
void operator delete[](void* p, size_t) noexcept { __libc_free(p); }

// A container of a user, which has its own memory and its own exception.
struct own
{
    using value_type = char;
    std::array<char, 1024> room{};
    size_t used = 0, most = 0;
    char* data() noexcept { return room.data(); }
    const char* data() const noexcept { return room.data(); }
    size_t size() const noexcept { return used; }
    void reserve(size_t n) { most = n > most ? n : most; }
    void resize(size_t n, char v)
    {
        if (n > room.size()) _exit(5);
        if (n > most)
        {
            if (!request()) throw refused();
            most = n;
        }
        for (size_t i = used; i < n; i += 1) room[i] = v;
        used = n;
    }
};

//-------------------------------------------------------------------------------------------
// Calls.

enum { fixed_pointer, fixed_span, grow_vector, grow_string, grow_own, give_vector, give_string, give_own, give_array };

static int form;
static long k_of_line, room_of_line;
static std::string note;        // about the call just made

template<typename F>
static int attempt(F f)
{
    int what = 0;
    requests = 0;
    plain = 0;
    armed = true;
    try { f(); }
    catch (const std::bad_alloc&) { armed = false; what = form == grow_own || form == give_own ? 2 : 1; }
    catch (const refused& r) { armed = false; what = (form == grow_own || form == give_own) && r.mark == 4711 ? 1 : 2; }
    catch (const milo::error&) { armed = false; throw; }
    catch (...) { armed = false; what = 2; }
    armed = false;
    return what;
}

struct given_up {};

// One call, made again if memory was refused.
template<typename F>
static void made(const char* kind, size_t room, size_t need, F f)
{
    int what = 0;
    bool failed = false;
    milo::error error;
    refuse_at = k_of_line < 0 ? -k_of_line : k_of_line;
    long at = refuse_at;
    try
    {
        what = attempt(f);
        if (what && k_of_line >= 0)
        {
            refuse_at = 0;
            if (attempt(f)) out += "!again ";
        }
    }
    catch (const milo::error& e) { armed = false; failed = true; error = e; }
    if (failed) plain = 0;      // the exception itself
    note = std::string(" $ ") + kind + " " + std::to_string(room) + " " + std::to_string(need) + " " +
        std::to_string(requests) + " " + std::to_string(at) + " " + std::to_string(what) + " " + std::to_string(plain);
    if (what && k_of_line < 0) throw given_up();
    if (failed) throw error;
}

static void result(size_t r, const void* p, size_t n, size_t eff)
{
    out += std::to_string(r) + " ";
    hex(static_cast<const uint8_t*>(p), r < n ? r : n);
    if (eff != size_t(-1)) out += " n=" + std::to_string(eff);
}

static arena O(1 << 16), P(1 << 16);

template<typename T, typename F>
static void grow(size_t need, size_t eff, F f)
{
    T t;
    t.resize(3, '#');
    size_t room = 3;
    if (room_of_line) { t.reserve(600); room = 600; }
    size_t r = 0;
    made("grow", room, need, [&] { r = f(t); });
    if (t.size() != r) out += "!size ";
    result(r, t.data(), t.size(), eff);
}

template<typename T, typename F>
static void give(size_t need, size_t eff, F f)
{
    std::optional<T> t;
    made("give", 0, need, [&] { t.emplace(f.template operator()<T>()); });
    result(t->size(), t->data(), t->size(), eff);
}

// p: into a pointer, o: into a container, g: returned; n: the room at the pointer; need: what a
// container needs; eff: the size that counts.
template<typename FP, typename FO, typename FG>
static void all(size_t n, size_t need, size_t eff, FP p, FO o, FG g)
{
    switch (form)
    {
        case fixed_pointer:
        {
            output b(O, "e", n);
            size_t r = 0;
            made("fix", 0, need, [&] { r = p(b.p); });
            if (!b.intact(r)) out += "!stray ";
            result(r, b.p, n, eff);
            return;
        }
        case fixed_span:
        {
            output b(O, "e", n);
            std::span<char> t(reinterpret_cast<char*>(b.p), n);
            size_t r = 0;
            made("fix", 0, need, [&] { r = o(t); });
            if (!b.intact(r)) out += "!stray ";
            result(r, b.p, n, eff);
            return;
        }
        case grow_vector: grow<std::vector<uint8_t>>(need, eff, o); return;
        case grow_string: grow<std::string>(need, eff, o); return;
        case grow_own: grow<own>(need, eff, o); return;
        case give_vector: give<std::vector<signed char>>(need, eff, g); return;
        case give_string: give<std::string>(need, eff, g); return;
        default: give<own>(need, eff, g); return;
    }
}

struct in
{
    input i;
    arena& a;
    in(tokens& t, arena& a) : i(t), a(a) { i.in(a); }
    const uint8_t* p() const { return i.p; }
    size_t n() const { return i.n; }
    std::string_view v() const { return {reinterpret_cast<const char*>(i.p), i.n}; }
};
static std::vector<std::unique_ptr<arena>> arenas;
static arena& next_arena()
{
    arenas.push_back(std::make_unique<arena>(4096));
    return *arenas.back();
}

struct object
{
    virtual ~object() = default;
    virtual object* copy() = 0;
    virtual void assign(object&) = 0;
    virtual void reset() { bad(); }
    virtual void key(in&) { bad(); }
    virtual void hkdf(in&, in&, in&) { bad(); }
    virtual void pbkdf(in&, in&, uint32_t) { bad(); }
    virtual void pair(in&, in&) { bad(); }
    virtual void update(in&) { bad(); }
    virtual void digest(size_t) { bad(); }
    virtual void derive(size_t) { bad(); }
    virtual void crypt(bool, in&) { bad(); }
    virtual void verify(in&) { bad(); }
    static void bad() { fprintf(stderr, "call on an object of another kind\n"); _exit(5); }
};

template<typename T>
struct of : object
{
    std::optional<T> o;
    template<typename F> static void fix(F f) { made("fix", 0, 0, f); }
    of() { o.emplace(); }
    object* copy() override
    {
        auto r = make();
        fix([&] { static_cast<of*>(r)->o.emplace(*o); });
        return r;
    }
    void assign(object& x) override { fix([&] { *o = *static_cast<of&>(x).o; }); }
    virtual object* make() = 0;
    void read(size_t n)
    {
        all(n, n < T::digest_size ? n : T::digest_size, n,
            [&](auto* p) { return o->digest(p, n); },
            [&](auto& t) { return o->digest(t, n); },
            [&]<typename C>() { return o->template digest<C>(n); });
    }
};

template<typename I>
struct hash_object : of<mp::hash::apie<I>>
{
    object* make() override { return new hash_object; }
    void reset() override { this->fix([&] { this->o->initialize(); }); }
    void update(in& x) override { if (form % 2) this->fix([&] { this->o->update(x.v()); }); else this->fix([&] { this->o->update(x.p(), x.n()); }); }
    void digest(size_t n) override { this->read(n); }
};

template<typename I>
struct mac_object : of<mp::mac::apie<I>>
{
    object* make() override { return new mac_object; }
    void key(in& x) override { if (form % 2) this->fix([&] { this->o->initialize(x.v()); }); else this->fix([&] { this->o.emplace(x.p(), x.n()); }); }
    void update(in& x) override { if (form % 2) this->fix([&] { this->o->update(x.v()); }); else this->fix([&] { this->o->update(x.p(), x.n()); }); }
    void digest(size_t n) override { this->read(n); }
};

template<typename I>
struct kdf_object : of<mp::kdf::apie<I>>
{
    object* make() override { return new kdf_object; }
    void hkdf(in& a, in& b, in& c) override
    {
        if constexpr (requires { this->o->initialize(a.v(), b.v(), c.v()); })
        {
            if (form % 2) this->fix([&] { this->o->initialize(a.v(), b.v(), c.v()); });
            else this->fix([&] { this->o.emplace(a.p(), a.n(), b.p(), b.n(), c.p(), c.n()); });
        }
    }
    void pbkdf(in& a, in& b, uint32_t c) override
    {
        if constexpr (requires { this->o->initialize(a.v(), b.v(), c); })
        {
            if (form % 2) this->fix([&] { this->o->initialize(a.v(), b.v(), c); });
            else this->fix([&] { this->o.emplace(a.p(), a.n(), b.p(), b.n(), c); });
        }
    }
    void derive(size_t n) override
    {
        all(n, n, n,
            [&](auto* p) { return this->o->derive(p, n); },
            [&](auto& t) { return this->o->derive(t, n); },
            [&]<typename C>() { return this->o->template derive<C>(n); });
    }
};

template<typename T>
struct crypting : of<T>
{
    void pair(in& a, in& b) override
    {
        if (form % 2) this->fix([&] { this->o->initialize(a.v(), b.v()); });
        else this->fix([&] { this->o.emplace(a.p(), a.n(), b.p(), b.n()); });
    }
    void crypt(bool e, in& x) override
    {
        auto& o = *this->o;
        all(x.n(), x.n(), size_t(-1),
            [&](auto* p) { return e ? o.encrypt(x.p(), x.n(), p) : o.decrypt(x.p(), x.n(), p); },
            [&](auto& t) { return e ? o.encrypt(x.v(), t) : o.decrypt(x.v(), t); },
            [&]<typename C>() { return e ? o.template encrypt<C>(x.v()) : o.template decrypt<C>(x.v()); });
    }
};

template<typename I>
struct cipher_object : crypting<mp::cipher::apie<I>>
{
    object* make() override { return new cipher_object; }
};

static int verdict(const milo::error& e) { return !e ? 1 : static_cast<milo::error::code>(e) == milo::error::aead_verify ? 0 : 2; }

template<typename I>
struct aead_object : crypting<mp::aead::apie<I>>
{
    object* make() override { return new aead_object; }
    void update(in& x) override { if (form % 2) this->fix([&] { this->o->aad(x.v()); }); else this->fix([&] { this->o->aad(x.p(), x.n()); }); }
    void digest(size_t n) override { this->read(n); }
    void verify(in& x) override
    {
        milo::error e;
        try
        {
            switch (form % 4)
            {
                case 0: this->fix([&] { this->o->verify(x.p(), x.n(), e); }); break;
                case 1: this->fix([&] { this->o->verify(x.v(), e); }); break;
                case 2: this->fix([&] { this->o->verify(x.p(), x.n()); }); break;
                default: this->fix([&] { this->o->verify(x.v()); }); break;
            }
        }
        catch (const milo::error& x) { e = x; }
        out += std::to_string(verdict(e));
    }
};

//-------------------------------------------------------------------------------------------
// Calls that need no object.

struct single
{
    std::function<void(in&, size_t)> hash;
    std::function<void(in&, in&, size_t)> mac;
    std::function<void(in&, in&, in&, size_t)> hkdf;
    std::function<void(in&, in&, uint32_t, size_t)> pbkdf;
    std::function<void(bool, in&, in&, in&)> cipher;
    std::function<void(in&, in&, in&, in&)> seal;
    std::function<void(in&, in&, in&, in&, in&)> open;
};

template<typename I>
static void single_hash(in& x, size_t n)
{
    if (form == give_array)
    {
        std::array<char, I::digest_size> t;
        made("fix", 0, 0, [&] { t = mp::hash::digest<I, std::array<char, I::digest_size>>(x.v()); });
        return result(t.size(), t.data(), t.size(), t.size());
    }
    all(n, n < I::digest_size ? n : I::digest_size, n,
        [&](auto* p) { return mp::hash::digest<I>(x.p(), x.n(), p, n); },
        [&](auto& t) { return mp::hash::digest<I>(x.v(), t, n); },
        [&]<typename C>() { return mp::hash::digest<I, C>(x.v(), n); });
}

template<typename I>
static void single_mac(in& k, in& x, size_t n)
{
    if (form == give_array)
    {
        std::array<uint8_t, I::digest_size> t;
        made("fix", 0, 0, [&] { t = mp::mac::digest<I>(k.v(), x.v()); });
        return result(t.size(), t.data(), t.size(), t.size());
    }
    all(n, n < I::digest_size ? n : I::digest_size, n,
        [&](auto* p) { return mp::mac::digest<I>(k.p(), k.n(), x.p(), x.n(), p, n); },
        [&](auto& t) { return mp::mac::digest<I>(k.v(), x.v(), t, n); },
        [&]<typename C>() { return mp::mac::digest<I, C>(k.v(), x.v(), n); });
}

template<typename I, typename... X>
static void single_kdf(size_t n, auto p, const X&... x)
{
    if (form == give_array)
    {
        std::array<char, 100> t;
        made("fix", 0, 0, [&] { t = mp::kdf::derive<I, std::array<char, 100>>(x...); });
        return result(t.size(), t.data(), t.size(), t.size());
    }
    all(n, n, n, p,
        [&](auto& t) { return mp::kdf::derive<I>(x..., t, n); },
        [&]<typename C>() { return mp::kdf::derive<I, C>(x..., n); });
}

template<typename I>
static void single_hkdf(in& a, in& b, in& c, size_t n)
{
    single_kdf<I>(n, [&](auto* p) { return mp::kdf::derive<I>(a.p(), a.n(), b.p(), b.n(), c.p(), c.n(), p, n); }, a.v(), b.v(), c.v());
}

template<typename I>
static void single_pbkdf(in& a, in& b, uint32_t i, size_t n)
{
    single_kdf<I>(n, [&](auto* p) { return mp::kdf::derive<I>(a.p(), a.n(), b.p(), b.n(), i, p, n); }, a.v(), b.v(), i);
}

template<typename I>
static void single_cipher(bool e, in& k, in& v, in& x)
{
    all(x.n(), x.n(), size_t(-1),
        [&](auto* p) { return e ? mp::cipher::encrypt<I>(k.p(), k.n(), v.p(), v.n(), x.p(), x.n(), p) : mp::cipher::decrypt<I>(k.p(), k.n(), v.p(), v.n(), x.p(), x.n(), p); },
        [&](auto& t) { return e ? mp::cipher::encrypt<I>(k.v(), v.v(), x.v(), t) : mp::cipher::decrypt<I>(k.v(), v.v(), x.v(), t); },
        [&]<typename C>() { return e ? mp::cipher::encrypt<I, C>(k.v(), v.v(), x.v()) : mp::cipher::decrypt<I, C>(k.v(), v.v(), x.v()); });
}

static int keep_text, keep_tag;

static void sealed(size_t r, const void* c, size_t n, size_t q, const void* t, size_t m)
{
    auto store = [](int k, const void* p, size_t n) { if (k) mem[k] = bytes(static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + n); };
    store(keep_text, c, n);
    store(keep_tag, t, m);
    if (r != n || q != m || q != 16) out += "!size ";
    out += std::to_string(r) + " ";
    hex(static_cast<const uint8_t*>(c), n);
    out += " ";
    hex(static_cast<const uint8_t*>(t), m);
}

template<typename I, typename T>
static void seal_grow(in& k, in& v, in& a, in& p)
{
    T c, t;
    size_t room = 0;
    if (room_of_line) { c.reserve(600); t.reserve(600); room = 600; }
    size_t r = 0, q = 0;
    made("grow", room, p.n() > 16 ? p.n() : 16, [&] { auto [x, y] = mp::aead::encrypt<I>(k.v(), v.v(), a.v(), p.v(), c, t); r = x; q = y; });
    sealed(r, c.data(), c.size(), q, t.data(), t.size());
}

template<typename I, typename T>
static void seal_give(in& k, in& v, in& a, in& p)
{
    std::optional<T> c;
    std::array<uint8_t, 16> t;
    made("give", 0, 0, [&]
    {
        auto [x, y] = mp::aead::encrypt<I, T>(k.v(), v.v(), a.v(), p.v());
        c.emplace(std::move(x));
        t = y;
    });
    sealed(c->size(), c->data(), c->size(), t.size(), t.data(), t.size());
}

template<typename I>
static void single_seal(in& k, in& v, in& a, in& p)
{
    switch (form)
    {
        case grow_vector: seal_grow<I, std::vector<uint8_t>>(k, v, a, p); return;
        case grow_string: seal_grow<I, std::string>(k, v, a, p); return;
        case grow_own: seal_grow<I, own>(k, v, a, p); return;
        case give_vector: seal_give<I, std::vector<uint8_t>>(k, v, a, p); return;
        case give_string: seal_give<I, std::string>(k, v, a, p); return;
        case give_own: seal_give<I, own>(k, v, a, p); return;
        default:
        {
            output o(O, "e", p.n()), g(P, "e", 16);
            size_t r = 0, q = 0;
            if (form == fixed_pointer)
                made("fix", 0, 0, [&] { auto [x, y] = mp::aead::encrypt<I>(k.p(), k.n(), v.p(), v.n(), a.p(), a.n(), p.p(), p.n(), o.p, g.p); r = x; q = y; });
            else
            {
                std::span<uint8_t> c(o.p, p.n()), t(g.p, 16);
                made("fix", 0, 0, [&] { auto [x, y] = mp::aead::encrypt<I>(k.v(), v.v(), a.v(), p.v(), c, t); r = x; q = y; });
            }
            sealed(r, o.p, p.n(), q, g.p, 16);
        }
    }
}

template<typename I>
static void single_open(in& k, in& v, in& a, in& c, in& g)
{
    milo::error e;
    auto mark = out.size();
    bool by_error = k_of_line % 2 != 0;
    try
    {
        if (by_error)
            all(c.n(), c.n(), size_t(-1),
                [&](auto* p) { return mp::aead::decrypt<I>(k.p(), k.n(), v.p(), v.n(), a.p(), a.n(), c.p(), c.n(), g.p(), g.n(), p, e); },
                [&](auto& t) { return mp::aead::decrypt<I>(k.v(), v.v(), a.v(), c.v(), g.v(), t, e); },
                [&]<typename C>() { return mp::aead::decrypt<I, C>(k.v(), v.v(), a.v(), c.v(), g.v(), e); });
        else
            all(c.n(), c.n(), size_t(-1),
                [&](auto* p) { return mp::aead::decrypt<I>(k.p(), k.n(), v.p(), v.n(), a.p(), a.n(), c.p(), c.n(), g.p(), g.n(), p); },
                [&](auto& t) { return mp::aead::decrypt<I>(k.v(), v.v(), a.v(), c.v(), g.v(), t); },
                [&]<typename C>() { return mp::aead::decrypt<I, C>(k.v(), v.v(), a.v(), c.v(), g.v()); });
    }
    catch (const milo::error& x) { e = x; }
    auto z = verdict(e);
    if (z == 1) { out.insert(mark, "1 "); return; }
    out.resize(mark);
    out += std::to_string(z) + " 0 -";
}

template<typename K>
static void run_codec(bool enc, bool hex_codec, in& x, size_t cap)
{
    using api = mp::codec::apie<K>;
    if (enc)
    {
        size_t n = hex_codec ? 2 * x.n() : (x.n() + 2) / 3 * 4;
        all(n, n, size_t(-1),
            [&](auto* p) { return api::encode(x.p(), x.n(), p); },
            [&](auto& t) { return mp::codec::encode<K>(x.v(), t); },
            [&]<typename C>() { return api::template encode<C>(x.v()); });
        return;
    }
    milo::error e;
    auto mark = out.size();
    size_t need = api::decode_size(x.v());
    bool thrown = false;
    bool by_error = k_of_line % 2 != 0 && form < give_vector;
    try
    {
        if (by_error)
            all(cap, need, size_t(-1),
                [&](auto* p) { return api::decode(x.p(), x.n(), p, e); },
                [&](auto& t) { return mp::codec::decode<K>(x.v(), t, e); },
                [&]<typename C>() { return C(); });
        else
            all(cap, need, size_t(-1),
                [&](auto* p) { return mp::codec::decode<K>(x.p(), x.n(), p); },
                [&](auto& t) { return api::decode(x.v(), t); },
                [&]<typename C>() { return mp::codec::decode<K, C>(x.v()); });
    }
    catch (const milo::error& x) { e = x; thrown = true; }
    if (thrown) { out.resize(mark); out += "-1 -"; }
    out += " e" + std::to_string(int(static_cast<milo::error::code>(e)));
}

//-------------------------------------------------------------------------------------------

static std::map<std::string, std::function<object*()>> factory;
static std::map<std::string, single> singles;
static std::map<int, std::unique_ptr<object>> objects;

#define HASH(name, ...) factory[name] = [] { return new hash_object<__VA_ARGS__>; }; singles[name].hash = single_hash<__VA_ARGS__>;
#define MAC(name, ...) factory[name] = [] { return new mac_object<__VA_ARGS__>; }; singles[name].mac = single_mac<__VA_ARGS__>;
#define HKDF(name, ...) factory[name] = [] { return new kdf_object<__VA_ARGS__>; }; singles[name].hkdf = single_hkdf<__VA_ARGS__>;
#define PBKDF(name, ...) factory[name] = [] { return new kdf_object<__VA_ARGS__>; }; singles[name].pbkdf = single_pbkdf<__VA_ARGS__>;
#define CIPHER(name, ...) factory[name] = [] { return new cipher_object<__VA_ARGS__>; }; singles[name].cipher = single_cipher<__VA_ARGS__>;
#define AEAD(name, ...) factory[name] = [] { return new aead_object<__VA_ARGS__>; }; singles[name].seal = single_seal<__VA_ARGS__>; singles[name].open = single_open<__VA_ARGS__>;

static void run(const std::string& op, tokens& t)
{
    if (op == "S") { objects.clear(); mem.clear(); arenas.clear(); return; }
    form = int(t.num());
    room_of_line = form >= 100;
    form %= 100;
    k_of_line = t.num();
    if (op == "new") { int o = int(t.num()); objects[o].reset(factory.at(t.str())()); return; }
    if (op == "cpy") { int d = int(t.num()); objects[d].reset(objects.at(int(t.num()))->copy()); return; }
    if (op == "asg") { int d = int(t.num()); objects.at(d)->assign(*objects.at(int(t.num()))); return; }
    if (op == "drop") { objects.erase(int(t.num())); return; }
    if (op == "mset") { int m = int(t.num()); mem[m] = unhex(t.str()); return; }
    if (op == "mflip") { int m = int(t.num()); auto i = size_t(t.num()); mem[m].at(i - 1) ^= uint8_t(t.num()); return; }
    auto x = [&] { return in(t, next_arena()); };
#ifdef CODECS
    if (op == "cenc" || op == "cdec")
    {
        auto k = t.str();
        auto a = x();
        size_t cap = 0;
        if (op == "cdec") { t.str(); t.num(); cap = size_t(t.num()); }
        if (k == "base_16") run_codec<mp::codec_base_16>(op == "cenc", true, a, cap); else run_codec<mp::codec_base_64>(op == "cenc", false, a, cap);
        return;
    }
#endif
    if (op[0] == '1' || op == "seal" || op == "open")
    {
        auto& f = singles.at(t.str());
        auto a = x();
        if (op == "1hash") { f.hash(a, size_t(t.num())); return; }
        auto b = x();
        if (op == "1mac") { f.mac(a, b, size_t(t.num())); return; }
        if (op == "1pbk") { auto i = uint32_t(t.num()); f.pbkdf(a, b, i, size_t(t.num())); return; }
        auto c = x();
        if (op == "1hkdf") { f.hkdf(a, b, c, size_t(t.num())); return; }
        if (op == "1enc" || op == "1dec") { f.cipher(op == "1enc", a, b, c); return; }
        auto d = x();
        if (op == "seal") { t.num(); keep_text = int(t.num()); keep_tag = int(t.num()); f.seal(a, b, c, d); return; }
        auto e = x();
        f.open(a, b, c, d, e);
        return;
    }
    auto& o = *objects.at(int(t.num()));
    if (op == "rst") { o.reset(); return; }
    if (op == "dig") { o.digest(size_t(t.num())); return; }
    if (op == "der") { o.derive(size_t(t.num())); return; }
    auto a = x();
    if (op == "key") o.key(a);
    else if (op == "upd" || op == "aad") o.update(a);
    else if (op == "ver") o.verify(a);
    else if (op == "enc" || op == "dec") o.crypt(op == "enc", a);
    else
    {
        auto b = x();
        if (op == "hkdf") { auto c = x(); o.hkdf(a, b, c); }
        else if (op == "pbk") o.pbkdf(a, b, uint32_t(t.num()));
        else if (op == "cip" || op == "aead") o.pair(a, b);
        else { fprintf(stderr, "unknown call %s\n", op.c_str()); _exit(5); }
    }
}

int main(int, char** argv)
{
    catch_signals();
#include TYPES
    load_streams(argv[1]);
    auto f = fopen(argv[2], "r");
    if (!f) { perror(argv[2]); return 5; }
    char* line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0)
    {
        std::string s(line);
        while (!s.empty() && s.back() == '\n') s.pop_back();
        tokens t(s);
        auto op = t.str();
        note.clear();
        auto mark = out.size();
        try { run(op, t); }
        catch (const given_up&) { out.resize(mark); out += "~"; }
        catch (const milo::error& e) { out += " !exception " + std::to_string(int(static_cast<milo::error::code>(e))); }
        catch (const std::exception& e) { out += std::string(" !exception ") + e.what(); }
        out += note + '\n';
        if (out.size() > (1 << 16)) flush();
    }
    free(line);
    fclose(f);
    flush();
    return 0;
}
