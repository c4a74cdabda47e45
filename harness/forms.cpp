// Interpreter for call schedules that makes every call in one of its forms.
//
// usage: forms STREAMS SCRIPT > RESULTS
//
// As interp.cpp, but every line of the script starts with a number that chooses the form of the
// call: pointers or containers, of which element and container types, what kind of output, in an
// object or in one call.  Where an output limits the size, the size that counts is reported as
// n=SIZE.

#include <milo/container.h>
#include <milo/error.h>
#include <milo/option.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>

#include "driver.h"

#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <vector>

namespace mp = milo::primitive;
namespace mc = milo::container;
using namespace milo::primitive;
using namespace drv;

static int code_of(const milo::error& e) { return int(static_cast<milo::error::code>(e)); }

static constexpr size_t extent = 1 << 18;
static arena A(extent), B(extent), C(extent), D(extent), E(extent), O(extent), P(extent);
static std::vector<std::shared_ptr<void>> kept;     // memory that must outlive the call

// The form of the current call.
static unsigned form;
static int pick(int k) { int r = int(form % unsigned(k)); form /= unsigned(k); return r; }

static constexpr size_t whole = 1000000;            // a size that is not given

//-------------------------------------------------------------------------------------------
// Inputs.

template<int I>
static auto hold(input& x, arena& a)
{
    auto p = x.source();
    auto n = x.n;
    if constexpr (I == 0) return std::vector<uint8_t>(p, p + n);
    else if constexpr (I == 1) return std::string(reinterpret_cast<const char*>(p), n);
    else if constexpr (I == 2) return std::string_view(reinterpret_cast<const char*>(x.in(a)), n);
    else if constexpr (I == 3) return std::vector<signed char>(p, p + n);
    else if constexpr (I == 4) return std::span<const uint8_t>(x.in(a), n);
    else if constexpr (I == 5) return std::span<char>(const_cast<char*>(reinterpret_cast<const char*>(x.in(a))), n);
    else if constexpr (I == 6) return mc::chars_dynamic(p, p + n);
    else return mc::bytes_view_dynamic(const_cast<uint8_t*>(x.in(a)), n);
}
constexpr int holders = 8;

template<typename T, size_t N>
static auto hold_array(input& x)
{
    std::array<T, N> r{};
    for (size_t i = 0; i < N; i += 1) r[i] = T(x.source()[i]);
    return r;
}

// One container.
template<typename F>
static void one_container(input& x, arena& a, F f)
{
    switch (pick(holders + 2))
    {
        case 0: { auto c = hold<0>(x, a); f(c); return; }
        case 1: { auto c = hold<1>(x, a); f(c); return; }
        case 2: { auto c = hold<2>(x, a); f(c); return; }
        case 3: { auto c = hold<3>(x, a); f(c); return; }
        case 4: { auto c = hold<4>(x, a); f(c); return; }
        case 5: { auto c = hold<5>(x, a); f(c); return; }
        case 6: { auto c = hold<6>(x, a); f(c); return; }
        case 7: { auto c = hold<7>(x, a); f(c); return; }
        case 8:
            switch (x.n)
            {
                case 0: { std::array<uint8_t, 0> c; f(c); return; }
                case 1: { auto c = hold_array<uint8_t, 1>(x); f(c); return; }
                case 32: { auto c = hold_array<uint8_t, 32>(x); f(c); return; }
                case 65: { auto c = hold_array<uint8_t, 65>(x); f(c); return; }
                case 256: { auto c = hold_array<uint8_t, 256>(x); f(c); return; }
                default: { auto c = hold<0>(x, a); f(c); return; }
            }
        default:
            switch (x.n)
            {
                case 1: { auto c = hold_array<signed char, 1>(x); f(c); return; }
                case 32: { auto c = hold_array<char, 32>(x); f(c); return; }
                default: { auto c = hold<1>(x, a); f(c); return; }
            }
    }
}

// One pointer.
template<typename F>
static void one_pointer(input& x, arena& a, F f)
{
    auto p = x.in(a);
    switch (pick(3))
    {
        case 0: f(p); return;
        case 1: f(reinterpret_cast<const char*>(p)); return;
        default: f(reinterpret_cast<const signed char*>(p)); return;
    }
}

// Several containers, or pointers, of different types.
template<typename F, size_t... I>
static void choose(F f, std::index_sequence<I...>)
{
    auto k = size_t(pick(int(sizeof...(I))));
    ((k == I ? (f(std::integral_constant<int, int(I)>()), 0) : 0), ...);
}
template<typename F> static void choose_container(F f) { choose(f, std::make_index_sequence<holders>()); }
template<typename F> static void choose_pointer(F f) { choose(f, std::make_index_sequence<3>()); }

template<int I>
static auto pointer(input& x, arena& a)
{
    auto p = x.in(a);
    if constexpr (I % 3 == 0) return p;
    else if constexpr (I % 3 == 1) return reinterpret_cast<const char*>(p);
    else return reinterpret_cast<const signed char*>(p);
}

template<int I> constexpr int rot(int d) { return (I * (d + 1) + d) % holders; }

//-------------------------------------------------------------------------------------------
// Outputs.

static void result(size_t r, const void* p, size_t n, size_t eff, int st)
{
    auto b = static_cast<const uint8_t*>(p);
    out += std::to_string(r) + " ";
    hex(b, r < n ? r : n);
    if (eff != whole) out += " n=" + std::to_string(eff);
    if (st) mem[st] = bytes(b, b + (r < n ? r : n));
}

template<typename T>
static T junk(size_t n)
{
    T t;
    auto k = pick(3);
    size_t m = k == 0 ? 0 : k == 1 ? n / 2 : n + 9;
    for (size_t i = 0; i < m; i += 1) t.push_back(typename T::value_type('#'));
    return t;
}

// Into a resizable container: f(container) -> size.
template<typename T, typename F>
static void into_dynamic(size_t n, size_t eff, int st, F f)
{
    T t = junk<T>(n < 4096 ? n : 64);
    size_t r = f(t);
    if (t.size() != r) out += "!size ";
    result(r, t.data(), t.size(), eff, st);
}

// Into memory of N bytes: f(container) -> size.
template<typename T, size_t N, typename F>
static void into_array(size_t eff, int st, F f)
{
    std::array<T, N> t;
    for (size_t i = 0; i < N; i += 1) t[i] = T(canary(i));
    size_t r = f(t);
    for (size_t i = r; i < N; i += 1) if (uint8_t(t[i]) != canary(i)) { out += "!stray "; break; }
    result(r, t.data(), N, eff, st);
}

template<typename T, typename F>
static void into_span(size_t n, size_t eff, int st, F f)
{
    output o(O, "e", n);
    std::span<T> t(reinterpret_cast<T*>(o.p), n);
    size_t r = f(t);
    if (!o.intact(r)) out += "!stray ";
    result(r, o.p, n, eff, st);
}

template<typename F>
static void into_pointer(size_t n, size_t eff, int st, F f)
{
    output o(O, pick(2) ? "e" : "p3", n);
    size_t r = 0;
    switch (pick(3))
    {
        case 0: r = f(o.p); break;
        case 1: r = f(reinterpret_cast<char*>(o.p)); break;
        default: r = f(reinterpret_cast<signed char*>(o.p)); break;
    }
    if (!o.intact(r)) out += "!stray ";
    result(r, o.p, n, eff, st);
}

static size_t least(size_t a, size_t b) { return a < b ? a : b; }

// Outputs of digests and keys of a wanted size: f(container, n) -> size.
template<typename F>
static void into_limited(size_t n, int st, F f)
{
    auto g = [&](auto& t) { return f(t, n); };
    switch (pick(12))
    {
        case 0: into_dynamic<std::vector<uint8_t>>(n, n, st, g); return;
        case 1: into_dynamic<std::string>(n, n, st, g); return;
        case 2: into_dynamic<std::vector<signed char>>(n, n, st, g); return;
        case 3: into_dynamic<mc::chars_dynamic>(n, n, st, g); return;
        case 4: into_array<uint8_t, 1>(least(n, 1), st, g); return;
        case 5: into_array<char, 7>(least(n, 7), st, g); return;
        case 6: into_array<uint8_t, 16>(least(n, 16), st, g); return;
        case 7: into_array<signed char, 33>(least(n, 33), st, g); return;
        case 8: into_array<uint8_t, 70>(least(n, 70), st, g); return;
        case 9: into_span<uint8_t>(n, n, st, g); return;
        case 10: into_span<char>(n / 2, n / 2, st, g); return;
        default: into_span<signed char>(n + 5, n, st, g); return;
    }
}

// All forms of reading a digest.  f: object with digest of full size full.
template<typename T>
static void read_digest(T& o, size_t n, int st)
{
    constexpr size_t full = T::digest_size;
    switch (pick(8))
    {
        case 0: into_pointer(n, n, st, [&](auto* p) { return o.digest(p, n); }); return;
        case 1: into_pointer(full, full, st, [&](auto* p) { return o.digest(p); }); return;
        case 2: into_limited(n, st, [&](auto& t, size_t k) { return o.digest(t, k); }); return;
        case 3: into_limited(full, st, [&](auto& t, size_t) { return o.digest(t); }); return;
        case 4:
            switch (pick(3))
            {
                case 0: { auto t = o.digest(n); result(t.size(), t.data(), t.size(), n, st); return; }
                case 1: { auto t = o.template digest<std::string>(n); result(t.size(), t.data(), t.size(), n, st); return; }
                default: { auto t = o.template digest<std::vector<signed char>>(n); result(t.size(), t.data(), t.size(), n, st); return; }
            }
        case 5: { auto t = o.digest(); result(t.size(), t.data(), t.size(), full, st); return; }
        case 6: { auto t = o.template digest<std::array<char, full - 3>>(); result(t.size(), t.data(), t.size(), full - 3, st); return; }
        default: { auto t = o.template digest<std::array<uint8_t, 1>>(); result(t.size(), t.data(), t.size(), 1, st); return; }
    }
}

// Outputs of the size of the input: f(container) -> size.
template<typename F>
static void into_sized(size_t n, int st, F f)
{
    switch (pick(6))
    {
        case 0: into_dynamic<std::vector<uint8_t>>(n, whole, st, f); return;
        case 1: into_dynamic<std::string>(n, whole, st, f); return;
        case 2: into_dynamic<std::vector<signed char>>(n, whole, st, f); return;
        case 3:
            if (n <= 300) into_array<uint8_t, 300>(whole, st, f); else into_dynamic<mc::chars_dynamic>(n, whole, st, f);
            return;
        case 4: into_span<char>(n, whole, st, f); return;
        default: into_span<uint8_t>(n + 3, whole, st, f); return;
    }
}

//-------------------------------------------------------------------------------------------
// Objects.

struct object
{
    virtual ~object() = default;
    virtual void reset() { bad(); }
    virtual void key(input&) { bad(); }
    virtual void hkdf(input&, input&, input&) { bad(); }
    virtual void pbkdf(input&, input&, uint32_t) { bad(); }
    virtual void pair(input&, input&) { bad(); }
    virtual void update(input&) { bad(); }
    virtual void digest(size_t, int) { bad(); }
    virtual void derive(size_t) { bad(); }
    virtual void crypt(bool, input&, int) { bad(); }
    virtual void sizes(bool, input&) { bad(); }
    virtual void verify(input&) { bad(); }
    static void bad() { fprintf(stderr, "call on an object of another kind\n"); _exit(5); }
};

template<typename T>
struct updatable : object
{
    std::optional<T> o;
    void update(input& x) override
    {
        if (pick(2)) one_pointer(x, A, [&](auto* p) { o->update(p, x.n); });
        else one_container(x, A, [&](const auto& c) { o->update(c); });
    }
    void digest(size_t n, int st) override { read_digest(*o, n, st); }
};

template<typename I>
struct hash_object : updatable<mp::hash::apie<I>>
{
    hash_object() { this->o.emplace(); }
    void reset() override { if (pick(2)) this->o->initialize(); else this->o.emplace(); }
};

template<typename I>
struct mac_object : updatable<mp::mac::apie<I>>
{
    mac_object() { this->o.emplace(); }
    void key(input& x) override
    {
        switch (pick(4))
        {
            case 0: one_pointer(x, A, [&](auto* p) { this->o.emplace(p, x.n); }); return;
            case 1: one_pointer(x, A, [&](auto* p) { this->o->initialize(p, x.n); }); return;
            case 2: one_container(x, A, [&](const auto& c) { this->o.emplace(c); }); return;
            default: one_container(x, A, [&](const auto& c) { this->o->initialize(c); }); return;
        }
    }
};

// What has to stay where it is.
template<typename T>
static T& keep(T&& t)
{
    auto p = std::make_shared<std::remove_cvref_t<T>>(std::forward<T>(t));
    kept.push_back(p);
    return *p;
}
static std::shared_ptr<arena> lasting()
{
    auto a = std::make_shared<arena>(4096);
    kept.push_back(a);
    return a;
}

template<typename T>
struct deriving : object
{
    std::optional<T> o;
    void derive(size_t n) override
    {
        switch (pick(6))
        {
            case 0: into_pointer(n, n, 0, [&](auto* p) { return o->derive(p, n); }); return;
            case 1: into_limited(n, 0, [&](auto& t, size_t k) { return o->derive(t, k); }); return;
            case 2: { auto t = o->derive(n); result(t.size(), t.data(), t.size(), n, 0); return; }
            case 3: { auto t = o->template derive<std::string>(n); result(t.size(), t.data(), t.size(), n, 0); return; }
            case 4: { auto t = o->template derive<std::array<signed char, 21>>(); result(t.size(), t.data(), t.size(), 21, 0); return; }
            default: { auto t = o->template derive<std::array<uint8_t, 1>>(); result(t.size(), t.data(), t.size(), 1, 0); return; }
        }
    }
};

template<typename I>
struct hkdf_object : deriving<mp::kdf::apie<I>>
{
    hkdf_object() { this->o.emplace(); }
    void hkdf(input& i, input& s, input& f) override
    {
        auto L = lasting();
        switch (pick(4))
        {
            case 0: choose_pointer([&](auto k) { this->o.emplace(pointer<k>(i, A), i.n, pointer<k + 1>(s, B), s.n, pointer<k * 2 + 1>(f, *L), f.n); }); return;
            case 1: choose_pointer([&](auto k) { this->o->initialize(pointer<k>(i, A), i.n, pointer<k * 2 + 2>(s, B), s.n, pointer<k + 2>(f, *L), f.n); }); return;
            case 2: choose_container([&](auto k) { this->o.emplace(hold<k>(i, A), hold<rot<k>(1)>(s, B), keep(hold<rot<k>(2)>(f, *L))); }); return;
            default: choose_container([&](auto k) { this->o->initialize(hold<k>(i, A), hold<rot<k>(2)>(s, B), keep(hold<rot<k>(4)>(f, *L))); }); return;
        }
    }
};

template<typename I>
struct pbkdf_object : deriving<mp::kdf::apie<I>>
{
    pbkdf_object() { this->o.emplace(); }
    void pbkdf(input& i, input& s, uint32_t c) override
    {
        auto L = lasting(), K = lasting();
        switch (pick(4))
        {
            case 0: choose_pointer([&](auto k) { this->o.emplace(pointer<k>(i, *L), i.n, pointer<k + 1>(s, *K), s.n, c); }); return;
            case 1: choose_pointer([&](auto k) { this->o->initialize(pointer<k>(i, *L), i.n, pointer<k * 2 + 2>(s, *K), s.n, c); }); return;
            case 2: choose_container([&](auto k) { this->o.emplace(keep(hold<k>(i, *L)), keep(hold<rot<k>(1)>(s, *K)), c); }); return;
            default: choose_container([&](auto k) { this->o->initialize(keep(hold<k>(i, *L)), keep(hold<rot<k>(2)>(s, *K)), c); }); return;
        }
    }
};

template<typename T>
struct crypting : object
{
    std::optional<T> o;
    crypting() { o.emplace(); }
    void pair(input& x, input& y) override
    {
        switch (pick(4))
        {
            case 0: choose_pointer([&](auto k) { o.emplace(pointer<k>(x, A), x.n, pointer<k + 1>(y, B), y.n); }); return;
            case 1: choose_pointer([&](auto k) { o->initialize(pointer<k>(x, A), x.n, pointer<k * 2 + 2>(y, B), y.n); }); return;
            case 2: choose_container([&](auto k) { o.emplace(hold<k>(x, A), hold<rot<k>(1)>(y, B)); }); return;
            default: choose_container([&](auto k) { o->initialize(hold<k>(x, A), hold<rot<k>(2)>(y, B)); }); return;
        }
    }
    void crypt(bool e, input& x, int st) override
    {
        switch (pick(4))
        {
            case 0:
                into_pointer(x.n, whole, st, [&](auto* q)
                {
                    size_t r = 0;
                    one_pointer(x, A, [&](auto* p) { r = e ? o->encrypt(p, x.n, q) : o->decrypt(p, x.n, q); });
                    return r;
                });
                return;
            case 1:
            case 2:
                into_sized(x.n, st, [&](auto& t)
                {
                    size_t r = 0;
                    one_container(x, A, [&](const auto& c) { r = e ? o->encrypt(c, t) : o->decrypt(c, t); });
                    return r;
                });
                return;
            default:
                switch (pick(3))
                {
                    case 0: one_container(x, A, [&](const auto& c) { auto t = e ? o->template encrypt<std::vector<uint8_t>>(c) : o->template decrypt<std::vector<uint8_t>>(c); result(t.size(), t.data(), t.size(), whole, st); }); return;
                    case 1: one_container(x, A, [&](const auto& c) { auto t = e ? o->template encrypt<std::string>(c) : o->template decrypt<std::string>(c); result(t.size(), t.data(), t.size(), whole, st); }); return;
                    default: one_container(x, A, [&](const auto& c) { auto t = e ? o->template encrypt<std::vector<signed char>>(c) : o->template decrypt<std::vector<signed char>>(c); result(t.size(), t.data(), t.size(), whole, st); }); return;
                }
        }
    }
    void sizes(bool e, input& x) override
    {
        size_t r = 0;
        if (pick(2)) one_pointer(x, A, [&](auto* p) { r = e ? o->encrypt_size(p, x.n) : o->decrypt_size(p, x.n); });
        else one_container(x, A, [&](const auto& c) { r = e ? o->encrypt_size(c) : o->decrypt_size(c); });
        out += std::to_string(r);
    }
};

template<typename I>
struct cipher_object : crypting<mp::cipher::apie<I>> {};

template<typename F>
static int verdict(F f)
{
    try { f(); return 1; }
    catch (const milo::error& e) { return code_of(e) == milo::error::aead_verify ? 0 : 2; }
}
static int verdict(const milo::error& e) { return !e ? 1 : code_of(e) == milo::error::aead_verify ? 0 : 2; }

template<typename I>
struct aead_object : crypting<mp::aead::apie<I>>
{
    using crypting<mp::aead::apie<I>>::o;
    void update(input& x) override
    {
        if (pick(2)) one_pointer(x, A, [&](auto* p) { o->aad(p, x.n); });
        else one_container(x, A, [&](const auto& c) { o->aad(c); });
    }
    void digest(size_t n, int st) override { read_digest(*o, n, st); }
    void verify(input& x) override
    {
        int v = 2;
        milo::error e = pick(2) ? milo::error::none : milo::error::codec_base_64_decode;
        switch (pick(4))
        {
            case 0: one_pointer(x, A, [&](auto* p) { o->verify(p, x.n, e); v = verdict(e); }); break;
            case 1: one_pointer(x, A, [&](auto* p) { v = verdict([&] { o->verify(p, x.n); }); }); break;
            case 2: one_container(x, A, [&](const auto& c) { o->verify(c, e); v = verdict(e); }); break;
            default: one_container(x, A, [&](const auto& c) { v = verdict([&] { o->verify(c); }); }); break;
        }
        out += std::to_string(v);
    }
};

//-------------------------------------------------------------------------------------------
// Calls that need no object.

struct single
{
    std::function<void(input&, size_t)> hash;
    std::function<void(input&, input&, size_t)> mac;
    std::function<void(input&, input&, input&, size_t)> hkdf;
    std::function<void(input&, input&, uint32_t, size_t)> pbkdf;
    std::function<void(bool, input&, input&, input&)> cipher;
    std::function<void(input&, input&, input&, input&, int, int)> seal;
    std::function<void(input&, input&, input&, input&, input&)> open;
};

template<typename I>
static void single_hash(input& x, size_t n)
{
    constexpr size_t full = I::digest_size;
    switch (pick(6))
    {
        case 0:
            one_pointer(x, A, [&](auto* p) { into_pointer(n, n, 0, [&](auto* q) { return mp::hash::digest<I>(p, x.n, q, n); }); });
            return;
        case 1:
            one_pointer(x, A, [&](auto* p) { into_pointer(full, full, 0, [&](auto* q) { return mp::hash::digest<I>(p, x.n, q); }); });
            return;
        case 2:
            one_container(x, A, [&](const auto& c) { into_limited(n, 0, [&](auto& t, size_t k) { return mp::hash::digest<I>(c, t, k); }); });
            return;
        case 3:
            one_container(x, A, [&](const auto& c) { into_limited(full, 0, [&](auto& t, size_t) { return mp::hash::digest<I>(c, t); }); });
            return;
        case 4:
            if (pick(2)) one_container(x, A, [&](const auto& c) { auto t = mp::hash::digest<I>(c, n); result(t.size(), t.data(), t.size(), n, 0); });
            else one_container(x, A, [&](const auto& c) { auto t = mp::hash::digest<I, std::string>(c, n); result(t.size(), t.data(), t.size(), n, 0); });
            return;
        default:
            if (pick(2)) one_container(x, A, [&](const auto& c) { auto t = mp::hash::digest<I>(c); result(t.size(), t.data(), t.size(), full, 0); });
            else one_container(x, A, [&](const auto& c) { auto t = mp::hash::digest<I, std::array<char, 5>>(c); result(t.size(), t.data(), t.size(), 5, 0); });
            return;
    }
}

template<typename I>
static void single_mac(input& k, input& x, size_t n)
{
    constexpr size_t full = I::digest_size;
    switch (pick(6))
    {
        case 0:
            choose_pointer([&](auto i) { auto p = pointer<i>(k, A); auto q = pointer<i * 2 + 1>(x, B); into_pointer(n, n, 0, [&](auto* o) { return mp::mac::digest<I>(p, k.n, q, x.n, o, n); }); });
            return;
        case 1:
            choose_pointer([&](auto i) { auto p = pointer<i>(k, A); auto q = pointer<i + 1>(x, B); into_pointer(full, full, 0, [&](auto* o) { return mp::mac::digest<I>(p, k.n, q, x.n, o); }); });
            return;
        case 2:
            choose_container([&](auto i) { into_limited(n, 0, [&](auto& t, size_t z) { return mp::mac::digest<I>(hold<i>(k, A), hold<rot<i>(1)>(x, B), t, z); }); });
            return;
        case 3:
            choose_container([&](auto i) { into_limited(full, 0, [&](auto& t, size_t) { return mp::mac::digest<I>(hold<i>(k, A), hold<rot<i>(2)>(x, B), t); }); });
            return;
        case 4:
            choose_container([&](auto i) { auto t = mp::mac::digest<I>(hold<i>(k, A), hold<rot<i>(1)>(x, B), n); result(t.size(), t.data(), t.size(), n, 0); });
            return;
        default:
            choose_container([&](auto i)
            {
                if (pick(2)) { auto t = mp::mac::digest<I>(hold<i>(k, A), hold<rot<i>(1)>(x, B)); result(t.size(), t.data(), t.size(), full, 0); }
                else { auto t = mp::mac::digest<I, std::array<uint8_t, 3>>(hold<i>(k, A), hold<rot<i>(1)>(x, B)); result(t.size(), t.data(), t.size(), 3, 0); }
            });
            return;
    }
}

template<typename I>
static void single_hkdf(input& a, input& s, input& f, size_t n)
{
    switch (pick(5))
    {
        case 0:
            choose_pointer([&](auto i) { auto p = pointer<i>(a, A); auto q = pointer<i * 2 + 1>(s, B); auto r = pointer<i + 2>(f, C); into_pointer(n, n, 0, [&](auto* o) { return mp::kdf::derive<I>(p, a.n, q, s.n, r, f.n, o, n); }); });
            return;
        case 1:
        case 2:
            choose_container([&](auto i) { into_limited(n, 0, [&](auto& t, size_t z) { return mp::kdf::derive<I>(hold<i>(a, A), hold<rot<i>(1)>(s, B), hold<rot<i>(2)>(f, C), t, z); }); });
            return;
        case 3:
            choose_container([&](auto i) { auto t = mp::kdf::derive<I>(hold<i>(a, A), hold<rot<i>(2)>(s, B), hold<rot<i>(1)>(f, C), n); result(t.size(), t.data(), t.size(), n, 0); });
            return;
        default:
            choose_container([&](auto i) { auto t = mp::kdf::derive<I, std::array<char, 27>>(hold<i>(a, A), hold<rot<i>(1)>(s, B), hold<rot<i>(4)>(f, C)); result(t.size(), t.data(), t.size(), 27, 0); });
            return;
    }
}

template<typename I>
static void single_pbkdf(input& a, input& s, uint32_t c, size_t n)
{
    switch (pick(5))
    {
        case 0:
            choose_pointer([&](auto i) { auto p = pointer<i>(a, A); auto q = pointer<i * 2 + 1>(s, B); into_pointer(n, n, 0, [&](auto* o) { return mp::kdf::derive<I>(p, a.n, q, s.n, c, o, n); }); });
            return;
        case 1:
        case 2:
            choose_container([&](auto i) { into_limited(n, 0, [&](auto& t, size_t z) { return mp::kdf::derive<I>(hold<i>(a, A), hold<rot<i>(1)>(s, B), c, t, z); }); });
            return;
        case 3:
            choose_container([&](auto i) { auto t = mp::kdf::derive<I>(hold<i>(a, A), hold<rot<i>(2)>(s, B), c, n); result(t.size(), t.data(), t.size(), n, 0); });
            return;
        default:
            choose_container([&](auto i) { auto t = mp::kdf::derive<I, std::array<uint8_t, 45>>(hold<i>(a, A), hold<rot<i>(1)>(s, B), c); result(t.size(), t.data(), t.size(), 45, 0); });
            return;
    }
}

template<typename I>
static void single_cipher(bool e, input& k, input& v, input& x)
{
    switch (pick(3))
    {
        case 0:
            choose_pointer([&](auto i)
            {
                auto p = pointer<i>(k, A);
                auto q = pointer<i + 1>(v, B);
                auto r = pointer<i * 2 + 1>(x, C);
                into_pointer(x.n, whole, 0, [&](auto* o)
                {
                    return e ? mp::cipher::encrypt<I>(p, k.n, q, v.n, r, x.n, o) : mp::cipher::decrypt<I>(p, k.n, q, v.n, r, x.n, o);
                });
            });
            return;
        case 1:
            choose_container([&](auto i)
            {
                into_sized(x.n, 0, [&](auto& t)
                {
                    return e ? mp::cipher::encrypt<I>(hold<i>(k, A), hold<rot<i>(1)>(v, B), hold<rot<i>(2)>(x, C), t)
                        : mp::cipher::decrypt<I>(hold<i>(k, A), hold<rot<i>(1)>(v, B), hold<rot<i>(2)>(x, C), t);
                });
            });
            return;
        default:
            choose_container([&](auto i)
            {
                if (pick(2))
                {
                    auto t = e ? mp::cipher::encrypt<I>(hold<i>(k, A), hold<rot<i>(1)>(v, B), hold<rot<i>(4)>(x, C))
                        : mp::cipher::decrypt<I>(hold<i>(k, A), hold<rot<i>(1)>(v, B), hold<rot<i>(4)>(x, C));
                    result(t.size(), t.data(), t.size(), whole, 0);
                }
                else
                {
                    auto t = e ? mp::cipher::encrypt<I, std::string>(hold<i>(k, A), hold<rot<i>(2)>(v, B), hold<rot<i>(4)>(x, C))
                        : mp::cipher::decrypt<I, std::string>(hold<i>(k, A), hold<rot<i>(2)>(v, B), hold<rot<i>(4)>(x, C));
                    result(t.size(), t.data(), t.size(), whole, 0);
                }
            });
            return;
    }
}

static void sealed(size_t r, size_t q, const bytes& c, const bytes& t, int st, int su)
{
    if (q != 16) out += "!tagsize ";
    out += std::to_string(r) + " ";
    hex(c.data(), c.size());
    out += " ";
    hex(t.data(), t.size());
    if (st) mem[st] = c;
    if (su) mem[su] = t;
}
template<typename T> static bytes bytes_of(const T& t) { return bytes(t.begin(), t.end()); }

template<typename I>
static void single_seal(input& k, input& v, input& a, input& p, int st, int su)
{
    switch (pick(4))
    {
        case 0:
            choose_pointer([&](auto i)
            {
                output o(O, "e", p.n), g(P, "e", 16);
                auto op = reinterpret_cast<std::conditional_t<i == 0, char, uint8_t>*>(o.p);
                auto gp = reinterpret_cast<std::conditional_t<i == 1, signed char, uint8_t>*>(g.p);
                auto [r, q] = mp::aead::encrypt<I>(pointer<i>(k, A), k.n, pointer<i + 1>(v, B), v.n, pointer<i * 2>(a, C), a.n, pointer<i + 2>(p, D), p.n, op, gp);
                if (!o.intact(r)) out += "!stray ";
                sealed(r, q, bytes(o.p, o.p + least(r, p.n)), bytes(g.p, g.p + 16), st, su);
            });
            return;
        case 1:
            choose_container([&](auto i)
            {
                auto c = junk<std::vector<uint8_t>>(p.n);
                std::array<uint8_t, 16> t;
                auto [r, q] = mp::aead::encrypt<I>(hold<i>(k, A), hold<rot<i>(1)>(v, B), hold<rot<i>(2)>(a, C), hold<rot<i>(4)>(p, D), c, t);
                if (c.size() != r) out += "!size ";
                sealed(r, q, c, bytes_of(t), st, su);
            });
            return;
        case 2:
            choose_container([&](auto i)
            {
                auto c = junk<std::string>(p.n);
                auto t = junk<std::vector<signed char>>(16);
                auto [r, q] = mp::aead::encrypt<I>(hold<i>(k, A), hold<rot<i>(2)>(v, B), hold<rot<i>(1)>(a, C), hold<rot<i>(4)>(p, D), c, t);
                if (c.size() != r || t.size() != q) out += "!size ";
                sealed(r, q, bytes_of(c), bytes_of(t), st, su);
            });
            return;
        default:
            choose_container([&](auto i)
            {
                auto [c, t] = mp::aead::encrypt<I>(hold<i>(k, A), hold<rot<i>(1)>(v, B), hold<rot<i>(4)>(a, C), hold<rot<i>(2)>(p, D));
                sealed(c.size(), t.size(), bytes_of(c), bytes_of(t), st, su);
            });
            return;
    }
}

template<typename I>
static void single_open(input& k, input& v, input& a, input& c, input& t)
{
    milo::error e = pick(2) ? milo::error::none : milo::error::codec_base_16_decode;
    int z = 2;
    size_t r = 0;
    bytes p;
    auto way = pick(6);
    if (way < 2)
        choose_pointer([&](auto i)
        {
            output o(O, "e", c.n);
            auto op = reinterpret_cast<std::conditional_t<i == 2, char, uint8_t>*>(o.p);
            auto f = [&](auto&... err) { r = mp::aead::decrypt<I>(pointer<i>(k, A), k.n, pointer<i + 1>(v, B), v.n, pointer<i * 2>(a, C), a.n, pointer<i + 2>(c, D), c.n, pointer<i + 1>(t, E), t.n, op, err...); };
            if (way == 0) { f(e); z = verdict(e); } else z = verdict([&] { f(); });
            if (!o.intact(z == 1 ? r : c.n)) out += "!stray ";
            p.assign(o.p, o.p + least(r, c.n));
        });
    else if (way < 4)
        choose_container([&](auto i)
        {
            auto o = junk<std::string>(c.n);
            auto f = [&](auto&... err) { r = mp::aead::decrypt<I>(hold<i>(k, A), hold<rot<i>(1)>(v, B), hold<rot<i>(2)>(a, C), hold<rot<i>(4)>(c, D), hold<rot<i>(1)>(t, E), o, err...); };
            if (way == 2) { f(e); z = verdict(e); } else z = verdict([&] { f(); });
            if (z == 1 && o.size() != r) out += "!size ";
            p = bytes_of(o);
        });
    else
        choose_container([&](auto i)
        {
            auto f = [&](auto&... err) { auto o = mp::aead::decrypt<I>(hold<i>(k, A), hold<rot<i>(2)>(v, B), hold<rot<i>(4)>(a, C), hold<rot<i>(1)>(c, D), hold<rot<i>(2)>(t, E), err...); r = o.size(); p = bytes_of(o); };
            if (way == 4) { f(e); z = verdict(e); } else z = verdict([&] { f(); });
        });
    if (z != 1) { r = 0; p.clear(); }
    out += std::to_string(z) + " " + std::to_string(r) + " ";
    hex(p.data(), p.size());
}

//-------------------------------------------------------------------------------------------
// Codecs.

template<typename K>
static void run_codec(const std::string& op, bool hex_codec, input& x, size_t cap)
{
    using api = mp::codec::apie<K>;
    if (op == "cesz" || op == "cdsz")
    {
        bool e = op == "cesz";
        size_t r = 0;
        if (pick(2)) one_pointer(x, A, [&](auto* p) { r = e ? api::encode_size(p, x.n) : api::decode_size(p, x.n); });
        else one_container(x, A, [&](const auto& c) { r = e ? api::encode_size(c) : api::decode_size(c); });
        out += std::to_string(r);
    }
    else if (op == "cenc")
    {
        size_t n = hex_codec ? 2 * x.n : (x.n + 2) / 3 * 4;
        switch (pick(6))
        {
            case 0: one_pointer(x, A, [&](auto* p) { into_pointer(n, whole, 0, [&](auto* q) { return api::encode(p, x.n, q); }); }); return;
            case 1: one_pointer(x, A, [&](auto* p) { into_pointer(n, whole, 0, [&](auto* q) { return mp::codec::encode<K>(p, x.n, q); }); }); return;
            case 2: one_container(x, A, [&](const auto& c) { into_sized(n, 0, [&](auto& t) { return api::encode(c, t); }); }); return;
            case 3: one_container(x, A, [&](const auto& c) { into_sized(n, 0, [&](auto& t) { return mp::codec::encode<K>(c, t); }); }); return;
            case 4: one_container(x, A, [&](const auto& c) { auto t = api::template encode<std::string>(c); result(t.size(), t.data(), t.size(), whole, 0); }); return;
            default: one_container(x, A, [&](const auto& c) { auto t = mp::codec::encode<K>(c); result(t.size(), t.data(), t.size(), whole, 0); }); return;
        }
    }
    else
    {
        milo::error e = pick(2) ? milo::error::none : milo::error::aead_verify;
        auto way = pick(10);
        bool thrown = false;
        auto mark = out.size();
        try
        {
            switch (way)
            {
                case 0: one_pointer(x, A, [&](auto* p) { into_pointer(cap, whole, 0, [&](auto* q) { return api::decode(p, x.n, q, e); }); }); break;
                case 1: one_pointer(x, A, [&](auto* p) { into_pointer(cap, whole, 0, [&](auto* q) { return mp::codec::decode<K>(p, x.n, q, e); }); }); break;
                case 2: one_container(x, A, [&](const auto& c) { into_sized(cap, 0, [&](auto& t) { return api::decode(c, t, e); }); }); break;
                case 3: one_container(x, A, [&](const auto& c) { into_sized(cap, 0, [&](auto& t) { return mp::codec::decode<K>(c, t, e); }); }); break;
                case 4: e = milo::error::none; one_pointer(x, A, [&](auto* p) { into_pointer(cap, whole, 0, [&](auto* q) { return api::decode(p, x.n, q); }); }); break;
                case 5: e = milo::error::none; one_pointer(x, A, [&](auto* p) { into_pointer(cap, whole, 0, [&](auto* q) { return mp::codec::decode<K>(p, x.n, q); }); }); break;
                case 6: e = milo::error::none; one_container(x, A, [&](const auto& c) { into_sized(cap, 0, [&](auto& t) { return api::decode(c, t); }); }); break;
                case 7: e = milo::error::none; one_container(x, A, [&](const auto& c) { into_sized(cap, 0, [&](auto& t) { return mp::codec::decode<K>(c, t); }); }); break;
                case 8: e = milo::error::none; one_container(x, A, [&](const auto& c) { auto t = api::template decode<std::string>(c); result(t.size(), t.data(), t.size(), whole, 0); }); break;
                default: e = milo::error::none; one_container(x, A, [&](const auto& c) { auto t = mp::codec::decode<K>(c); result(t.size(), t.data(), t.size(), whole, 0); }); break;
            }
        }
        catch (const milo::error& x) { e = x; thrown = true; }
        if (thrown) { out.resize(mark); out += "-1 -"; if (way < 4) out += " !threw"; }
        else if (way >= 4 && e) out += " !silent";
        out += " e" + std::to_string(code_of(e));
    }
}

//-------------------------------------------------------------------------------------------

static std::map<std::string, std::function<object*()>> factory;
static std::map<std::string, single> singles;
static std::map<int, std::unique_ptr<object>> objects;

#define HASH(name, ...) factory[name] = [] { return new hash_object<__VA_ARGS__>; }; singles[name].hash = single_hash<__VA_ARGS__>;
#define MAC(name, ...) factory[name] = [] { return new mac_object<__VA_ARGS__>; }; singles[name].mac = single_mac<__VA_ARGS__>;
#define HKDF(name, ...) factory[name] = [] { return new hkdf_object<__VA_ARGS__>; }; singles[name].hkdf = single_hkdf<__VA_ARGS__>;
#define PBKDF(name, ...) factory[name] = [] { return new pbkdf_object<__VA_ARGS__>; }; singles[name].pbkdf = single_pbkdf<__VA_ARGS__>;
#define CIPHER(name, ...) factory[name] = [] { return new cipher_object<__VA_ARGS__>; }; singles[name].cipher = single_cipher<__VA_ARGS__>;
#define AEAD(name, ...) factory[name] = [] { return new aead_object<__VA_ARGS__>; }; singles[name].seal = single_seal<__VA_ARGS__>; singles[name].open = single_open<__VA_ARGS__>;

static void run(const std::string& op, tokens& t)
{
    if (op == "S") { objects.clear(); mem.clear(); kept.clear(); return; }
    form = unsigned(t.num());
    if (op == "new") { int o = int(t.num()); objects[o].reset(factory.at(t.str())()); return; }
    if (op == "drop") { objects.erase(int(t.num())); return; }
    if (op == "mset") { int m = int(t.num()); mem[m] = unhex(t.str()); return; }
    if (op == "mflip") { int m = int(t.num()); auto i = size_t(t.num()); mem[m].at(i - 1) ^= uint8_t(t.num()); return; }
    if (op == "mcut") { int m = int(t.num()); mem[m].resize(size_t(t.num())); return; }
    if (op == "madd") { int m = int(t.num()); auto b = unhex(t.str()); mem[m].insert(mem[m].end(), b.begin(), b.end()); return; }
#ifdef CODECS
    if (op == "cenc" || op == "cdec" || op == "cesz" || op == "cdsz")
    {
        auto k = t.str();
        input x(t);
        size_t cap = 0;
        if (op == "cdec") { t.str(); t.num(); cap = size_t(t.num()); }
        if (k == "base_16") run_codec<mp::codec_base_16>(op, true, x, cap); else run_codec<mp::codec_base_64>(op, false, x, cap);
        if (!x.intact()) out += " !input";
        return;
    }
#endif
    if (op[0] == '1' || op == "seal" || op == "open")
    {
        auto& f = singles.at(t.str());
        if (op == "1hash") { input x(t); f.hash(x, size_t(t.num())); }
        else if (op == "1mac") { input k(t), x(t); f.mac(k, x, size_t(t.num())); }
        else if (op == "1hkdf") { input a(t), s(t), i(t); f.hkdf(a, s, i, size_t(t.num())); }
        else if (op == "1pbk") { input a(t), s(t); auto c = uint32_t(t.num()); f.pbkdf(a, s, c, size_t(t.num())); }
        else if (op == "1enc" || op == "1dec") { input k(t), v(t), x(t); f.cipher(op == "1enc", k, v, x); }
        else if (op == "seal") { input k(t), v(t), a(t), p(t); t.num(); int st = int(t.num()); f.seal(k, v, a, p, st, int(t.num())); }
        else { input k(t), v(t), a(t), c(t), g(t); f.open(k, v, a, c, g); }
        return;
    }
    auto& o = *objects.at(int(t.num()));
    if (op == "rst") o.reset();
    else if (op == "key") { input k(t); o.key(k); if (!k.intact()) out += " !input"; }
    else if (op == "hkdf") { input a(t), b(t), c(t); o.hkdf(a, b, c); }
    else if (op == "pbk") { input a(t), b(t); o.pbkdf(a, b, uint32_t(t.num())); }
    else if (op == "cip" || op == "aead") { input a(t), b(t); o.pair(a, b); }
    else if (op == "upd" || op == "aad") { input a(t); o.update(a); if (!a.intact()) out += " !input"; }
    else if (op == "dig") { auto n = size_t(t.num()); t.str(); o.digest(n, int(t.num())); }
    else if (op == "der") { o.derive(size_t(t.num())); }
    else if (op == "enc" || op == "dec") { input a(t); t.str(); o.crypt(op == "enc", a, int(t.num())); if (!a.intact()) out += " !input"; }
    else if (op == "esz" || op == "dsz") { input a(t); o.sizes(op == "esz", a); }
    else if (op == "ver") { input a(t); o.verify(a); if (!a.intact()) out += " !input"; }
    else { fprintf(stderr, "unknown call %s\n", op.c_str()); _exit(5); }
}

int main(int, char** argv)
{
    catch_signals();
#include TYPES
    load_streams(argv[1]);
    auto f = fopen(argv[2], "r");
    if (!f) { perror(argv[2]); return 5; }
    char* line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0)
    {
        std::string s(line);
        while (!s.empty() && s.back() == '\n') s.pop_back();
        tokens t(s);
        auto op = t.str();
        try { run(op, t); }
        catch (const milo::error& e) { out += " !exception " + std::to_string(code_of(e)); }
        catch (const std::exception& e) { out += std::string(" !exception ") + e.what(); }
        out += '\n';
        if (out.size() > (1 << 16)) flush();
    }
    flush();
    return 0;
}
