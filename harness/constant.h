// Calls in constant expressions: operands of exactly their size, results in a record.
//
// Included by generated programs.  Every operand is an object of its own, so that an access outside
// of it is no constant expression.

#pragma once

#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#include <milo/error.h>
#include <milo/literal.h>
#include <milo/option.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>

namespace mp = milo::primitive;
using namespace milo::literal;

// A part of a stream as an array of that element type.
template<typename E, auto& Stream, size_t Start, size_t Size>
struct part
{
    static constexpr auto make()
    {
        std::array<E, Size> a{};
        for (size_t i = 0; i < Size; i += 1) a[i] = E(Stream[Start + i]);
        return a;
    }
    static constexpr std::array<E, Size> value = make();
    static constexpr const E* ptr = value.data();
};

// Memory for a result.
template<typename E, size_t N>
struct room
{
    std::array<E, N> v{};
    constexpr E* p() { return v.data(); }
};

// What the calls delivered: per call a list of numbers.
template<size_t N>
struct record
{
    std::array<long, N> v{};
    size_t n = 0;
    constexpr void put(long x) { v[n] = x; n += 1; }
    // A size and that many bytes of what there are.
    template<typename E>
    constexpr void bytes(size_t r, const E* p, size_t most)
    {
        put(r > (size_t(1) << 40) ? -2 : long(r));
        auto k = r < most ? r : most;
        put(long(k));
        for (size_t i = 0; i < k; i += 1) put(long((unsigned char)(p[i])));
    }
};

template<typename R, typename T>
constexpr void sizes_of(R& r, const T&)
{
    long d = 0, b = 0, k = 0, v = 0;
    if constexpr (requires { T::digest_size; }) d = long(T::digest_size);
    if constexpr (requires { T::block_size; }) b = long(T::block_size);
    if constexpr (requires { T::key_size; }) k = long(T::key_size);
    if constexpr (requires { T::iv_size; }) v = long(T::iv_size);
    r.put(d), r.put(b), r.put(k), r.put(v);
}

constexpr long code_of(const milo::error& e) { return long(static_cast<milo::error::code>(e)); }
constexpr long verdict_of(const milo::error& e) { return !e ? 1 : code_of(e) == milo::error::aead_verify ? 0 : 2; }

// Printing: kinds of results as the interpreter prints them.
template<size_t N>
struct printer
{
    const record<N>& r;
    std::string& out;
    size_t i = 0;
    long get() { return i < r.n ? r.v[i++] : -3; }
    void bytes()
    {
        static const char digits[] = "0123456789abcdef";
        auto k = get();
        if (k <= 0) out += '-';
        for (long j = 0; j < k; j += 1)
        {
            auto x = get();
            out += digits[x >> 4 & 15];
            out += digits[x & 15];
        }
    }
    void line(const char* kinds)
    {
        for (auto k = kinds; *k; k += 1)
        {
            if (k != kinds) out += ' ';
            if (*k == 's') { out += std::to_string(get()) + ' '; bytes(); }
            else if (*k == 'b') { get(); bytes(); }
            else if (*k == 'n') out += std::to_string(get());
            else if (*k == 'e') out += 'e' + std::to_string(get());
            else out += '?';
        }
        out += '\n';
    }
};
