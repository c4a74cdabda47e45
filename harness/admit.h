// What the forms of calls are made of.  Nothing of this is run.

#pragma once

#include <array>
#include <cstddef>
#include <cstdint>
#include <span>
#include <string>
#include <string_view>
#include <system_error>
#include <utility>
#include <vector>

#include <milo/container.h>
#include <milo/error.h>
#include <milo/option.h>
#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>

namespace mp = milo::primitive;
namespace mo = milo::option;

// An object of a type, never looked at.
template<typename T>
T& any() noexcept;

// Containers of the user: of a fixed size, growing, and one whose size can throw.
template<typename E, size_t N>
struct Fixed
{
    using value_type = E;
    E m[N ? N : 1];
    constexpr E* data() noexcept { return m; }
    constexpr const E* data() const noexcept { return m; }
    constexpr size_t size() const noexcept { return N; }
};

template<typename E>
struct Growing
{
    using value_type = E;
    std::vector<E> m;
    constexpr E* data() noexcept { return m.data(); }
    constexpr const E* data() const noexcept { return m.data(); }
    constexpr size_t size() const noexcept { return m.size(); }
    constexpr void reserve(size_t n) { m.reserve(n); }
    constexpr void resize(size_t n, const E& e) { m.resize(n, e); }
};

template<typename E>
struct Loud
{
    using value_type = E;
    E m[16];
    constexpr E* data() noexcept { return m; }
    constexpr const E* data() const noexcept { return m; }
    size_t size() const { return 16; }
};
