// Records what the application does with the library: included before its sources, in which every alias of an algorithm
// becomes one that notes its operations and their sizes.  PROBED(X) is expanded for every alias by a generated header.

#pragma once

#include <milo/primitive/aead/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/detail/alias.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace milo_probe
{
    struct total
    {
        uint64_t count = 0;
        std::vector<unsigned __int128> sizes;
    };

    // What was done between two readings of the clock.
    using segment = std::map<std::pair<std::string, std::string>, total>;

    inline std::string decimal(unsigned __int128 v)
    {
        std::string s;
        do s.insert(s.begin(), char('0' + int(v % 10))); while (v /= 10);
        return s;
    }

    struct log
    {
        std::vector<segment> segments{1};

        ~log()
        {
            auto p = getenv("MILO_PROBE");
            auto f = p ? fopen(p, "w") : nullptr;
            if (!f) return;
            fprintf(f, "[");
            for (size_t i = 0; i < segments.size(); i += 1)
            {
                fprintf(f, "%s[", i ? "," : "");
                auto first = true;
                for (auto& [k, t]: segments[i])
                {
                    fprintf(f, "%s{\"alias\":\"%s\",\"op\":\"%s\",\"count\":\"%s\",\"sizes\":[", first ? "" : ",", k.first.c_str(), k.second.c_str(), decimal(t.count).c_str());
                    for (size_t j = 0; j < t.sizes.size(); j += 1) fprintf(f, "%s\"%s\"", j ? "," : "", decimal(t.sizes[j]).c_str());
                    fprintf(f, "]}");
                    first = false;
                }
                fprintf(f, "]");
            }
            fprintf(f, "]\n");
            fclose(f);
        }
    };

    inline log& the()
    {
        static log l;
        return l;
    }

    template<size_t n> struct text
    {
        char v[n];
        constexpr text(const char(&s)[n]) { for (size_t i = 0; i < n; i += 1) v[i] = s[i]; }
    };

    template<class A> void size_of(std::vector<uint64_t>& v, const A& a)
    {
        if constexpr (std::is_integral_v<A>) v.push_back(uint64_t(a));
    }

    template<class... A> void note(const char* alias, const char* op, const A&... a)
    {
        std::vector<uint64_t> v;
        (size_of(v, a), ...);
        auto& t = the().segments.back()[{alias, op}];
        t.count += 1;
        if (t.sizes.size() < v.size()) t.sizes.resize(v.size());
        for (size_t i = 0; i < v.size(); i += 1) t.sizes[i] += v[i];
    }

#define MILO_PROBE_MEMBER(OP, CONST) \
    template<class... A> constexpr auto OP(A&&... a) CONST noexcept(true) -> decltype(auto) \
    requires requires(CONST T& t) { t.OP(std::forward<A>(a)...); } \
    { \
        if (!std::is_constant_evaluated()) note(name.v, #OP, a...); \
        return static_cast<CONST T&>(*this).OP(std::forward<A>(a)...); \
    }
#define MILO_PROBE_STATIC(OP) \
    template<class... A> static constexpr auto OP(A&&... a) noexcept(true) -> decltype(auto) \
    requires requires { T::OP(std::forward<A>(a)...); } \
    { \
        if (!std::is_constant_evaluated()) note(name.v, #OP, a...); \
        return T::OP(std::forward<A>(a)...); \
    }

    template<text name, class T> struct probed : T
    {
        using T::T;
        MILO_PROBE_MEMBER(initialize, )
        MILO_PROBE_MEMBER(update, )
        MILO_PROBE_MEMBER(finalize, )
        MILO_PROBE_MEMBER(digest, const)
        MILO_PROBE_MEMBER(derive, )
        MILO_PROBE_MEMBER(aad, )
        MILO_PROBE_MEMBER(aadover, )
        MILO_PROBE_MEMBER(encrypt, )
        MILO_PROBE_MEMBER(decrypt, )
    };

    template<text name, class T> struct probed_codec : T
    {
        using T::T;
        MILO_PROBE_STATIC(encode)
        MILO_PROBE_STATIC(decode)
    };
}

// A reading of the clock.
extern "C" inline __attribute__((used)) void milo_tick()
{
    milo_probe::the().segments.emplace_back();
}
