// Asks the test interface for its verdict, one line of standard input after the other:
//     SCHEME IMPLEMENTATION PLACE N FIELD...
// with the fields, the inputs and then what is expected, in hexadecimal digits behind a colon; N is a number of iterations.
// The implementation is asked directly as well: after the verdict come 1 and its answer, or 0 if it has none.
#include <array>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include "testing_toy.h"
#include <milo/primitive/detail/alias.h>
#include <milo/primitive/hash/test.h>
#include <milo/primitive/mac/test.h>
#include <milo/primitive/kdf/test.h>
#include <milo/primitive/cipher/test.h>
#include <milo/primitive/aead/test.h>
#include <milo/primitive/codec/test.h>

namespace mp = milo::primitive;
using namespace milo::primitive;

#include "testing_types.h"

static std::string unhex(const std::string& a)
{
    std::string b;
    for (size_t i = 1; i + 1 < a.size(); i += 2) b += char(std::stoi(a.substr(i, 2), nullptr, 16));
    return b;
}

// The verdict for fields of type F, made of texts by "as".
template<typename As>
static bool ask(const std::string& scheme, const std::string& impl, uint32_t n, std::vector<std::string>& f, As as)
{
#define HASH(name, type) if (scheme == "hash" && impl == name) return mp::hash::test::digest<type>(as(f[0]), as(f[1]));
#define MAC(name, type) if (scheme == "mac" && impl == name) return mp::mac::test::digest<type>(as(f[0]), as(f[1]), as(f[2]));
#define HKDF(name, type) if (scheme == "kdf-hkdf" && impl == name) return mp::kdf::test::derive<type>(as(f[0]), as(f[1]), as(f[2]), as(f[3]));
#define PBKDF(name, type) if (scheme == "kdf-pbkdf-2" && impl == name) return mp::kdf::test::derive<type>(as(f[0]), as(f[1]), n, as(f[2]));
#define CIPHER(name, type) \
    if (scheme == "cipher-encrypt" && impl == name) return mp::cipher::test::encrypt<type>(as(f[0]), as(f[1]), as(f[2]), as(f[3])); \
    if (scheme == "cipher-decrypt" && impl == name) return mp::cipher::test::decrypt<type>(as(f[0]), as(f[1]), as(f[2]), as(f[3]));
#define AEAD(name, type) \
    if (scheme == "aead-encrypt" && impl == name) \
        return mp::aead::test<type>::encrypt(as(f[0]), as(f[1]), as(f[2]), as(f[3]), as(f[4]), as(f[5])); \
    if (scheme == "aead-decrypt" && impl == name) \
        return mp::aead::test<type>::decrypt(as(f[0]), as(f[1]), as(f[2]), as(f[3]), as(f[4]), as(f[5]));
#define CODEC(name, type) \
    if (scheme == "codec-encode" && impl == name) return mp::codec::test<type>::encode(as(f[0]), as(f[1])); \
    if (scheme == "codec-decode" && impl == name) return mp::codec::test<type>::decode(as(f[0]), as(f[1]));
    TYPES
    std::cerr << "no " << scheme << " " << impl << "\n";
    std::exit(3);
}

static void say(const std::string& a)
{
    std::cout << " :";
    for (unsigned char x : a) std::cout << "0123456789abcdef"[x / 16] << "0123456789abcdef"[x % 16];
}

template<typename T>
static std::string text(const T& a)
{
    return std::string(a.begin(), a.end());
}

static void answer(const std::string& scheme, const std::string& impl, uint32_t n, std::vector<std::string>& f)
{
#undef HASH
#undef MAC
#undef HKDF
#undef PBKDF
#undef CIPHER
#undef AEAD
#undef CODEC
#define HASH(name, type) if (scheme == "hash" && impl == name) return say(text(mp::hash::digest<type>(f[0])));
#define MAC(name, type) if (scheme == "mac" && impl == name) return say(text(mp::mac::digest<type>(f[0], f[1])));
#define HKDF(name, type) if (scheme == "kdf-hkdf" && impl == name) return say(text(mp::kdf::derive<type>(f[0], f[1], f[2], f[3].size())));
#define PBKDF(name, type) if (scheme == "kdf-pbkdf-2" && impl == name) return say(text(mp::kdf::derive<type>(f[0], f[1], n, f[2].size())));
#define CIPHER(name, type) \
    if (scheme == "cipher-encrypt" && impl == name) return say(text(mp::cipher::encrypt<type>(f[0], f[1], f[2]))); \
    if (scheme == "cipher-decrypt" && impl == name) return say(text(mp::cipher::decrypt<type>(f[0], f[1], f[2])));
#define AEAD(name, type) \
    if (scheme == "aead-encrypt" && impl == name) \
    { \
        auto [c, t] = mp::aead::encrypt<type>(f[0], f[1], f[2], f[3]); \
        say(text(c)); \
        return say(text(t)); \
    } \
    if (scheme == "aead-decrypt" && impl == name) return say(text(mp::aead::decrypt<type>(f[0], f[1], f[2], f[3], f[4])));
#define CODEC(name, type) \
    if (scheme == "codec-encode" && impl == name) return say(text(mp::codec::encode<type>(f[0]))); \
    if (scheme == "codec-decode" && impl == name) return say(text(mp::codec::decode<type>(f[0])));
    TYPES
}

#define DIFFER(space, scheme_, name_a, name_b, a, b) \
    if (scheme == scheme_ && impl == name_a "/" name_b) { std::cout << mp::space::test::differential<a, b>() << std::endl; continue; }

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream is(line);
        std::string scheme, impl, place, x;
        uint32_t n;
        is >> scheme >> impl >> place >> n;
        std::vector<std::string> f;
        while (is >> x) f.push_back(unhex(x));
        if (place == "pair")
        {
            PAIRS
            std::cerr << "no pair " << scheme << " " << impl << "\n";
            return 3;
        }
        bool v;
        if (place == "string") v = ask(scheme, impl, n, f, [](std::string& s) -> const std::string& { return s; });
        else if (place == "vector") v = ask(scheme, impl, n, f, [](std::string& s) { return std::vector<unsigned char>(s.begin(), s.end()); });
        else v = ask(scheme, impl, n, f, [](std::string& s) { return std::string_view(s); });
        std::cout << v << std::flush;
        // A key that is longer than those of the algorithm is none.
        if (impl.find("poly_1305") != impl.npos && scheme == "mac" && f[0].size() > 32)
        {
            std::cout << " 0" << std::endl;
            continue;
        }
        std::ostringstream o;
        auto old = std::cout.rdbuf(o.rdbuf());
        bool ok = true;
        try
        {
            answer(scheme, impl, n, f);
        }
        catch (...)
        {
            ok = false;
        }
        std::cout.rdbuf(old);
        std::cout << (ok ? " 1" + o.str() : " 0") << std::endl;
    }
}
