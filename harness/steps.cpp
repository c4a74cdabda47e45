// PBKDF2 over a pseudorandom function so cheap that the whole range of iterations and block indices can be run:
// F(key, message) = the last W bytes of the message, as a big endian number, plus the sum of the bytes of the key.
//
// steps WIDTH ITERATIONS KEY SALT SKIP LENGTH...: derives SKIP bytes, then pieces of the lengths given; prints the pieces.

#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/kdf/pbkdf.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

template<size_t width> class steps
{
    uint64_t k = 0, v = 0;

public:

    struct properties
    {
        using prf = int;
    };

    static constexpr size_t key_size = 0;
    static constexpr size_t digest_size = width;

    template<class T> void initialize(const T* p, size_t n) noexcept(true)
    {
        k = v = 0;
        for (size_t i = 0; i < n; i += 1) k += (unsigned char)(p[i]);
    }

    template<class T> void update(const T* p, size_t n) noexcept(true)
    {
        if (n == 8)
        {
            memcpy(&v, p, 8);
            v = __builtin_bswap64(v);
            return;
        }
        for (size_t i = 0; i < n; i += 1) v = v << 8 | (unsigned char)(p[i]);
    }

    void finalize() noexcept(true)
    {
        v += k;
    }

    template<class T> size_t digest(T* p, size_t n = width) const noexcept(true)
    {
        if (n > width) n = width;
        if (n == 8)
        {
            auto w = __builtin_bswap64(v);
            memcpy(p, &w, 8);
            return n;
        }
        for (size_t i = 0; i < n; i += 1) p[i] = T((unsigned char)(v >> (8 * (width - 1 - i))));
        return n;
    }
};

static std::vector<unsigned char> bytes(const char* s)
{
    std::vector<unsigned char> r;
    for (; s[0] && s[1] && *s != '-'; s += 2) r.push_back((unsigned char)(std::stoi(std::string(s, 2), nullptr, 16)));
    return r;
}

template<size_t width> int run(char** a)
{
    auto iterations = uint32_t(strtoull(a[0], nullptr, 10));
    auto key = bytes(a[1]), salt = bytes(a[2]);
    auto skip = strtoull(a[3], nullptr, 10);
    milo::primitive::kdf::apie<milo::primitive::kdf::pbkdf_2<steps<width>>> d(key, salt, iterations);
    std::vector<unsigned char> out(1 << 20);
    while (skip)
    {
        auto n = skip < out.size() ? size_t(skip) : out.size();
        if (d.derive(out.data(), n) != n) return 1;
        skip -= n;
    }
    for (a += 4; *a; a += 1)
    {
        auto n = strtoull(*a, nullptr, 10);
        out.assign(n + 1, 0xa5);
        if (d.derive(out.data(), n) != n || out[n] != 0xa5) return 1;
        for (size_t i = 0; i < n; i += 1) printf("%02x", out[i]);
        printf("%s\n", n ? "" : "-");
    }
    return 0;
}

int main(int, char** a)
{
    return !strcmp(a[1], "8") ? run<8>(a + 2) : !strcmp(a[1], "5") ? run<5>(a + 2) : run<1>(a + 2);
}
