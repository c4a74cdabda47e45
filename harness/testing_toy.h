// Algorithms of no use but as something to be tested: what they compute is defined in spec/Testing.tla, and
// each can be given one fault.
#pragma once
#include <milo/internal.h>
#include <milo/primitive/hash/apie.h>
#include <milo/primitive/mac/apie.h>
#include <milo/primitive/kdf/apie.h>
#include <milo/primitive/cipher/apie.h>
#include <milo/primitive/codec/apie.h>

namespace toy
{
    // Right; wrong if a piece given to it has "at" bytes; if some byte given to it is not zero; if its key has "at"
    // bytes; if it is asked for "at" bytes; if it is to iterate "at" times.
    enum fault { none, piece, content, key, size, count };

    // The sums of Fletcher, and the number of the bytes.
    struct sums
    {
        unsigned a = 0, b = 0, n = 0;
        constexpr void add(unsigned char x) noexcept { a = (a + x) % 256; b = (b + a) % 256; n = (n + 1) % 256; }
        template<typename T> constexpr void add(const T* p, size_t k) noexcept { for (size_t i = 0; i < k; i += 1) add((unsigned char)(p[i])); }
        constexpr unsigned at(size_t i) const noexcept { return i % 3 == 0 ? n : i % 3 == 1 ? a : b; }
    };

    template<fault F, size_t At>
    struct hash
    {
        struct properties { struct hash; };
        static constexpr size_t block_size = 8;
        static constexpr size_t digest_size = 3;
        sums m;
        bool wrong = false;
        constexpr void initialize() noexcept { m = sums(); wrong = false; }
        template<typename T> constexpr void update(const T* p, size_t n) noexcept
        {
            if (F == piece && n == At) wrong = true;
            for (size_t i = 0; F == content && i < n; i += 1) if (p[i]) wrong = true;
            m.add(p, n);
        }
        constexpr void finalize() noexcept { }
        template<typename T> constexpr size_t digest(T* p, size_t n = digest_size) noexcept
        {
            n = n < digest_size ? n : digest_size;
            for (size_t i = 0; i < n; i += 1) p[i] = T((m.at(i) + (wrong && i == 1 ? 1 : 0)) % 256);
            return n;
        }
    };

    template<fault F, size_t At>
    struct mac : hash<F, At>
    {
        struct properties { struct mac; };
        static constexpr size_t key_size = 0;
        constexpr mac() noexcept = default;
        using base = hash<F, At>;
        template<typename T> constexpr void initialize(const T* p, size_t n) noexcept
        {
            base::initialize();
            this->m.add((unsigned char)(n % 256));
            this->m.add(p, n);
            if (F == key && n == At) this->wrong = true;
            for (size_t i = 0; F == content && i < n; i += 1) if (p[i]) this->wrong = true;
        }
    };

    template<fault F, size_t At>
    struct hkdf
    {
        struct properties { struct kdf; struct kdf_hkdf; };
        sums a, b, c;
        template<typename T> constexpr void initialize(const T* p, size_t n, const T* q, size_t m, const T* r, size_t k) noexcept
        {
            a = b = c = sums();
            a.add(p, n), b.add(q, m), c.add(r, k);
        }
        template<typename T> constexpr size_t derive(T* p, size_t n) noexcept
        {
            for (size_t i = 0; i < n; i += 1)
                p[i] = T((a.at(i) + 3 * b.at(i) + 5 * c.at(i) + i + (i + 1 == n && F == size && n == At ? 1 : 0)) % 256);
            return n;
        }
    };

    template<fault F, size_t At>
    struct pbkdf
    {
        struct properties { struct kdf; struct kdf_pbkdf_2; };
        sums a, b;
        uint32_t c = 0;
        template<typename T> constexpr void initialize(const T* p, size_t n, const T* q, size_t m, uint32_t k) noexcept
        {
            a = b = sums();
            a.add(p, n), b.add(q, m);
            c = k;
        }
        template<typename T> constexpr size_t derive(T* p, size_t n) noexcept
        {
            for (size_t i = 0; i < n; i += 1)
                p[i] = T((a.at(i) + 3 * b.at(i) + c % 256 + i +
                          (i + 1 == n && ((F == size && n == At) || (F == count && c == At)) ? 1 : 0)) % 256);
            return n;
        }
    };

    // A fault is in the encryption, or, with At of 1000 and more, in the decryption.
    template<fault F, size_t At>
    struct cipher
    {
        struct properties { struct cipher; struct cipher_stream; };
        static constexpr size_t key_size = 4, iv_size = 2, block_size = 1;
        unsigned char k[4] = {}, v[2] = {};
        size_t at = 0;
        template<typename T> constexpr void initialize(const T* p, size_t n, const T* q, size_t m) noexcept
        {
            for (size_t i = 0; i < 4; i += 1) k[i] = i < n ? (unsigned char)(p[i]) : 0;
            for (size_t i = 0; i < 2; i += 1) v[i] = i < m ? (unsigned char)(q[i]) : 0;
            at = 0;
        }
        template<typename T, typename U> constexpr size_t crypt(const T* p, size_t n, U* q, bool back) noexcept
        {
            for (size_t i = 0; i < n; i += 1)
            {
                unsigned s = (k[at % 4] + v[at % 2] + unsigned(at)) % 256, x = (unsigned char)(p[i]);
                bool w = F == piece && n == At % 1000 && back == (At >= 1000) && i + 1 == n;
                q[i] = U((back ? x + 256 - s : x + s) + (w ? 1 : 0));
                at += 1;
            }
            return n;
        }
        template<typename T, typename U> constexpr size_t encrypt(const T* p, size_t n, U* q) noexcept { return crypt(p, n, q, false); }
        template<typename T, typename U> constexpr size_t decrypt(const T* p, size_t n, U* q) noexcept { return crypt(p, n, q, true); }
        template<typename T> constexpr size_t encrypt_size(const T*, size_t n) noexcept { return n; }
        template<typename T> constexpr size_t decrypt_size(const T*, size_t n) noexcept { return n; }
    };

    // Two letters of a to p for a byte.
    template<fault F, size_t At>
    struct codec
    {
        struct properties { struct codec; };
        static constexpr size_t ratio_bytes_size = 1, ratio_chars_size = 2;
        template<typename T, typename U> static constexpr size_t encode(const T* p, size_t n, U* q) noexcept
        {
            for (size_t i = 0; i < n; i += 1)
            {
                unsigned x = (unsigned char)(p[i]);
                q[2 * i] = U('a' + x / 16);
                q[2 * i + 1] = U('a' + (x + (F == piece && n == At && i + 1 == n ? 1 : 0)) % 16);
            }
            return 2 * n;
        }
        template<typename T> static constexpr size_t encode_size(const T*, size_t n) noexcept { return 2 * n; }
        template<typename T, typename U> static constexpr size_t decode(const T* p, size_t n, U* q, milo::error& e) noexcept
        {
            e = milo::error();
            for (size_t i = 0; i < n; i += 1) if (p[i] < 'a' || p[i] > 'p') e = milo::error::code::codec_base_16_decode;
            if (n % 2) e = milo::error::code::codec_base_16_decode;
            if (e) return 0;
            for (size_t i = 0; i < n; i += 2)
                q[i / 2] = U((p[i] - 'a') * 16 + (p[i + 1] - 'a' + (F == piece && n == At && i + 2 == n ? 1 : 0)) % 16);
            return n / 2;
        }
        template<typename T> static constexpr size_t decode_size(const T*, size_t n) noexcept { return n / 2; }
    };
}
