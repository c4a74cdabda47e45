"""The primitives that the library offers: (kind, name for scripts, C++ type) and what they are."""

ASM = {"sha_1_160": ["hw_x86_64_ni"], "sha_2_224": ["hw_x86_64_ni"], "sha_2_256": ["hw_x86_64_ni"]}


def backends(alg, present=None):
    """Suffixes of the aliases of a hash (and of the MACs and KDFs over it)."""
    r = ["", "_sw"] + ["_" + x for x in ASM.get(alg, [])]
    if present is not None:
        r = [x for x in r if present(x)]
    return r


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":")[1].split())
    except OSError:
        pass
    return set()


def usable(suffix, flags=None):
    """Whether this machine can run a backend named explicitly."""
    f = flags if flags is not None else cpu_flags()
    if "sha" in suffix or suffix.endswith("_ni"):
        return "sha_ni" in f and "ssse3" in f and "sse4_1" in f
    if "ssse_3" in suffix:
        return "ssse3" in f
    if "avx_2" in suffix:
        return "avx2" in f
    return True


def hash_types(alg):
    return [("hash", "%s%s" % (alg, b), "hash_%s%s" % (alg, b)) for b in backends(alg, usable)]


def hmac_types(alg):
    return [("mac", "hmac_%s%s" % (alg, b), "mac_hmac_%s%s" % (alg, b)) for b in backends(alg, usable)]


def hkdf_types(alg):
    return [("hkdf", "hkdf_%s%s" % (alg, b), "kdf_hkdf_hmac_%s%s" % (alg, b)) for b in backends(alg, usable)]


def pbkdf_types(alg):
    return [("pbkdf", "pbkdf_%s%s" % (alg, b), "kdf_pbkdf_2_hmac_%s%s" % (alg, b)) for b in backends(alg, usable)]


def poly_types():
    return [("mac", "poly_1305", "mac_poly_1305"), ("mac", "poly_1305_sw", "mac_poly_1305_sw")]


def cipher_types():
    return [("cipher", "chacha_20" + b, "cipher_chacha_20" + b)
            for b in ("", "_sw", "_hw_x86_64_ssse_3", "_hw_x86_64_avx_2") if usable(b)]


def aead_types():
    return [("aead", "aead", "aead_chacha_20_poly_1305"), ("aead", "aead_sw", "aead_chacha_20_sw_poly_1305_sw")]
