// Calls the repository's conversions and seed derivations with (pointer, length) arguments; contains no logic of its own.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
#include <qrl/misc.h>
#include <qrl/hashing.h>

typedef std::vector<uint8_t> V;
#define GUARD(body) try { body return 0; } catch (std::invalid_argument &) { return 1; } catch (std::runtime_error &) { return 2; } catch (...) { return 3; }

extern "C" int v_chain(const uint8_t *p, size_t n, uint32_t shift, uint32_t count, void *out) {
    GUARD(V s(p, p + n); new (out) std::vector<V>(getHashChainSeed(s, shift, count));)
}
extern "C" int v_random(uint32_t size, const std::string *entropy, void *out) { GUARD(new (out) V(getRandomSeed(size, *entropy));) }
extern "C" int v_shake128(size_t n, const uint8_t *p, size_t len, void *out) { GUARD(new (out) V(shake128(n, V(p, p + len)));) }
extern "C" int v_shake256(size_t n, const uint8_t *p, size_t len, void *out) { GUARD(new (out) V(shake256(n, V(p, p + len)));) }
extern "C" int v_sha2(const uint8_t *p, size_t len, void *out) { GUARD(new (out) V(sha2_256(V(p, p + len)));) }
extern "C" int v_sha2_n(const uint8_t *p, size_t len, size_t count, void *out) { GUARD(new (out) V(sha2_256_n(V(p, p + len), count));) }

extern "C" int v_bin2hstr(const uint8_t *p, size_t n, uint32_t wrap, void *out) { GUARD(V v(p, p + n); new (out) std::string(bin2hstr(v, wrap));) }
extern "C" int v_str2hstr(const std::string *s, uint32_t wrap, void *out) { GUARD(new (out) std::string(bin2hstr(*s, wrap));) }
extern "C" int v_str2bin(const std::string *s, void *out) { GUARD(new (out) V(str2bin(*s));) }
extern "C" int v_hstr2bin(const std::string *s, void *out) { GUARD(new (out) V(hstr2bin(*s));) }
extern "C" int v_bin2mn(const uint8_t *p, size_t n, void *out) { GUARD(V v(p, p + n); new (out) std::string(bin2mnemonic(v));) }
extern "C" int v_mn2bin(const std::string *s, void *out) { GUARD(new (out) V(mnemonic2bin(*s));) }
