// Stand-in for the PicoSHA2 submodule, which is absent in this sandbox (deps/PicoSHA2 is empty).
// Same interface as used by the library: picosha2::hash256(first, last, out_first, out_last).
#ifndef VERIF_PICOSHA2_H
#define VERIF_PICOSHA2_H
#include <cstddef>
#include <cstdint>
#include <vector>
#include <algorithm>
extern "C" void verif_sha256(unsigned char *out, const unsigned char *in, size_t inlen);
namespace picosha2 {
template <typename T>
inline const T *raw(T *p) { return p; }
template <typename I>
inline typename I::pointer raw(I i) { return i.base(); }
template <typename I, typename O>
void hash256(I first, I last, O ofirst, O olast) {
    unsigned char d[32];
    verif_sha256(d, reinterpret_cast<const unsigned char *>(raw(first)), static_cast<size_t>(last - first));
    for (size_t i = 0; i < 32 && ofirst != olast; i++, ++ofirst)
        *ofirst = d[i];
}
}  // namespace picosha2
#endif
