// stand-in for the PicoSHA2 submodule (absent here): SHA-256 over iterators
#ifndef DEMO_PICOSHA2_H
#define DEMO_PICOSHA2_H
#include <cstdint>
#include <vector>
namespace picosha2 {
inline uint32_t ror_(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
template <typename I, typename O>
void hash256(I b, I e, O ob, O oe) {
    static const uint32_t K[64] = {
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74,
        0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d,
        0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e,
        0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5,
        0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
    uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    std::vector<unsigned char> m(b, e);
    uint64_t n = m.size();
    m.push_back(0x80);
    while (m.size() % 64 != 56) m.push_back(0);
    for (int i = 7; i >= 0; i--) m.push_back((unsigned char) ((n * 8) >> (8 * i)));
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[64], a[8];
        for (int i = 0; i < 16; i++)
            w[i] = (uint32_t) m[o + 4 * i] << 24 | (uint32_t) m[o + 4 * i + 1] << 16 | (uint32_t) m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
        for (int i = 16; i < 64; i++)
            w[i] = w[i - 16] + (ror_(w[i - 15], 7) ^ ror_(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (ror_(w[i - 2], 17) ^ ror_(w[i - 2], 19) ^ (w[i - 2] >> 10));
        for (int i = 0; i < 8; i++) a[i] = h[i];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = a[7] + (ror_(a[4], 6) ^ ror_(a[4], 11) ^ ror_(a[4], 25)) + ((a[4] & a[5]) ^ (~a[4] & a[6])) + K[i] + w[i];
            uint32_t t2 = (ror_(a[0], 2) ^ ror_(a[0], 13) ^ ror_(a[0], 22)) + ((a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]));
            for (int j = 7; j > 0; j--) a[j] = a[j - 1];
            a[4] += t1;
            a[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) h[i] += a[i];
    }
    for (int i = 0; i < 32 && ob != oe; i++, ++ob) *ob = (unsigned char) (h[i / 4] >> (24 - 8 * (i % 4)));
}
}  // namespace picosha2
#endif
