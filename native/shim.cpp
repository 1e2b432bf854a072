// extern "C" entry points used by the native (bounded, replay) runs, and the SHA-256 behind stubs/PicoSHA2.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#include <thread>
#include <mutex>
#include <atomic>
#include <new>
#include <xmss-alt/eHashFunctions.h>
#include <xmss-alt/fips202.h>
#include <shasha/shasha.h>
#include <xmss-alt/hash.h>
#include <xmss-alt/hash_address.h>
#include <xmss-alt/wots.h>
#include <xmss-alt/wots_internal.h>
#include <xmss-alt/xmss_common.h>
#include <xmss-alt/algsxmss.h>
#include <xmss-alt/algsxmss_fast.h>
#include <qrl/misc.h>
#include <qrl/hashing.h>
#include <qrl/wordlist.h>
#include <qrl/qrlDescriptor.h>
#include <qrl/qrlHelper.h>
#include <qrl/xmssBase.h>
#include <qrl/xmssBasic.h>
#include <qrl/xmssFast.h>
#include <qrl/xmssPool.h>

namespace {
typedef std::vector<unsigned char> V;
const uint32_t K256[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74,
    0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d,
    0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e,
    0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5,
    0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
}  // namespace

extern "C" void verif_sha256(unsigned char *out, const unsigned char *in, size_t n) {
    uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    std::vector<unsigned char> m;
    m.reserve(n + 80);
    m.insert(m.end(), in, in + n);
    m.push_back(0x80);
    while (m.size() % 64 != 56) m.push_back(0);
    for (int i = 7; i >= 0; i--) m.push_back((unsigned char) (((uint64_t) n * 8) >> (8 * i)));
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++)
            w[i] = (uint32_t) m[o + 4 * i] << 24 | (uint32_t) m[o + 4 * i + 1] << 16 | (uint32_t) m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
        for (int i = 16; i < 64; i++)
            w[i] = w[i - 16] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10));
        uint32_t a[8];
        memcpy(a, h, 32);
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = a[7] + (ror(a[4], 6) ^ ror(a[4], 11) ^ ror(a[4], 25)) + ((a[4] & a[5]) ^ (~a[4] & a[6])) + K256[i] + w[i];
            uint32_t t2 = (ror(a[0], 2) ^ ror(a[0], 13) ^ ror(a[0], 22)) + ((a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]));
            for (int j = 7; j > 0; j--) a[j] = a[j - 1];
            a[4] += t1;
            a[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++) h[i] += a[i];
    }
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < 4; j++) out[4 * i + j] = (unsigned char) (h[i] >> (24 - 8 * j));
}

extern "C" void verif_random(unsigned char *out, size_t n) {
    for (size_t i = 0; i < n; i++) out[i] = (unsigned char) (i * 7 + 3);
}

namespace {
std::string g_err;
// runs f; 0 returned, 1 std::invalid_argument, 2 other std::exception, 3 anything else
template <typename F>
int guard(F f) {
    try {
        f();
        return 0;
    } catch (std::invalid_argument &e) {
        g_err = e.what();
        return 1;
    } catch (std::exception &e) {
        g_err = e.what();
        return 2;
    } catch (...) {
        return 3;
    }
}
V vec(const unsigned char *p, size_t n) { return V(p, p + n); }
struct Buf {
    unsigned char *p;
    size_t n;
};
void put(Buf *o, const V &v) {
    o->n = v.size();
    o->p = new unsigned char[v.size() + 1];
    if (!v.empty()) memcpy(o->p, v.data(), v.size());
}
void put(Buf *o, const std::string &v) { put(o, V(v.begin(), v.end())); }
eHashFunction hf(int x) { return static_cast<eHashFunction>(x); }
}  // namespace

extern "C" {
void q_free(Buf *b) { delete[] b->p; b->p = nullptr; }
const char *q_err() { return g_err.c_str(); }
void q_sha256(unsigned char *o, const unsigned char *i, size_t n) { verif_sha256(o, i, n); }
void q_sha256wrap(unsigned char *o, unsigned char *i, size_t n) { sha2_256(o, i, n); }
void q_shake(int which, unsigned char *o, size_t ol, const unsigned char *i, size_t il) { which == 128 ? shake128(o, ol, i, il) : shake256(o, ol, i, il); }
int q_vhash(int which, size_t count, const unsigned char *i, size_t il, Buf *o) {
    return guard([&] {
        V v = vec(i, il);
        put(o, which == 0 ? sha2_256(v) : which == 1 ? sha2_256_n(v, count) : which == 128 ? shake128(count, v) : shake256(count, v));
    });
}
int q_prf(int h, unsigned char *o, const unsigned char *in, const unsigned char *key, unsigned kl) { return prf(hf(h), o, in, key, kl); }
int q_hmsg(int h, unsigned char *o, const unsigned char *in, unsigned long long il, const unsigned char *key, unsigned kl, unsigned n) { return h_msg(hf(h), o, in, il, key, kl, n); }
int q_hashh(int h, unsigned char *o, const unsigned char *in, const unsigned char *ps, uint32_t *addr, unsigned n) { return hash_h(hf(h), o, in, ps, addr, n); }
int q_hashf(int h, unsigned char *o, const unsigned char *in, const unsigned char *ps, uint32_t *addr, unsigned n) { return hash_f(hf(h), o, in, ps, addr, n); }
void q_addrbytes(unsigned char *o, const uint32_t *a) { addr_to_byte(o, a); }
void q_setaddr(int which, uint32_t *a, uint64_t v) {
    switch (which) {
        case 0: setLayerADRS(a, (uint32_t) v); break;
        case 1: setTreeADRS(a, v); break;
        case 2: setType(a, (uint32_t) v); break;
        case 3: setKeyAndMask(a, (uint32_t) v); break;
        case 4: setOTSADRS(a, (uint32_t) v); break;
        case 5: setChainADRS(a, (uint32_t) v); break;
        case 6: setHashADRS(a, (uint32_t) v); break;
        case 7: setLtreeADRS(a, (uint32_t) v); break;
        case 8: setTreeHeight(a, (uint32_t) v); break;
        case 9: setTreeIndex(a, (uint32_t) v); break;
    }
}
void q_wotsparams(wots_params *p, int n, int w) { wots_set_params(p, n, w); }
void q_wots(int op, int h, unsigned char *out, const unsigned char *in, const unsigned char *msg, int w, const unsigned char *ps, uint32_t *addr) {
    wots_params p;
    wots_set_params(&p, 32, w);
    if (op == 0) wots_pkgen(hf(h), out, in, &p, ps, addr);
    if (op == 1) wots_sign(hf(h), out, msg, in, &p, ps, addr);
    if (op == 2) wots_pkFromSig(hf(h), out, in, msg, &p, ps, addr);
}
void q_ltree(int h, unsigned char *leaf, unsigned char *wpk, int w, const unsigned char *ps, uint32_t *addr) {
    wots_params p;
    wots_set_params(&p, 32, w);
    l_tree(hf(h), &p, leaf, wpk, ps, addr);
}
// C-level basic signer
int q_genkey(int fh, int height, int w, unsigned char *pk, unsigned char *sk, unsigned char *seed) {
    xmss_params p{};
    xmss_set_params(&p, 32, height, w, 2);
    return xmss_Genkeypair(hf(fh), &p, pk, sk, seed);
}
int q_signmsg(int fh, int height, int w, unsigned char *sk, unsigned char *sig, unsigned char *msg, size_t ml) {
    xmss_params p{};
    xmss_set_params(&p, 32, height, w, 2);
    return xmss_Signmsg(hf(fh), &p, sk, sig, msg, ml);
}
int q_verifysig(int fh, int height, int w, unsigned char *msg, size_t ml, unsigned char *sig, const unsigned char *pk) {
    wots_params p;
    wots_set_params(&p, 32, w);
    return xmss_Verifysig(hf(fh), &p, msg, ml, sig, pk, (unsigned char) height);
}
// C++ signers
int q_new(int fast, const unsigned char *seed, size_t sl, unsigned char height, int h, int fmt, uint32_t w, void **out) {
    return guard([&] {
        V s = vec(seed, sl);
        if (fast == 1)
            *out = static_cast<XmssBase *>(new XmssFast(s, height, hf(h), static_cast<eAddrFormatType>(fmt)));
        else if (fast == 2)
            *out = static_cast<XmssBase *>(new XmssFast(s));
        else
            *out = static_cast<XmssBase *>(new XmssBasic(s, height, hf(h), static_cast<eAddrFormatType>(fmt), w));
    });
}
void q_del(void *x) { delete static_cast<XmssBase *>(x); }
int q_sign(void *x, const unsigned char *m, size_t ml, Buf *o) {
    return guard([&] { put(o, static_cast<XmssBase *>(x)->sign(vec(m, ml))); });
}
int q_setindex(void *x, uint32_t i, uint32_t *r) {
    return guard([&] { *r = static_cast<XmssBase *>(x)->setIndex(i); });
}
uint32_t q_index(void *x) { return static_cast<XmssBase *>(x)->getIndex(); }
int q_get(void *x, int what, Buf *o) {
    return guard([&] {
        XmssBase *b = static_cast<XmssBase *>(x);
        switch (what) {
            case 0: put(o, b->getSK()); break;
            case 1: put(o, b->getPK()); break;
            case 2: put(o, b->getSeed()); break;
            case 3: put(o, b->getExtendedSeed()); break;
            case 4: put(o, b->getRoot()); break;
            case 5: put(o, b->getPKSeed()); break;
            case 6: put(o, b->getSKSeed()); break;
            case 7: put(o, b->getSKPRF()); break;
            case 8: put(o, b->getAddress()); break;
            case 9: put(o, b->getDescriptorBytes()); break;
        }
    });
}
uint64_t q_num(void *x, int what, uint32_t w) {
    XmssBase *b = static_cast<XmssBase *>(x);
    switch (what) {
        case 0: return b->getHeight();
        case 1: return b->getNumberSignatures();
        case 2: return b->getRemainingSignatures();
        case 3: return b->getSignatureSize(w);
        case 4: return b->getSecretKeySize();
        case 5: return b->getPublicKeySize();
    }
    return 0;
}
int q_verify(const unsigned char *m, size_t ml, const unsigned char *s, size_t sl, const unsigned char *pk, size_t pl, uint32_t w, int *res) {
    return guard([&] {
        V mv = vec(m, ml), sv = vec(s, sl), pv = vec(pk, pl);
        V a = mv, b = sv, c = pv;
        *res = XmssBase::verify(mv, sv, pv, w) ? 1 : 0;
        if (a != mv || b != sv || c != pv) *res |= 2;
    });
}
int q_basesize(uint32_t w, uint32_t *o) { return guard([&] { *o = XmssBase::calculateSignatureBaseSize(w); }); }
int q_hfromsize(size_t n, uint32_t w, uint32_t *o) { return guard([&] { *o = XmssBase::getHeightFromSigSize(n, w); }); }
// descriptors and addresses
static void dput(QRLDescriptor d, int *o, Buf *b) {
    o[0] = d.getHashFunction();
    o[1] = d.getSignatureType();
    o[2] = d.getHeight();
    o[3] = d.getAddrFormatType();
    put(b, d.getBytes());
}
int q_desc(int how, const unsigned char *p, size_t n, int *o, Buf *b) {
    return guard([&] { dput(how == 0 ? QRLDescriptor::fromBytes(vec(p, n)) : how == 1 ? QRLDescriptor::fromExtendedSeed(vec(p, n)) : QRLDescriptor::fromExtendedPK(vec(p, n)), o, b); });
}
int q_descmake(int h, int s, int ht, int f, int *o, Buf *b) {
    return guard([&] { dput(QRLDescriptor(hf(h), static_cast<eSignatureType>(s), (uint8_t) ht, static_cast<eAddrFormatType>(f)), o, b); });
}
int q_addr(const unsigned char *p, size_t n, Buf *o) { return guard([&] { put(o, QRLHelper::getAddress(vec(p, n))); }); }
int q_addrvalid(const unsigned char *p, size_t n, int *r) { return guard([&] { *r = QRLHelper::addressIsValid(vec(p, n)); }); }
// text codecs
int q_bin2hstr(int str, const unsigned char *p, size_t n, uint32_t wrap, Buf *o) {
    return guard([&] { put(o, str ? bin2hstr(std::string(p, p + n), wrap) : bin2hstr(vec(p, n), wrap)); });
}
int q_hstr2bin(const unsigned char *p, size_t n, Buf *o) { return guard([&] { put(o, hstr2bin(std::string(p, p + n))); }); }
int q_str2bin(const unsigned char *p, size_t n, Buf *o) { return guard([&] { put(o, str2bin(std::string(p, p + n))); }); }
int q_bin2mn(const unsigned char *p, size_t n, Buf *o) { return guard([&] { put(o, bin2mnemonic(vec(p, n))); }); }
int q_mn2bin(const unsigned char *p, size_t n, Buf *o) { return guard([&] { put(o, mnemonic2bin(std::string(p, p + n))); }); }
int q_word(unsigned i, Buf *o) { return guard([&] { put(o, wordlist.at(i)); }); }
int q_random(uint32_t n, const unsigned char *e, size_t el, Buf *o) { return guard([&] { put(o, getRandomSeed(n, std::string(e, e + el))); }); }
int q_hashchain(const unsigned char *s, size_t n, uint32_t shift, uint32_t count, Buf *o) {
    return guard([&] {
        auto r = getHashChainSeed(vec(s, n), shift, count);
        V all;
        if (r.size() != count) throw std::runtime_error("count");
        for (auto &x : r) {
            if (x.size() != 32) throw std::runtime_error("size");
            all.insert(all.end(), x.begin(), x.end());
        }
        put(o, all);
    });
}
// pool: threads callers each claiming per trees; out = (root || seed) of every tree in claim order of the caller, plus the indices seen before and after
int q_pool(const unsigned char *s, size_t n, int height, size_t start, size_t size, int threads, int per, int query, Buf *seeds, size_t *curr) {
    return guard([&] {
        XmssPool pool(vec(s, n), (unsigned char) height, start, size);
        std::vector<V> got(threads * per);
        std::atomic<int> bad{0};
        std::atomic<int> ready{0};
        auto work = [&](int t) {
            ready++;
            while (ready < threads) std::this_thread::yield();
            size_t last = 0;
            for (int i = 0; i < per; i++) {
                if (query) {
                    pool.isAvailable();
                    size_t c = pool.getCurrentIndex();
                    if (c < last || c < start || c > start + (size_t) threads * per) bad++;
                    last = c;
                }
                auto x = pool.getNextTree();
                V r = x->getSeed();
                V d = x->getDescriptorBytes();
                r.insert(r.end(), d.begin(), d.end());
                V k = x->getRoot();
                r.insert(r.end(), k.begin(), k.end());
                got[t * per + i] = r;
            }
        };
        std::vector<std::thread> th;
        for (int t = 1; t < threads; t++) th.emplace_back(work, t);
        work(0);
        for (auto &t : th) t.join();
        V all;
        for (auto &g : got) all.insert(all.end(), g.begin(), g.end());
        put(seeds, all);
        *curr = pool.getCurrentIndex();
        if (bad) throw std::runtime_error("current index out of order");
    });
}
}
