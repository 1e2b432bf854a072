// Calls the repository's signer classes with (pointer, length) arguments; contains no logic of its own.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <vector>
#include <qrl/xmssBase.h>
#include <qrl/xmssBasic.h>
#include <qrl/xmssFast.h>

typedef std::vector<uint8_t> V;
#define GUARD(body) try { body return 0; } catch (std::invalid_argument &) { return 1; } catch (...) { return 2; }

extern "C" int v_verify(const uint8_t *m, size_t ml, const uint8_t *s, size_t sl, const uint8_t *p, size_t pl, uint32_t w, uint8_t *out) {
    V mv(m, m + ml), sv(s, s + sl), pv(p, p + pl);
    GUARD(*out = XmssBase::verify(mv, sv, pv, w) ? 1 : 0;)
}
extern "C" int v_base_size(uint32_t w, uint32_t *out) { GUARD(*out = XmssBase::calculateSignatureBaseSize(w);) }
extern "C" int v_h_from_size(size_t n, uint32_t w, uint32_t *out) { GUARD(*out = XmssBase::getHeightFromSigSize(n, w);) }

struct Probe : XmssBase {
    explicit Probe(const V &s, uint8_t h) : XmssBase(s, h, eHashFunction::SHAKE_128, eAddrFormatType::SHA256_2X) {}
    TSIGNATURE sign(const TMESSAGE &) override { return TSIGNATURE(); }
};
extern "C" int v_sig_size(uint8_t h, uint32_t w, uint32_t *out) { GUARD(Probe p(V(48), h); *out = p.getSignatureSize(w);) }

// Signers: key() is the object's secret key
struct Basic : XmssBasic {
    using XmssBasic::XmssBasic;
    V &key() { return _sk; }
};
struct Fast : XmssFast {
    using XmssFast::XmssFast;
    V &key() { return _sk; }
    bds_state &bds() { return _state; }
    xmss_params &par() { return params; }
};
struct Bytes { uint8_t *p; size_t n; };
static void put(Bytes *b, const V &v) { b->n = v.size(); if (!v.empty()) memcpy(b->p, v.data(), v.size()); }

template <class S>
static int sign(S &s, const uint8_t *m, size_t ml, Bytes *before, Bytes *after, uint32_t *idx, Bytes *sig) {
    V mv(m, m + ml);
    put(before, s.key());
    idx[0] = s.getIndex();
    int rc = 0;
    try { put(sig, s.sign(mv)); } catch (std::invalid_argument &) { rc = 1; } catch (...) { rc = 2; }
    idx[1] = s.getIndex();
    idx[2] = s.getNumberSignatures();
    idx[3] = s.getRemainingSignatures();
    put(after, s.key());
    return rc;
}
template <class S>
static int move(S &s, uint32_t to, Bytes *before, Bytes *after, uint32_t *idx) {
    put(before, s.key());
    idx[0] = s.getIndex();
    int rc = 0;
    try { idx[4] = s.setIndex(to); } catch (std::invalid_argument &) { rc = 1; } catch (...) { rc = 2; }
    idx[1] = s.getIndex();
    idx[2] = s.getNumberSignatures();
    idx[3] = s.getRemainingSignatures();
    put(after, s.key());
    return rc;
}
extern "C" int v_sign(int fast, const uint8_t *seed, uint8_t h, uint32_t f, uint32_t w, const uint8_t *m, size_t ml, Bytes *before, Bytes *after, uint32_t *idx, Bytes *sig) {
    V sd(seed, seed + 48);
    if (fast) { Fast s(sd, h, (eHashFunction) f); return sign(s, m, ml, before, after, idx, sig); }
    Basic s(sd, h, (eHashFunction) f, eAddrFormatType::SHA256_2X, w);
    return sign(s, m, ml, before, after, idx, sig);
}
extern "C" int v_move(int fast, const uint8_t *seed, uint8_t h, uint32_t f, uint32_t w, uint32_t to, Bytes *before, Bytes *after, uint32_t *idx) {
    V sd(seed, seed + 48);
    if (fast) { Fast s(sd, h, (eHashFunction) f); return move(s, to, before, after, idx); }
    Basic s(sd, h, (eHashFunction) f, eAddrFormatType::SHA256_2X, w);
    return move(s, to, before, after, idx);
}

// Everything a signer reports about its key; kind: 0 basic, 1 fast, 2 fast from an extended seed
template <class S>
static void parts(S &s, Bytes *b, uint32_t *num) {
    put(b + 0, s.getSK());
    put(b + 1, s.getPK());
    put(b + 2, s.getDescriptorBytes());
    put(b + 3, s.getSeed());
    put(b + 4, s.getExtendedSeed());
    put(b + 5, s.getRoot());
    put(b + 6, s.getPKSeed());
    put(b + 7, s.getSKSeed());
    put(b + 8, s.getSKPRF());
    num[0] = s.getHeight();
    num[1] = s.getNumberSignatures();
    num[2] = s.getIndex();
    num[3] = s.getRemainingSignatures();
    num[4] = s.getSignatureSize();
    num[5] = s.getSecretKeySize();
    num[6] = s.getPublicKeySize();
    QRLDescriptor d = s.getDescriptor();
    num[7] = d.getHashFunction();
    num[8] = d.getSignatureType();
    num[9] = d.getHeight();
    num[10] = d.getAddrFormatType();
}
extern "C" int v_parts(int kind, const uint8_t *seed, size_t n, uint8_t h, uint32_t f, uint32_t fmt, uint32_t w, Bytes *b, uint32_t *num) {
    GUARD(V sd(seed, seed + n);
          if (kind == 2) { Fast s(sd); parts(s, b, num); }
          else if (kind == 1) { Fast s(sd, h, (eHashFunction) f, (eAddrFormatType) fmt); parts(s, b, num); }
          else { Basic s(sd, h, (eHashFunction) f, (eAddrFormatType) fmt, w); parts(s, b, num); })
}
extern "C" int v_signer_address(int kind, const uint8_t *seed, size_t n, uint8_t h, uint32_t f, uint32_t fmt, uint32_t w, Bytes *b) {
    GUARD(V sd(seed, seed + n);
          if (kind == 2) { Fast s(sd); put(b, s.getAddress()); }
          else if (kind == 1) { Fast s(sd, h, (eHashFunction) f, (eAddrFormatType) fmt); put(b, s.getAddress()); }
          else { Basic s(sd, h, (eHashFunction) f, (eAddrFormatType) fmt, w); put(b, s.getAddress()); })
}
