// Calls the repository's header-only API with (pointer, length) arguments; contains no logic of its own.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <vector>
#include <qrl/qrlDescriptor.h>
#include <qrl/qrlHelper.h>

typedef std::vector<uint8_t> V;
#define GUARD(body) try { body return 0; } catch (std::invalid_argument &) { return 1; } catch (...) { return 2; }

static void put(QRLDescriptor &d, uint32_t *out) {
    out[0] = d.getHashFunction();
    out[1] = d.getSignatureType();
    out[2] = d.getHeight();
    out[3] = d.getAddrFormatType();
}

extern "C" int v_from_bytes(const uint8_t *p, size_t n, uint32_t *out) { GUARD(QRLDescriptor d = QRLDescriptor::fromBytes(V(p, p + n)); put(d, out);) }
extern "C" int v_from_seed(const uint8_t *p, size_t n, uint32_t *out) { GUARD(QRLDescriptor d = QRLDescriptor::fromExtendedSeed(V(p, p + n)); put(d, out);) }
extern "C" int v_from_pk(const uint8_t *p, size_t n, uint32_t *out) { GUARD(QRLDescriptor d = QRLDescriptor::fromExtendedPK(V(p, p + n)); put(d, out);) }
extern "C" int v_encode(uint32_t hash, uint32_t type, uint8_t height, uint32_t fmt, uint8_t *out, size_t *n) {
    GUARD(QRLDescriptor d(static_cast<eHashFunction>(hash), static_cast<eSignatureType>(type), height, static_cast<eAddrFormatType>(fmt)); V b = d.getBytes(); *n = b.size(); memcpy(out, b.data(), b.size());)
}
extern "C" int v_address(const uint8_t *p, size_t n, uint8_t *out, size_t *len) { GUARD(V b = QRLHelper::getAddress(V(p, p + n)); *len = b.size(); memcpy(out, b.data(), b.size());) }
extern "C" int v_address_valid(const uint8_t *p, size_t n, uint8_t *out) { GUARD(*out = QRLHelper::addressIsValid(V(p, p + n));) }
