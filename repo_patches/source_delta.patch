From a567d507a45028238261f085e31870ca1bdc70ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 01/11] fix: absorb every block of a SHAKE message once in the
 Rust crate

keccak_absorb copied the tail from the start of the message rather than from
the part not yet absorbed, and sliced the advanced input by the length of the
whole message, which panics from the second full block on.
---
 src/rust_wrapper/xmss_alt/fips202.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/fips202.rs b/src/rust_wrapper/xmss_alt/fips202.rs
index a81ba05..0ace1ac 100644
--- a/src/rust_wrapper/xmss_alt/fips202.rs
+++ b/src/rust_wrapper/xmss_alt/fips202.rs
@@ -334,7 +334,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
         }
         keccak_f1600_state_permute(s);
         mlen -= r as u64;
-        m_clone = &m_clone[r as usize..m.len()];
+        m_clone = &m_clone[r as usize..m_clone.len()];
     }
 
     for i in 0..r {
@@ -342,7 +342,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
     }
 
     for i in 0..mlen {
-        t[i as usize] = m[i as usize];
+        t[i as usize] = m_clone[i as usize];
     }
 
     t[mlen as usize] = p;
-- 
2.43.0


From f542ff5323fbafb7afe42ebb01e4d8d54ea247ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 02/11] fix: decode the signature type of a descriptor from the
 high nibble of its first byte

(byte >> 4) & 0xF0 is always zero, so every descriptor decoded as XMSS and an
unknown signature scheme was never rejected.
---
 src/qrl/qrlDescriptor.h                | 5 ++++-
 src/rust_wrapper/qrl/qrl_descriptor.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index 626a8e5..a769e51 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -65,7 +65,10 @@ public:
         }
 
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
-        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0xF0);
+        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
+        if (signatureType!=eSignatureType::XMSS) {
+            throw std::invalid_argument("Unknown signature type in descriptor");
+        }
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
         auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
 
diff --git a/src/rust_wrapper/qrl/qrl_descriptor.rs b/src/rust_wrapper/qrl/qrl_descriptor.rs
index f50c5a2..465b691 100644
--- a/src/rust_wrapper/qrl/qrl_descriptor.rs
+++ b/src/rust_wrapper/qrl/qrl_descriptor.rs
@@ -64,7 +64,7 @@ impl QRLDescriptor {
                 ))
             }
         };
-        let signature_type: SignatureType = match (bytes[0] >> 4) & 0xF0 {
+        let signature_type: SignatureType = match (bytes[0] >> 4) & 0x0F {
             0 => SignatureType::XMSS,
             _ => {
                 return Err(QRLError::FailedConversion(
-- 
2.43.0


From 4e2d582257d04bf8afc99897e54e9555d1671ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 03/11] fix: reject an unknown hash function in a descriptor

A hash nibble above 2 was carried into verification and key generation, where
core_hash leaves its output untouched, so results came from uninitialised
memory.
---
 src/qrl/qrlDescriptor.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index a769e51..9ec6ada 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -65,6 +65,11 @@ public:
         }
 
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
+        if (hashFunction!=eHashFunction::SHA2_256 &&
+            hashFunction!=eHashFunction::SHAKE_128 &&
+            hashFunction!=eHashFunction::SHAKE_256) {
+            throw std::invalid_argument("Unknown hash function in descriptor");
+        }
         auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
         if (signatureType!=eSignatureType::XMSS) {
             throw std::invalid_argument("Unknown signature type in descriptor");
-- 
2.43.0


From 6b4ea26b3d72b77402284c340b9cf5ffa3022cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 04/11] fix: keep the high byte of the WOTS+ checksum when it
 fills whole bytes

For w = 256 the checksum takes exactly 16 bits and was shifted left by 8 all
the same, which drops its high byte: two digests could then have the same
checksum digits although one is componentwise larger.
---
 src/rust_wrapper/xmss_alt/wots.rs | 4 ++--
 src/xmss-alt/wots.c               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index b1f5a33..16ea6ed 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -179,7 +179,7 @@ pub fn wots_sign(
         csum += params.w as i32 - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params.len_2 * params.log_w) % 8));
+    csum = csum << ((8 - ((params.len_2 * params.log_w) % 8)) % 8);
 
     let len_2_bytes = ((params.len_2 * params.log_w) + 7) / 8;
 
@@ -242,7 +242,7 @@ pub fn wots_pk_from_sig(
         csum += XMSS_WOTS_W - 1 - basew[i] as u32;
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(
         &mut csum_bytes,
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index bb02e9d..2062c38 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -134,7 +134,7 @@ void wots_sign(eHashFunction hash_func,
         csum += params->w - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params->len_2 * params->log_w) % 8));
+    csum = csum << ((8 - ((params->len_2 * params->log_w) % 8)) % 8);
 
     uint32_t len_2_bytes = ((params->len_2 * params->log_w) + 7) / 8;
 
@@ -183,7 +183,7 @@ void wots_pkFromSig(eHashFunction hash_func,
         csum += XMSS_WOTS_W - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(csum_bytes, csum, ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) + 7) / 8);
     base_w(csum_basew, XMSS_WOTS_LEN2, csum_bytes, wotsParams);
-- 
2.43.0


From 48a9264ffa3bd2cedd7d2118f63af31b10d55dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 05/11] fix: refuse to sign or move beyond the last index of a
 basic XMSS key

XmssBasic kept signing once all 2^h one-time keys were used: the
authentication path was then read outside the tree buffer. Report the same
error as the fast signer, also for moving the index out of range.
---
 src/qrl/xmssBase.cpp  | 4 ++++
 src/qrl/xmssBasic.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index a5b8c32..e8d980a 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -140,6 +140,10 @@ uint32_t XmssBase::getIndex()
 
 uint32_t XmssBase::setIndex(uint32_t new_index)
 {
+    if (new_index>=getNumberSignatures()) {
+        throw std::invalid_argument("index too high");
+    }
+
     _sk[3] = static_cast<uint8_t>(new_index & 0xFF);
     new_index >>= 8;
     _sk[2] = static_cast<uint8_t>(new_index & 0xFF);
diff --git a/src/qrl/xmssBasic.cpp b/src/qrl/xmssBasic.cpp
index 895a7be..8b9bde1 100644
--- a/src/qrl/xmssBasic.cpp
+++ b/src/qrl/xmssBasic.cpp
@@ -50,6 +50,10 @@ XmssBasic::XmssBasic(const TSEED &seed,
 
 
 TSIGNATURE XmssBasic::sign(const TMESSAGE &message) {
+    if (getIndex() >= getNumberSignatures()) {
+        throw std::invalid_argument("index too high");
+    }
+
     auto signature = TSIGNATURE(getSignatureSize(params.wots_par.w), 0);
 
     xmss_Signmsg(_hashFunction,
-- 
2.43.0


From b55037c333f8bf732d4a57718b781ae3071db4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 06/11] fix: build the tree of a basic signature on the heap

compute_authpath_wots kept all 2^(h+1) nodes in an array on the stack, which
overflows the usual 8 MiB stack from height 18, and computed offsets into it
in 32 bits.
---
 src/xmss-alt/algsxmss.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index 65e6fad..c409a07 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -5,6 +5,7 @@
 
 #include "algsxmss.h"
 #include <cstring>
+#include <vector>
 
 #include "hash.h"
 #include "hash_address.h"
@@ -121,10 +122,12 @@ static void compute_authpath_wots(eHashFunction hash_func,
                                   unsigned char *pub_seed,
                                   uint32_t addr[8]) {
     uint32_t i, j, level;
-    uint32_t n = params->n;
+    const size_t n = params->n;
     uint32_t h = params->h;
 
-    unsigned char tree[2 * (1 << h) * n];
+    // The whole tree does not fit on the stack (8 MiB at h = 17)
+    std::vector<unsigned char> tree_nodes(2 * ((size_t) 1 << h) * n);
+    unsigned char *tree = tree_nodes.data();
 
     uint32_t ots_addr[8];
     uint32_t ltree_addr[8];
-- 
2.43.0


From 40125cfa6349d5df0caec4778bd9b14328c92b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 07/11] fix: refuse Winternitz parameters the WOTS+ code cannot
 handle

w = 1 divides by zero, w = 0 converts -infinity to int, and widths whose
digits do not fill whole bytes (8, 64, ...) shift by negative amounts.
XmssBase::verify and the size functions take w from the caller.
---
 src/xmss-alt/wots.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index 2062c38..4cd2608 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -11,12 +11,18 @@ Public domain.
 
 #include <cmath>
 #include <cstdint>
+#include <stdexcept>
 #include "xmss_common.h"
 #include "hash.h"
 #include "hash_address.h"
 
 
 void wots_set_params(wots_params *params, int n, int w) {
+    // base_w needs digits that fill whole bytes
+    if (w != 2 && w != 4 && w != 16 && w != 256) {
+        throw std::invalid_argument("Winternitz parameter should be 2, 4, 16 or 256");
+    }
+
     params->n = n;
     params->w = w;
     params->log_w = (int) log2(w);
-- 
2.43.0


From b2b2270913fae0d9e831706645c42a73cfebcc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 08/11] fix: do not truncate the height computed from a
 signature size

A size beyond 254 authentication nodes was reported as its height modulo 256.
---
 src/qrl/xmssBase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index e8d980a..daaf3d2 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -93,6 +93,10 @@ uint8_t XmssBase::getHeightFromSigSize(size_t sigSize, uint32_t wotsParamW)
 
     auto height = (sigSize - SIGNATURE_BASE_SIZE)/32;
 
+    if (height>XMSS_MAX_HEIGHT) {
+        throw std::invalid_argument("Invalid signature size");
+    }
+
     return static_cast<uint8_t>(height);
 }
 
-- 
2.43.0


From a0ba16c9717ca059f5b22349bbba6abe248c72f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 09/11] fix: refuse heights the descriptor cannot express

Heights above 30 lose their high bits in the descriptor, so the key's own
signatures would not verify, and the number of signatures, 1 << height, is
undefined from height 32.
---
 src/qrl/xmssBase.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index daaf3d2..afdf603 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -18,7 +18,8 @@
 
 //constexpr size_t SIGNATURE_BASE_SIZE  = 4+32+67*32;
 
-constexpr size_t XMSS_MAX_HEIGHT=254;
+// The descriptor stores half the height in four bits
+constexpr size_t XMSS_MAX_HEIGHT=30;
 
 // FIXME: Use a union for this
 constexpr size_t OFFSET_IDX = 0;
@@ -45,7 +46,7 @@ XmssBase::XmssBase(const TSEED& seed,
     }
 
     if (height>XMSS_MAX_HEIGHT) {
-        throw std::invalid_argument("Height should be <= 254");
+        throw std::invalid_argument("Height should be <= 30");
     }
 }
 
@@ -221,7 +222,7 @@ bool XmssBase::verify(const TMESSAGE& message,
         const uint32_t SIGNATURE_BASE_SIZE = calculateSignatureBaseSize(wotsParamW);
         if (signature.size()>SIGNATURE_BASE_SIZE+XMSS_MAX_HEIGHT*32)
         {
-            throw std::invalid_argument("invalid signature size. Height<=254");
+            throw std::invalid_argument("invalid signature size. Height<=30");
         }
 
         auto desc = QRLDescriptor::fromExtendedPK(extended_pk);
-- 
2.43.0


From b1ca29efd8605d40e52f7c324a3a713c04eaa6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 10/11] fix: count the words of a mnemonic, not its spaces

With a doubled space or another separator an odd number of words passed the
check and decoded to a padded seed; the mnemonic of no bytes was rejected.
---
 src/qrl/misc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 0c71133..314e6c7 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -86,7 +86,11 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
 std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
 {
-    auto word_count = std::count(mnemonic.cbegin(), mnemonic.cend(), ' ') + 1;
+    size_t word_count = 0;
+    std::stringstream words(mnemonic);
+    for (std::string w; words >> w;) {
+        word_count++;
+    }
     if (word_count%2!=0)
     {
         throw std::invalid_argument("word count = " + std::to_string(word_count) + " must be even ");
-- 
2.43.0


From c1c271a40c2e647849696180c034cd64c0789b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 11/11] fix: classify hex digits as unsigned characters

isxdigit is undefined for negative arguments, which is what bytes above 0x7f
are where char is signed; the int index also overflows on very long strings.
---
 src/qrl/misc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 314e6c7..90ce357 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -52,8 +52,8 @@ std::vector<unsigned char> hstr2bin(const std::string &s) {
     }
 
     std::vector<unsigned char> result;
-    for (int i = 0; i < s.size(); i += 2) {
-        if (!std::isxdigit(s[i]) || !std::isxdigit(s[i + 1])) {
+    for (size_t i = 0; i < s.size(); i += 2) {
+        if (!std::isxdigit(static_cast<unsigned char>(s[i])) || !std::isxdigit(static_cast<unsigned char>(s[i + 1]))) {
             throw std::invalid_argument("invalid hex digits in the string");
         }
 
-- 
2.43.0

