SEEDS = []


def seed(id, prop, edits, demo, needs, what, rust=None):
    d = dict(id=id, property=prop, edits=edits, needs=needs, what=what)
    if rust:
        d['rust'] = rust
    else:
        d['demo'] = demo
    SEEDS.append(d)


A = 'src/xmss-alt/'
Q = 'src/qrl/'

seed('c01-pad-collision', 'C01', [(A + 'fips202.c', '    t[r - 1] |= 128;', '    t[r - 1] = 128;')], '''
int main() {
    unsigned char o[32];
    V m = seq(135);
    shake256(o, 32, m.data(), 134);
    shake256(o, 32, m.data(), 135);
    check(hx(o, 32) == "0213fc98352f009fafdf8ee1ea36391485a85aa6f6c07a5cd81266d21eb17f9a", "SHAKE256 of 135 bytes");
    V k = seq(167);
    shake128(o, 32, k.data(), 167);
    check(hx(o, 32) == "bb961bb015521037905f9baf69ce60dd3ba73f6ead09a559c8d8a85e10753bca", "SHAKE128 of 167 bytes");
}
''', 'a message whose length is one less than a multiple of the rate, so that both padding bits share a byte',
     'SHAKE128/SHAKE256 differ from FIPS 202 for those lengths')

seed('c02-h-wide', 'C02', [(A + 'hash.c', '    for (i = 0; i < 2 * n; i++) {\n        buf[i] = in[i] ^ bitmask[i];', '    for (i = 0; i < 2 * n; i++) {\n        buf[i] = in[i] ^ bitmask[i & 63];')], '''
int main() {
    // n = 64: hash_h against its definition spelled out with the primitive
    const unsigned n = 64;
    V in = seq(128), seed = seq(64, 5, 1);
    uint32_t a[8] = {1, 2, 3, 4, 5, 6, 7, 9};
    unsigned char out[64], key[64], bm[128], ab[32];
    hash_h(SHAKE_256, out, in.data(), seed.data(), a, n);
    for (int j = 0; j < 3; j++) {
        uint32_t b[8] = {1, 2, 3, 4, 5, 6, 7, (uint32_t) j};
        V m(64, 0);
        m[63] = 3;
        m.insert(m.end(), seed.begin(), seed.end());
        addr_to_byte(ab, b);
        m.insert(m.end(), ab, ab + 32);
        shake256(j == 0 ? key : bm + 64 * (j - 1), 64, m.data(), m.size());
    }
    V m(64, 0);
    m[63] = 1;
    m.insert(m.end(), key, key + 64);
    for (int i = 0; i < 128; i++) m.push_back(in[i] ^ bm[i]);
    unsigned char want[64];
    shake256(want, 64, m.data(), m.size());
    check(hx(out, 64) == hx(want, 64), "hash_h with 64-byte output");
}
''', 'the 64-byte output size of the tree hash', 'right half masked with the first bitmask: tree hash differs from the XMSS construction')

seed('c03-tree-high', 'C03', [(A + 'hash_address.c', '(uint32_t) (tree >> 32)', '(uint32_t) ((tree >> 32) & 0x00FFFFFF)')], '''
int main() {
    uint32_t a[8] = {0}, b[8] = {0};
    setTreeADRS(a, 0x8100000200000003ULL);
    setTreeADRS(b, 0x0100000200000003ULL);
    check(a[1] == 0x81000002u && a[2] == 3, "64-bit tree number in two words");
    unsigned char x[32], y[32];
    check(memcmp(addr_to_byte(x, a), addr_to_byte(y, b), 32) != 0, "different addresses, different bytes");
}
''', 'a tree number using the top eight of its 64 bits', 'two different addresses get the same byte form')

seed('c04-chain-byte', 'C04', [(A + 'wots.c', '''        setChainADRS(addr, i);
        gen_chain(hash_func, sig + i * params->n, sig''', '''        setChainADRS(addr, (unsigned char) i);
        gen_chain(hash_func, sig + i * params->n, sig''')], '''
static bool rt(int w, int last) {
    wots_params p;
    wots_set_params(&p, 32, w);
    V sk = seq(32), seed = seq(32, 3, 9), d = seq(32, 11, 5), pk(p.keysize), sig(p.keysize), pk2(p.keysize);
    d[31] = (unsigned char) last;
    uint32_t a[8] = {0, 0, 0, 0, 7, 0, 0, 0}, b[8] = {0, 0, 0, 0, 7, 0, 0, 0}, c[8] = {0, 0, 0, 0, 7, 0, 0, 0};
    wots_pkgen(SHAKE_128, pk.data(), sk.data(), &p, seed.data(), a);
    wots_sign(SHAKE_128, sig.data(), d.data(), sk.data(), &p, seed.data(), b);
    wots_pkFromSig(SHAKE_128, pk2.data(), sig.data(), d.data(), &p, seed.data(), c);
    return pk == pk2;
}
int main() {
    for (int w : {4, 16, 256}) check(rt(w, 1), "w = 4, 16, 256");
    for (int i = 0; i < 8; i++) check(rt(2, 1 << i), "w = 2");
}
''', 'Winternitz width 2, the only one with more than 256 chains, and a checksum digit that is not zero there',
     'the signature no longer leads back to the one-time public key')

seed('c05-csum-last', 'C05', [(A + 'wots.c', 'for (i = 0; i < params->len_1; i++) {\n        csum += params->w - 1 - basew[i];', 'for (i = 1; i < params->len_1; i++) {\n        csum += params->w - 1 - basew[i];'),
                              (A + 'wots.c', 'for (i = 0; i < XMSS_WOTS_LEN1; i++) {\n        csum += XMSS_WOTS_W - 1 - basew[i];', 'for (i = 1; i < XMSS_WOTS_LEN1; i++) {\n        csum += XMSS_WOTS_W - 1 - basew[i];')], '''
int main() {
    // digest 2 has only its first digit raised: advancing that one chain must not give a signature of it
    wots_params p;
    wots_set_params(&p, 32, 16);
    V sk = seq(32), seed = seq(32, 3, 9), d = seq(32, 11, 5), pk(p.keysize), sig(p.keysize), pk2(p.keysize);
    d[0] = 0x1f;
    uint32_t a[8] = {0};
    wots_pkgen(SHAKE_128, pk.data(), sk.data(), &p, seed.data(), a);
    uint32_t b[8] = {0};
    wots_sign(SHAKE_128, sig.data(), d.data(), sk.data(), &p, seed.data(), b);
    uint32_t c[8] = {0};
    wots_pkFromSig(SHAKE_128, pk2.data(), sig.data(), d.data(), &p, seed.data(), c);
    check(pk == pk2, "honest signature leads to the key");
    uint32_t e[8] = {0};
    setChainADRS(e, 0);
    unsigned char t[32];
    gen_chain(SHAKE_128, t, sig.data(), 1, 1, &p, seed.data(), e);
    memcpy(sig.data(), t, 32);
    d[0] = 0x2f;
    uint32_t g[8] = {0};
    wots_pkFromSig(SHAKE_128, pk2.data(), sig.data(), d.data(), &p, seed.data(), g);
    check(pk != pk2, "advanced signature is a forgery");
}
''', 'two digests that differ only in the first digit; both the signing and the verifying site changed alike',
     'the checksum does not cover the first digit, so signatures can be advanced to another digest')

seed('c06-leaf-byte', 'C06', [(A + 'algsxmss.c', '''    for (; idx < lastnode; idx++) {
        setLtreeADRS(ltree_addr, idx);
        setOTSADRS(ots_addr, idx);''', '''    for (; idx < lastnode; idx++) {
        setLtreeADRS(ltree_addr, idx);
        setOTSADRS(ots_addr, idx & 0xFF);''')], '''
int main() {
    V s = seq(48);
    XmssBasic b(s, 10, SHA2_256, SHA256_2X, 4);
    // the root of an independent tree walk: authentication path computed by the signer itself
    V msg = seq(20), sig = b.sign(msg);
    check(XmssBase::verify(msg, sig, b.getPK(), 4), "root is the root of the tree of all 1024 leaves");
    XmssBasic c(s, 8, SHA2_256, SHA256_2X, 4);
    check(XmssBase::verify(msg, c.sign(msg), c.getPK(), 4), "height 8");
}
''', 'a tree of height 10 or more', 'key generation of the basic signer reuses the first 256 one-time keys for later leaves: the root is wrong')

seed('c07-idx-high', 'C07', [(A + 'xmss_common.c', 'idx = ((unsigned long) sig_msg[0] << 24) |', 'idx = ((unsigned long) (sig_msg[0] & 0x7f) << 24) |')], '''
int main() {
    XmssBasic b(seq(48), 4, SHAKE_128, SHA256_2X, 16);
    V msg = seq(33), sig = b.sign(msg), pk = b.getPK();
    check(XmssBase::verify(msg, sig, pk), "honest signature");
    for (int i = 0; i < 32; i++) {
        V t = sig;
        t[3 - i / 8] ^= 1 << (i % 8);
        check(!XmssBase::verify(msg, t, pk), "changed index refused");
    }
}
''', 'a signature whose index has its top bit set', 'the index in a signature can be changed without invalidating it')

seed('c08-size-16', 'C08', [(Q + 'xmssBase.cpp', 'if ((sigSize-4)%32!=0) {', 'if ((sigSize-4)%16!=0) {')], '''
int main() {
    int ok = 0;
    for (size_t n = 2180; n < 2180 + 33 * 32; n++) {
        int h = -1;
        try { h = XmssBase::getHeightFromSigSize(n, 16); } catch (std::invalid_argument &) {}
        bool valid = n >= 2180 && (n - 2180) % 32 == 0 && (n - 2180) / 32 <= 30;
        check(valid ? h == (int) ((n - 2180) / 32) : h == -1, "sizes that belong to a height and no others");
    }
    XmssBasic b(seq(48), 4, SHAKE_128, SHA256_2X, 16);
    V msg = seq(33), sig = b.sign(msg);
    check(XmssBase::verify(msg, sig, b.getPK()), "honest");
    sig.resize(sig.size() + 16);
    check(!XmssBase::verify(msg, sig, b.getPK()), "sixteen extra bytes");
}
''', 'a signature with exactly sixteen bytes too many', 'a size that belongs to no height is accepted, and a signature with trailing bytes verifies')

seed('c09-rand-byte', 'C09', [(A + 'algsxmss.c', '    to_byte(idx_bytes_32, idx, 32);', '    to_byte(idx_bytes_32, idx & 0xFF, 32);')], '''
int main() {
    XmssBasic b(seq(48), 10, SHA2_256, SHA256_2X, 4);
    V m = seq(5);
    V s0 = b.sign(m);
    b.setIndex(256);
    V s = b.sign(m);
    check(XmssBase::verify(m, s, b.getPK(), 4), "verifies");
    V r0(s0.begin() + 4, s0.begin() + 36), r(s.begin() + 4, s.begin() + 36);
    check(r0 != r, "the randomiser is the PRF of the index");
}
''', 'an index of 256 or more', 'the randomiser repeats with period 256 although the signature still verifies')

seed('c10-keep-top', 'C10', [(A + 'algsxmss_fast.c', '&& (tau < h - 1)) {\n        memcpy(state->keep', '&& (tau < h - 2)) {\n        memcpy(state->keep')], '''
int main() {
    XmssFast f(seq(48), 6, SHAKE_128);
    V m = seq(9), pk = f.getPK();
    for (int i = 0; i < 64; i++) check(XmssBase::verify(m, f.sign(m), pk), "fast signature");
}
''', 'signing or moving past the middle of the tree', 'the authentication path is wrong from index 2^(h-1) on')

seed('c11-index-wrap', 'C11', [(A + 'algsxmss.c', '    sk[2] = ((idx + 1) >> 8) & 255;', '    sk[2] = (idx >> 8) & 255;')], '''
int main() {
    XmssBasic b(seq(48), 10, SHA2_256, SHA256_2X, 4);
    V m = seq(9);
    b.setIndex(254);
    std::set<V> seen;
    for (int i = 254; i < 258; i++) {
        check(b.getIndex() == (unsigned) i, "index reported");
        V s = b.sign(m);
        check(seen.insert(V(s.begin(), s.begin() + 4)).second, "index used once");
    }
}
''', 'signing with index 255 on a basic signer', 'the index falls back to 0, so one-time keys are used again')

seed('c12-refill-order', 'C12', [(Q + 'xmssPool.cpp', '            _current_index++;\n\n            fillCache();', '            fillCache();\n\n            _current_index++;')], '''
int main() {
    V base = seq(32);
    XmssPool p(base, 4, 3, 2);
    std::set<V> seen;
    for (int i = 0; i < 5; i++) {
        auto t = p.getNextTree();
        V s = base;
        s.push_back((unsigned char) (3 + i + 1));
        check(t->getSeed() == shake256(48, s), "tree of index 3 + i");
        check(p.getCurrentIndex() == (size_t) (4 + i), "reported index");
    }
}
''', 'taking more trees than the pool size', 'after the first refill the same index is queued again: trees are handed out twice')

seed('c13-format-bits', 'C13', [(Q + 'qrlDescriptor.h', '((bytes[1] & 0xF0) >> 4 )', '((bytes[1] & 0x70) >> 4 )')], '''
int main() {
    for (int a = 0; a < 16; a++) {
        V b = {2, (unsigned char) (a << 4 | 3), 0};
        auto d = QRLDescriptor::fromBytes(b);
        check((int) d.getAddrFormatType() == a, "format");
        check(d.getBytes() == b, "round trip");
    }
}
''', 'an address format of 8 or more', 'address formats 8..15 decode as 0..7, so such addresses look supported')

seed('c14-address-39', 'C14', [(Q + 'qrlHelper.h', '                    address[37]==hashed_key2[30] &&\n                    address[38]==hashed_key2[31];', '                    address[37]==hashed_key2[30] &&\n                    address[38]<=hashed_key2[31];')], '''
int main() {
    V pk = seq(67);
    pk[0] = 1;
    pk[1] = 5;
    V a = QRLHelper::getAddress(pk);
    check(QRLHelper::addressIsValid(a), "derived address");
    for (int i = 0; i < 256; i++) {
        V b = a;
        b[38] = i;
        check(QRLHelper::addressIsValid(b) == (i == a[38]), "last checksum byte");
    }
}
''', 'an address whose last checksum byte is too small', 'wrong checksum bytes are accepted')

seed('c15-wrap-one', 'C15', [(Q + 'misc.cpp', '        if (wrap > 0) {\n            count++;', '        if (wrap > 1) {\n            count++;')], '''
int main() {
    V v = seq(5);
    for (uint32_t w : {0u, 1u, 2u, 3u, 5u}) {
        std::string s;
        for (size_t i = 0; i < v.size(); i++) {
            if (w && i && i % w == 0) s += "\\n";
            s += hx(&v[i], 1);
        }
        check(bin2hstr(v, w) == s, "wrap");
    }
}
''', 'a wrap count of one', 'no line breaks with a wrap count of one')

seed('c16-shift', 'C16', [(Q + 'misc.cpp', '((b1 & 0x0F) << 8) + b2;', '((b1 & 0x0F) << 8) | (b2 + (b2 == 0xFF && b1 == 0xFF ? -1 : 0));')], '''
int main() {
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b += 15) {
        V v = {3, (unsigned char) a, (unsigned char) b};
        check(mnemonic2bin(bin2mnemonic(v)) == v, "round trip");
    }
}
''', 'a seed with 0xFF 0xFF in the second and third byte of a group', 'two different seeds share a mnemonic')

seed('c17-count-byte', 'C17', [(Q + 'misc.cpp', 'static_cast<unsigned char>((i >> (8 * j)) & 0xFF);', 'static_cast<unsigned char>(((i & 0xFFFFF) >> (8 * j)) & 0xFF) ^ static_cast<unsigned char>(j == 1 && (i >> 8) == 2);')], '''
int main() {
    V s = seq(48);
    auto r = getHashChainSeed(s, 5, 800);
    check(r.size() == 800, "count");
    for (uint32_t i = 0; i < 800; i++) {
        V t = s;
        for (int j = 0; j < 4; j++) t.push_back((unsigned char) (5u >> (8 * j)));
        for (int j = 0; j < 4; j++) t.push_back((unsigned char) (i >> (8 * j)));
        check(r[i] == shake256(32, t), "seed i");
    }
}
''', 'a count above 512', 'seed 512 and later equal others instead of the hash of their own number')

seed('c18-format-lost', 'C18', [(Q + 'xmssBase.cpp', '    _addrFormatType = desc.getAddrFormatType();', '    _addrFormatType = eAddrFormatType::SHA256_2X;')], '''
int main() {
    V e = seq(48);
    e.insert(e.begin(), {1, 0x32, 0});
    XmssFast f(e);
    check(f.getExtendedSeed() == e, "extended seed survives");
    check(f.getPK()[1] == 0x32, "descriptor in the public key");
}
''', 'an extended seed naming another address format', 'a wallet rebuilt from its extended seed has another public key')


# ---------------------------------------------------------------- second series
seed('c01-outlen-short', 'C01', [(A + 'fips202.c', '    output += (outlen / SHAKE256_RATE) * SHAKE256_RATE;', '    output += (unsigned short) ((outlen / SHAKE256_RATE) * SHAKE256_RATE);')], '''
int main() {
    // an extendable-output function: a shorter output is a prefix of a longer one
    V m = seq(40), a(136 * 500 + 136), b(136 * 500 + 77);
    shake256(a.data(), a.size(), m.data(), m.size());
    shake256(b.data(), b.size(), m.data(), m.size());
    check(memcmp(a.data(), b.data(), b.size()) == 0, "long output is a prefix of a longer one");
}
''', 'an output of more than 65535 bytes whose length is not a multiple of the rate', 'the tail of the output is written to the wrong place')

seed('c01-rust-full-block', 'C01', [('src/rust_wrapper/xmss_alt/fips202.rs', '    while mlen >= r as u64 {', '    while mlen > r as u64 {')], None,
     'a message in Rust whose length is a positive multiple of the rate', 'Rust SHAKE differs from FIPS 202 for those lengths', rust='''#![allow(warnings)]
#[path = "@REPO@/src/rust_wrapper/xmss_alt/fips202.rs"]
mod fips202;
fn main() {
    let m: Vec<u8> = (0..136u32).map(|i| (i * 7 + 3) as u8).collect();
    let mut o = [0u8; 32];
    fips202::shake256(&mut o, 32, &m, 136);
    let h: String = o.iter().map(|x| format!("{:02x}", x)).collect();
    if h != "@H@" { println!("FAIL: SHAKE256 of one full block"); std::process::exit(1); }
}
'''.replace('@H@', __import__('hashlib').shake_256(bytes((i * 7 + 3) & 255 for i in range(136))).hexdigest(32)))

seed('c03-rust-type', 'C03', [('src/rust_wrapper/xmss_alt/hash_address.rs', '    for i in 4..8 {', '    for i in 4..7 {')], None,
     'an address whose key-and-mask word is not zero when its type is set', 'the Rust address keeps a stale key-and-mask word', rust='''#![allow(warnings)]
#[path = "@REPO@/src/rust_wrapper/xmss_alt/hash_address.rs"]
mod ha;
fn main() {
    let mut a = [1u32, 2, 3, 4, 5, 6, 7, 8];
    ha::set_type(&mut a, 9);
    if a != [1, 2, 3, 9, 0, 0, 0, 0] { println!("FAIL: set_type"); std::process::exit(1); }
}
''')

seed('c04-chain-last', 'C04', [(A + 'wots.c', '    for (i = start; i < (start + steps) && i < params->w; i++) {', '    for (i = start; i < (start + steps) && i < params->w - 2 * (start == 254); i++) {')], '''
int main() {
    wots_params p;
    wots_set_params(&p, 32, 256);
    V seed = seq(32), pub = seq(32, 5, 1);
    for (int d = 0; d < 256; d += 2) {
        V msg(32, (unsigned char) d), pk(p.keysize), sig(p.keysize), rec(p.keysize);
        uint32_t a[8] = {0}, b[8] = {0}, c[8] = {0};
        wots_pkgen(SHAKE_128, pk.data(), seed.data(), &p, pub.data(), a);
        wots_sign(SHAKE_128, sig.data(), msg.data(), seed.data(), &p, pub.data(), b);
        wots_pkFromSig(SHAKE_128, rec.data(), sig.data(), msg.data(), &p, pub.data(), c);
        check(pk == rec, "recovered one-time public key");
    }
}
''', 'width 256 and a digit equal to 254', 'the recovered one-time key differs: valid signatures are rejected')

seed('c05-csum-12bit', 'C05', [(A + 'wots.c', '        csum += params->w - 1 - basew[i];', '        csum = (csum + params->w - 1 - basew[i]) & 0xFFF;'),
                                (A + 'wots.c', '        csum += XMSS_WOTS_W - 1 - basew[i];', '        csum = (csum + XMSS_WOTS_W - 1 - basew[i]) & 0xFFF;')], '''
int main() {
    // digests 0x10.. and 0x20..: every digit of the second is larger, so the checksum must be smaller somewhere
    wots_params p;
    wots_set_params(&p, 32, 256);
    V seed = seq(32), pub = seq(32, 5, 1);
    // sums 32 * 255 - x: 4096 apart
    V m1(32, 0), m2(32, 128);
    V s1(p.keysize), s2(p.keysize);
    uint32_t a[8] = {0}, b[8] = {0};
    wots_sign(SHAKE_128, s1.data(), m1.data(), seed.data(), &p, pub.data(), a);
    wots_sign(SHAKE_128, s2.data(), m2.data(), seed.data(), &p, pub.data(), b);
    // the signed checksum elements must differ
    check(!(V(s1.begin() + 32 * 32, s1.end()) == V(s2.begin() + 32 * 32, s2.end())), "checksum elements of incomparable digests");
}
''', 'width 256 and two digests whose digit sums differ by 4096', 'a signature of one digest can be advanced into a signature of the other')

seed('c07-xor-compare', 'C07', [(A + 'xmss_common.c', '''    for (i = 0; i < n; i++)
        if (root[i] != pk[i])
            goto fail;
''', '''    pkhash[0] = 0;
    for (i = 0; i < n; i++)
        pkhash[0] ^= root[i] ^ pk[i];
    if (pkhash[0])
        goto fail;
''')], '''
int main() {
    XmssBasic x(seq(48), 4, SHAKE_128, SHA256_2X);
    V msg = seq(20), sig = x.sign(msg), pk = x.getPK();
    check(XmssBase::verify(msg, sig, pk), "valid signature");
    // no two different roots may be accepted for one signature: search over the last path bytes
    int acc = 0;
    for (int i = 0; i < 4000; i++) {
        V s = sig;
        s[s.size() - 1] ^= (i & 255) + (i < 256);
        s[s.size() - 2] ^= 1 + (i >> 8);
        acc += XmssBase::verify(msg, s, pk);
    }
    check(acc == 0, "altered authentication path");
}
''', 'a recomputed root that differs from the stored one in bytes whose differences cancel', 'about one forgery attempt in 256 succeeds')

seed('c08-height-wrap', 'C08', [(Q + 'xmssBase.cpp', '    auto height = (sigSize - SIGNATURE_BASE_SIZE)/32;', '    auto height = static_cast<uint16_t>((sigSize - SIGNATURE_BASE_SIZE)/32);')], '''
int main() {
    size_t base = 4 + 32 + 67 * 32;
    check(XmssBase::getHeightFromSigSize(base + 4 * 32, 16) == 4, "height 4");
    bool t = false;
    try { XmssBase::getHeightFromSigSize(base + (65536ull + 4) * 32, 16); } catch (std::invalid_argument &) { t = true; }
    check(t, "a size of two megabytes belongs to no height");
}
''', 'a size that is 65536 path elements too long', 'a size that belongs to no height is accepted')

seed('c09-msg-16bit', 'C09', [(A + 'algsxmss.c', '    h_msg(hash_func, msg_h, msg, msglen, hash_key, 3 * n, n);', '    h_msg(hash_func, msg_h, msg, (uint16_t) msglen, hash_key, 3 * n, n);')], '''
int main() {
    XmssBasic x(seq(48), 4, SHAKE_256, SHA256_2X);
    V msg = seq(65536 + 5), sig = x.sign(msg);
    check(XmssBase::verify(msg, sig, x.getPK()), "signature of a message of 65541 bytes");
}
''', 'a message of 65536 bytes or more', 'the signature does not verify (and covers only part of the message)')

seed('c10-start-edge', 'C10', [(A + 'algsxmss_fast.c', '            if (startidx < 1U << h) {', '            if (startidx + 1 < 1U << h) {')], '''
int main() {
    XmssFast x(seq(48), 6, SHAKE_128, SHA256_2X);
    V msg = seq(20), pk = x.getPK();
    for (unsigned i = 0; i < 64; i++)
        check(XmssBase::verify(msg, x.sign(msg), pk), "signature");
}
''', 'the last leaves of the tree', 'authentication paths of the last indices are wrong')

seed('c10-move-last', 'C10', [(A + 'algsxmss_fast.c', '    for (unsigned int j = current_idx; j < new_idx; j++) {', '    for (unsigned int j = current_idx; j + (new_idx == num_elems - 1) < new_idx; j++) {')], '''
int main() {
    for (unsigned t = 1; t < 16; t++) {
        XmssFast x(seq(48), 4, SHAKE_128, SHA256_2X);
        V msg = seq(20), pk = x.getPK();
        x.setIndex(t);
        check(XmssBase::verify(msg, x.sign(msg), pk), "signature after a move");
    }
}
''', 'a forward move to the very last index', 'the last authentication path is stale after such a move')

seed('c11-equal-high', 'C11', [(A + 'algsxmss_fast.c', '    if (new_idx>=num_elems)\n', '    if (new_idx>num_elems)\n')], '''
int main() {
    XmssFast x(seq(48), 4, SHAKE_128, SHA256_2X);
    V msg = seq(20);
    for (int i = 0; i < 16; i++) x.sign(msg);
    bool t = false;
    try { x.sign(msg); } catch (std::exception &) { t = true; }
    check(t, "signing after the last index");
}
''', 'all indices of a fast signer used', 'an index beyond the last is signed')

seed('c11-partial-move', 'C11', [(Q + 'xmssBase.cpp', '''    if (new_index>=getNumberSignatures()) {
        throw std::invalid_argument("index too high");
    }

    _sk[3] = static_cast<uint8_t>(new_index & 0xFF);
''', '''    _sk[3] = static_cast<uint8_t>(new_index & 0xFF);

    if (new_index>=getNumberSignatures()) {
        throw std::invalid_argument("index too high");
    }

''')], '''
int main() {
    XmssBasic x(seq(48), 4, SHAKE_128, SHA256_2X);
    x.setIndex(5);
    try { x.setIndex(16 + 3); } catch (std::exception &) { }
    check(x.getIndex() == 5, "a refused move changes nothing");
}
''', 'a refused index move on a basic signer', 'the refused move changes the index, so indices are used again')

seed('c12-index-32', 'C12', [(Q + 'xmssPool.cpp', '    auto idx = index + 1;', '    auto idx = static_cast<uint32_t>(index + 1);')], '''
int main() {
    XmssPool p(seq(48), 4, (1ull << 32) + 6, 0), q(seq(48), 4, 6, 0);
    check(p.getNextTree()->getPK() != q.getNextTree()->getPK(), "trees of indices 2^32 apart");
}
''', 'an index of 2^32 - 1 or more', 'trees repeat')

seed('c14-format', 'C14', [(Q + 'qrlHelper.h', '''            if (descr.getAddrFormatType()!=eAddrFormatType::SHA256_2X) {
                return false;''', '''            if (descr.getAddrFormatType()>8) {
                return false;''')], '''
#include <PicoSHA2/picosha2.h>
int main() {
    for (int f = 1; f < 16; f++) {
        V a = seq(35);
        a[0] = 1;
        a[1] = (unsigned char) (f << 4 | 5);
        a[2] = 0;
        V h(32);
        picosha2::hash256(a.begin(), a.end(), h.begin(), h.end());
        a.insert(a.end(), h.end() - 4, h.end());
        check(!QRLHelper::addressIsValid(a), "unsupported address format");
    }
}
''', 'an address of a format from 1 to 8 with a right checksum', 'addresses of unsupported formats are accepted')

seed('c15-wrap-char', 'C15', [(Q + 'misc.cpp', '    int count = 0;\n    for (auto val : vec) {', '    signed char count = 0;\n    for (auto val : vec) {')], '''
int main() {
    for (int w = 100; w < 300; w += 25) {
        std::string s = bin2hstr(seq(400), w), t;
        V v = seq(400);
        for (int i = 0; i < 400; i++) { if (i && i % w == 0) t += "\\n"; t += hx(&v[i], 1); }
        check(s == t, "line breaks");
    }
}
''', 'a wrap count above 127', 'line breaks at the wrong places')

seed('c15-embedded-nul', 'C15', [(Q + 'misc.cpp', 'return bin2hstr(str2bin(s), wrap);', 'return bin2hstr(str2bin(s.c_str()), wrap);')], '''
int main() {
    check(bin2hstr(std::string("ab"), 0) == "6162", "plain text");
    check(bin2hstr(std::string("a\\0b", 3), 0) == "610062", "text with a zero byte");
    check(bin2hstr(std::string("\\0", 1), 2) == "00", "zero byte alone");
}
''', 'a string with a zero byte inside', 'hex of a string stops at its first zero byte')

seed('c16-long-seed', 'C16', [(Q + 'misc.cpp', '        int p = nibble >> 1;', '        int p = (nibble >> 1) & 0x3FF;')], '''
int main() {
    V v = seq(1200, 7, 3);
    v[1100] = 0xEE;
    check(mnemonic2bin(bin2mnemonic(v)) == v, "round trip of 1200 bytes");
}
''', 'a byte string of more than 1024 bytes', 'two different byte strings share a mnemonic')

seed('c17-shift-byte', 'C17', [(Q + 'misc.cpp', '((seed_shift >> (8 * j)) & 0xFF)', '((seed_shift >> (8 * (j & 3)) & (j == 3 ? 0x7F : 0xFF)))')], '''
int main() {
    V s = seq(48);
    check(getHashChainSeed(s, 0x80000001u, 1)[0] != getHashChainSeed(s, 1, 1)[0], "shifts that differ in the top bit");
}
''', 'a shift of 2^31 or more', 'two shifts give the same seeds')

seed('c18-long-seed', 'C18', [(Q + 'xmssBase.cpp', '    if (seed.size()!=48) {', '    if (seed.size()<48) {')], '''
int main() {
    bool t = false;
    try { XmssFast x(seq(49), 4, SHAKE_128, SHA256_2X); } catch (std::exception &) { t = true; }
    check(t, "a seed of 49 bytes on the fast signer");
    t = false;
    try { XmssBasic x(seq(49), 4, SHAKE_128, SHA256_2X); } catch (std::exception &) { t = true; }
    check(t, "a seed of 49 bytes on the basic signer");
}
''', 'a seed longer than 48 bytes given to the fast signer', 'the extended seed of such a wallet cannot be read back')

seed('c13-height-cut', 'C13', [(Q + 'qrlDescriptor.h', '(_height >> 1) & 0x0F', '((_height == 30 ? 28 : _height) >> 1) & 0x0F')], '''
int main() {
    for (int h = 0; h <= 30; h += 2) {
        QRLDescriptor d(SHAKE_128, eSignatureType::XMSS, h, SHA256_2X);
        check(QRLDescriptor::fromBytes(d.getBytes()).getHeight() == h, "height");
    }
}
''', 'height 30', 'the descriptor of a tree of height 30 names height 28')

seed('c06-fast-seed', 'C06', [(A + 'algsxmss_fast.c', '    shake256(randombits, 3 * n, seed, 48);', '    shake256(randombits, 3 * n, seed, 48 - (seed[47] == 0 && seed[46] == 0));')], '''
int main() {
    V s = seq(48);
    s[46] = s[47] = 0;
    XmssFast f(s, 4, SHAKE_128, SHA256_2X);
    XmssBasic b(s, 4, SHAKE_128, SHA256_2X);
    check(f.getSK() == b.getSK(), "secret keys of the two signers");
}
''', 'a seed that ends in two zero bytes', 'basic and fast signer derive different keys')
