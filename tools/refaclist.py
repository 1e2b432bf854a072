"""Edits that keep the behaviour: the checks have to stay quiet on each (tools/refac.py)."""
R = []


def r(id, props, *edits):
    R.append((id, props.split(), edits))


X = 'src/xmss-alt/'
Q = 'src/qrl/'

r('hash-memcpy', 'C02', (X + 'hash.c', '''    for (i = 0; i < keylen; i++) {
        buf[i + n] = key[i];
    }

    for (i = 0; i < inlen; i++) {
        buf[keylen + n + i] = in[i];
    }
''', '''    unsigned char *p = buf + n;
    memcpy(p, key, keylen);
    p += keylen;
    for (i = inlen; i > 0; i--) {
        p[i - 1] = in[i - 1];
    }
'''), (X + 'hash.c', '#include <cstdio>', '#include <cstdio>\n#include <cstring>'))
r('hash-switch', 'C02', (X + 'hash.c', '''    if (hash_func==eHashFunction::SHAKE_128)
    {
        if (n == 32) {
            shake128(out, 32, buf, inlen + keylen + n);
            return 0;
        }

        if (n == 64) {
            shake128(out, 64, buf, inlen + keylen + n);
            return 0;
        }
    }

    if (hash_func==eHashFunction::SHAKE_256)
    {
        if (n == 32) {
            shake256(out, 32, buf, inlen + keylen + n);
            return 0;
        }

        if (n == 64) {
            shake256(out, 64, buf, inlen + keylen + n);
            return 0;
        }
    }

    if (hash_func==eHashFunction::SHA2_256)
    {
        if (n == 32) {
            sha2_256(out, buf, inlen + keylen + n);
            return 0;
        }
    }

    return 1;''', '''    const unsigned long long total = n + keylen + inlen;
    const bool wide = n == 64;
    if (n != 32 && !wide)
        return 1;
    switch (hash_func) {
        case eHashFunction::SHAKE_128:
            shake128(out, n, buf, total);
            return 0;
        case eHashFunction::SHAKE_256:
            shake256(out, n, buf, total);
            return 0;
        case eHashFunction::SHA2_256:
            if (wide) return 1;
            sha2_256(out, buf, total);
            return 0;
        default:
            return 1;
    }'''))
r('hash-helper', 'C02 C04', (X + 'hash.c', '''/**
 * We assume the left half is in in[0]...in[n-1]
 */''', '''static void masked(eHashFunction hash_func, unsigned char *dst, uint32_t which, const unsigned char *pub_seed, uint32_t addr[8], unsigned int n) {
    unsigned char bytes[32];
    setKeyAndMask(addr, which);
    prf(hash_func, dst, addr_to_byte(bytes, addr), pub_seed, n);
}

/**
 * We assume the left half is in in[0]...in[n-1]
 */'''), (X + 'hash.c', '''    setKeyAndMask(addr, 0);
    addr_to_byte(byte_addr, addr);
    prf(hash_func, key, byte_addr, pub_seed, n);
    // Use MSB order
    setKeyAndMask(addr, 1);
    addr_to_byte(byte_addr, addr);
    prf(hash_func, bitmask, byte_addr, pub_seed, n);
    setKeyAndMask(addr, 2);
    addr_to_byte(byte_addr, addr);
    prf(hash_func, bitmask + n, byte_addr, pub_seed, n);
    for (i = 0; i < 2 * n; i++) {
        buf[i] = in[i] ^ bitmask[i];
    }''', '''    masked(hash_func, key, 0, pub_seed, addr, n);
    for (i = 0; i < 2; i++)
        masked(hash_func, bitmask + i * n, i + 1, pub_seed, addr, n);
    memcpy(buf, in, 2 * n);
    for (i = 0; i < 2 * n; i++)
        buf[i] ^= bitmask[i];'''), (X + 'hash.c', '#include <cstdio>', '#include <cstdio>\n#include <cstring>'))
r('adrs-loop', 'C03', (X + 'hash_address.c', '''void setTreeADRS(uint32_t adrs[8], uint64_t tree) {''', '''static void put64(uint32_t *hi, uint64_t v) {
    for (int i = 1; i >= 0; i--, v >>= 32)
        hi[i] = static_cast<uint32_t>(v);
}

void setTreeADRS(uint32_t adrs[8], uint64_t tree) {
    put64(adrs + 1, tree);
    return;
'''), (X + 'hash.c', '''    int i = 0;
    for (i = 0; i < 8; i++)
        to_byte(bytes + i * 4, addr[i], 4);
    return bytes;
#else''', '''    for (int i = 0; i < 32; i++)
        bytes[i] = static_cast<unsigned char>(addr[i >> 2] >> (8 * (3 - (i & 3))));
    return bytes;
#else'''))
r('wots-chain', 'C04 C05', (X + 'wots.c', '''    for (i = start; i < (start + steps) && i < params->w; i++) {
        setHashADRS(addr, i);
        hash_f(hash_func, out, out, pub_seed, addr, params->n);
    }''', '''    uint32_t end = start + steps;
    if (end > params->w)
        end = params->w;
    i = start;
    while (i < end) {
        setHashADRS(addr, i++);
        hash_f(hash_func, out, out, pub_seed, addr, params->n);
    }'''), (X + 'wots.c', '''    for (j = 0; j < params->n; j++)
        out[j] = in[j];
''', '''    const uint32_t n = params->n;
    for (j = 0; j != n; ++j)
        *(out + j) = *(in + j);
'''))
r('wots-basew', 'C05 C04', (X + 'wots.c', '''    int in = 0;
    int out = 0;
    uint32_t total = 0;
    int bits = 0;
    int consumed = 0;

    for (consumed = 0; consumed < out_len; consumed++) {
        if (bits == 0) {
            total = input[in];
            in++;
            bits += 8;
        }
        bits -= params->log_w;
        output[out] = (total >> bits) & (params->w - 1);
        out++;
    }''', '''    const int lg = params->log_w;
    for (int i = 0; i < out_len; i++) {
        const int bit = i * lg;
        output[i] = (input[bit >> 3] >> (8 - lg - (bit & 7))) & (params->w - 1);
    }'''))
r('wots-csum', 'C05 C04', (X + 'wots.c', '''void wots_pkgen(eHashFunction hash_func,''', '''static void all_digits(int *basew, const unsigned char *msg, const wots_params *p) {
    base_w(basew, p->len_1, msg, p);
    int csum = p->len_1 * (p->w - 1);
    for (uint32_t i = 0; i < p->len_1; i++)
        csum -= basew[i];
    const uint32_t bits = p->len_2 * p->log_w;
    const uint32_t nb = (bits + 7) / 8;
    unsigned char csum_bytes[nb];
    to_byte(csum_bytes, csum << (8 * nb - bits), nb);
    base_w(basew + p->len_1, p->len_2, csum_bytes, p);
}

void wots_pkgen(eHashFunction hash_func,'''), (X + 'wots.c', '''    int csum = 0;
    uint32_t i = 0;

    base_w(basew, params->len_1, msg, params);

    for (i = 0; i < params->len_1; i++) {
        csum += params->w - 1 - basew[i];
    }

    csum = csum << ((8 - ((params->len_2 * params->log_w) % 8)) % 8);

    uint32_t len_2_bytes = ((params->len_2 * params->log_w) + 7) / 8;

    unsigned char csum_bytes[len_2_bytes];
    to_byte(csum_bytes, csum, len_2_bytes);

    int csum_basew[params->len_2];

    base_w(csum_basew, params->len_2, csum_bytes, params);

    for (i = 0; i < params->len_2; i++) {
        basew[params->len_1 + i] = csum_basew[i];
    }
''', '''    uint32_t i = 0;
    all_digits(basew, msg, params);
'''), (X + 'wots.c', '''    int csum = 0;
    unsigned char csum_bytes[((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) + 7) / 8];
    int csum_basew[XMSS_WOTS_LEN2];
    uint32_t i = 0;

    base_w(basew, XMSS_WOTS_LEN1, msg, wotsParams);

    for (i = 0; i < XMSS_WOTS_LEN1; i++) {
        csum += XMSS_WOTS_W - 1 - basew[i];
    }

    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);

    to_byte(csum_bytes, csum, ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) + 7) / 8);
    base_w(csum_basew, XMSS_WOTS_LEN2, csum_bytes, wotsParams);

    for (i = 0; i < XMSS_WOTS_LEN2; i++) {
        basew[XMSS_WOTS_LEN1 + i] = csum_basew[i];
    }
''', '''    uint32_t i = 0;
    all_digits(basew, msg, wotsParams);
'''))
r('wots-pointers', 'C04', (X + 'wots.c', '''    for (i = 0; i < params->len; i++) {
        setChainADRS(addr, i);
        gen_chain(hash_func,
                  pk + i * params->n,
                  pk + i * params->n,
                  0,
                  params->w - 1,
                  params,
                  pub_seed,
                  addr);
    }''', '''    unsigned char *p = pk;
    for (i = 0; i < params->len; i++, p += params->n) {
        setChainADRS(addr, i);
        gen_chain(hash_func, p, p, 0, params->w - 1, params, pub_seed, addr);
    }'''), (X + 'wots.c', '''    for (uint32_t i = 0; i < len; i++) {
        to_byte(ctr, i, 32);
        prf(hash_func, (outseeds + (i * n)), ctr, inseed, n);
    }''', '''    for (uint32_t i = len; i-- > 0;) {
        to_byte(ctr, i, 32);
        prf(hash_func, &outseeds[i * n], ctr, inseed, n);
    }'''))
r('tobyte-up', 'C02 C05 C07 C09', (X + 'xmss_common.c', '''    int32_t i;
    for (i = bytes - 1; i >= 0; i--) {
        out[i] = static_cast<unsigned char>(in & 0xff);
        in = in >> 8;
    }''', '''    unsigned char *p = out + bytes;
    while (p != out) {
        *--p = static_cast<unsigned char>(in);
        in /= 256;
    }'''))
r('ltree-ceil', 'C06 C07', (X + 'xmss_common.c', '''        bound = l >> 1;
        for (i = 0; i < bound; i++) {
            setTreeIndex(addr, i);
            hash_h(hash_func, wots_pk + i * n, wots_pk + i * 2 * n, pub_seed, addr, n);
        }
        if (l & 1) {
            memcpy(wots_pk + (l >> 1) * n, wots_pk + (l - 1) * n, n);
            l = (l >> 1) + 1;
        } else {
            l = (l >> 1);
        }
        height++;
        setTreeHeight(addr, height);''', '''        bound = l / 2;
        i = 0;
        while (i < bound) {
            setTreeIndex(addr, i);
            unsigned char *dst = wots_pk + i * n;
            hash_h(hash_func, dst, dst + i * n, pub_seed, addr, n);
            ++i;
        }
        if (l % 2)
            memcpy(wots_pk + bound * n, wots_pk + (l - 1) * n, n);
        l = (l + 1) / 2;
        setTreeHeight(addr, ++height);'''))
r('verify-authpath', 'C07 C08', (X + 'xmss_common.c', '''    // If leafidx is odd (last bit = 1), current path element is a right child and authpath has to go to the left.
    // Otherwise, it is the other way around
    if (leafidx & 1) {
        for (j = 0; j < n; j++)
            buffer[n + j] = leaf[j];
        for (j = 0; j < n; j++)
            buffer[j] = authpath[j];
    } else {
        for (j = 0; j < n; j++)
            buffer[j] = leaf[j];
        for (j = 0; j < n; j++)
            buffer[n + j] = authpath[j];
    }
    authpath += n;

    for (i = 0; i < h - 1; i++) {
        setTreeHeight(addr, i);
        leafidx >>= 1;
        setTreeIndex(addr, leafidx);
        if (leafidx & 1) {
            hash_h(hash_func, buffer + n, buffer, pub_seed, addr, n);
            for (j = 0; j < n; j++)
                buffer[j] = authpath[j];
        } else {
            hash_h(hash_func, buffer, buffer, pub_seed, addr, n);
            for (j = 0; j < n; j++)
                buffer[j + n] = authpath[j];
        }
        authpath += n;
    }
    setTreeHeight(addr, (h - 1));
    leafidx >>= 1;
    setTreeIndex(addr, leafidx);
    hash_h(hash_func, root, buffer, pub_seed, addr, n);''', '''    unsigned char node[n];
    memcpy(node, leaf, n);
    for (i = 0; i < h; i++) {
        const uint32_t right = leafidx & 1;
        memcpy(buffer + right * n, node, n);
        memcpy(buffer + (1 - right) * n, authpath + i * n, n);
        leafidx >>= 1;
        setTreeHeight(addr, i);
        setTreeIndex(addr, leafidx);
        hash_h(hash_func, node, buffer, pub_seed, addr, n);
    }
    for (j = 0; j < n; j++)
        root[j] = node[j];'''))
r('treehash-helper', 'C06', (X + 'algsxmss.c', '''static void
treehash(eHashFunction hash_func,''', '''static void put_leaf(eHashFunction hash_func, unsigned char *dst, uint32_t idx, const unsigned char *sk_seed, const xmss_params *params,
                     const unsigned char *pub_seed, uint32_t *ltree_addr, uint32_t *ots_addr) {
    setOTSADRS(ots_addr, idx);
    setLtreeADRS(ltree_addr, idx);
    gen_leaf_wots(hash_func, dst, sk_seed, params, pub_seed, ltree_addr, ots_addr);
}

static void
treehash(eHashFunction hash_func,'''), (X + 'algsxmss.c', '''        setLtreeADRS(ltree_addr, idx);
        setOTSADRS(ots_addr, idx);
        gen_leaf_wots(hash_func, stack + stackoffset * n, sk_seed, params, pub_seed, ltree_addr, ots_addr);
        stacklevels[stackoffset] = 0;
        stackoffset++;
        while (stackoffset > 1 && stacklevels[stackoffset - 1] == stacklevels[stackoffset - 2]) {
            setTreeHeight(node_addr, stacklevels[stackoffset - 1]);
            setTreeIndex(node_addr, (idx >> (stacklevels[stackoffset - 1] + 1)));
            hash_h(hash_func, stack + (stackoffset - 2) * n, stack + (stackoffset - 2) * n, pub_seed,
                   node_addr, n);
            stacklevels[stackoffset - 2]++;
            stackoffset--;
        }
    }
    for (i = 0; i < n; i++)
        node[i] = stack[i];''', '''        put_leaf(hash_func, stack + stackoffset * n, idx, sk_seed, params, pub_seed, ltree_addr, ots_addr);
        stacklevels[stackoffset] = 0;
        for (; stackoffset > 0 && stacklevels[stackoffset] == stacklevels[stackoffset - 1]; stackoffset--) {
            const uint16_t lv = stacklevels[stackoffset];
            unsigned char *left = stack + (stackoffset - 1) * n;
            setTreeHeight(node_addr, lv);
            setTreeIndex(node_addr, idx >> lv >> 1);
            hash_h(hash_func, left, left, pub_seed, node_addr, n);
            stacklevels[stackoffset - 1] = lv + 1;
        }
        stackoffset++;
    }
    memcpy(node, stack, n);'''))
r('authpath-2d', 'C09', (X + 'algsxmss.c', '''    for (i = (1 << h); i > 1; i >>= 1) {
        setTreeHeight(node_addr, level);
        // Inner loop: for each pair of sibling nodes
        for (j = 0; j < i; j += 2) {
            setTreeIndex(node_addr, j >> 1);
            hash_h(hash_func, tree + (i >> 1) * n + (j >> 1) * n, tree + i * n + j * n, pub_seed, node_addr, n);
        }
        level++;
    }
''', '''    for (level = 0; level < h; level++) {
        const size_t width = (size_t) 1 << (h - level);
        setTreeHeight(node_addr, level);
        for (j = 0; j < width / 2; j++) {
            setTreeIndex(node_addr, j);
            hash_h(hash_func, &tree[(width / 2 + j) * n], &tree[(width + 2 * j) * n], pub_seed, node_addr, n);
        }
    }
'''))
r('sign-index', 'C09', (X + 'algsxmss.c', '''    // Update SK
    sk[0] = ((idx + 1) >> 24) & 255;
    sk[1] = ((idx + 1) >> 16) & 255;
    sk[2] = ((idx + 1) >> 8) & 255;
    sk[3] = (idx + 1) & 255;''', '''    // Update SK
    to_byte(sk, idx + 1, 4);'''), (X + 'algsxmss.c', '''    sig_msg[0] = (idx >> 24) & 255;
    sig_msg[1] = (idx >> 16) & 255;
    sig_msg[2] = (idx >> 8) & 255;
    sig_msg[3] = idx & 255;
''', '''    to_byte(sig_msg, idx, 4);
'''), (X + 'algsxmss.c', '''    for (i = 0; i < n; i++)
        sig_msg[i] = R[i];
''', '''    memcpy(sig_msg, R, n);
'''))
r('fast-update', 'C10 C11', (X + 'algsxmss_fast.c', '''    for (unsigned int j = current_idx; j < new_idx; j++) {
        if (j >= num_elems)
        {
            return -1;
        }

        bds_round(''', '''    unsigned int j = current_idx;
    while (j < new_idx) {
        bds_round('''), (X + 'algsxmss_fast.c', '''                            params,
                            pub_seed,
                            ots_addr);
    }

    //update secret key index
    sk[0] = static_cast<unsigned char>(((new_idx) >> 24) & 255);
    sk[1] = static_cast<unsigned char>(((new_idx) >> 16) & 255);
    sk[2] = static_cast<unsigned char>(((new_idx) >> 8) & 255);
    sk[3] = static_cast<unsigned char>((new_idx) & 255);
''', '''                            params,
                            pub_seed,
                            ots_addr);
        ++j;
    }

    //update secret key index
    to_byte(sk, new_idx, 4);
'''))
r('fast-tau', 'C10', (X + 'algsxmss_fast.c', '''    for (i = 0; i < h; i++) {
        if (!((leaf_idx >> i) & 1)) {
            tau = i;
            break;
        }
    }
''', '''    tau = 0;
    while (tau < h && (leaf_idx >> tau) % 2 == 1)
        tau++;
'''), (X + 'algsxmss_fast.c', '''        for (i = 0; i < ((tau < h - k) ? tau : (h - k)); i++) {
            startidx = leaf_idx + 1 + 3 * (1 << i);
            if (startidx < 1U << h) {
                state->treehash[i].h = i;
                state->treehash[i].next_idx = startidx;
                state->treehash[i].completed = 0;
                state->treehash[i].stackusage = 0;
            }
        }''', '''        const unsigned int top = (tau < h - k) ? tau : (h - k);
        for (i = top; i > 0; i--) {
            treehash_inst &t = state->treehash[i - 1];
            startidx = leaf_idx + 1 + 3 * (1 << (i - 1));
            if (startidx >= 1U << h)
                continue;
            t.completed = 0;
            t.stackusage = 0;
            t.next_idx = startidx;
            t.h = i - 1;
        }'''))
r('fast-treehash', 'C10', (X + 'algsxmss_fast.c', '''    unsigned char nodebuffer[2 * n];
    unsigned int nodeheight = 0;
    gen_leaf_wots(hash_func, nodebuffer, sk_seed, params, pub_seed, ltree_addr, ots_addr);
    while (treehash->stackusage > 0 && state->stacklevels[state->stackoffset - 1] == nodeheight) {
        memcpy(nodebuffer + n, nodebuffer, n);
        memcpy(nodebuffer, state->stack + (state->stackoffset - 1) * n, n);
''', '''    unsigned char nodebuffer[2 * n];
    unsigned int nodeheight = 0;
    unsigned char *right = nodebuffer + n;
    gen_leaf_wots(hash_func, nodebuffer, sk_seed, params, pub_seed, ltree_addr, ots_addr);
    while (treehash->stackusage != 0) {
        const unsigned int top = state->stackoffset - 1;
        if (state->stacklevels[top] != nodeheight)
            break;
        for (int q = 0; q < n; q++) {
            right[q] = nodebuffer[q];
            nodebuffer[q] = state->stack[top * n + q];
        }
'''))
r('fast-setup', 'C06 C10', (X + 'algsxmss_fast.c', '''            if (i >> nodeh == 1) {
                memcpy(state->auth + nodeh * n, stack + (stackoffset - 1) * n, n);
            }
            else {
                if (nodeh < h - k && i >> nodeh == 3) {
                    memcpy(state->treehash[nodeh].node, stack + (stackoffset - 1) * n, n);
                }
                else if (nodeh >= h - k) {''', '''            const unsigned char *top = stack + (stackoffset - 1) * n;
            const unsigned int pos = i >> nodeh;
            if (pos == 1) {
                memcpy(state->auth + nodeh * n, top, n);
            }
            else {
                if (nodeh < h - k) {
                    if (pos == 3)
                        memcpy(state->treehash[nodeh].node, top, n);
                }
                else {'''))
r('base-bytes', 'C11 C18 C12', (Q + 'xmssBase.cpp', '''    _sk[3] = static_cast<uint8_t>(new_index & 0xFF);
    new_index >>= 8;
    _sk[2] = static_cast<uint8_t>(new_index & 0xFF);
    new_index >>= 8;
    _sk[1] = static_cast<uint8_t>(new_index & 0xFF);
    new_index >>= 8;
    _sk[0] = static_cast<uint8_t>(new_index & 0xFF);
''', '''    for (int i = 3; i >= 0; i--, new_index >>= 8)
        _sk[i] = static_cast<uint8_t>(new_index);
'''), (Q + 'xmssBase.cpp', '''    return (_sk[0] << 24)+
           (_sk[1] << 16)+
           (_sk[2] << 8)+
            _sk[3];''', '''    uint32_t r = 0;
    for (size_t i = 0; i < 4; i++)
        r = (r << 8) | _sk[i];
    return r;'''))
r('base-slices', 'C18 C12', (Q + 'xmssBase.cpp', '''TKEY XmssBase::getSKSeed()
{
// FIXME: Use a union for this
    return TKEY(_sk.begin()+OFFSET_SK_SEED, _sk.begin()+OFFSET_SK_SEED+32);
}''', '''static TKEY slice(const TKEY &k, size_t from)
{
    TKEY r;
    r.reserve(32);
    for (size_t i = from; i < from + 32; i++)
        r.push_back(k[i]);
    return r;
}

TKEY XmssBase::getSKSeed()
{
    return slice(_sk, OFFSET_SK_SEED);
}'''), (Q + 'xmssBase.cpp', '''    return TKEY(_sk.begin()+OFFSET_ROOT, _sk.begin()+OFFSET_ROOT+32);''', '''    const uint8_t *p = _sk.data()+OFFSET_ROOT;
    return TKEY(p, p+32);'''), (Q + 'xmssBase.cpp', '''    TKEY PK(getDescriptorBytes());
    auto root = getRoot();
    auto pubseed = getPKSeed();
    PK.insert(PK.end(), root.begin(), root.end());
    PK.insert(PK.end(), pubseed.begin(), pubseed.end());

    return PK;''', '''    TKEY PK(getDescriptorBytes());
    PK.reserve(getPublicKeySize());
    for (const TKEY &part : {getRoot(), getPKSeed()})
        for (auto c : part)
            PK.push_back(c);
    return PK;'''))
r('base-size', 'C08 C18', (Q + 'xmssBase.cpp', '''    if (sigSize < SIGNATURE_BASE_SIZE)
    {
        throw std::invalid_argument("Invalid signature size");
    }

    if ((sigSize-4)%32!=0) {
        throw std::invalid_argument("Invalid signature size");
    }

    auto height = (sigSize - SIGNATURE_BASE_SIZE)/32;

    if (height>XMSS_MAX_HEIGHT) {
        throw std::invalid_argument("Invalid signature size");
    }

    return static_cast<uint8_t>(height);''', '''    const bool fits = sigSize >= SIGNATURE_BASE_SIZE && ((sigSize-SIGNATURE_BASE_SIZE) & 31)==0;
    const size_t height = fits ? (sigSize - SIGNATURE_BASE_SIZE) >> 5 : XMSS_MAX_HEIGHT+1;
    if (height<=XMSS_MAX_HEIGHT) {
        return static_cast<uint8_t>(height);
    }
    throw std::invalid_argument("Invalid signature size");'''))
r('base-verify', 'C08', (Q + 'xmssBase.cpp', '''        if (signature.size()>SIGNATURE_BASE_SIZE+XMSS_MAX_HEIGHT*32)
        {
            throw std::invalid_argument("invalid signature size. Height<=30");
        }
''', '''        if (signature.size()>SIGNATURE_BASE_SIZE+XMSS_MAX_HEIGHT*32)
            return false;
'''), (Q + 'xmssBase.cpp', '''        auto tmp = static_cast<TSIGNATURE>(signature);

        return xmss_Verifysig(hashFunction,
                &params.wots_par,
                static_cast<TMESSAGE>(message).data(),
                message.size(),
                tmp.data(),''', '''        TSIGNATURE tmp;
        tmp.assign(signature.begin(), signature.end());
        TMESSAGE msg(message);

        return xmss_Verifysig(hashFunction,
                &params.wots_par,
                msg.data(),
                msg.size(),
                tmp.data(),'''))
r('pool-lock', 'C12', (Q + 'xmssPool.cpp', '''        std::lock_guard<std::mutex> lock(_mutex);

        if (_cache.empty()) {
            // Claim the index under the lock; build the tree outside it.
            index = _current_index++;
            cache_missed = true;
        } else {''', '''        std::unique_lock<std::mutex> lock(_mutex);
        cache_missed = _cache.size() == 0;
        index = _current_index;

        if (cache_missed) {
            _current_index = index + 1;
        } else {'''), (Q + 'xmssPool.cpp', '''    for (size_t i = start; i < end; i++) {
        _cache.push_back(std::async(std::launch::async, [this](size_t idx) {
            return prepareTree(idx);
        }, i));
    }''', '''    for (; start < end; ++start) {
        auto task = std::async(std::launch::async, [this, start]() { return prepareTree(start); });
        _cache.push_back(std::move(task));
    }'''))
r('pool-seed', 'C12', (Q + 'xmssPool.cpp', '''    auto idx = index + 1;
    while (idx > 0) {
        tmp_seed.push_back(static_cast<unsigned char>(idx & 0xFF));
        idx >>= 8;
    }

    return std::make_shared<XmssFast>(shake256(48, tmp_seed), _height);''', '''    for (size_t idx = index + 1; idx != 0; idx /= 256)
        tmp_seed.push_back(static_cast<unsigned char>(idx % 256));

    const auto stake_seed = shake256(48, tmp_seed);
    return std::make_shared<XmssFast>(stake_seed, _height);'''))
r('descr-shift', 'C13 C14 C08', (Q + 'qrlDescriptor.h', '''        auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
        if (hashFunction!=eHashFunction::SHA2_256 &&
            hashFunction!=eHashFunction::SHAKE_128 &&
            hashFunction!=eHashFunction::SHAKE_256) {
            throw std::invalid_argument("Unknown hash function in descriptor");
        }
        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
        if (signatureType!=eSignatureType::XMSS) {
            throw std::invalid_argument("Unknown signature type in descriptor");
        }''', '''        const uint8_t lo = bytes[0] % 16, hi = bytes[0] / 16;
        if (hi != 0) {
            throw std::invalid_argument("Unknown signature type in descriptor");
        }
        switch (lo) {
            case 0:
            case 1:
            case 2:
                break;
            default:
                throw std::invalid_argument("Unknown hash function in descriptor");
        }
        const auto hashFunction = static_cast<eHashFunction>(lo);
        const auto signatureType = eSignatureType::XMSS;'''))
r('addr-equal', 'C14', (Q + 'qrlHelper.h', '''            return address[35]==hashed_key2[28] &&
                    address[36]==hashed_key2[29] &&
                    address[37]==hashed_key2[30] &&
                    address[38]==hashed_key2[31];''', '''            for (size_t i = 0; i < 4; i++)
                if (address[35+i]!=hashed_key2[28+i])
                    return false;
            return true;'''), (Q + 'qrlHelper.h', '''            if (address.size()!=(QRLDescriptor::getSize()+ADDRESS_HASH_SIZE+4))
                return false;
''', '''            constexpr size_t expected = 39;
            if (address.size() < expected || address.size() > expected)
                return false;
'''))
r('addr-std-equal', 'C14', (Q + 'qrlHelper.h', '''            return address[35]==hashed_key2[28] &&
                    address[36]==hashed_key2[29] &&
                    address[37]==hashed_key2[30] &&
                    address[38]==hashed_key2[31];''', '''            return std::equal(address.cend()-4, address.cend(), hashed_key2.cend()-4);'''), (Q + 'qrlHelper.h', '#include <vector>', '#include <vector>\n#include <algorithm>'))
r('hex-table', 'C15', (Q + 'misc.cpp', '''    std::stringstream ss;

    int count = 0;
    for (auto val : vec) {
        if (wrap > 0) {
            count++;
            if (count > wrap) {
                ss << "\\n";
                count = 1;
            }
        }
        ss << std::setfill('0') << std::setw(2) << std::hex << (int) val;
    }

    return ss.str();''', '''    static const char digits[] = "0123456789abcdef";
    std::string out;
    for (size_t i = 0; i < vec.size(); i++) {
        if (wrap > 0 && i > 0 && i % wrap == 0) {
            out.push_back('\\n');
        }
        out.push_back(digits[vec[i] >> 4]);
        out.push_back(digits[vec[i] & 15]);
    }
    return out;'''))
r('hex-parse', 'C15', (Q + 'misc.cpp', '''    std::vector<unsigned char> result;
    for (size_t i = 0; i < s.size(); i += 2) {
        if (!std::isxdigit(static_cast<unsigned char>(s[i])) || !std::isxdigit(static_cast<unsigned char>(s[i + 1]))) {
            throw std::invalid_argument("invalid hex digits in the string");
        }

        auto v = (getHexValue(s[i]) << 4) + getHexValue(s[i + 1]);
        result.push_back(v);
    }

    return result;''', '''    std::vector<unsigned char> result(s.size() / 2);
    for (size_t i = 0; i < result.size(); i++) {
        const char a = s[2 * i], b = s[2 * i + 1];
        if (!std::isxdigit(static_cast<unsigned char>(a)) || !std::isxdigit(static_cast<unsigned char>(b))) {
            throw std::invalid_argument("invalid hex digits in the string");
        }
        result[i] = static_cast<unsigned char>(16 * getHexValue(a) | getHexValue(b));
    }
    return result;'''))
r('hex-nibble', 'C15', (Q + 'misc.cpp', '''    auto tmp = std::tolower(c);
    if (std::isdigit(tmp)) {
        return (unsigned char) (tmp - '0');
    }
    return (unsigned char) (tmp - 'a' + 10);''', '''    if (c >= '0' && c <= '9')
        return (unsigned char) (c - '0');
    return (unsigned char) ((c | 0x20) - 'a' + 10);'''))
r('mnem-words', 'C16', (Q + 'misc.cpp', '''    for (int nibble = 0; nibble < vec.size() * 2; nibble += 3) {
        int p = nibble >> 1;
        int b1 = vec[p];
        int b2 = p + 1 < vec.size() ? vec[p + 1] : 0;
        int idx = nibble % 2 == 0 ? (b1 << 4) + (b2 >> 4) : ((b1 & 0x0F) << 8) + b2;
        ss << separator << wordlist[idx];
        separator = " ";
    }''', '''    for (size_t i = 0; i < vec.size(); i += 3) {
        const unsigned v = (vec[i] << 16) | (vec[i + 1] << 8) | vec[i + 2];
        ss << separator << wordlist[v >> 12] << " " << wordlist[v & 0xFFF];
        separator = " ";
    }'''))
r('mnem-parse', 'C16', (Q + 'misc.cpp', '''        buffering += 3;
        current = (current << 12) + it->second;

        while (buffering > 2) {
            const int shift = 4 * (buffering - 2);
            const int mask = (1 << shift) - 1;
            int tmp = current >> shift;
            buffering -= 2;
            current &= mask;
            result.push_back((unsigned char) tmp);
        }''', '''        current = current * 4096 + it->second;
        buffering += 3;
        while (buffering >= 2) {
            buffering -= 2;
            result.push_back((unsigned char) (current >> (4 * buffering)));
            current &= (1 << (4 * buffering)) - 1;
        }'''))
r('seed-chain', 'C17', (Q + 'misc.cpp', '''    for (int j = 0; j < sizeof(uint32_t); j++) {
        tmp_seed[p + j] = static_cast<unsigned char>((seed_shift >> (8 * j)) & 0xFF);
    }

    p += sizeof(uint32_t);
    for (uint32_t i = 0; i < count; i++) {
        // Apply i to the seed
        for (int j = 0; j < sizeof(uint32_t); j++) {
            tmp_seed[p + j] = static_cast<unsigned char>((i >> (8 * j)) & 0xFF);
        }
''', '''    auto put = [&tmp_seed](size_t at, uint32_t v) {
        for (size_t j = 0; j < 4; j++, v >>= 8)
            tmp_seed[at + j] = static_cast<unsigned char>(v);
    };
    put(p, seed_shift);
    p += 4;
    for (uint32_t i = 0; i != count; ++i) {
        put(p, i);
'''))
r('seed-random', 'C17', (Q + 'misc.cpp', '''    std::vector<unsigned char> tmp(seed_size, 0);

    std::ifstream urandom''', '''    std::vector<unsigned char> tmp;
    tmp.reserve(seed_size + entropy.size());
    tmp.resize(seed_size);

    std::ifstream urandom'''), (Q + 'misc.cpp', '''    auto tmpbytes = str2bin(entropy);
    tmp.insert(tmp.end(), tmpbytes.begin(), tmpbytes.end());
''', '''    for (char c : entropy)
        tmp.push_back(static_cast<unsigned char>(c));
'''))
r('shake-vec', 'C01 C17', (Q + 'hashing.cpp', '''    std::vector<unsigned char> hashed_output(hash_size, 0);
    shake256(hashed_output.data(), hash_size, input.data(), input.size());
    return hashed_output;''', '''    std::vector<unsigned char> r;
    r.resize(hash_size);
    const unsigned char *in = input.data();
    shake256(r.data(), r.size(), in, input.size());
    return r;'''))
r('basic-ctor', 'C18 C11 C06', (Q + 'xmssBasic.cpp', '''    if (seed.size() != 48) {
        throw std::invalid_argument("Seed should be 48 bytes. Other values are not currently supported");
    }

    const uint32_t k = 2;
    const uint32_t w = wotsParamW;
    const uint32_t n = 32;

    if (k >= height || (height - k) % 2) {
        throw std::invalid_argument("For BDS traversal, H - K must be even, with H > K >= 2!");
    }
''', '''    const uint32_t k = 2;
    const uint32_t w = wotsParamW;
    const uint32_t n = 32;

    if (height < 3 || height % 2 == 1) {
        throw std::invalid_argument("For BDS traversal, H - K must be even, with H > K >= 2!");
    }
'''), (Q + 'xmssFast.cpp', '''    for (int i = 0; i < _height - k; i++) {
        _treehash[i].node = &_th_nodes[n * i];
    }''', '''    unsigned char *node = _th_nodes.data();
    for (auto &inst : _treehash) {
        inst.node = node;
        node += n;
    }'''))

# second batch
_F = open('/repo/src/xmss-alt/fips202.c').read() if __import__('os').path.exists('/repo/src/xmss-alt/fips202.c') else ''
_I = _F.index('void KeccakF1600_StatePermute')
r('keccak-loops', 'C01', (X + 'fips202.c', _F[_I:_F.index('\n}\n', _I) + 3], r'''void KeccakF1600_StatePermute(uint64_t *state) {
    static const int rho[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
    uint64_t b[25], c[5];
    for (int round = 0; round < NROUNDS; round++) {
        for (int x = 0; x < 5; x++) {
            c[x] = state[x] ^ state[x + 5] ^ state[x + 10] ^ state[x + 15] ^ state[x + 20];
        }
        for (int x = 0; x < 5; x++) {
            const uint64_t d = c[(x + 4) % 5] ^ ROL(c[(x + 1) % 5], 1);
            for (int y = 0; y < 25; y += 5) {
                state[x + y] ^= d;
            }
        }
        for (int x = 0; x < 5; x++) {
            for (int y = 0; y < 5; y++) {
                const int r = rho[x + 5 * y];
                const uint64_t v = state[x + 5 * y];
                b[y + 5 * ((2 * x + 3 * y) % 5)] = r ? ROL(v, r) : v;
            }
        }
        for (int y = 0; y < 25; y += 5) {
            for (int x = 0; x < 5; x++) {
                state[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
            }
        }
        state[0] ^= KeccakF_RoundConstants[round];
    }
}
'''))

r('shake-common', 'C01', (X + 'fips202.c', '''void shake256(unsigned char *output, unsigned long long outlen,
              const unsigned char *in, unsigned long long inlen) {
    unsigned long long i;
    uint64_t s[25];
    unsigned char d[SHAKE256_RATE];

    for (i = 0; i < 25; i++) {
        s[i] = 0;
    }
    keccak_absorb(s, SHAKE256_RATE, in, inlen, 0x1F);

    keccak_squeezeblocks(output, outlen / SHAKE256_RATE, s, SHAKE256_RATE);
    output += (outlen / SHAKE256_RATE) * SHAKE256_RATE;

    if (outlen % SHAKE256_RATE) {
        keccak_squeezeblocks(d, 1, s, SHAKE256_RATE);
        for (i = 0; i < outlen % SHAKE256_RATE; i++) {
            output[i] = d[i];
        }
    }
}''', '''static void shake(unsigned int rate, unsigned char *output, unsigned long long outlen,
                  const unsigned char *in, unsigned long long inlen) {
    uint64_t s[25] = {0};
    unsigned char d[SHAKE128_RATE];
    const unsigned long long blocks = outlen / rate;
    const unsigned long long tail = outlen - blocks * rate;

    keccak_absorb(s, rate, in, inlen, 0x1F);
    keccak_squeezeblocks(output, blocks, s, rate);
    if (tail != 0) {
        keccak_squeezeblocks(d, 1, s, rate);
        memcpy(output + blocks * rate, d, tail);
    }
}

void shake256(unsigned char *output, unsigned long long outlen,
              const unsigned char *in, unsigned long long inlen) {
    shake(SHAKE256_RATE, output, outlen, in, inlen);
}'''), (X + 'fips202.c', '#define NROUNDS 24', '#include <cstring>\n#define NROUNDS 24'))
r('absorb-inplace', 'C01', (X + 'fips202.c', '''    for (i = 0; i < r; ++i) {
        t[i] = 0;
    }
    for (i = 0; i < mlen; ++i) {
        t[i] = m[i];
    }
    t[i] = p;
    t[r - 1] |= 128;
    for (i = 0; i < r / 8; ++i) {
        s[i] ^= load64(t + 8 * i);
    }
''', '''    for (i = 0; i < mlen; ++i) {
        t[i] = m[i];
    }
    t[mlen] = p;
    for (i = mlen + 1; i < r; ++i) {
        t[i] = 0;
    }
    t[r - 1] |= 0x80;
    for (unsigned long long lane = 0; lane < r / 8; ++lane) {
        s[lane] ^= load64(&t[lane * 8]);
    }
'''))
RU = 'src/rust_wrapper/'
r('rust-bytes', 'C01', (RU + 'xmss_alt/fips202.rs', '''    let mut r: u64 = 0;

    for i in 0..8 {
        r |= ((x[i] as usize) << 8 * i) as u64;
    }
    r
''', '''    let mut b = [0u8; 8];
    b.copy_from_slice(&x[..8]);
    u64::from_le_bytes(b)
'''), (RU + 'xmss_alt/fips202.rs', '''fn store64(x: &mut [u8], mut u: u64) {
    for i in 0..8 {
        x[i] = u as u8;
        u >>= 8;
    }
''', '''fn store64(x: &mut [u8], u: u64) {
    x[..8].copy_from_slice(&u.to_le_bytes());
'''))
r('rust-tail', 'C01', (RU + 'xmss_alt/fips202.rs', '''    output = &mut output[(outlen / SHAKE256_RATE) * SHAKE256_RATE..out_length];

    if (outlen % SHAKE256_RATE) > 0 {
        keccak_squeezeblocks(&mut d, 1, &mut s, SHAKE256_RATE);
        for i in 0..outlen % SHAKE256_RATE {
            output[i] = d[i];
        }
    }''', '''    output = &mut output[(outlen / SHAKE256_RATE) * SHAKE256_RATE..out_length];

    let tail = outlen % SHAKE256_RATE;
    if tail > 0 {
        keccak_squeezeblocks(&mut d, 1, &mut s, SHAKE256_RATE);
        output[..tail].copy_from_slice(&d[..tail]);
    }'''))
r('rust-adrs', 'C03', (RU + 'xmss_alt/hash_address.rs', '''    for i in 4..8 {
        adrs[i] = 0;
    }''', '''    adrs[4..].fill(0);'''))
r('rust-adrs-iter', 'C03', (RU + 'xmss_alt/hash_address.rs', '''    for i in 4..8 {
        adrs[i] = 0;
    }''', '''    for word in adrs.iter_mut().skip(4) {
        *word = 0;
    }'''), (RU + 'xmss_alt/hash_address.rs', '''    adrs[1] = (tree >> 32) as u32;
    adrs[2] = tree as u32;''', '''    let [hi, lo] = [(tree >> 32) as u32, (tree & 0xffff_ffff) as u32];
    adrs[1] = hi;
    adrs[2] = lo;'''))
r('rust-descr', 'C13', (RU + 'qrl/qrl_descriptor.rs', '''        let height: u8 = (bytes[1] & 0x0F) << 1;
        let addr_format_type: AddrFormatType = match (bytes[1] & 0xF0) >> 4 {
            0 => AddrFormatType::SHA256_2X,
            _ => {
                return Err(QRLError::FailedConversion(
                    "Could not convert from u8 to AddrFormatType".to_string(),
                ))
            }
        };
''', '''        let params = bytes[1];
        let height: u8 = (params % 16) * 2;
        if params / 16 != 0 {
            return Err(QRLError::FailedConversion(
                "Could not convert from u8 to AddrFormatType".to_string(),
            ));
        }
        let addr_format_type = AddrFormatType::SHA256_2X;
'''), (RU + 'qrl/qrl_descriptor.rs', '''        let bytes = extended_pk.get(0..Self::SIZE as usize).unwrap();
        return QRLDescriptor::from_bytes(&bytes.to_vec());''', '''        Self::from_bytes(&extended_pk[..usize::from(Self::SIZE)].to_vec())'''))
r('adrs-memset', 'C03', (X + 'hash_address.c', '''    adrs[3] = type;
    int i;
    for (i = 4; i < 8; i++) {
        adrs[i] = 0;
    }''', '''    adrs[3] = type;
    memset(adrs + 4, 0, 4 * sizeof(uint32_t));'''), (X + 'hash_address.c', '#include <cstdint>', '#include <cstdint>\n#include <cstring>'))
r('verify-memcpy', 'C07 C08', (X + 'xmss_common.c', '''    if (leafidx & 1) {
        for (j = 0; j < n; j++)
            buffer[n + j] = leaf[j];
        for (j = 0; j < n; j++)
            buffer[j] = authpath[j];
    } else {
        for (j = 0; j < n; j++)
            buffer[j] = leaf[j];
        for (j = 0; j < n; j++)
            buffer[n + j] = authpath[j];
    }
    authpath += n;
''', '''    const bool right = (leafidx & 1) != 0;
    std::memcpy(right ? buffer + n : buffer, leaf, n);
    std::memcpy(right ? buffer : buffer + n, authpath, n);
    authpath += n;
'''), (X + 'xmss_common.c', '''        if (leafidx & 1) {
            hash_h(hash_func, buffer + n, buffer, pub_seed, addr, n);
            for (j = 0; j < n; j++)
                buffer[j] = authpath[j];
        } else {
            hash_h(hash_func, buffer, buffer, pub_seed, addr, n);
            for (j = 0; j < n; j++)
                buffer[j + n] = authpath[j];
        }
        authpath += n;''', '''        const unsigned int own = (leafidx & 1) * n;
        hash_h(hash_func, buffer + own, buffer, pub_seed, addr, n);
        std::memcpy(buffer + (n - own), authpath, n);
        authpath += n;'''), (X + 'xmss_common.c', '    uint32_t i, j;\n    unsigned char buffer[2 * n];', '    uint32_t i;\n    unsigned char buffer[2 * n];'))
r('fast-round-split', 'C10', (X + 'algsxmss_fast.c', '''/**
 * Returns the auth path for node leaf_idx and computes the auth path for the''', '''static void place_left_nodes(bds_state *state, const xmss_params *params, unsigned long leaf_idx, unsigned int tau)
{
    const unsigned int n = params->n, h = params->h, lower = params->h - params->k;
    for (unsigned int level = 0; level < tau; level++) {
        const unsigned char *from = level < lower
            ? state->treehash[level].node
            : state->retain + ((1 << (h - 1 - level)) + level - h + (((leaf_idx >> level) - 1) >> 1)) * n;
        memcpy(state->auth + level * n, from, n);
    }
    const unsigned int top = tau < lower ? tau : lower;
    for (unsigned int level = 0; level < top; level++) {
        const unsigned int startidx = leaf_idx + 1 + 3 * (1 << level);
        if (startidx >= 1U << h) {
            continue;
        }
        treehash_inst *t = state->treehash + level;
        t->completed = 0;
        t->stackusage = 0;
        t->next_idx = startidx;
        t->h = level;
    }
}

/**
 * Returns the auth path for node leaf_idx and computes the auth path for the'''), (X + 'algsxmss_fast.c', '''        for (i = 0; i < tau; i++) {
            if (i < h - k) {
                memcpy(state->auth + i * n, state->treehash[i].node, n);
            }
            else {
                offset = (1 << (h - 1 - i)) + i - h;
                rowidx = ((leaf_idx >> i) - 1) >> 1;
                memcpy(state->auth + i * n, state->retain + (offset + rowidx) * n, n);
            }
        }

        for (i = 0; i < ((tau < h - k) ? tau : (h - k)); i++) {
            startidx = leaf_idx + 1 + 3 * (1 << i);
            if (startidx < 1U << h) {
                state->treehash[i].h = i;
                state->treehash[i].next_idx = startidx;
                state->treehash[i].completed = 0;
                state->treehash[i].stackusage = 0;
            }
        }
''', '''        place_left_nodes(state, params, leaf_idx, tau);
'''), (X + 'algsxmss_fast.c', '''    unsigned int startidx;
    unsigned int offset, rowidx;
    unsigned char buf[2 * n];''', '''    unsigned char buf[2 * n];'''), (X + 'algsxmss_fast.c', '''    unsigned int h = params->h;
    unsigned int k = params->k;

    unsigned int tau = h;''', '''    unsigned int h = params->h;

    unsigned int tau = h;'''))
r('fast-select', 'C10', (X + 'algsxmss_fast.c', '''        l_min = h;
        level = h - k;
        for (i = 0; i < h - k; i++) {
            if (state->treehash[i].completed) {
                low = h;
            }
            else if (state->treehash[i].stackusage == 0) {
                low = i;
            }
            else {
                low = treehash_minheight_on_stack(state, params, &(state->treehash[i]));
            }
            if (low < l_min) {
                level = i;
                l_min = low;
            }
        }
        if (level == h - k) {
            break;
        }
''', '''        l_min = h;
        level = h - k;
        for (i = 0; i < h - k; i++) {
            const treehash_inst *t = &state->treehash[i];
            if (t->completed) {
                continue;
            }
            low = t->stackusage ? treehash_minheight_on_stack(state, params, t) : i;
            if (low >= l_min) {
                continue;
            }
            level = i;
            l_min = low;
        }
        if (level == h - k) {
            return updates - used;
        }
'''))
r('pool-bytes', 'C12', (Q + 'xmssPool.cpp', '''    auto idx = index + 1;
    while (idx > 0) {
        tmp_seed.push_back(static_cast<unsigned char>(idx & 0xFF));
        idx >>= 8;
    }
''', '''    for (auto idx = index + 1; idx != 0; idx /= 256) {
        tmp_seed.emplace_back(static_cast<unsigned char>(idx % 256));
    }
'''))
r('pool-fill', 'C12', (Q + 'xmssPool.cpp', '''    size_t start = _current_index + _cache.size();
    size_t end = _current_index + _pool_size;

    for (size_t i = start; i < end; i++) {
        _cache.push_back(''', '''    while (_cache.size() < _pool_size) {
        const size_t i = _current_index + _cache.size();
        _cache.push_back('''))
r('pool-unique', 'C12', (Q + 'xmssPool.cpp', '''    std::lock_guard<std::mutex> lock(_mutex);

    // front() is undefined on an empty deque, and _cache is always empty when
    // _pool_size is 0.
    if (_cache.empty()) {
        return false;
    }

    return _cache.front().wait_for(std::chrono::seconds(0)) == std::future_status::ready;''', '''    std::unique_lock<std::mutex> guard(_mutex);
    const bool some = !_cache.empty();
    return some && _cache.front().wait_for(std::chrono::milliseconds(0)) == std::future_status::ready;'''))
r('addr-early', 'C14', (Q + 'qrlHelper.h', '''        auto descr = QRLDescriptor::fromExtendedPK(extended_pk);

        if (descr.getAddrFormatType()!=eAddrFormatType::SHA256_2X) {
            throw std::invalid_argument("Address format type not supported");
        }

        const auto descrBytes = descr.getBytes();
        auto address = descrBytes;

        std::vector<uint8_t> hashed_key(ADDRESS_HASH_SIZE, 0);
        picosha2::hash256(extended_pk.begin(), extended_pk.end(), hashed_key.begin(), hashed_key.end());
        address.insert(address.end(), hashed_key.cbegin(), hashed_key.cend());

        std::vector<uint8_t> hashed_key2(ADDRESS_HASH_SIZE, 0);
        picosha2::hash256(address.begin(), address.end(), hashed_key2.begin(), hashed_key2.end());
        address.insert(address.end(), hashed_key2.cend()-4, hashed_key2.cend());
''', '''        auto descr = QRLDescriptor::fromExtendedPK(extended_pk);
        if (descr.getAddrFormatType()!=eAddrFormatType::SHA256_2X) {
            throw std::invalid_argument("Address format type not supported");
        }

        auto address = descr.getBytes();
        std::vector<uint8_t> digest(ADDRESS_HASH_SIZE, 0);
        picosha2::hash256(extended_pk.begin(), extended_pk.end(), digest.begin(), digest.end());
        for (auto b : digest) {
            address.push_back(b);
        }
        picosha2::hash256(address.begin(), address.end(), digest.begin(), digest.end());
        for (size_t i = ADDRESS_HASH_SIZE - 4; i < ADDRESS_HASH_SIZE; i++) {
            address.push_back(digest[i]);
        }
'''))
r('mnem-lookup', 'C16', (Q + 'misc.cpp', '''    int count = 0;
    for (auto &w: wordlist) {
        word_lookup[w] = count++;
    }
''', '''    for (size_t i = 0; i < sizeof(wordlist) / sizeof(wordlist[0]); i++) {
        word_lookup[wordlist[i]] = static_cast<int>(i);
    }
'''))
r('fast-ctor', 'C18 C11', (Q + 'xmssFast.cpp', '''    _stack = std::vector<unsigned char>((_height + 1) * n);
    _stacklevels = std::vector<unsigned char>(_height + 1);
''', '''    const size_t entries = _height + 1;
    _stack.assign(entries * n, 0);
    _stacklevels.assign(entries, 0);
'''), (Q + 'xmssFast.cpp', '''    for (int i = 0; i < _height - k; i++) {
        _treehash[i].node = &_th_nodes[n * i];
    }''', '''    unsigned char *node = _th_nodes.data();
    for (auto &instance : _treehash) {
        instance.node = node;
        node += n;
    }'''))

# the Rust crate's XMSS functions
r('rust-wots-iter', 'C04', (RU + 'xmss_alt/wots.rs', '''    for j in 0..params.n as usize {
        out[j] = input[j];
    }

    for i in start..(min(start + steps, params.w)) {
        set_hash_adrs(addr, i);
''', '''    let n = params.n as usize;
    out[..n].copy_from_slice(&input[..n]);

    let end = min(start + steps, params.w);
    let mut i = start;
    while i < end {
        set_hash_adrs(addr, i);
        i += 1;
'''), (RU + 'xmss_alt/wots.rs', '''    let mut in_ = 0;
    let mut out = 0;
    let mut total = 0;
    let mut bits = 0;

    for _consumed in 0..out_len {
        if bits == 0 {
            total = input[in_];
            in_ += 1;
            bits += 8;
        }
        bits -= params.log_w;
        output[out] = ((total >> bits) as u32 & (params.w - 1)) as i32;
        out += 1;
    }
''', '''    let per_byte = 8 / params.log_w as usize;
    for (i, digit) in output.iter_mut().take(out_len).enumerate() {
        let byte = input[i / per_byte] as u32;
        let shift = 8 - params.log_w * (i % per_byte + 1) as u32;
        *digit = ((byte >> shift) & (params.w - 1)) as i32;
    }
'''))
r('rust-csum', 'C04 C07', (RU + 'xmss_alt/wots.rs', '''    for i in 0..params.len_1 as usize {
        csum += params.w as i32 - 1 - basew[i];
    }
''', '''    for digit in &basew[..params.len_1 as usize] {
        csum += params.w as i32 - 1 - digit;
    }
'''), (RU + 'xmss_alt/wots.rs', '''        let out = pk.get_mut(i * XMSS_N as usize..pk.len()).unwrap();
        let input = sig.get(i * XMSS_N as usize..sig.len()).unwrap();
''', '''        let from = i * XMSS_N as usize;
        let out = &mut pk[from..];
        let input = &sig[from..];
'''))
r('rust-ltree', 'C06 C07', (RU + 'xmss_alt/xmss_common.rs', '''            let wots_pk_length = wots_pk.len();
            let mut input = Vec::new();
            input.extend(wots_pk.get((i * 2 * n) as usize..wots_pk_length).unwrap());
            let out = wots_pk.get_mut((i * n) as usize..wots_pk_length).unwrap();
            hash_h(hash_func, out, &input, pub_seed, addr, n);
''', '''            let from = (i * 2 * n) as usize;
            let pair = wots_pk[from..from + 2 * n as usize].to_vec();
            let to = (i * n) as usize;
            hash_h(hash_func, &mut wots_pk[to..to + n as usize], &pair, pub_seed, addr, n);
'''), (RU + 'xmss_alt/xmss_common.rs', '''            l = (l >> 1) + 1;
        } else {
            l = l >> 1;
        }
''', '''        }
        l = (l + 1) >> 1;
'''))
r('rust-authpath', 'C07', (RU + 'xmss_alt/xmss_common.rs', '''    if (leafidx & 1) != 0 {
        for j in 0..n as usize {
            buffer[n as usize + j] = leaf[j];
        }
        for j in 0..n as usize {
            buffer[j] = authpath[j];
        }
    } else {
        for j in 0..n as usize {
            buffer[j] = leaf[j];
        }
        for j in 0..n as usize {
            buffer[n as usize + j] = authpath[j];
        }
    }
''', '''    let nn = n as usize;
    let (left, right) = if (leafidx & 1) != 0 { (&authpath[..nn], &leaf[..nn]) } else { (&leaf[..nn], &authpath[..nn]) };
    buffer[..nn].copy_from_slice(left);
    buffer[nn..].copy_from_slice(right);
'''))
r('rust-treehash', 'C06 C09', (RU + 'xmss_alt/algsxmss.rs', '''            let mut input = vec![0 as u8; stack_length - ((stackoffset - 2) * n) as usize];
            input.copy_from_slice(
                stack
                    .get(((stackoffset - 2) * n) as usize..stack_length)
                    .unwrap(),
            );
            let out = stack
                .get_mut(((stackoffset - 2) * n) as usize..stack_length)
                .unwrap();
''', '''            let at = ((stackoffset - 2) * n) as usize;
            let input = stack[at..at + 2 * n as usize].to_vec();
            let out = &mut stack[at..at + n as usize];
'''), (RU + 'xmss_alt/algsxmss.rs', '''    for i in 0..n as usize {
        node[i] = stack[i];
    }
''', '''    node[..n as usize].copy_from_slice(&stack[..n as usize]);
'''))
r('rust-fast', 'C10', (RU + 'xmss_alt/algsxmss_fast.rs', '''    for i in 0..h {
        if ((leaf_idx >> i) & 1) == 0 {
            tau = i;
            break;
        }
    }
''', '''    if let Some(i) = (0..h).find(|i| ((leaf_idx >> i) & 1) == 0) {
        tau = i;
    }
'''), (RU + 'xmss_alt/algsxmss_fast.rs', '''    let mut r = params.h;
    for i in 0..treehash.stackusage {
        if (state.stacklevels[(state.stackoffset - i - 1) as usize] as u32) < r {
            r = state.stacklevels[(state.stackoffset - i - 1) as usize] as u32;
        }
    }
    return r;
''', '''    let top = state.stackoffset as usize;
    state.stacklevels[top - treehash.stackusage as usize..top]
        .iter()
        .map(|l| *l as u32)
        .fold(params.h, |a, b| if b < a { b } else { a })
'''))
r('rust-corehash', 'C02', (RU + 'xmss_alt/hash.rs', '''    for i in 0..keylen as usize {
        buf[i + n as usize] = key[i];
    }

    for i in 0..inlen {
        buf[(keylen + n + i) as usize] = input[i as usize];
    }
''', '''    let (k, m) = (n as usize, (n + keylen) as usize);
    buf[k..m].copy_from_slice(&key[..keylen as usize]);
    buf[m..].copy_from_slice(&input[..inlen as usize]);
'''))
