// Tall trees in bounded native runs: the library's own signers over cheap stand-ins for hash.c, wots.c and fips202.c (these have contracts of their own),
// compared with a full tree computed here.  usage: tall MODE HEIGHT W HASH SEED ARGS...   prints "ok N" or "bad <text>"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <random>
#include <xmss-alt/eHashFunctions.h>
#include <xmss-alt/fips202.h>
#include <xmss-alt/hash.h>
#include <xmss-alt/wots.h>
#include <xmss-alt/algsxmss.h>
#include <qrl/xmssBasic.h>
#include <qrl/xmssFast.h>

typedef std::vector<unsigned char> V;
static void mix(unsigned char *out, unsigned long long ol, const unsigned char *in, unsigned long long n, uint64_t tag) {
    uint64_t a = 0x9e3779b97f4a7c15ull * (n + 1) + tag, b = 0xd1342543de82ef95ull ^ tag;
    while (n >= 8) {
        uint64_t x;
        memcpy(&x, in, 8);
        a = (a ^ x) * 0xff51afd7ed558ccdull;
        a ^= a >> 32;
        b += a;
        b = (b << 23 | b >> 41) * 0x9fb21c651e98df25ull;
        in += 8;
        n -= 8;
    }
    uint64_t x = n;
    for (unsigned i = 0; i < n; i++) x = x << 8 | in[i];
    a = (a ^ x) * 0xff51afd7ed558ccdull;
    a ^= a >> 29;
    b += a;
    for (uint64_t c = 0; ol; c++) {
        uint64_t y = (a + c * 0x9e3779b97f4a7c15ull) ^ b;
        y = (y ^ (y >> 33)) * 0xff51afd7ed558ccdull;
        y = (y ^ (y >> 29)) * 0xc4ceb9fe1a85ec53ull;
        y ^= y >> 32;
        unsigned k = ol < 8 ? (unsigned) ol : 8;
        memcpy(out, &y, k);
        out += k;
        ol -= k;
    }
}
typedef const unsigned char *P;
// a hash of up to four parts; stands for prf, h_msg, hash_h and the one-time signature functions, whose own contracts are C02, C04, C05
static void cheap(unsigned char *o, unsigned n, uint64_t tag, P a, size_t al, P b, size_t bl, P c, size_t cl, const uint32_t *adrs) {
    unsigned char t[1024];
    memcpy(t, a, al);
    memcpy(t + al, b, bl);
    memcpy(t + al + bl, c, cl);
    size_t k = al + bl + cl;
    if (adrs) memcpy(t + k, adrs, 28), k += 28;
    mix(o, n, t, k, tag);
}
void shake128(unsigned char *o, unsigned long long ol, P i, unsigned long long il) { mix(o, ol, i, il, 128); }
void shake256(unsigned char *o, unsigned long long ol, P i, unsigned long long il) { mix(o, ol, i, il, 256); }
extern "C" void verif_sha256(unsigned char *o, P i, size_t n) { mix(o, 32, i, n, 2); }
unsigned char *addr_to_byte(unsigned char *b, const uint32_t a[8]) {
    for (int i = 0; i < 32; i++) b[i] = (unsigned char) (a[i / 4] >> (24 - 8 * (i % 4)));
    return b;
}
int prf(eHashFunction f, unsigned char *o, P in, P key, unsigned kl) { cheap(o, 32, 3 + 8 * (int) f, key, kl, in, 32, in, 0, nullptr); return 0; }
int h_msg(eHashFunction f, unsigned char *o, P in, unsigned long long il, P key, unsigned kl, unsigned n) { cheap(o, n, 2 + 8 * (int) f, key, kl, in, il, in, 0, nullptr); return 0; }
int hash_h(eHashFunction f, unsigned char *o, P in, P ps, uint32_t a[8], unsigned n) {
    cheap(o, n, 1 + 8 * (int) f, in, 2 * n, ps, n, ps, 0, a);
    a[7] = 2;
    return 0;
}
static void wparams(wots_params *p, int n, int w) {
    memset(p, 0, sizeof *p);
    p->w = w;
    p->n = n;
    p->log_w = w == 2 ? 1 : w == 4 ? 2 : w == 16 ? 4 : 8;
    p->len_1 = 8 * n / p->log_w;
    p->len_2 = 1;
    for (long long m = (long long) p->len_1 * (w - 1), q = w; q <= m; q *= w) p->len_2++;
    p->len = p->len_1 + p->len_2;
    p->keysize = p->len * n;
}
void wots_set_params(wots_params *p, int n, int w) { wparams(p, n, w); }
static void wpk(eHashFunction f, unsigned char *pk, P sk, unsigned len, P ps, const uint32_t *a) { cheap(pk, 32 * len, 4 + 8 * (int) f, sk, 32, ps, 32, ps, 0, a); }
static void wsig(eHashFunction f, unsigned char *sig, P msg, P sk, unsigned len, P ps, const uint32_t *a) { cheap(sig, 32 * len, 5 + 8 * (int) f, sk, 32, ps, 32, msg, 32, a); }
static void after(uint32_t *a, unsigned len) { a[5] = len - 1, a[6] = 14, a[7] = 1; }
void wots_pkgen(eHashFunction f, unsigned char *pk, P sk, const wots_params *p, P ps, uint32_t a[8]) { a[5] = a[6] = a[7] = 0; wpk(f, pk, sk, p->len, ps, a); after(a, p->len); }
void wots_sign(eHashFunction f, unsigned char *sig, P msg, P sk, const wots_params *p, P ps, uint32_t a[8]) { a[5] = a[6] = a[7] = 0; wsig(f, sig, msg, sk, p->len, ps, a); after(a, p->len); }
void wots_pkFromSig(eHashFunction, unsigned char *, P, P, const wots_params *, P, uint32_t[8]) { abort(); }
extern "C" void verif_random(unsigned char *o, size_t n) { memset(o, 7, n); }

namespace ref {
int H, W, LEN, FN;
struct B { unsigned char b[32]; };
struct A { uint32_t w[8]; };
B sk_seed, sk_prf, seed, root;
std::vector<std::vector<B>> tree;
void num(unsigned char *o, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--, v >>= 8) o[i] = (unsigned char) v; }
B HH(const A &a, const B &x, const B &y) {
    B r;
    cheap(r.b, 32, 1 + 8 * FN, x.b, 32, y.b, 32, seed.b, 32, a.w);
    return r;
}
B node(int level, uint32_t i, const B &x, const B &y) { return HH(A{{0, 0, 0, 2, 0, (uint32_t) level, i, 0}}, x, y); }
B ots(uint32_t idx) {
    unsigned char t[32] = {0};
    num(t + 16, idx, 4);
    B r;
    cheap(r.b, 32, 3 + 8 * FN, sk_seed.b, 32, t, 32, t, 0, nullptr);
    return r;
}
B leaf(uint32_t idx) {
    uint32_t a[8] = {0, 0, 0, 0, idx, 0, 0, 0};
    std::vector<B> x(LEN);
    wpk((eHashFunction) FN, x[0].b, ots(idx).b, LEN, seed.b, a);
    for (uint32_t h = 0, n = LEN; n > 1; h++, n = (n + 1) / 2) {
        for (uint32_t i = 0; i < n / 2; i++) x[i] = HH(A{{0, 0, 0, 1, idx, h, i, 0}}, x[2 * i], x[2 * i + 1]);
        if (n & 1) x[n / 2] = x[n - 1];
    }
    return x[0];
}
void make(int h, int w, int fn, const V &s48) {
    H = h;
    W = w;
    FN = fn;
    wots_params p;
    wparams(&p, 32, w);
    LEN = p.len;
    unsigned char r[96];
    mix(r, 96, s48.data(), 48, 256);
    memcpy(sk_seed.b, r, 32);
    memcpy(sk_prf.b, r + 32, 32);
    memcpy(seed.b, r + 64, 32);
    tree.assign(h + 1, {});
    tree[0].resize((size_t) 1 << h);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([=] { for (uint32_t i = t; i < (1u << h); i += 4) tree[0][i] = leaf(i); });
    for (auto &t : ts) t.join();
    for (int l = 0; l < h; l++) {
        tree[l + 1].resize(tree[l].size() / 2);
        for (uint32_t i = 0; i < tree[l + 1].size(); i++) tree[l + 1][i] = node(l, i, tree[l][2 * i], tree[l][2 * i + 1]);
    }
    root = tree[h][0];
}
V key(uint32_t idx) {
    V r(4);
    num(r.data(), idx, 4);
    for (const B *p : {&sk_seed, &sk_prf, &seed, &root}) r.insert(r.end(), p->b, p->b + 32);
    return r;
}
V sign(uint32_t idx, const V &m) {
    unsigned char t[32], d[32], k[96];
    num(t, idx, 32);
    B R, o = ots(idx);
    cheap(R.b, 32, 3 + 8 * FN, sk_prf.b, 32, t, 32, t, 0, nullptr);
    V s(36 + 32 * LEN);
    num(s.data(), idx, 4);
    memcpy(&s[4], R.b, 32);
    memcpy(k, R.b, 32);
    memcpy(k + 32, root.b, 32);
    memcpy(k + 64, t, 32);
    cheap(d, 32, 2 + 8 * FN, k, 96, m.data(), m.size(), k, 0, nullptr);
    uint32_t a[8] = {0, 0, 0, 0, idx, 0, 0, 0};
    wsig((eHashFunction) FN, &s[36], d, o.b, LEN, seed.b, a);
    for (int l = 0; l < H; l++) {
        const B &b = tree[l][(idx >> l) ^ 1];
        s.insert(s.end(), b.b, b.b + 32);
    }
    return s;
}
}  // namespace ref

// the library's fast signer on the C level, so that any Winternitz width can be used
struct Fast {
    xmss_params p{};
    bds_state st;
    V sk = V(132), pk = V(64), stack, levels, auth, keep, nodes, retain;
    std::vector<treehash_inst> th;
    eHashFunction f;
    Fast(V s, int h, int w, eHashFunction f) : stack((h + 1) * 32), levels(h + 1), auth(h * 32), keep((h / 2) * 32), nodes((h - 2) * 32), retain(32), th(h - 2), f(f) {
        xmss_set_params(&p, 32, h, w, 2);
        for (int i = 0; i < h - 2; i++) th[i].node = &nodes[32 * i];
        xmss_set_bds_state(&st, stack.data(), 0, levels.data(), auth.data(), keep.data(), th.data(), retain.data(), 0);
        xmssfast_Genkeypair(f, &p, pk.data(), sk.data(), &st, s.data());
    }
    uint32_t index() { return (uint32_t) sk[0] << 24 | sk[1] << 16 | sk[2] << 8 | sk[3]; }
    void move(uint32_t i) { xmssfast_update(f, &p, sk.data(), &st, i); }
    V sign(V m) {
        V o(36 + 32 * ref::LEN + 32 * ref::H, 0x5a);
        move(index());
        xmssfast_Signmsg(f, &p, sk.data(), &st, o.data(), m.data(), m.size());
        return o;
    }
};

#define BAD(...) do { printf("bad " __VA_ARGS__); printf("\n"); return 0; } while (0)
static long first(const V &a, const V &b) {
    if (a.size() != b.size()) return -1;
    for (size_t i = 0; i < a.size(); i++)
        if (a[i] != b[i]) return (long) i;
    return -2;
}
int main(int argc, char **argv) {
    std::string mode = argv[1];
    int h = atoi(argv[2]), w = atoi(argv[3]), fn = atoi(argv[4]);
    unsigned sd = (unsigned) atoi(argv[5]);
    std::mt19937 rng(sd);
    V s(48);
    for (auto &c : s) c = (unsigned char) rng();
    ref::make(h, w, fn, s);
    eHashFunction f = (eHashFunction) fn;
    long n = 0;
    uint32_t N = 1u << h;
    try {
        if (mode == "fastkey") {
            Fast x(s, h, w, f);
            if (x.sk != ref::key(0)) BAD("fast key generation: secret key differs at byte %ld", first(x.sk, ref::key(0)));
            n++;
        } else if (mode == "key") {
            XmssBasic x(s, (unsigned char) h, f, eAddrFormatType::SHA256_2X, w);
            if (x.getSK() != ref::key(0)) BAD("basic key generation: secret key differs at byte %ld", first(x.getSK(), ref::key(0)));
            n++;
        } else if (mode == "sign") {   // indices as arguments; key taken from the reference
            for (int a = 6; a < argc; a++) {
                uint32_t idx = (uint32_t) strtoul(argv[a], nullptr, 0);
                xmss_params p{};
                xmss_set_params(&p, 32, h, w, 2);
                V sk = ref::key(idx), m(idx % 77, (unsigned char) idx), sig(36 + 32 * ref::LEN + 32 * h, 0xa5);
                xmss_Signmsg(f, &p, sk.data(), sig.data(), m.data(), m.size());
                V want = ref::sign(idx, m);
                if (sig != want) BAD("basic signature of index %u differs at byte %ld", idx, first(sig, want));
                if (sk != ref::key(idx + 1)) BAD("secret key after basic signature of index %u differs at byte %ld", idx, first(sk, ref::key(idx + 1)));
                n++;
            }
        } else if (mode == "walk" || mode == "object") {   // sN: N signatures; mI: move to index I; rN: N random steps
            Fast *x = mode == "walk" ? new Fast(s, h, w, f) : nullptr;
            XmssFast *y = x ? nullptr : new XmssFast(s, (unsigned char) h, f);
            uint32_t pos = 0;
            for (int a = 6; a < argc; a++) {
                long c = atol(argv[a] + 1);
                long cnt = argv[a][0] == 'm' ? 1 : c;
                for (long q = 0; q < cnt; q++) {
                    char op = argv[a][0];
                    uint32_t to = (uint32_t) c;
                    if (op == 'r') {
                        op = rng() & 1 ? 's' : 'm';
                        to = pos + rng() % (rng() % 8 ? 6 : N / 16);
                    }
                    if (op == 'm' && (to >= N || to < pos)) continue;
                    if (op == 's' && pos >= N) break;
                    if (op == 'm') {
                        if (x) x->move(to);
                        else y->setIndex(to);
                        pos = to;
                        if ((x ? x->index() : y->getIndex()) != to) BAD("moved to index %u: index %u", to, x ? x->index() : y->getIndex());
                    } else {
                        V m(pos % 77, (unsigned char) n);
                        V sg = x ? x->sign(m) : y->sign(m), want = ref::sign(pos, m);
                        if (sg != want) BAD("fast signature of index %u differs at byte %ld (argument %s)", pos, first(sg, want), argv[a]);
                        pos++;
                        if ((x ? x->sk : y->getSK()) != ref::key(pos)) BAD("secret key after fast signature of index %u", pos - 1);
                        n++;
                    }
                }
            }
        }
    } catch (std::exception &e) {
        BAD("exception %s", e.what());
    }
    printf("ok %ld\n", n);
}
