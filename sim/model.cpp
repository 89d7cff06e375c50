#include "model.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>

// ------------------------------------------------------------------ patterns, written out from the specification
static std::vector<Pattern> g_pat;
static void addp(const char *name, int id, const char *spec, bool pis, bool prs, bool oneway, bool fallback = false) {
    Pattern p; p.name = name; p.id = id; p.pre_is = pis; p.pre_rs = prs; p.oneway = oneway; p.fallback = fallback; p.hfs = false;
    std::vector<MTok> cur; Str s = spec; size_t i = 0;
    while (i <= s.size()) {
        size_t e = s.find(' ', i); if (e == Str::npos) e = s.size();
        Str t = s.substr(i, e - i); i = e + 1;
        if (t == "/") { p.msgs.push_back(cur); cur.clear(); }
        else if (t == "e") cur.push_back(T_E); else if (t == "s") cur.push_back(T_S);
        else if (t == "ee") cur.push_back(T_EE); else if (t == "es") cur.push_back(T_ES);
        else if (t == "se") cur.push_back(T_SE); else if (t == "ss") cur.push_back(T_SS);
        else if (t == "f") { cur.push_back(T_F); p.hfs = true; } else if (t == "ff") cur.push_back(T_FF);
    }
    p.msgs.push_back(cur); g_pat.push_back(p);
}
const std::vector<Pattern> &patterns() {
    if (!g_pat.empty()) return g_pat;
    // name, id, messages, initiator static known, responder static known, one way
    addp("NN", NOISE_PATTERN_NN, "e / e ee", 0, 0, 0);
    addp("XX", NOISE_PATTERN_XX, "e / e ee s es / s se", 0, 0, 0);
    addp("IK", NOISE_PATTERN_IK, "e es s ss / e ee se", 0, 1, 0);
    addp("N", NOISE_PATTERN_N, "e es", 0, 1, 1);
    addp("K", NOISE_PATTERN_K, "e es ss", 1, 1, 1);
    addp("X", NOISE_PATTERN_X, "e es s ss", 0, 1, 1);
    addp("NK", NOISE_PATTERN_NK, "e es / e ee", 0, 1, 0);
    addp("NX", NOISE_PATTERN_NX, "e / e ee s es", 0, 0, 0);
    addp("XN", NOISE_PATTERN_XN, "e / e ee / s se", 0, 0, 0);
    addp("XK", NOISE_PATTERN_XK, "e es / e ee / s se", 0, 1, 0);
    addp("KN", NOISE_PATTERN_KN, "e / e ee se", 1, 0, 0);
    addp("KK", NOISE_PATTERN_KK, "e es ss / e ee se", 1, 1, 0);
    addp("KX", NOISE_PATTERN_KX, "e / e ee se s es", 1, 0, 0);
    addp("IN", NOISE_PATTERN_IN, "e s / e ee se", 0, 0, 0);
    addp("IX", NOISE_PATTERN_IX, "e s / e ee se s es", 0, 0, 0);
    addp("Xnoidh", NOISE_PATTERN_X_NOIDH, "e s es ss", 0, 1, 1);
    addp("NXnoidh", NOISE_PATTERN_NX_NOIDH, "e / e s ee es", 0, 0, 0);
    addp("XXnoidh", NOISE_PATTERN_XX_NOIDH, "e / e s ee es / s se", 0, 0, 0);
    addp("KXnoidh", NOISE_PATTERN_KX_NOIDH, "e / e s ee se es", 1, 0, 0);
    addp("IKnoidh", NOISE_PATTERN_IK_NOIDH, "e s es ss / e ee se", 0, 1, 0);
    addp("IXnoidh", NOISE_PATTERN_IX_NOIDH, "e s / e s ee se es", 0, 0, 0);
    addp("NNhfs", NOISE_PATTERN_NN_HFS, "e f / e f ee ff", 0, 0, 0);
    addp("NKhfs", NOISE_PATTERN_NK_HFS, "e f es / e f ee ff", 0, 1, 0);
    addp("NXhfs", NOISE_PATTERN_NX_HFS, "e f / e f ee ff s es", 0, 0, 0);
    addp("XNhfs", NOISE_PATTERN_XN_HFS, "e f / e f ee ff / s se", 0, 0, 0);
    addp("XKhfs", NOISE_PATTERN_XK_HFS, "e f es / e f ee ff / s se", 0, 1, 0);
    addp("XXhfs", NOISE_PATTERN_XX_HFS, "e f / e f ee ff s es / s se", 0, 0, 0);
    addp("KNhfs", NOISE_PATTERN_KN_HFS, "e f / e f ee ff se", 1, 0, 0);
    addp("KKhfs", NOISE_PATTERN_KK_HFS, "e f es ss / e f ee ff se", 1, 1, 0);
    addp("KXhfs", NOISE_PATTERN_KX_HFS, "e f / e f ee ff se s es", 1, 0, 0);
    addp("INhfs", NOISE_PATTERN_IN_HFS, "e f s / e f ee ff se", 0, 0, 0);
    addp("IKhfs", NOISE_PATTERN_IK_HFS, "e f es s ss / e f ee ff se", 0, 1, 0);
    addp("IXhfs", NOISE_PATTERN_IX_HFS, "e f s / e f ee ff se s es", 0, 0, 0);
    addp("NXnoidh+hfs", NOISE_PATTERN_NX_NOIDH_HFS, "e f / e f s ee ff es", 0, 0, 0);
    addp("XXnoidh+hfs", NOISE_PATTERN_XX_NOIDH_HFS, "e f / e f s ee ff es / s se", 0, 0, 0);
    addp("KXnoidh+hfs", NOISE_PATTERN_KX_NOIDH_HFS, "e f / e f s ee ff se es", 1, 0, 0);
    addp("IKnoidh+hfs", NOISE_PATTERN_IK_NOIDH_HFS, "e f s es ss / e f ee ff se", 0, 1, 0);
    addp("IXnoidh+hfs", NOISE_PATTERN_IX_NOIDH_HFS, "e f s / e f s ee ff se es", 0, 0, 0);
    // fallback: the responder of the abandoned handshake is the initiator here
    addp("XXfallback", NOISE_PATTERN_XX_FALLBACK, "e ee s se / s es", 0, 0, 0, true);
    addp("XXfallback+hfs", NOISE_PATTERN_XX_FALLBACK_HFS, "e f ee ff s se / s es", 0, 0, 0, true);
    return g_pat;
}
const Pattern *pattern_by_id(int id) { for (auto &p : patterns()) if (p.id == id) return &p; return 0; }
const Pattern *pattern_by_name(const Str &n) { for (auto &p : patterns()) if (p.name == n) return &p; return 0; }
bool Pattern::sends_s(bool ini) const { for (size_t i = 0; i < msgs.size(); ++i) if ((i % 2 == 0) == ini) for (auto t : msgs[i]) if (t == T_S) return true; return false; }
bool Pattern::needs_static(bool ini) const { return (ini ? pre_is : pre_rs) || sends_s(ini); }

Str Suite::name() const {
    static const char *dhn[] = {"", "25519", "448", "NewHope"};
    static const char *cn[] = {"ChaChaPoly", "AESGCM"};
    static const char *hn[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"};
    Str r = psk ? "NoisePSK_" : "Noise_";
    r += pattern_by_id(pattern)->name; r += "_"; r += dhn[dh]; if (hybrid) { r += "+"; r += dhn[hybrid]; }
    r += "_"; r += cn[cipher]; r += "_"; r += hn[hash];
    return r;
}
NoiseProtocolId Suite::id() const {
    static const int dhi[] = {0, NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE};
    static const int ci[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM};
    static const int hi[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512};
    NoiseProtocolId i; memset(&i, 0, sizeof i);
    i.prefix_id = psk ? NOISE_PREFIX_PSK : NOISE_PREFIX_STANDARD; i.pattern_id = pattern; i.dh_id = dhi[dh]; i.hybrid_id = dhi[hybrid]; i.cipher_id = ci[cipher]; i.hash_id = hi[hash];
    return i;
}

// ------------------------------------------------------------------ primitives
size_t dh_publen(int dh, bool alice) { return dh == D_25519 ? 32 : dh == D_448 ? 56 : dh == D_NEWHOPE ? (alice ? 1824 : 2048) : 0; }
size_t hash_len(int h) { return h == H_B2S || h == H_SHA256 ? 32 : 64; }
static const EVP_MD *md(int h) {
    static const EVP_MD *m[4];
    if (!m[h]) m[h] = h == H_B2S ? EVP_blake2s256() : h == H_B2B ? EVP_blake2b512() : h == H_SHA256 ? EVP_sha256() : EVP_sha512();
    return m[h];
}
static EVP_MD_CTX *g_mdctx;
Bytes m_hash(int h, const Bytes &a, const Bytes &b) {
    if (!g_mdctx) g_mdctx = EVP_MD_CTX_new();
    Bytes o(hash_len(h)); unsigned l;
    EVP_DigestInit_ex(g_mdctx, md(h), 0); EVP_DigestUpdate(g_mdctx, a.data(), a.size()); EVP_DigestUpdate(g_mdctx, b.data(), b.size()); EVP_DigestFinal_ex(g_mdctx, o.data(), &l);
    return o;
}
Bytes m_hmac(int h, const Bytes &key, const Bytes &data) {
    size_t bl = (h == H_B2S || h == H_SHA256) ? 64 : 128;
    Bytes k = key; if (k.size() > bl) k = m_hash(h, k);
    k.resize(bl); Bytes i = k, o = k; for (auto &x : i) x ^= 0x36; for (auto &x : o) x ^= 0x5c;
    return m_hash(h, o, m_hash(h, i, data));
}
void m_hkdf(int h, const Bytes &ck, const Bytes &in, Bytes &o1, Bytes &o2) {
    Bytes t = m_hmac(h, ck, in); Bytes one(1, 1); o1 = m_hmac(h, t, one); Bytes d = o1; d.push_back(2); o2 = m_hmac(h, t, d);
}
static Bytes nonce_for(int c, uint64_t n) {
    Bytes iv(12, 0); for (int i = 0; i < 8; ++i) iv[4 + i] = c == C_CHACHA ? (uint8_t)(n >> (8 * i)) : (uint8_t)(n >> (8 * (7 - i)));
    return iv;
}
static EVP_CIPHER_CTX *g_cctx;
Bytes m_aead_enc(int c, const Bytes &k, uint64_t n, const Bytes &ad, const Bytes &pt) {
    if (!g_cctx) g_cctx = EVP_CIPHER_CTX_new();
    Bytes iv = nonce_for(c, n), out(pt.size() + 16); int l, l2; uint8_t dummy[1];
    EVP_EncryptInit_ex(g_cctx, c == C_CHACHA ? EVP_chacha20_poly1305() : EVP_aes_256_gcm(), 0, k.data(), iv.data());
    if (!ad.empty()) EVP_EncryptUpdate(g_cctx, 0, &l, ad.data(), ad.size());
    l = 0; if (!pt.empty()) EVP_EncryptUpdate(g_cctx, out.data(), &l, pt.data(), pt.size());
    EVP_EncryptFinal_ex(g_cctx, dummy, &l2);
    EVP_CIPHER_CTX_ctrl(g_cctx, EVP_CTRL_AEAD_GET_TAG, 16, out.data() + pt.size());
    return out;
}
bool m_aead_dec(int c, const Bytes &k, uint64_t n, const Bytes &ad, const Bytes &ct, Bytes &pt) {
    if (ct.size() < 16) return false;
    if (!g_cctx) g_cctx = EVP_CIPHER_CTX_new();
    Bytes iv = nonce_for(c, n); size_t pl = ct.size() - 16; Bytes o(pl); int l, l2; uint8_t dummy[16];
    EVP_DecryptInit_ex(g_cctx, c == C_CHACHA ? EVP_chacha20_poly1305() : EVP_aes_256_gcm(), 0, k.data(), iv.data());
    EVP_CIPHER_CTX_ctrl(g_cctx, EVP_CTRL_AEAD_SET_TAG, 16, (void *)(ct.data() + pl));
    if (!ad.empty()) EVP_DecryptUpdate(g_cctx, 0, &l, ad.data(), ad.size());
    if (pl) EVP_DecryptUpdate(g_cctx, o.data(), &l, ct.data(), pl);
    if (EVP_DecryptFinal_ex(g_cctx, dummy, &l2) <= 0) return false;
    pt = o; return true;
}
Bytes m_pbkdf2(int h, const Bytes &pass, const Bytes &salt, unsigned iter, size_t len) {
    Bytes o(len); PKCS5_PBKDF2_HMAC((const char *)pass.data(), pass.size(), salt.data(), salt.size(), iter, md(h), len, o.data()); return o;
}
static std::map<std::pair<int, Bytes>, Bytes> g_pubcache;
static std::map<std::pair<Bytes, Bytes>, Bytes> g_dhcache;    // both sides of an exchange compute the same value
static Bytes raw_pub(int type, const Bytes &priv) {
    auto it = g_pubcache.find({type, priv}); if (it != g_pubcache.end()) return it->second;
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(type, 0, priv.data(), priv.size()); if (!k) harness_error("raw private key");
    size_t l = 0; EVP_PKEY_get_raw_public_key(k, 0, &l); Bytes o(l); EVP_PKEY_get_raw_public_key(k, o.data(), &l); EVP_PKEY_free(k); g_pubcache[{type, priv}] = o; return o;
}
Bytes m_ed25519_pub(const Bytes &seed) { return raw_pub(EVP_PKEY_ED25519, seed); }
// X25519/X448 of OpenSSL refuse an all-zero result; noise-c permits it, so give zeros in that case
static Bytes raw_dh(int type, const Bytes &priv, const Bytes &pub) {
    EVP_PKEY *a = EVP_PKEY_new_raw_private_key(type, 0, priv.data(), priv.size()), *b = EVP_PKEY_new_raw_public_key(type, 0, pub.data(), pub.size());
    Bytes o(pub.size(), 0); size_t l = o.size();
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(a, 0);
    if (EVP_PKEY_derive_init(c) <= 0 || EVP_PKEY_derive_set_peer_ex(c, b, 0) <= 0 || EVP_PKEY_derive(c, o.data(), &l) <= 0) std::fill(o.begin(), o.end(), 0);
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(a); EVP_PKEY_free(b); return o;
}
bool MKey::null_pub() const { for (auto x : pub) if (x) return false; return true; }

// NewHope has no independent implementation here: the library's own object is used as a black box
static NoiseDHState *nh_state(bool alice) {
    NoiseDHState *d = 0; Api *a = &API[BE_REF];
    std::set<uint64_t> fa; fa.swap(HEAP.fail_at); uint64_t ff = HEAP.fail_from, al = HEAP.allocs, fd = HEAP.failed; HEAP.fail_from = 0;
    CALL(a, noise_dhstate_new_by_id, &d, NOISE_DH_NEWHOPE);
    CALL(a, noise_dhstate_set_role, d, alice ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER);
    HEAP.fail_at.swap(fa); HEAP.fail_from = ff; HEAP.allocs = al; HEAP.failed = fd;
    return d;
}
static Bytes nh_pub(const Bytes &seed, bool alice, const Bytes *alice_pub, Bytes *shared) {
    Api *a = &API[BE_REF]; NoiseDHState *d = nh_state(alice);
    bool sc = HEAP.scan; HEAP.scan = false;
    CALL(a, noise_dhstate_set_keypair_private, d, seed.data(), seed.size());
    if (!alice && alice_pub) {
        NoiseDHState *o = nh_state(true); Bytes sh(32);
        CALL(a, noise_dhstate_set_public_key, o, alice_pub->data(), alice_pub->size());
        CALL(a, noise_dhstate_calculate, d, o, sh.data(), sh.size());
        CALL(a, noise_dhstate_free, o); if (shared) *shared = sh;
    }
    Bytes pub(dh_publen(D_NEWHOPE, alice)), priv(alice ? 64 : 32);
    CALL(a, noise_dhstate_get_keypair, d, priv.data(), priv.size(), pub.data(), pub.size());
    CALL(a, noise_dhstate_free, d);
    HEAP.scan = sc;
    return pub;
}
static Bytes nh_shared(const MKey &priv, const MKey &pub) {
    Bytes sh(32); Api *a = &API[BE_REF];
    if (!priv.alice) { nh_pub(priv.priv, false, &pub.pub, &sh); return sh; }
    bool sc = HEAP.scan; HEAP.scan = false;
    NoiseDHState *d = nh_state(true), *o = nh_state(false);
    CALL(a, noise_dhstate_set_keypair_private, d, priv.priv.data(), priv.priv.size());
    CALL(a, noise_dhstate_set_public_key, o, pub.pub.data(), pub.pub.size());
    CALL(a, noise_dhstate_calculate, d, o, sh.data(), sh.size());
    CALL(a, noise_dhstate_free, d); CALL(a, noise_dhstate_free, o);
    HEAP.scan = sc;
    return sh;
}
MKey mkey_from_priv(int dh, const Bytes &priv, bool alice, const Bytes *alice_pub) {
    MKey k; k.dh = dh; k.has_priv = k.has_pub = true; k.priv = priv; k.alice = alice;
    if (dh == D_25519) k.pub = raw_pub(EVP_PKEY_X25519, priv);
    else if (dh == D_448) k.pub = raw_pub(EVP_PKEY_X448, priv);
    else {
        Bytes ck = priv; ck.push_back(alice); if (alice_pub) ck.insert(ck.end(), alice_pub->begin(), alice_pub->end());
        auto it = g_pubcache.find({-1, ck});
        if (it != g_pubcache.end()) k.pub = it->second; else g_pubcache[{-1, ck}] = k.pub = nh_pub(priv, alice, alice_pub, 0);
    }
    return k;
}
MKey mkey_from_pub(int dh, const Bytes &pub, bool alice) { MKey k; k.dh = dh; k.has_pub = true; k.pub = pub; k.alice = alice; return k; }
bool m_dh(const MKey &a, const MKey &b, Bytes &sh) {
    if (!a.has_priv || !b.has_pub) return false;
    if (b.null_pub()) { sh = Bytes(a.dh == D_NEWHOPE ? 32 : dh_publen(a.dh), 0); return true; }
    auto key = std::make_pair(std::min(a.pub, b.pub), std::max(a.pub, b.pub));
    auto it = g_dhcache.find(key); if (it != g_dhcache.end()) { sh = it->second; return true; }
    if (a.dh == D_25519) sh = raw_dh(EVP_PKEY_X25519, a.priv, b.pub);
    else if (a.dh == D_448) sh = raw_dh(EVP_PKEY_X448, a.priv, b.pub);
    else sh = nh_shared(a, b);
    g_dhcache[key] = sh;
    return true;
}

// ------------------------------------------------------------------ symmetric state
void MSym::init(const Suite &s) {
    hash = s.hash; cipher = s.cipher; Str nm = s.name(); Bytes b(nm.begin(), nm.end());
    if (b.size() <= hash_len(hash)) { b.resize(hash_len(hash)); h = b; } else h = m_hash(hash, b);
    ck = h; has_key = false; n = 0; k.clear();
}
void MSym::mix_hash(const Bytes &d) { h = m_hash(hash, h, d); }
void MSym::mix_key(const Bytes &d) { Bytes a, b; m_hkdf(hash, ck, d, a, b); ck = a; b.resize(32); k = b; n = 0; has_key = true; }
void MSym::mix_psk(const Bytes &d) { Bytes a, b; m_hkdf(hash, ck, d, a, b); ck = a; mix_hash(b); }
Bytes MSym::enc(const Bytes &p) { Bytes c = has_key ? m_aead_enc(cipher, k, n++, h, p) : p; mix_hash(c); return c; }
bool MSym::dec(const Bytes &c, Bytes &p) {
    if (!has_key) { p = c; mix_hash(c); return true; }
    if (!m_aead_dec(cipher, k, n, h, c, p)) return false;
    n++; mix_hash(c); return true;
}

// ------------------------------------------------------------------ handshake state
void MHandshake::init(const Suite &st, bool ini, const Bytes &pro) {
    suite = st; initiator = ini; pat = pattern_by_id(st.pattern); msg = 0; my_turn = ini; done = failed = fb = false; prologue = pro; sym.init(st);
}
void MHandshake::start() {
    sym.mix_hash(prologue);
    if (suite.psk) { sym.mix_psk(psk); cks.push_back(sym.ck); }
    if (pat->pre_is) sym.mix_hash(initiator ? s.pub : rs.pub);
    if (fb) {
        // the responder's ephemeral key, sent in the abandoned handshake, is a pre-message
        const MKey &x = initiator ? re : e, &xf = initiator ? rf : f;
        sym.mix_hash(x.pub);
        if (pat->hfs) sym.mix_hash(xf.pub);
        if (suite.psk) { sym.mix_key(x.pub); cks.push_back(sym.ck); }
    }
    if (pat->pre_rs) sym.mix_hash(initiator ? rs.pub : s.pub);
    my_turn = initiator;
}
bool MHandshake::write_needs_e() const { for (auto t : pat->msgs[msg]) if (t == T_E) return true; return false; }
bool MHandshake::write_needs_f() const { for (auto t : pat->msgs[msg]) if (t == T_F) return true; return false; }
// Public keys with an encoding or an order that ordinary peers never produce: small order, not reduced modulo
// the field prime, or (25519) with the unused top bit set.  `k` 0.. selects one.
Bytes odd_pub(int dh, uint64_t k) {
    auto H = [](const char *h) { Bytes b; for (; *h; h += 2) { unsigned v; sscanf(h, "%2x", &v); b.push_back((uint8_t)v); } return b; };
    if (dh == D_25519) {
        Bytes b(32, 0);
        switch (k % 10) {
        case 0: b[0] = 1; break;                                                              // order 4
        case 1: b = H("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"); break; // order 8
        case 2: b = H("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"); break; // order 8
        case 3: case 4: case 5: b.assign(32, 0xff); b[31] = 0x7f; b[0] = k % 10 == 3 ? 0xec : k % 10 == 4 ? 0xed : 0xee; break; // p-1, p, p+1
        case 6: b.assign(32, 0xff); b[31] = 0x7f; break;
        case 7: b.assign(32, 0xff); break;
        case 8: b[31] = 0x80; break;                                                          // zero with the top bit
        default: b = Bytes(32, 9); b[31] = 0x89;
        }
        return b;
    }
    Bytes b(56, 0);
    switch (k % 7) {
    case 0: b[0] = 1; break;
    case 1: case 2: case 3: b.assign(56, 0xff); b[28] = 0xfe; if (k % 7 == 1) b[0] = 0xfe; if (k % 7 == 3) { std::fill(b.begin(), b.begin() + 28, 0); b[28] = 0xff; } break; // p-1, p, p+1
    case 4: b.assign(56, 0xff); break;
    case 5: b.assign(56, 0xff); b[0] = 0x10; break;
    default: b.assign(56, 0xff); b[55] = 0x7f;                                                // canonical, large
    }
    return b;
}
static bool not_reduced(const MKey &k) {
    if (k.dh != D_448 || k.pub.size() != 56) return false;
    for (int i = 29; i < 56; ++i) if (k.pub[i] != 0xff) return false;
    if (k.pub[28] == 0xff) return true; if (k.pub[28] != 0xfe) return false;
    for (int i = 0; i < 28; ++i) if (k.pub[i] != 0xff) return false;
    return true;
}
// RFC 7748 reduces such a value, the Noise specification lets an implementation refuse it; the library decides
// once, in its key agreement, and everything above must go by that decision.
bool m_dh_refused(const MKey &b) {
    if (!b.has_pub || !not_reduced(b)) return false;
    Api *a = &API[BE_REF]; NoiseDHState *x = 0, *y = 0; uint8_t sh[56]; Bytes pv(56, 6); bool sc = HEAP.scan; HEAP.scan = false;
    std::set<uint64_t> fa; fa.swap(HEAP.fail_at); uint64_t ff = HEAP.fail_from, al = HEAP.allocs, fd = HEAP.failed; HEAP.fail_from = 0;
    CALL(a, noise_dhstate_new_by_id, &x, NOISE_DH_CURVE448); CALL(a, noise_dhstate_new_by_id, &y, NOISE_DH_CURVE448);
    int r = 0;
    if (x && y) { CALL(a, noise_dhstate_set_keypair_private, x, pv.data(), pv.size()); r = CALL(a, noise_dhstate_set_public_key, y, b.pub.data(), b.pub.size()); if (!r) r = CALL(a, noise_dhstate_calculate, x, y, sh, sizeof sh); }
    CALL(a, noise_dhstate_free, x); CALL(a, noise_dhstate_free, y);
    HEAP.fail_at.swap(fa); HEAP.fail_from = ff; HEAP.allocs = al; HEAP.failed = fd; HEAP.scan = sc;
    return r != 0;
}
bool MHandshake::write_refused() const {
    for (auto t : pat->msgs[msg]) switch (t) {
        case T_EE: if (m_dh_refused(re)) return true; break;
        case T_FF: if (m_dh_refused(rf)) return true; break;
        case T_SS: if (m_dh_refused(rs)) return true; break;
        case T_ES: if (m_dh_refused(initiator ? rs : re)) return true; break;
        case T_SE: if (m_dh_refused(initiator ? re : rs)) return true; break;
        default: break;
    }
    return false;
}
MErr MHandshake::mixdh(const MKey &a, const MKey &b) { Bytes sh; if (m_dh_refused(b)) return M_KEY; if (!m_dh(a, b, sh)) return M_BUG; sym.mix_key(sh); cks.push_back(sym.ck); cks.push_back(sym.k); return M_OK; }
MErr MHandshake::write(const Bytes &payload, Bytes &out) {
    out.clear(); MErr r = M_OK;
    for (auto t : pat->msgs[msg]) {
        switch (t) {
        case T_E: e = next_e; out.insert(out.end(), e.pub.begin(), e.pub.end()); sym.mix_hash(e.pub); if (suite.psk) { sym.mix_key(e.pub); cks.push_back(sym.ck); } break;
        case T_F: { f = next_f; Bytes c = sym.enc(f.pub); out.insert(out.end(), c.begin(), c.end()); break; }
        case T_S: { Bytes c = sym.enc(s.pub); out.insert(out.end(), c.begin(), c.end()); break; }
        case T_EE: r = mixdh(e, re); break;
        case T_FF: r = mixdh(f, rf); break;
        case T_SS: r = mixdh(s, rs); break;
        case T_ES: r = initiator ? mixdh(e, rs) : mixdh(s, re); break;
        case T_SE: r = initiator ? mixdh(s, re) : mixdh(e, rs); break;
        }
        if (r != M_OK) { failed = true; return r; }
    }
    Bytes c = sym.enc(payload); out.insert(out.end(), c.begin(), c.end());
    msg++; my_turn = false; if (msg == pat->msgs.size()) done = true;
    return M_OK;
}
MErr MHandshake::read(const Bytes &in, Bytes &payload) {
    size_t p = 0; MErr r = M_OK; payload.clear();
    auto fail = [&](MErr x) { failed = true; return x; };
    for (auto t : pat->msgs[msg]) {
        switch (t) {
        case T_E: {
            bool al = suite.dh != D_NEWHOPE || !e.has_pub; // NewHope: whoever speaks first is Alice
            if (fb) al = suite.dh != D_NEWHOPE || initiator; 
            size_t l = dh_publen(suite.dh, al); if (in.size() - p < l) return fail(M_LEN);
            re = mkey_from_pub(suite.dh, Bytes(in.begin() + p, in.begin() + p + l), al); p += l; sym.mix_hash(re.pub);
            if (re.null_pub()) return fail(M_KEY);
            if (suite.psk) { sym.mix_key(re.pub); cks.push_back(sym.ck); } break; }
        case T_F: {
            bool al = !f.has_pub; size_t l = dh_publen(suite.hybrid, al) + (sym.has_key ? 16 : 0); if (in.size() - p < l) return fail(M_LEN);
            Bytes c(in.begin() + p, in.begin() + p + l), k; p += l; if (!sym.dec(c, k)) return fail(M_MAC);
            rf = mkey_from_pub(suite.hybrid, k, al); if (rf.null_pub()) return fail(M_KEY); break; }
        case T_S: {
            size_t l = dh_publen(suite.dh) + (sym.has_key ? 16 : 0); if (in.size() - p < l) return fail(M_LEN);
            Bytes c(in.begin() + p, in.begin() + p + l), k; p += l; if (!sym.dec(c, k)) return fail(M_MAC);
            rs = mkey_from_pub(suite.dh, k); break; }
        case T_EE: r = mixdh(e, re); break;
        case T_FF: r = mixdh(f, rf); break;
        case T_SS: r = mixdh(s, rs); break;
        case T_ES: r = initiator ? mixdh(e, rs) : mixdh(s, re); break;
        case T_SE: r = initiator ? mixdh(s, re) : mixdh(e, rs); break;
        }
        if (r != M_OK) return fail(r);
    }
    Bytes c(in.begin() + p, in.end());
    if (c.size() > 65535) return fail(M_LEN);
    if (sym.has_key && c.size() < 16) return fail(M_LEN);
    if (!sym.dec(c, payload)) return fail(M_MAC);
    msg++; my_turn = true; if (msg == pat->msgs.size()) done = true;
    return M_OK;
}
size_t MHandshake::overhead() const {
    size_t o = 0; bool k = sym.has_key;
    for (auto t : pat->msgs[msg]) switch (t) {
        case T_E: o += dh_publen(suite.dh, suite.dh != D_NEWHOPE || !re.has_pub); if (suite.psk) k = true; break;
        case T_F: o += dh_publen(suite.hybrid, !rf.has_pub) + (k ? 16 : 0); break;
        case T_S: o += dh_publen(suite.dh) + (k ? 16 : 0); break;
        default: k = true;
    }
    return o + (k ? 16 : 0);
}
bool MHandshake::payload_encrypted_next() const {
    bool k = sym.has_key; for (auto t : pat->msgs[msg]) { if (t == T_E) { if (suite.psk) k = true; } else if (t != T_F && t != T_S) k = true; } return k;
}
void MHandshake::fallback(const Suite &st) {
    // the initiator of the abandoned handshake becomes responder and keeps its own e (and f); the other keeps the remote ones
    suite = st; pat = pattern_by_id(st.pattern); fb = true; failed = done = false; msg = 0;
    if (initiator) { re = MKey(); rf = MKey(); rs = MKey(); initiator = false; }
    else { e = MKey(); f = MKey(); rs = MKey(); initiator = true; }
    sym.init(st); my_turn = initiator;
}
void MHandshake::split(Bytes &snd, Bytes &rcv) {
    Bytes a, b; m_hkdf(sym.hash, sym.ck, Bytes(), a, b); a.resize(32); b.resize(32);
    snd = initiator ? a : b; rcv = initiator ? b : a;
}

// initialise OpenSSL once, before the runs are forked off
void model_warmup() {
    patterns();
    Bytes z(64, 7), k(32, 9), o1, o2, pt;
    for (int h = 0; h < 4; ++h) { m_hkdf(h, z, z, o1, o2); m_pbkdf2(h, z, z, 2, 32); }
    for (int c = 0; c < 2; ++c) { Bytes ct = m_aead_enc(c, k, 1, z, z); m_aead_dec(c, k, 1, z, ct, pt); }
    m_ed25519_pub(k);
    for (int d : {D_25519, D_448}) { MKey a = mkey_from_priv(d, Bytes(d == D_448 ? 56 : 32, 5)), b = mkey_from_priv(d, Bytes(d == D_448 ? 56 : 32, 6)); Bytes sh; m_dh(a, b, sh); }
}
Bytes m_ed25519_sign(const Bytes &seed, const Bytes &msg) {
    EVP_PKEY *k = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, 0, seed.data(), 32); EVP_MD_CTX *c = EVP_MD_CTX_new(); Bytes s(64); size_t n = 64;
    EVP_DigestSignInit(c, 0, 0, 0, k); EVP_DigestSign(c, s.data(), &n, msg.data(), msg.size()); EVP_MD_CTX_free(c); EVP_PKEY_free(k); return s;
}
bool m_ed25519_verify(const Bytes &pub, const Bytes &msg, const Bytes &sig) {
    EVP_PKEY *k = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, 0, pub.data(), 32); if (!k) return false;
    EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestVerifyInit(c, 0, 0, 0, k); uint8_t z = 0;
    int r = EVP_DigestVerify(c, sig.data(), sig.size(), msg.empty() ? &z : msg.data(), msg.size()); EVP_MD_CTX_free(c); EVP_PKEY_free(k); return r == 1;
}
