// Scenario "obj": pools of low-level protocol objects of different builds used in arbitrary order, with buffers and
// lengths of every size and memory running out, against the independent model.
#include "rec.h"
#include <openssl/evp.h>
enum { O_HASH, O_CIPHER, O_DH, O_SYM, O_LIST, O_KINDS };
struct Obj {
    int kind; const Api *be; int alg = 0; int id;
    NoiseHashState *h = 0; bool open = false; Bytes acc;
    NoiseCipherState *c = 0; bool keyed = false; Bytes k; uint64_t n = 0; std::set<Bytes> cts;
    NoiseDHState *d = 0; int mode = 0; MKey key; std::vector<Bytes> old;
    NoiseSymmetricState *s = 0; MSym m; Suite suite; bool gone = false;
    int lt = 0; void *l = 0; std::vector<void *> items;
};
struct LDef { int parent, child; const char *field; };
static const LDef LD[] = {{R_CERT, R_SIG, "signatures"}, {R_CHAIN, R_CERT, "certs"}, {R_SUBJECT, R_PUBKEY, "keys"}, {R_SUBJECT, R_META, "meta"}, {R_EXTRA, R_META, "meta"}, {R_PRIV, R_PRIVINFO, "keys"}, {R_PRIV, R_META, "meta"}};
static const int HID[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512}; static const char *HNAME[] = {"BLAKE2s", "BLAKE2b", "SHA256", "SHA512"};
static const int CID[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM}; static const char *CNAME[] = {"ChaChaPoly", "AESGCM"};
static size_t odd_len(const char *st, size_t right) { switch (pick(st, 6)) { case 0: return 0; case 1: return 1; case 2: return right ? right - 1 : 0; case 3: return right + 1; case 4: return right * 2; default: return pick((Str(st) + ".n").c_str(), 200); } }
static size_t g_live;
// creation: any failure leaves no object and no memory behind
template <class T> static int create(const char *what, T **out, const std::function<int(T **)> &f, bool retry = true) {
    return oom_call([&] {
        size_t live = HEAP.live.size(); *out = (T *)1; int r = f(out); asserted("M01,M03");
        if (r) { if (*out) { violate("M01", "handle-after-error", "creating %s fails with %s and leaves a handle", what, errname(r)); *out = 0; } if (HEAP.live.size() != live) violate("M01", "leak:new", "creating %s fails with %s and leaves %zu blocks allocated", what, errname(r), HEAP.live.size() - live); }
        else if (!*out || *out == (T *)1) { violate("M01,M03", "no-handle", "creating %s succeeds without an object", what); *out = 0; return (int)NOISE_ERROR_NO_MEMORY; }
        return r; }, retry);
}
static void expect_fail(int r, const char *what, const char *props = "M03") { asserted(props); if (!r) violate(props, (Str("bad-size-accepted:") + what).c_str(), "%s succeeds", what); }
// ---- hashes
static void op_hash(Obj &o, uint64_t k) {
    size_t hl = hash_len(o.alg); Data d("objh", k); int r;
    switch (pick("obj.hop", 9)) {
    case 0: r = CALL(o.be, noise_hashstate_reset, o.h); o.open = true; o.acc.clear(); if (r) violate("H05", "hash-fails", "reset fails"); break;
    case 1: case 2: case 3: { if (!o.open) { CALL(o.be, noise_hashstate_reset, o.h); o.open = true; o.acc.clear(); } Bytes b = d.bytes(maybe_huge("obj.len", gen_size("obj.len", 5000), 15)); XBuf x(b); r = CALL(o.be, noise_hashstate_update, o.h, x.p, x.n); if (r) violate("H05", "hash-fails", "hashing %zu bytes fails: %s", b.size(), errname(r)); o.acc.insert(o.acc.end(), b.begin(), b.end()); break; }
    case 4: { if (!o.open) break;
        if (flip("obj.oddlen", 250)) { size_t n = odd_len("obj.hl", hl); if (n == hl) break; XBuf x(n); r = CALL(o.be, noise_hashstate_finalize, o.h, x.p, n); expect_fail(r, "finishing a hash into a buffer of another size"); break; }
        XBuf x(hl); r = CALL(o.be, noise_hashstate_finalize, o.h, x.p, hl); asserted("H05"); if (r || x.get(hl) != m_hash(o.alg, o.acc)) violate("H05", "hash-differs", "%s of %zu bytes in the %s build (%s) differs from the standard", HNAME[o.alg], o.acc.size(), o.be->name, errname(r)); o.open = false; break; }
    case 5: case 6: { Bytes a = d.bytes(maybe_huge("obj.len", gen_size("obj.len", 3000), 20)), b = d.bytes(gen_size("obj.len", 1000)); XBuf x(a), y(b); bool two = pick("obj.two", 2); size_t n = flip("obj.oddlen", 150) ? odd_len("obj.hl", hl) : hl; XBuf z(n);
        r = two ? CALL(o.be, noise_hashstate_hash_two, o.h, x.p, x.n, y.p, y.n, z.p, n) : CALL(o.be, noise_hashstate_hash_one, o.h, x.p, x.n, z.p, n); asserted("H05,M03");
        if (n != hl) { expect_fail(r, "hashing into a buffer of another size"); break; }
        o.open = false; if (r || z.get(hl) != m_hash(o.alg, a, two ? b : Bytes())) violate("H05", "hash-differs", "%s of %zu+%zu bytes in the %s build differs from the standard", HNAME[o.alg], a.size(), two ? b.size() : 0, o.be->name); break; }
    case 7: { Bytes key = d.bytes(gen_size("obj.klen", 300)), in = d.bytes(maybe_huge("obj.len", gen_size("obj.len", 300), 20)); size_t n1 = flip("obj.oddlen", 150) ? odd_len("obj.hl", hl) : pick("obj.o1", hl + 1), n2 = flip("obj.oddlen", 150) ? odd_len("obj.hl", hl) : pick("obj.o2", hl + 1); XBuf a(key), b(in), x(n1), y(n2);
        r = CALL(o.be, noise_hashstate_hkdf, o.h, a.p, a.n, b.p, b.n, x.p, n1, y.p, n2); asserted("H05,M03");
        if (n1 > hl || n2 > hl) { expect_fail(r, "HKDF with more output than a hash"); break; }
        Bytes o1, o2; m_hkdf(o.alg, key, in, o1, o2); o.open = false; o1.resize(n1); o2.resize(n2);
        if (HEAP.scan) { if (key.size() >= 16) secret_add("HKDF key", key); secret_add("HKDF output", o1); secret_add("HKDF output", o2); }
        if (r || x.get(n1) != o1 || y.get(n2) != o2) violate("H05", "hkdf-differs", "HKDF-%s in the %s build differs from its definition (key %zu, data %zu, outputs %zu and %zu)", HNAME[o.alg], o.be->name, key.size(), in.size(), n1, n2); break; }
    case 8: { Bytes pass = d.bytes(gen_size("obj.klen", 300)), salt = d.bytes(gen_size("obj.len", 100)); unsigned it = 1 + (unsigned)pick("obj.iter", 12); size_t n = pick("obj.kdflen", 300); XBuf a(pass), b(salt), x(n);
        r = CALL(o.be, noise_hashstate_pbkdf2, o.h, a.p, a.n, b.p, b.n, it, x.p, n); asserted("H05,M03"); o.open = false; Bytes e = n ? m_pbkdf2(o.alg, pass, salt, it, n) : Bytes();
        if (HEAP.scan) { if (pass.size() >= 16) secret_add("passphrase", pass); secret_add("passphrase-derived key", e); }
        if (r || x.get(n) != e) violate("H05,S03", "pbkdf2-differs", "PBKDF2-%s in the %s build differs from its definition (passphrase %zu, salt %zu, %u iterations, %zu bytes)", HNAME[o.alg], o.be->name, pass.size(), salt.size(), it, n); break; }
    }
}
// ---- ciphers
static void op_cipher(Obj &o, uint64_t k) {
    Data d("objc", k); int r; bool has = CALL(o.be, noise_cipherstate_has_key, o.c); asserted("T02,H05"); if (has != o.keyed) violate("H05", "key-flag", "has_key says %d for a cipher %s key", has, o.keyed ? "with a" : "without"); 
    switch (pick("obj.cop", 8)) {
    case 0: { size_t n = flip("obj.oddlen", 300) ? odd_len("obj.kl", 32) : 32; Bytes key = d.bytes(n); XBuf x(key); r = CALL(o.be, noise_cipherstate_init_key, o.c, x.p, n); if (n != 32) { expect_fail(r, "setting a cipher key of the wrong length"); break; } if (r) { violate("H05", "key-refused", "a cipher key is refused: %s", errname(r)); break; } o.keyed = true; o.k = key; o.n = 0; if (HEAP.scan) secret_add("cipher key", key); break; }
    case 1: { uint64_t v = pick("obj.nkind", 4) == 0 ? ~0ULL - pick("obj.nn", 3) : pick("obj.nkind2", 3) ? o.n + pick("obj.nn", 300) : o.n - pick("obj.nn", 3); r = CALL(o.be, noise_cipherstate_set_nonce, o.c, v); asserted("T02"); bool ok = o.keyed && v >= o.n; if ((r == 0) != ok) violate("T02", ok ? "nonce-refused" : "nonce-moved-back", "set_nonce(%llu) on a cipher at %llu returns %s", (unsigned long long)v, (unsigned long long)o.n, errname(r)); if (ok) o.n = v; break; }
    default: { // a message, in a buffer of arbitrary capacity
        bool enc = pick("obj.dir", 2); Bytes ad = d.bytes(pick("obj.hasad", 2) ? maybe_huge("obj.ad", gen_size("obj.ad", 400), 20) : 0), pt = d.bytes(gen_size("obj.pt", 65535)), in = pt; uint64_t bad = 0;
        if (!enc && o.keyed && o.n != ~0ULL) { if (pt.size() > 65519) pt.resize(65519); in = m_aead_enc(o.alg, o.k, o.n, ad, pt); bad = choose("obj.bad", 5, 400); if (bad == 1) in[pick("net.pos", in.size())] ^= 1 << pick("net.bit", 8); if (bad == 2) in.resize(pick("obj.cut", in.size())); if (bad == 3) in.push_back(0); if (bad == 4) { if (ad.empty()) ad.push_back(7); else ad[pick("net.pos", ad.size())] ^= 1 << pick("net.bit", 8); } }
        size_t room = in.size() + (enc ? (flip("obj.tight", 150) ? pick("obj.room", 17) : 16 + pick("obj.slack", 3) * 7) : pick("obj.slack", 3) * 5);
        XBuf b(in, room), a(ad); NoiseBuffer nb; noise_buffer_set_inout(nb, b.p, in.size(), room); bool lie = flip("obj.lie", 40); if (lie) nb.size = room + 1 + pick("obj.lieby", 70000);
        r = ad.empty() && pick("obj.plain", 2) ? (enc ? CALL(o.be, noise_cipherstate_encrypt, o.c, &nb) : CALL(o.be, noise_cipherstate_decrypt, o.c, &nb)) : enc ? CALL(o.be, noise_cipherstate_encrypt_with_ad, o.c, ad.empty() ? (const uint8_t *)0 : a.p, ad.size(), &nb) : CALL(o.be, noise_cipherstate_decrypt_with_ad, o.c, a.p, ad.size(), &nb);
        asserted("H05,T02,M03");
        if (lie) { expect_fail(r, "using a buffer whose size exceeds its capacity"); break; }
        if (!r && nb.size > room) { violate("M03", "size-beyond-capacity", "a buffer of %zu bytes is said to hold %zu", room, nb.size); break; }
        if (!o.keyed) { bool ok = in.size() <= 65535; if ((r == 0) != ok || (!r && b.get(nb.size) != in)) violate("H05", "keyless", "a cipher without a key: %s", errname(r)); break; }
        if (enc) {
            bool ok = in.size() <= 65519 && room - in.size() >= 16 && o.n != ~0ULL;
            if ((r == 0) != ok) { violate(o.n == ~0ULL ? "T02" : "H05,M03", ok ? "encrypt-refused" : "encrypt-accepted", "encrypting %zu bytes with room for %zu at nonce %llu returns %s", in.size(), room, (unsigned long long)o.n, errname(r)); break; }
            if (!r) { Bytes e = m_aead_enc(o.alg, o.k, o.n, ad, pt); if (b.get(nb.size) != e) violate("H05,T02", "ciphertext-differs", "%s ciphertext of %zu bytes under nonce %llu in the %s build differs from the standard", CNAME[o.alg], pt.size(), (unsigned long long)o.n, o.be->name); o.n++; }
        } else {
            if (o.n == ~0ULL) { if (!r) violate("T02", "reserved-nonce", "decryption succeeds under the reserved nonce"); break; }
            bool ok = !bad && in.size() <= 65535; if ((r == 0) != ok) { violate(ok ? "T01,H05" : "T01", ok ? "genuine-refused" : "altered-accepted", "%s of a message altered in way %d returns %s (%s, %s build)", "decryption", (int)bad, errname(r), CNAME[o.alg], o.be->name); break; }
            if (!r) { if (b.get(nb.size) != pt) violate("T01,H05", "plaintext-differs", "decryption returns other bytes than were encrypted"); o.n++; }
            else { asserted("T03"); if (in.size() >= 24 && pt.size() >= 8 && contains_window(b.p, std::min(room, in.size()), pt)) violate("T03", "plaintext-left", "a failed %s decryption in the %s build leaves plaintext in the buffer", CNAME[o.alg], o.be->name); }
        }
        break; }
    }
}
// ---- key exchange
static void dh_check(Obj &o) {
    size_t pl = dh_publen(o.alg), kl = o.alg == D_448 ? 56 : 32; asserted("H05,M02"); bool kp = CALL(o.be, noise_dhstate_has_keypair, o.d), pk = CALL(o.be, noise_dhstate_has_public_key, o.d);
    if (kp != (o.mode == 2) || pk != (o.mode >= 1)) { violate("H05", "key-state", "a key object in state %d reports keypair=%d public=%d", o.mode, kp, pk); return; }
    XBuf a(kl), b(pl), c(pl); int r = CALL(o.be, noise_dhstate_get_keypair, o.d, a.p, kl, b.p, pl);
    if (o.mode == 2) { if (r || b.get(pl) != o.key.pub) violate("H05", "keypair-differs", "get_keypair (%s) does not return the key pair in the object", errname(r)); }
    else { if (!r) violate("H05,M02", "keypair-from-nothing", "get_keypair succeeds without a private key"); for (auto &s : o.old) if (contains_window(a.p, kl, s)) violate("M02", "stale-private-key", "a failed get_keypair hands out an earlier private key"); }
    if (o.alg != D_NEWHOPE) { auto it = HEAP.live.find(o.d); if (it != HEAP.live.end()) for (auto &s : o.old) if ((o.mode != 2 || o.key.priv != s) && contains_window((const uint8_t *)o.d, it->second.size, s)) { violate("M02", "discarded-key-kept", "a key object still holds a private key that was replaced or cleared"); return; } }
    if (o.mode) { r = CALL(o.be, noise_dhstate_get_public_key, o.d, c.p, pl); if (r || c.get(pl) != o.key.pub) violate("H05", "public-key-differs", "get_public_key (%s) returns another key", errname(r)); }
}
static void op_dh(std::vector<Obj> &P, Obj &o, uint64_t k) {
    size_t pl = dh_publen(o.alg), kl = o.alg == D_448 ? 56 : 32; int r; Data d("objd", k);
    auto drop = [&] { if (o.mode == 2 && !o.key.priv.empty()) o.old.push_back(o.key.priv); };
    switch (pick("obj.dop", 13)) {
    case 0: { entropy_party(3); drop(); r = CALL(o.be, noise_dhstate_generate_keypair, o.d); XBuf a(kl), b(pl); if (!r) r = CALL(o.be, noise_dhstate_get_keypair, o.d, a.p, kl, b.p, pl); asserted("H05"); if (r) { violate("H05", "generate-fails", "generating a key pair fails: %s", errname(r)); break; } o.key = mkey_from_priv(o.alg, a.get(kl)); o.mode = 2; if (o.key.pub != b.get(pl)) violate("H05", "pair-mismatch", "a generated public key does not belong to its private key (%s build)", o.be->name); if (HEAP.scan) secret_add("private key", o.key.priv); break; }
    case 1: case 2: { MKey q = gen_key(o.alg, "objd.key", k); size_t n = flip("obj.oddlen", 200) ? odd_len("obj.kl", kl) : kl; Bytes pv = q.priv; pv.resize(n, 9); XBuf a(pv); r = CALL(o.be, noise_dhstate_set_keypair_private, o.d, a.p, n); if (n != kl) { expect_fail(r, "setting a private key of the wrong length"); break; } asserted("H05"); if (r) { violate("H05", "key-refused", "a private key is refused: %s", errname(r)); break; } drop(); o.key = q; o.mode = 2; if (HEAP.scan) secret_add("private key", q.priv); break; }
    case 3: { if (o.alg != D_NEWHOPE && flip("obj.mismatch", 150)) { // halves that do not belong together
            MKey q = gen_key(o.alg, "objd.key", k), z = gen_key(o.alg, "objd.otherkey", k); XBuf a(q.priv), b(z.pub); if (q.pub == z.pub) break; r = CALL(o.be, noise_dhstate_set_keypair, o.d, a.p, kl, b.p, pl); count("probe:mismatched-dh-keypair");
            if (!r) { CALL(o.be, noise_dhstate_clear_key, o.d); drop(); o.mode = 0; o.key = MKey(); o.old.push_back(q.priv); break; } // judged when it is used
            o.old.push_back(q.priv); if (!CALL(o.be, noise_dhstate_has_public_key, o.d)) { drop(); o.mode = 0; o.key = MKey(); } break; }
        MKey q = gen_key(o.alg, "objd.key", k); size_t n = flip("obj.oddlen", 150) ? odd_len("obj.kl", kl) : kl, m = flip("obj.oddlen", 150) ? odd_len("obj.pl", pl) : pl; Bytes pv = q.priv, pb = q.pub; pv.resize(n, 9); pb.resize(m, 9); XBuf a(pv), b(pb); r = CALL(o.be, noise_dhstate_set_keypair, o.d, a.p, n, b.p, m); if (n != kl || m != pl) { expect_fail(r, "setting a key pair of the wrong length"); break; } asserted("H05"); if (r) { violate("H05", "key-refused", "a key pair is refused: %s", errname(r)); break; } drop(); o.key = q; o.mode = 2; if (HEAP.scan) secret_add("private key", q.priv); break; }
    case 4: case 5: { MKey q = gen_key(o.alg, "objd.key", k); size_t m = flip("obj.oddlen", 200) ? odd_len("obj.pl", pl) : pl; Bytes pb = q.pub; pb.resize(m, 9); XBuf b(pb); r = CALL(o.be, noise_dhstate_set_public_key, o.d, b.p, m); if (m != pl) { expect_fail(r, "setting a public key of the wrong length"); break; } asserted("H05"); if (r) { violate("H05", "key-refused", "a public key is refused: %s", errname(r)); break; } drop(); o.key = mkey_from_pub(o.alg, q.pub); o.mode = 1; break; }
    case 6: if (o.alg != D_NEWHOPE && pick("obj.odd", 3)) { // an encoding or order no honest peer produces
            Bytes pb = odd_pub(o.alg, pick("net.oddkey", 70)); XBuf b(pb); r = CALL(o.be, noise_dhstate_set_public_key, o.d, b.p, pb.size()); asserted("H05"); count("probe:odd-public-key"); drop(); if (r) { o.mode = 0; o.key = MKey(); CALL(o.be, noise_dhstate_clear_key, o.d); break; } o.key = mkey_from_pub(o.alg, pb); o.mode = 1; break; }
        { r = CALL(o.be, noise_dhstate_set_null_public_key, o.d); if (!r) { drop(); o.key = mkey_from_pub(o.alg, Bytes(pl, 0)); o.mode = 1; asserted("H05"); if (!CALL(o.be, noise_dhstate_is_null_public_key, o.d)) violate("H05", "null-key-flag", "a null public key is not reported as one"); } break; }
    case 7: { r = CALL(o.be, noise_dhstate_clear_key, o.d); drop(); o.mode = 0; o.key = MKey(); if (r) violate("M02", "clear-fails", "clear_key fails"); break; }
    case 8: { // copy
        Obj *f = 0; for (auto &x : P) if (x.kind == O_DH && x.be == o.be && &x != &o) { f = &x; if (pick("obj.other", 2)) break; } if (!f) break;
        r = CALL(o.be, noise_dhstate_copy, o.d, f->d); asserted("H05"); if (f->alg != o.alg) { if (!r) violate("H05,M03", "copy-across-algorithms", "a key is copied to an object of another algorithm"); break; } if (r) { violate("H05", "copy-fails", "copy fails: %s", errname(r)); break; } drop(); if (f->mode != 2) for (auto &s : f->old) o.old.push_back(s); o.key = f->key; o.mode = f->mode; break; }
    default: { // shared secrets
        Obj *f = 0; for (auto &x : P) if (x.kind == O_DH && x.be == o.be) { f = &x; if (pick("obj.other", 3) == 0) break; } if (!f) break;
        size_t sl = o.alg == D_448 ? 56 : 32, n = flip("obj.oddlen", 200) ? odd_len("obj.kl", sl) : sl; XBuf x(n); r = CALL(o.be, noise_dhstate_calculate, o.d, f->d, x.p, n); asserted("H05,M03");
        if (f->alg != o.alg) { expect_fail(r, "key agreement across algorithms"); break; } if (n != sl) { expect_fail(r, "key agreement into a buffer of another size"); break; }
        if (o.mode != 2) { expect_fail(r, "key agreement without a private key", "H05,M03"); break; } if (!f->mode) break;
        if (m_dh_refused(f->key)) { if (!r) violate("H05", "shared-secret-differs", "the %s build agrees on a secret with a public key that the portable build refuses", o.be->name); break; }
        Bytes e; bool ok = m_dh(o.key, f->key, e); if (!ok) { count("probe:model-dh-refused"); break; }
        if (r || x.get(sl) != e) violate("H05", "shared-secret-differs", "the shared secret computed by the %s build differs from the standard (%s)", o.be->name, errname(r)); if (HEAP.scan && !f->key.null_pub()) secret_add("shared secret", e); break; }
    }
    if (!violated()) dh_check(o);
    if (flip("obj.finger", 120)) { size_t n = pick("obj.fplen", 110); XBuf b(n, 'x'); bool full = pick("obj.fpfull", 2); r = CALL(o.be, noise_dhstate_format_fingerprint, o.d, full ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC, (char *)b.p, n); asserted("M03"); size_t need = full ? 96 : 48; bool ok = o.mode && n >= need; if ((r == 0) != ok) violate("M03", "fingerprint", "a fingerprint into %zu bytes returns %s", n, errname(r)); if (n && !memchr(b.p, 0, n)) violate("M03", "not-terminated", "a fingerprint buffer of %zu bytes is left without terminator", n); }
}
// ---- symmetric state: a real object and its model side
static void op_sym(Obj &o, uint64_t k) {
    Data d("objs", k); int r; if (o.gone) { // after the split nothing works any more
        Bytes in = d.bytes(20); XBuf x(in, 60); NoiseBuffer nb; noise_buffer_set_inout(nb, x.p, 20, 60); NoiseCipherState *a = 0, *b = 0;
        switch (pick("obj.sgone", 5)) { case 0: r = CALL(o.be, noise_symmetricstate_mix_key, o.s, x.p, 20); break; case 1: r = CALL(o.be, noise_symmetricstate_mix_hash, o.s, x.p, 20); break; case 2: r = CALL(o.be, noise_symmetricstate_encrypt_and_hash, o.s, &nb); break; case 3: r = CALL(o.be, noise_symmetricstate_decrypt_and_hash, o.s, &nb); break; default: r = CALL(o.be, noise_symmetricstate_split, o.s, &a, &b); if (a || b) violate("H03", "split-twice", "a symmetric state can be split twice"); }
        expect_fail(r, "using a symmetric state after its split", "H03"); return; }
    size_t mac = CALL(o.be, noise_symmetricstate_get_mac_length, o.s); asserted("H05"); if (mac != (o.m.has_key ? 16u : 0u)) violate("H05", "mac-length", "get_mac_length is %zu in a state %s key", mac, o.m.has_key ? "with a" : "without");
    switch (pick("obj.sop", 9)) {
    case 0: { Bytes in = d.bytes(gen_size("obj.len", 300)); XBuf x(in); r = CALL(o.be, noise_symmetricstate_mix_key, o.s, x.p, x.n); if (r) violate("H05", "mix-fails", "mix_key fails: %s", errname(r)); o.m.mix_key(in); if (HEAP.scan) { secret_add("chaining key", o.m.ck); secret_add("session key", o.m.k); } break; }
    case 1: case 2: { Bytes in = d.bytes(maybe_huge("obj.len", gen_size("obj.len", 3000), 20)); XBuf x(in); r = CALL(o.be, noise_symmetricstate_mix_hash, o.s, x.p, x.n); if (r) violate("H05", "mix-fails", "mix_hash fails: %s", errname(r)); o.m.mix_hash(in); break; }
    case 3: case 4: case 5: { Bytes pt = d.bytes(gen_size("obj.pt", 65535)); size_t need = o.m.has_key ? 16 : 0, room = pt.size() + (flip("obj.tight", 200) ? pick("obj.room", 17) : 16); XBuf x(pt, room); NoiseBuffer nb; noise_buffer_set_inout(nb, x.p, pt.size(), room); bool lie = flip("obj.lie", 30); if (lie) nb.size = room + 1 + pick("obj.lieby", 70000);
        r = CALL(o.be, noise_symmetricstate_encrypt_and_hash, o.s, &nb); asserted("H05,M03"); if (lie) { expect_fail(r, "encrypting a buffer whose size exceeds its capacity"); break; }
        bool ok = pt.size() + need <= 65535 && room - pt.size() >= need; if ((r == 0) != ok) { violate("H05,M03", "encrypt-size", "encrypt_and_hash of %zu bytes with room for %zu returns %s", pt.size(), room, errname(r)); break; } if (r) break;
        Bytes e = o.m.enc(pt); if (x.get(nb.size) != e) violate("H05", "ciphertext-differs", "encrypt_and_hash of %zu bytes in the %s build differs from the specification", pt.size(), o.be->name); break; }
    case 6: case 7: { Bytes pt = d.bytes(gen_size("obj.pt", 65519)); MSym t = o.m; Bytes ct = t.enc(pt), in = ct; uint64_t bad = choose("obj.bad", 4, 350); if (!o.m.has_key) bad = 0; if (bad == 1) in[pick("net.pos", in.size())] ^= 1 << pick("net.bit", 8); if (bad == 2) in.resize(pick("obj.cut", in.size())); if (bad == 3) in.push_back(0);
        XBuf x(in); NoiseBuffer nb; noise_buffer_set_inout(nb, x.p, in.size(), in.size()); r = CALL(o.be, noise_symmetricstate_decrypt_and_hash, o.s, &nb); asserted("H05,H02,T03"); bool ok = !bad && in.size() <= 65535;
        if ((r == 0) != ok) { violate(ok ? "H05" : "H02", ok ? "genuine-refused" : "altered-accepted", "decrypt_and_hash of a message altered in way %d returns %s", (int)bad, errname(r)); break; }
        if (!r) { if (x.get(nb.size) != pt) violate("H05", "plaintext-differs", "decrypt_and_hash returns other bytes"); o.m = t; }
        else if (in.size() >= 24 && pt.size() >= 8 && contains_window(x.p, in.size(), pt)) violate("T03,H02", "plaintext-left", "a failed decrypt_and_hash leaves plaintext in the buffer");
        break; }
    case 8: { if (!flip("obj.split", 300)) break; bool w1 = pick("obj.c1", 4), w2 = pick("obj.c2", 4); NoiseCipherState *a = 0, *b = 0;
        r = oom_call([&] { size_t live = HEAP.live.size(); a = b = (NoiseCipherState *)1; int q = CALL(o.be, noise_symmetricstate_split, o.s, w1 ? &a : (NoiseCipherState **)0, w2 ? &b : (NoiseCipherState **)0); if (!w1) a = 0; if (!w2) b = 0; if (q && (w1 || w2)) { asserted("M01"); if (a || b) { violate("M01", "handle-after-error", "a failed split leaves a cipher handle"); a = b = 0; } if (HEAP.live.size() != live) violate("M01", "leak:split", "a failed split leaves memory allocated"); } return q; }, true);
        if (!w1 && !w2) { expect_fail(r, "splitting into nothing"); break; } if (r) { violate("H05,M01", "split-fails", "split fails: %s", errname(r)); break; }
        Bytes k1, k2; m_hkdf(o.m.hash, o.m.ck, Bytes(), k1, k2); k1.resize(32); k2.resize(32); if (HEAP.scan) { secret_add("transport key", k1); secret_add("transport key", k2); }
        for (int i = 0; i < 2; ++i) { NoiseCipherState *c = i ? b : a; if (!c) { if (i ? w2 : w1) violate("H05,H01", "no-cipher", "a split reports success without cipher %d", i + 1); continue; } Bytes pt = d.bytes(30); XBuf x(pt, 46); NoiseBuffer nb; noise_buffer_set_inout(nb, x.p, 30, 46); int q = CALL(o.be, noise_cipherstate_encrypt_with_ad, c, (const uint8_t *)0, 0, &nb); asserted("H05"); if (q || x.get(46) != m_aead_enc(o.m.cipher, i ? k2 : k1, 0, Bytes(), pt)) violate("H05", "split-key-differs", "cipher %d of a split (%d,%d) does not use the specified key from nonce 0", i + 1, w1, w2); }
        if (a) CALL(o.be, noise_cipherstate_free, a);
        if (b) CALL(o.be, noise_cipherstate_free, b);
        o.gone = true; count("probe:split"); break; }
    }
}
// ---- lists of records
static void op_list(Obj &o, uint64_t) {
    const LDef &L = LD[o.lt]; Str P = Str("Noise_") + SCHEMA[L.parent].name + "_", F = L.field; Str cn = Str("Noise_") + SCHEMA[L.child].name + "_";
    auto add = (int (*)(void *, void **))lib_sym(o.be, P + "add_" + F); auto ins = (int (*)(void *, size_t, void *))lib_sym(o.be, P + "insert_" + F); auto cnt = (size_t (*)(void *))lib_sym(o.be, P + "count_" + F);
    auto at = (void *(*)(void *, size_t))lib_sym(o.be, P + "get_at_" + F); auto clr = (int (*)(void *))lib_sym(o.be, P + "clear_" + F); auto has = (int (*)(void *))lib_sym(o.be, P + "has_" + F); auto nw = (int (*)(void **))lib_sym(o.be, cn + "new"); auto fr = (int (*)(void *))lib_sym(o.be, cn + "free");
    SutScope sc(o.be, (P + F).c_str()); int r;
    switch (pick("obj.lop", 8)) {
    case 0: case 1: case 2: { void *v = 0; r = oom_call([&] { size_t live = HEAP.live.size(), n = o.items.size(); v = (void *)1; int q = add(o.l, &v); asserted("M01,P01"); if (q) { if (v) violate("M01", "handle-after-error", "a failed add_%s leaves a handle", L.field); if (cnt(o.l) != n) violate("M01,P01", "list-changed", "a failed add_%s changes the list", L.field); (void)live; } return q; }, true); if (r) { violate("M01", "add-fails", "add_%s fails: %s", L.field, errname(r)); break; } o.items.push_back(v); break; }
    case 3: case 4: case 5: { void *v = 0; if (nw(&v)) break; size_t i = pick("obj.index", o.items.size() + 3); r = oom_call([&] { return ins(o.l, i, v); }, true); if (r) { fr(v); violate("M01", "insert-fails", "insert_%s fails: %s", L.field, errname(r)); break; } o.items.insert(o.items.begin() + std::min(i, o.items.size()), v); break; }
    case 6: if (flip("obj.clear", 200)) { clr(o.l); o.items.clear(); } break;
    case 7: { void *v = 0; asserted("M03"); if (!ins(o.l, 0, 0) || !add(0, &v) || v) violate("M03", "null-accepted", "a missing object is accepted"); break; }
    }
    asserted("P01"); if (cnt(o.l) != o.items.size() || (has(o.l) != 0) != !o.items.empty()) { violate("P01,M01", "list-length", "a list of %zu %s reports %zu entries", o.items.size(), L.field, cnt(o.l)); return; }
    for (size_t i = 0; i < o.items.size(); ++i) if (at(o.l, i) != o.items[i]) { violate("P01,M01", "list-entry", "entry %zu of a list of %zu is not the one that was put there", i, o.items.size()); return; }
    asserted("M03"); if (at(o.l, o.items.size() + pick("obj.beyond", 5))) violate("M03", "beyond-end", "an entry beyond the end of a list is returned");
}
// ---- names and texts: exact lengths, no terminators
static void op_names(const Api *be, uint64_t k) {
    static const char *seed[] = {"Noise_XX_25519_AESGCM_SHA256", "NoisePSK_IK_448_ChaChaPoly_BLAKE2b", "Noise_NNhfs_25519+NewHope_AESGCM_BLAKE2s", "25519", "448", "NewHope", "AESGCM", "BLAKE2s", "XXfallback", "Noise", "NoisePSK", "Ed25519", "_", "", "+"};
    Str s = seed[pick("nm.seed", 15)]; Data d("nm", k); Str tail = seed[pick("nm.seed", 15)];
    switch (pick("nm.mut", 7)) { case 0: break; case 1: s.resize(pick("nm.cut", s.size() + 1)); break; case 2: s += tail; break; case 3: if (!s.empty()) s[pick("nm.pos", s.size())] = (char)pick("nm.ch", 256); break; case 4: s.insert(pick("nm.pos", s.size() + 1), tail); break; case 5: { Bytes b = d.bytes(pick("nm.rnd", 100)); s = Str(b.begin(), b.end()); break; } case 6: if (!s.empty()) s.erase(pick("nm.pos", s.size()), 1); break; }
    Bytes sb(s.begin(), s.end()); XBuf x(sb); NoiseProtocolId id; memset(&id, 0x77, sizeof id); asserted("M03");
    int r = CALL(be, noise_protocol_name_to_id, &id, (const char *)x.p, x.n); 
    if (r) { static const NoiseProtocolId z{}; if (memcmp(&id, &z, sizeof z)) violate("M03", "id-after-error", "a refused protocol name leaves identifiers behind"); }
    else { // a name that is accepted names exactly that protocol
        char full[200]; int q = CALL(be, noise_protocol_id_to_name, full, sizeof full, &id); asserted("H01"); if (q || s != full) violate("M03,H01", "name-round-trip", "the protocol name '%s' is accepted as %s", s.c_str(), q ? errname(q) : full); }
    static const int cats[] = {0, NOISE_CIPHER_CATEGORY, NOISE_HASH_CATEGORY, NOISE_DH_CATEGORY, NOISE_PATTERN_CATEGORY, NOISE_PREFIX_CATEGORY, NOISE_SIGN_CATEGORY, 0x7f00};
    int cat = cats[pick("nm.cat", 8)]; int v = CALL(be, noise_name_to_id, cat, (const char *)x.p, x.n); asserted("M03"); if (v) { const char *back = CALL(be, noise_id_to_name, cat, v); if (!back || s != back) violate("M03", "name-round-trip", "the name '%s' is accepted as %s", s.c_str(), back ? back : "(none)"); }
    // formatting into buffers of every size
    Suite su = gen_suite("nm"); NoiseProtocolId pid = su.id(); if (flip("nm.badid", 150)) ((int *)&pid)[pick("nm.field", sizeof pid / 4)] = (int)pick("nm.idv", 70000); size_t n = pick("nm.cap", 64); XBuf o(n, 'x'); r = CALL(be, noise_protocol_id_to_name, (char *)o.p, n, &pid); asserted("M03");
    if (n && !memchr(o.p, 0, n)) violate("M03", "not-terminated", "a name buffer of %zu bytes is left without terminator (%s)", n, errname(r));
    else if (!memcmp(&pid, &(const NoiseProtocolId &)su.id(), sizeof pid)) { Str want = su.name(); bool ok = n > want.size(); if ((r == 0) != ok || (!r && want != (char *)o.p)) violate("M03,H01", "name-format", "formatting '%s' into %zu bytes returns %s", want.c_str(), n, errname(r)); }
    size_t en = pick("nm.ecap", 80); XBuf e(en, 'x'); int code = pick("nm.ekind", 2) ? (int)(NOISE_ID('E', 0) + pick("nm.e", 30)) : (int)pick("nm.eany", 1ULL << 32); r = CALL(be, noise_strerror, code, (char *)e.p, en); asserted("M03"); if (en && (r || !memchr(e.p, 0, en))) violate("M03", "not-terminated", "noise_strerror leaves %zu bytes without terminator", en);
    size_t fl = pick("nm.fplen", 110); XBuf f(fl, 'x'); Bytes pk = d.bytes(pick("nm.pk", 70)); XBuf pkb(pk); int ft = pick("nm.fpbad", 8) ? (pick("nm.fpfull", 2) ? NOISE_FINGERPRINT_FULL : NOISE_FINGERPRINT_BASIC) : (int)pick("nm.eany", 1ULL << 32);
    r = CALL(be, noise_format_fingerprint, ft, (char *)f.p, fl, pkb.p, pkb.n); asserted("M03"); if (fl && !memchr(f.p, 0, fl)) violate("M03", "not-terminated", "a fingerprint buffer of %zu bytes is left without terminator", fl);
    if (!r) { Bytes hsh = m_hash(H_SHA256, pk); size_t c = ft == NOISE_FINGERPRINT_FULL ? 32 : 16; Str w; for (size_t i = 0; i < c; ++i) { char b[8]; snprintf(b, 8, "%02x%s", hsh[i], i + 1 < c ? ":" : ""); w += b; } if (w != (char *)f.p) violate("M03,K01", "fingerprint-differs", "the fingerprint of a key is %s, its hash %s", (char *)f.p, w.c_str()); }
}
static const int BADID[] = {0, 1, -1, 0x4300, 0x43ff, 0x4843, 0x7fffffff};
void sc_obj() {
    HEAP.scan = true; std::vector<Obj> P; unsigned want = 2 + (unsigned)pick("obj.pool", 7); unsigned ops = 8 + (unsigned)pick("ops", 60); g_pm_oom = pick("style", 2) ? 400 : 0; (void)g_live;
    auto kill = [&](Obj &o) { if (o.h) CALL(o.be, noise_hashstate_free, o.h); if (o.c) CALL(o.be, noise_cipherstate_free, o.c); if (o.d) CALL(o.be, noise_dhstate_free, o.d); if (o.s) CALL(o.be, noise_symmetricstate_free, o.s); if (o.l) lib_free(o.be, LD[o.lt].parent, o.l); };
    for (unsigned k = 0; k < ops && !violated(); ++k) {
        if (P.size() < want && (P.empty() || pick("obj.new", 3) == 0)) {
            Obj o; o.kind = (int)pick("obj.kind", O_KINDS); o.be = pick_be("be", 0); o.id = (int)k; int r = -1; bool nm = pick("obj.byname", 2);
            switch (o.kind) {
            case O_HASH: o.alg = (int)pick("obj.alg", 4); r = create<NoiseHashState>("a hash", &o.h, [&](NoiseHashState **p) { return nm ? CALL(o.be, noise_hashstate_new_by_name, p, HNAME[o.alg]) : CALL(o.be, noise_hashstate_new_by_id, p, HID[o.alg]); }); break;
            case O_CIPHER: o.alg = (int)pick("obj.calg", 2); r = create<NoiseCipherState>("a cipher", &o.c, [&](NoiseCipherState **p) { return nm ? CALL(o.be, noise_cipherstate_new_by_name, p, CNAME[o.alg]) : CALL(o.be, noise_cipherstate_new_by_id, p, CID[o.alg]); }); break;
            case O_DH: o.alg = pick("obj.dalg", 3) ? D_25519 : D_448; r = create<NoiseDHState>("a key exchange object", &o.d, [&](NoiseDHState **p) { return nm ? CALL(o.be, noise_dhstate_new_by_name, p, o.alg == D_448 ? "448" : "25519") : CALL(o.be, noise_dhstate_new_by_id, p, o.alg == D_448 ? NOISE_DH_CURVE448 : NOISE_DH_CURVE25519); }); break;
            case O_SYM: { o.suite = gen_suite("obj"); NoiseProtocolId id = o.suite.id(); Str n = o.suite.name(); r = create<NoiseSymmetricState>("a symmetric state", &o.s, [&](NoiseSymmetricState **p) { return nm ? CALL(o.be, noise_symmetricstate_new_by_name, p, n.c_str()) : CALL(o.be, noise_symmetricstate_new_by_id, p, &id); }); o.m.init(o.suite); break; }
            case O_LIST: o.lt = (int)pick("obj.list", 7); { auto f = (int (*)(void **))lib_sym(o.be, Str("Noise_") + SCHEMA[LD[o.lt].parent].name + "_new"); r = create<void>("a record", &o.l, [&](void **p) { SutScope sc(o.be, "record_new"); return f(p); }); } break;
            }
            if (r) { violate("M01", "create-fails", "creating an object of kind %d with memory available fails: %s", o.kind, errname(r)); break; }
            P.push_back(o); lg("obj %d kind %d %s", o.id, o.kind, o.be->name); continue;
        }
        if (P.empty()) break;
        if (flip("obj.free", 40)) { size_t i = pick("obj.who", P.size()); kill(P[i]); P.erase(P.begin() + i); continue; }
        if (flip("obj.names", 100)) { op_names(pick_be("be", 0), k); continue; }
        if (flip("obj.hostile", 40)) { // identifiers and names that do not exist
            const Api *be = pick_be("be", 0); int id = pick("obj.badkind", 2) ? BADID[pick("obj.badid", 7)] : (int)(NOISE_ID("CHDS"[pick("obj.badcat", 4)], 20 + pick("obj.badnum", 200))); const char *nm = pick("obj.badname", 2) ? "Nonesuch" : ""; NoiseHashState *h; NoiseCipherState *c; NoiseDHState *d; NoiseSignState *s; bool byname = pick("obj.byname", 2);
            int r = create<NoiseHashState>("an unknown hash", &h, [&](NoiseHashState **p) { return byname ? CALL(be, noise_hashstate_new_by_name, p, nm) : CALL(be, noise_hashstate_new_by_id, p, id); }, false) && create<NoiseCipherState>("an unknown cipher", &c, [&](NoiseCipherState **p) { return byname ? CALL(be, noise_cipherstate_new_by_name, p, nm) : CALL(be, noise_cipherstate_new_by_id, p, id); }, false)
                && create<NoiseDHState>("an unknown key exchange", &d, [&](NoiseDHState **p) { return byname ? CALL(be, noise_dhstate_new_by_name, p, nm) : CALL(be, noise_dhstate_new_by_id, p, id); }, false) && create<NoiseSignState>("an unknown signature scheme", &s, [&](NoiseSignState **p) { return byname ? CALL(be, noise_signstate_new_by_name, p, nm) : CALL(be, noise_signstate_new_by_id, p, id); }, false);
            asserted("M03"); if (!r) { violate("M03", "unknown-algorithm", "an object is created for the unknown algorithm %#x '%s'", id, nm); break; }
            continue; }
        Obj &o = P[pick("obj.who", P.size())];
        switch (o.kind) { case O_HASH: op_hash(o, k); break; case O_CIPHER: op_cipher(o, k); break; case O_DH: op_dh(P, o, k); break; case O_SYM: op_sym(o, k); break; case O_LIST: op_list(o, k); break; }
        state_seen(H64(H64(hstr("obj"), o.kind * 16 + o.alg), H64(o.n, o.acc.size() / 64 + o.mode * 7 + o.items.size())));
    }
    if (violated()) return;
    for (auto &o : P) kill(o);
    check_no_leaks("objects");
}
