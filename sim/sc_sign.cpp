// Scenario "sign": signers and verifiers in any builds (or the independent implementation), with everything they
// exchange passing over an adversarial network, and keys passing through saved records.
#include "rec.h"
struct Signer { int id; const Api *be = 0; NoiseSignState *st = 0; Bytes priv, pub; int mode = 0; };   // mode 0 none, 1 public, 2 pair
static const uint8_t ORDER_L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10};
static void check_key(Signer &s) {
    if (!s.be) return;
    asserted("V01");
    bool kp = CALL(s.be, noise_signstate_has_keypair, s.st), pk = CALL(s.be, noise_signstate_has_public_key, s.st);
    if (kp != (s.mode == 2) || pk != (s.mode >= 1)) { violate("V01", "key-state", "a signing object with key state %d reports keypair=%d public=%d", s.mode, kp, pk); return; }
    XBuf a(32), b(32), c(32);
    int r = CALL(s.be, noise_signstate_get_keypair, s.st, a.p, 32, b.p, 32);
    if (s.mode == 2) { if (r || a.get(32) != s.priv || b.get(32) != s.pub) violate("V01", "keypair-differs", "get_keypair (%s) does not return the key pair that was set", errname(r)); }
    else {
        if (!r) violate("V01", "keypair-from-nothing", "get_keypair succeeds on an object without a private key");
        Bytes z = a.get(32); if (!s.priv.empty() && contains_window(z.data(), 32, s.priv)) violate("M02,V01", "stale-private-key", "a failed get_keypair hands out the previous private key");
        auto it = HEAP.live.find(s.st); if (!s.priv.empty() && it != HEAP.live.end() && contains_window((const uint8_t *)s.st, it->second.size, s.priv)) violate("M02", "discarded-key-kept", "a signing object still holds a private key that was replaced or cleared");
    }
    r = CALL(s.be, noise_signstate_get_public_key, s.st, c.p, 32);
    if ((r == 0) != (s.mode >= 1) || (!r && c.get(32) != s.pub)) violate("V01", "public-key-differs", "get_public_key returns %s or another key", errname(r));
}
// arguments of other sizes, or missing ones, are refused and leave the object as it was
static void odd_args(Signer &s, uint64_t salt) {
    const Api *be = s.be; NoiseSignState *st = s.st; Data d("oddsign", salt);
    bool gone = pick("sign.oddnull", 4) == 0; size_t l[2] = {32, 32}; unsigned w = pick("sign.oddwhich", 3);   // first, second, both
    uint64_t op = pick("sign.oddop", 7); size_t right = op >= 5 ? 64 : 32;
    for (int i = 0; i < 2; ++i) { l[i] = i == 1 ? right : 32; if (!gone && (op >= 3 || op == 1 ? i == 1 : w == 2 || w == (unsigned)i)) {
        switch (pick("sign.odd", 6)) { case 0: l[i] = 0; break; case 1: l[i] = 1; break; case 2: l[i] -= 1; break; case 3: l[i] += 1; break; case 4: l[i] *= 2; break; default: l[i] = pick("sign.oddn", 200); if (l[i] == (i == 1 ? right : 32)) l[i] = 7; } } }
    Bytes k = d.bytes(32), pb = m_ed25519_pub(k); k.resize(l[0], 9); pb.resize(l[1], 9); XBuf a(k), b(pb), m(d.bytes(20));
    uint8_t *x = a.p, *y = b.p; NoiseSignState *q = st; if (gone) { if (w == 0 && op != 1 && op != 3 && op != 4) x = 0; else if (w == 1) y = 0; else q = 0; }
    if (gone && q && x && y) y = 0;
    int r = 0;
    switch (op) {
    case 0: r = CALL(be, noise_signstate_set_keypair, q, x, l[0], y, l[1]); break;
    case 1: r = CALL(be, noise_signstate_set_keypair_private, q, y, l[1]); break;
    case 2: r = CALL(be, noise_signstate_get_keypair, q, x, l[0], y, l[1]); break;
    case 3: r = CALL(be, noise_signstate_set_public_key, q, y, l[1]); break;
    case 4: r = CALL(be, noise_signstate_get_public_key, q, y, l[1]); break;
    case 5: r = CALL(be, noise_signstate_sign, q, x ? m.p : 0, 20, y, l[1]); break;
    default: r = CALL(be, noise_signstate_verify, q, x ? m.p : 0, 20, y, l[1]); break;
    }
    static const char *nm[] = {"set_keypair", "set_keypair_private", "get_keypair", "set_public_key", "get_public_key", "sign", "verify"};
    count("misuse:signing-arguments"); asserted("M03,V01");
    if (!r) violate("M03,V01", "odd-arguments-accepted", "noise_signstate_%s succeeds with %s (%zu, %zu)", nm[op], gone ? "a missing argument" : "lengths that are none of the algorithm's", l[0], l[1]);
    if (op < 5 || r) check_key(s);
}
// what an object went through before it is given its key
static void prehistory(Signer &s, uint64_t salt) {
    const Api *be = s.be; NoiseSignState *st = s.st;
    unsigned n = (unsigned)choose("sign.prehistory", 4, 350);
    for (unsigned i = 0; i < n; ++i) {
        Data d("prehist", H64(salt, i)); Bytes k = d.bytes(32); XBuf a(k), b(m_ed25519_pub(k)); NoiseSignState *o = 0;
        switch (pick("sign.prekind", 5)) {
        case 0: CALL(be, noise_signstate_set_public_key, st, b.p, 32); s.mode = 1; s.pub = b.get(32); break;
        case 1: CALL(be, noise_signstate_set_keypair_private, st, a.p, 32); secret_add("signing key", k); s.mode = 2; s.priv = k; s.pub = b.get(32); break;
        case 2: CALL(be, noise_signstate_set_keypair, st, a.p, 32, b.p, 32); secret_add("signing key", k); s.mode = 2; s.priv = k; s.pub = b.get(32); break;
        case 3: CALL(be, noise_signstate_clear_key, st); s.mode = 0; break;
        case 4: if (!CALL(be, noise_signstate_new_by_id, &o, NOISE_SIGN_ED25519)) { bool pc = pick("sign.precopy", 2); if (pc) CALL(be, noise_signstate_set_public_key, o, b.p, 32); CALL(be, noise_signstate_copy, st, o); s.mode = pc ? 1 : 0; if (pc) s.pub = b.get(32); CALL(be, noise_signstate_free, o); } break;
        }
        count("op:earlier-key"); check_key(s);
        if (flip("sign.oddargs", 150)) odd_args(s, H64(salt, 77 + i));
    }
}
static bool put_private(Signer &s, const Bytes &priv, const char *how) {
    // supply a private key in one of the ways the API has
    Bytes pub = m_ed25519_pub(priv);
    if (!s.be) { s.priv = priv; s.pub = pub; s.mode = 2; return true; }
    XBuf a(priv), b(pub); int r; uint64_t k = pick("sign.how", 4);
    if (k == 0) {
        Bytes bad = pub; bad[pick("net.pos", 32)] ^= 1 << pick("net.bit", 8); XBuf c(bad);
        r = CALL(s.be, noise_signstate_set_keypair, s.st, a.p, 32, c.p, 32); asserted("V01"); count("probe:mismatched-keypair");
        if (!r) { violate("V01", "mismatched-keypair", "a public key that does not belong to the private key is accepted as its pair"); return false; }
        check_key(s);
    }
    if (k <= 1) r = CALL(s.be, noise_signstate_set_keypair, s.st, a.p, 32, b.p, 32); else r = CALL(s.be, noise_signstate_set_keypair_private, s.st, a.p, 32);
    asserted("V01");
    if (r) { violate("V01", "private-key-refused", "a valid private key is refused (%s): %s", how, errname(r)); return false; }
    s.priv = priv; s.pub = pub; s.mode = 2; lg("signer %d key %s", s.id, how); check_key(s); return true;
}
// the key goes through an encrypted key file written by one build and read by another
static bool via_record(const Bytes &priv, Bytes &out) {
    const Api *w = &API[pick("be.w", BE_COUNT)], *r = &API[pick("be.r", BE_COUNT)];
    Rec k(R_PRIV); Rec ki(R_PRIVINFO); Val v; Str a = "Ed25519"; v.b = Bytes(a.begin(), a.end()); ki.f[1] = {v}; v.b = priv; ki.f[2] = {v}; v = Val(); v.m = std::make_shared<Rec>(ki); k.f[4] = {v};
    void *o = 0, *q = 0; Bytes enc; NoiseProtobuf pb; XBuf buf(4096); Data d("pass", 1); Bytes pass = d.bytes(1 + pick("pass.len", 30)); XBuf ps(pass);
    static const char *alg[] = {"ChaChaPoly_BLAKE2b_PBKDF2", "AESGCM_SHA256_PBKDF2", "ChaChaPoly_SHA512_PBKDF2"};
    if (lib_build(w, k, &o)) return false;
    CALL(w, noise_protobuf_prepare_output, &pb, buf.p, buf.n); entropy_party(90);
    int e = CALL(w, noise_save_private_key_to_buffer, (Noise_PrivateKey *)o, &pb, ps.p, ps.n, alg[pick("rec.algo", 3)]);
    uint8_t *dp = 0; size_t n = 0; if (!e) e = CALL(w, noise_protobuf_finish_output, &pb, &dp, &n);
    lib_free(w, R_PRIV, o); asserted("V01,S03");
    if (e) { violate("S03,V01", "save-fails", "saving a signing key fails: %s", errname(e)); return false; }
    enc = Bytes(dp, dp + n); XBuf in(enc); CALL(r, noise_protobuf_prepare_input, &pb, in.p, in.n);
    e = CALL(r, noise_load_private_key_from_buffer, (Noise_PrivateKey **)&q, &pb, ps.p, ps.n);
    if (e) { violate("S03,V01", "load-fails", "a signing key saved by the %s build cannot be loaded by the %s build: %s", w->name, r->name, errname(e)); return false; }
    Rec got = lib_extract(r, R_PRIV, q); lib_free(r, R_PRIV, q);
    if (!(got == k)) { violate("S03,V01", "loaded-key-differs", "a signing key came back from its file as %s", got.show().c_str()); return false; }
    out = got.f[4][0].m->f[2][0].b; count("probe:key-through-record"); return true;
}
void sc_sign() {
    HEAP.scan = true;
    int n = 2 + (int)pick("signers", 3); std::vector<Signer> S(n); unsigned faultpm = pick("style", 3) == 0 ? 0 : 500;
    for (int i = 0; i < n; ++i) {
        Signer &s = S[i]; s.id = i; s.be = pick_be("be", 150); Data d("skey", i); entropy_party(i);
        if (s.be) {
            int r = pick("sign.new", 2) ? CALL(s.be, noise_signstate_new_by_name, &s.st, "Ed25519") : CALL(s.be, noise_signstate_new_by_id, &s.st, NOISE_SIGN_ED25519);
            if (r) { violate("V01", "create-fails", "creating an Ed25519 object fails: %s", errname(r)); return; }
            check_key(s);
            if (flip("sign.early", 200)) { // without a key nothing works
                XBuf m(10), sig(64); int a = CALL(s.be, noise_signstate_sign, s.st, m.p, 10, sig.p, 64), b = CALL(s.be, noise_signstate_verify, s.st, m.p, 10, sig.p, 64); asserted("V01");
                if (!a || !b) violate("V01", "works-without-key", "signing or verifying without a key: sign %s, verify %s", errname(a), errname(b));
            }
        }
        if (s.be) prehistory(s, i);
        uint64_t how = choose("sign.key", 4, 500);
        if (how == 1 && s.be) {
            entropy_mark(); int r = CALL(s.be, noise_signstate_generate_keypair, s.st); XBuf a(32), b(32); if (!r) r = CALL(s.be, noise_signstate_get_keypair, s.st, a.p, 32, b.p, 32);
            asserted("V01,R02");
            if (r) { violate("V01", "generate-fails", "generating a signing key fails: %s", errname(r)); return; }
            s.priv = a.get(32); s.pub = b.get(32); s.mode = 2; if (m_ed25519_pub(s.priv) != s.pub) violate("V01", "generated-pair-mismatch", "a generated public key does not belong to its private key");
            for (auto &o : S) if (o.id < i && o.priv == s.priv) violate("R02", "key-repeated", "the same signing key was generated twice");
            check_key(s);
        } else if (how == 2 && flip("sign.viarecord", 300)) { Bytes p = d.bytes(32), q; if (!via_record(p, q) || !put_private(s, q, "from record")) return; }
        else if (how == 3 && s.be && i) { // copied from an object of the same build
            Signer tmp; tmp.be = s.be; if (CALL(s.be, noise_signstate_new_by_id, &tmp.st, NOISE_SIGN_ED25519)) return;
            if (!put_private(tmp, d.bytes(32), "source of copy")) return;
            int r = CALL(s.be, noise_signstate_copy, s.st, tmp.st); asserted("V01"); if (r) violate("V01", "copy-fails", "copying a signing key fails: %s", errname(r));
            CALL(s.be, noise_signstate_free, tmp.st); s.priv = tmp.priv; s.pub = tmp.pub; s.mode = 2; check_key(s);
        } else if (!put_private(s, d.bytes(32), "set")) return;
        if (s.be) secret_add("signing key", s.priv);
    }
    NoiseSignState *longv[BE_COUNT] = {};   // verifiers that go from one public key to the next
    struct Pkt { int from; Bytes msg, sig, pub; }; std::vector<Pkt> sent; uint64_t t = 0;
    unsigned ops = 3 + pick("ops", 12);
    for (unsigned k = 0; k < ops && !violated(); ++k) {
        ++t; Signer &s = S[pick("sign.who", n)];
        Data d("smsg", k); size_t len = maybe_huge("sign.len", gen_size("sign.len", 3000), 20); Bytes msg = d.bytes(len); if (flip("sign.zeromsg", 100)) std::fill(msg.begin(), msg.end(), 0);
        Bytes sig;
        if (s.be) { XBuf m(msg), o(64); int r = CALL(s.be, noise_signstate_sign, s.st, m.p, m.n, o.p, 64); asserted("V01"); if (r) { violate("V01", "sign-fails", "signing %zu bytes in the %s build fails: %s", len, s.be->name, errname(r)); return; } sig = o.get(64); if (m.get(len) != msg) violate("V01,M03", "message-changed", "signing changes the message");
            if (flip("sign.wronglen", 100)) { XBuf q(63); int w = CALL(s.be, noise_signstate_sign, s.st, m.p, m.n, q.p, 63); asserted("M03"); if (!w) violate("M03,V01", "short-signature-buffer", "signing into 63 bytes succeeds"); } }
        else sig = m_ed25519_sign(s.priv, msg);
        asserted("V01");
        if (!m_ed25519_verify(s.pub, msg, sig)) violate("V01", "independent-verify-fails", "the signature of a %zu byte message by the %s build does not verify in the independent implementation", len, s.be ? s.be->name : "model");
        sent.push_back(Pkt{s.id, msg, sig, s.pub});
        // deliver, possibly altered, to some verifiers
        for (unsigned v = 0; v < 2; ++v) {
            Pkt p = sent.back(); if (flip("sign.older", 200)) p = sent[pick("net.which", sent.size())];
            Pkt orig = p; uint64_t f = choose("net.fault", 13, faultpm);
            static const char *fn[] = {"none", "message-bit", "signature-bit", "key-bit", "message-truncated", "message-extended", "other-signature", "other-key", "signature-order-added", "other-message", "signature-half-swapped", "signature-extended", "signature-truncated"};
            switch (f) {
            case 1: if (!p.msg.empty()) p.msg[pick("net.pos", p.msg.size())] ^= 1 << pick("net.bit", 8); break;
            case 2: p.sig[pick("net.pos", 64)] ^= 1 << pick("net.bit", 8); break;
            case 3: p.pub[pick("net.pos", 32)] ^= 1 << pick("net.bit", 8); break;
            case 4: if (!p.msg.empty()) p.msg.resize(pick("net.pos", p.msg.size())); break;
            case 5: { Data x("sext", k); Bytes e = x.bytes(1 + pick("net.small", 70)); if (pick("net.extzero", 2)) std::fill(e.begin(), e.end(), 0); p.msg.insert(p.msg.end(), e.begin(), e.end()); break; }
            case 6: p.sig = sent[pick("net.which", sent.size())].sig; break;
            case 7: p.pub = S[pick("net.who", n)].pub; break;
            case 8: { unsigned c = 0; for (int i = 0; i < 32; ++i) { c += p.sig[32 + i] + ORDER_L[i]; p.sig[32 + i] = (uint8_t)c; c >>= 8; } break; }
            case 9: p.msg = sent[pick("net.which", sent.size())].msg; break;
            case 10: { Bytes o = sent[pick("net.which", sent.size())].sig; size_t h = 32 * pick("net.half", 2); std::copy(o.begin() + h, o.begin() + h + 32, p.sig.begin() + h); break; }
            case 11: { Bytes e = Data("sigext", k).bytes(1 + pick("net.small", 70)); p.sig.insert(p.sig.end(), e.begin(), e.end()); break; }
            case 12: p.sig.resize(pick("net.pos", 64)); break;
            }
            if (f) count(Str("fault:net-") + fn[f]);
            bool genuine = false; for (auto &q : sent) if (q.msg == p.msg && q.sig == p.sig && q.pub == p.pub) genuine = true;
            const Api *vb = &API[pick("be.v", BE_COUNT)]; NoiseSignState *vs = 0; bool own = false;
            // a verifier with only the public key, or the signer's own object
            Signer *o = nullptr; for (auto &q : S) if (q.be == vb && q.pub == p.pub) o = &q;
            if (o && pick("sign.own", 2)) { vs = o->st; own = true; }
            else {
                if (pick("sign.longv", 2)) { if (!longv[vb->id] && CALL(vb, noise_signstate_new_by_id, &longv[vb->id], NOISE_SIGN_ED25519)) return; vs = longv[vb->id]; own = true; count("op:verifier-reused"); }
                else if (CALL(vb, noise_signstate_new_by_id, &vs, NOISE_SIGN_ED25519)) return;
                Bytes stale;
                if (flip("sign.rekey", 250)) { Data x("stale", k); stale = x.bytes(32); XBuf a(stale); CALL(vb, noise_signstate_set_keypair_private, vs, a.p, 32); } // it held another key pair before
                if (flip("sign.keylen", 60)) { Bytes q = p.pub; q.resize(pick("sign.keylenis", 2) ? 33 + pick("net.small", 40) : pick("net.pos", 32)); XBuf z(q); int w = CALL(vb, noise_signstate_set_public_key, vs, z.p, z.n); asserted("V01"); count("probe:public-key-of-wrong-length"); if (!w) violate("V01", "key-of-wrong-length", "a public key of %zu bytes is accepted", q.size()); }
                XBuf a(p.pub); int r = CALL(vb, noise_signstate_set_public_key, vs, a.p, 32);
                if (r) { if (genuine) violate("V01", "public-key-refused", "the signer's public key is refused: %s", errname(r)); if (!own) CALL(vb, noise_signstate_free, vs); continue; }
                Signer tmp; tmp.be = vb; tmp.st = vs; tmp.pub = p.pub; tmp.priv = stale; tmp.mode = 1; check_key(tmp);
                if (!stale.empty()) { XBuf m(p.msg), sg(64); int x = CALL(vb, noise_signstate_sign, vs, m.p, m.n, sg.p, 64); asserted("V01"); if (!x) violate("V01", "signs-with-stale-key", "an object that holds only a public key signs"); }
            }
            XBuf m(p.msg), sg(p.sig); int r = CALL(vb, noise_signstate_verify, vs, m.p, m.n, sg.p, sg.n);
            lg("t%llu verify %s by %s (%s, %zu bytes): %s", (unsigned long long)t, fn[f], vb->name, genuine ? "genuine" : "altered", p.msg.size(), errname(r));
            state_seen(H64(f * 8 + vb->id, H64(p.msg.size() % 256, r)));
            asserted("V01");
            if (genuine && r) violate("V01", "genuine-rejected", "the %s build rejects the genuine signature of a %zu byte message made by %s: %s", vb->name, p.msg.size(), S[p.from].be ? S[p.from].be->name : "the independent implementation", errname(r));
            if (!genuine && !r) violate("V01", (Str("altered-accepted:") + fn[f]).c_str(), "the %s build accepts a signature although %s", vb->name, fn[f]);
            if (!own) CALL(vb, noise_signstate_free, vs);
        }
        if (s.be && flip("sign.oddargs", 100)) odd_args(s, H64(k, 5));
        if (s.be && flip("sign.change", 80)) { // the signer changes its key
            uint64_t c = pick("sign.changekind", 3); Data x("newkey", k);
            if (c == 1) { Bytes k2 = x.bytes(32); XBuf b(m_ed25519_pub(k2)); CALL(s.be, noise_signstate_set_public_key, s.st, b.p, 32); s.mode = 1; s.pub = b.get(32); check_key(s); prehistory(s, 1000 + k); }
            if (c == 0) { CALL(s.be, noise_signstate_clear_key, s.st); s.mode = 0; check_key(s); Bytes old = s.priv; XBuf m(5), sg(64); int w = CALL(s.be, noise_signstate_sign, s.st, m.p, 5, sg.p, 64); asserted("V01"); if (!w) violate("V01", "signs-after-clear", "an object whose key was cleared signs"); }
            if (!put_private(s, x.bytes(32), "changed")) return;
            secret_add("signing key", s.priv);
        }
    }
    for (auto &s : S) if (s.be) CALL(s.be, noise_signstate_free, s.st);
    for (int b = 0; b < BE_COUNT; ++b) if (longv[b]) CALL(&API[b], noise_signstate_free, longv[b]);
    check_no_leaks("signing"); sut_fd_check(); sim_time(t);
}
