// Scenarios "net" and "transport": sessions over an adversarial network.
#include <deque>
#include "party.h"

struct Sent { int from; uint64_t nonce; Bytes ad, pt, ct; };
struct Msg { int from; size_t idx; Bytes b; };
struct World {
    std::deque<EP> past; std::vector<EP *> ghosts;   // what endpoints were before they fell back: their messages may still be replayed
    std::vector<EP *> eps;
    std::vector<std::vector<Bytes>> inbox;
    std::vector<Msg> recorded;
    std::vector<int> partner_of;
    unsigned pm_fault = 0, pm_misuse = 0;
    bool big = false;
    uint64_t t = 0;
    int dh = 0; // of the sender of the message at hand
    std::vector<size_t> cuts; // where the fields of the message at hand end
};
static const char *FAULTS[] = {"deliver", "bitflip", "truncate", "extend", "drop", "duplicate", "misdeliver", "replay", "reflect", "garbage", "splice", "zero-key", "delay", "swap-order", "null-byte-edit", "odd-key", "odd-key"};

static Bytes mutate(World &w, const char *kind, const Bytes &in) {
    Bytes b = in;
    if (!strcmp(kind, "bitflip")) { if (!b.empty()) { size_t n = 1 + choose("net.flips", 3, 200); for (size_t i = 0; i < n; ++i) b[pick("net.pos", b.size())] ^= 1 << pick("net.bit", 8); } }
    else if (!strcmp(kind, "null-byte-edit")) { if (!b.empty()) { size_t k = pick("net.pos", b.size()); b[k] = (uint8_t)(b[k] + 1 + pick("net.delta", 255)); } }
    else if (!strcmp(kind, "truncate")) { uint64_t how = pick("net.trunckind", 3); size_t k = b.size() ? (how == 1 ? pick("net.pos", b.size()) : b.size() - 1 - pick("net.small", std::min<size_t>(b.size(), 20))) : 0; if (how == 2 && !w.cuts.empty()) k = w.cuts[pick("net.cut", w.cuts.size())]; b.resize(std::min(k, b.size())); }
    else if (!strcmp(kind, "extend")) { Data d("ext", w.t); Bytes x = d.bytes(1 + pick("net.small", 40)); if (pick("net.extzero", 2)) std::fill(x.begin(), x.end(), 0); b.insert(b.end(), x.begin(), x.end()); }
    else if (!strcmp(kind, "garbage")) { Data d("garbage", w.t); size_t n = pick("net.garbagekind", 2) ? b.size() : pick("net.garbagelen", 300); b = d.bytes(n); }
    else if (!strcmp(kind, "splice")) {
        if (!w.recorded.empty() && !b.empty()) { const Bytes &o = w.recorded[pick("net.which", w.recorded.size())].b; size_t cut = pick("net.pos", b.size() + 1); if (pick("net.cutkind", 2)) { static const size_t c[] = {32, 48, 56, 80, 96, 128}; cut = std::min(b.size(), c[pick("net.cut", 6)]); } Bytes r(b.begin(), b.begin() + cut); if (o.size() > cut) r.insert(r.end(), o.begin() + cut, o.end()); b = r; }
    } else if (!strcmp(kind, "zero-key")) { size_t n = std::min<size_t>(b.size(), 32 + 24 * pick("net.zlen", 2)); size_t off = pick("net.zoff", 2) && b.size() > n ? pick("net.pos", b.size() - n) : 0; std::fill(b.begin() + off, b.begin() + off + n, 0); }
    else if (!strcmp(kind, "odd-key")) { Bytes k = odd_pub(w.dh, pick("net.oddkey", 70)); size_t off = pick("net.zoff", 5) == 1 ? k.size() : 0; if (b.size() >= off + k.size()) std::copy(k.begin(), k.end(), b.begin() + off); }
    return b;
}
static void send_msg(World &w, int from, const Bytes &m) {
    int to = w.partner_of[from];
    w.recorded.push_back(Msg{from, w.eps[from]->msg, m});
    w.dh = w.eps[from]->suite.dh;
    uint64_t f = choose("net.fault", 17, w.pm_fault);
    lg("t%llu %s -> %d %zu bytes: %s", (unsigned long long)w.t, w.eps[from]->nm().c_str(), to, m.size(), FAULTS[f]);
    if (f) count(Str("fault:net-") + FAULTS[f]);
    { EP &e = *w.eps[from]; size_t p = e.pay.empty() ? 0 : e.pay.back().size(), d = dh_publen(e.suite.dh), h = e.pat->hfs ? dh_publen(e.suite.hybrid) : 0; w.cuts.clear(); for (size_t c : {p, p + 16}) if (c && c <= m.size()) w.cuts.push_back(m.size() - c); for (size_t c : {d, d + 16, d + h, 2 * d + h + 16}) if (c < m.size()) w.cuts.push_back(c); }
    switch (f) {
    case 0: w.inbox[to].push_back(m); break;
    case 4: break;
    case 5: w.inbox[to].push_back(m); w.inbox[to].push_back(m); break;
    case 6: { int o = (int)pick("net.dest", w.eps.size()); w.inbox[o].push_back(m); if (pick("net.also", 2)) w.inbox[to].push_back(m); break; }
    case 7: { auto &o = w.recorded[pick("net.which", w.recorded.size())]; w.inbox[to].push_back(o.b); if (pick("net.also", 2)) w.inbox[to].push_back(m); break; }
    case 8: w.inbox[from].push_back(m); if (pick("net.also", 2)) w.inbox[to].push_back(m); break;
    case 12: w.inbox[to].push_back(m); w.t += 50; break;
    case 13: w.inbox[to].insert(w.inbox[to].begin(), m); break;
    default: { Bytes x = mutate(w, FAULTS[f], m); w.inbox[to].push_back(x); if (pick("net.also", 4) == 1) w.inbox[to].push_back(m); }
    }
}
static void deliver(World &w, int i) {
    EP &e = *w.eps[i];
    Bytes in = w.inbox[i].front(); w.inbox[i].erase(w.inbox[i].begin());
    if (e.failed || e.done || e.my_turn()) { // not expecting anything: a real application would try anyway now and then
        if (!e.model() && e.hs && flip("net.trywrong", 300)) {
            XBuf b(in), pb(in.size() + 8); NoiseBuffer mb, p; noise_buffer_set_input(mb, b.p, b.n); noise_buffer_set_output(p, pb.p, pb.n);
            int r = CALL(e.be, noise_handshakestate_read_message, e.hs, &mb, &p);
            asserted("H03,H02");
            if (r == 0) violate("H03,H02", e.failed ? "read-after-failure" : "read-out-of-turn", "%s %s accepts a message in action %#x", e.suite.name().c_str(), e.nm().c_str(), e.expect_action());
            ep_check_action(e);
        }
        return;
    }
    EP *src = ep_genuine_source(w.eps, e, in); if (!src) src = ep_genuine_source(w.ghosts, e, in);
    bool enc = enc_at(*e.pat, e.msg, e.suite.psk, e.fb);
    bool st_enc = false; { bool k = (e.fb && e.suite.psk) || (e.msg > 0 && enc_at(*e.pat, e.msg - 1, e.suite.psk, e.fb)); for (auto t : e.pat->msgs[e.msg]) { if (t == T_E) { if (e.suite.psk) k = true; } else if (t == T_S || t == T_F) { if (k) st_enc = true; } else k = true; } }
    Bytes payload, pp; MErr pred = M_BUG; bool pv = false, leak = false;
    bool nullp = flip("read.null", src ? 80 : 300);
    size_t need = src ? src->pay[e.msg].size() : 0, cap = in.size() + 16; bool tight = false;
    if (src) { uint64_t k = choose("read.cap", 3, 400); if (k == 1) cap = need; else if (k == 2 && need && flip("read.short", 150)) { cap = pick("read.shortcap", need); tight = true; } }
    if (nullp || e.model()) tight = false;
    size_t midx = e.msg;
    int r = ep_read(e, in, payload, cap, nullp, &pred, &pv, &pp, &leak);
    if (r && e.oom) { lg("t%llu %s runs out of memory reading message %zu: %s", (unsigned long long)w.t, e.nm().c_str(), midx, errname(r)); heap_mark(); ep_check_action(e); return; }
    lg("t%llu %s reads message %zu (%zu bytes, %s): %s", (unsigned long long)w.t, e.nm().c_str(), midx, in.size(), src ? "genuine" : enc ? "not genuine" : "unauthenticated", errname(r));
    bool mixed_model = e.model() || (src && src->model());
    state_seen(H64(H64(hstr(e.suite.name().c_str()), midx * 2 + e.ini), r * 16 + (src != 0) * 2 + enc));
    if (tight) {
        asserted("M03"); count("probe:payload-buffer-too-small");
        if (r == 0) violate("M03", "payload-overflow", "a payload of %zu bytes was accepted into a buffer of %zu", need, cap);
        ep_check_action(e); return;
    }
    if (leak) violate("H02,T03", "payload-leak", "a rejected handshake message leaves its payload in the caller's buffer");
    if (src) {
        asserted(mixed_model ? "H05" : "H01,H02");
        const char *props = e.fb ? (mixed_model ? "H05,H04" : "H01,H05,H04") : mixed_model ? "H05" : e.be == src->be ? "H01" : "H01,H05";
        if (r) violate(props, mixed_model ? "interop-rejected" : "genuine-rejected", "%s message %zu from %s, delivered intact, is rejected by %s with %s", e.suite.name().c_str(), midx, src->nm().c_str(), e.nm().c_str(), errname(r));
        else if (!nullp && payload != src->pay[midx]) violate(mixed_model ? "H05" : "H01,H02", "payload-differs", "%s message %zu: %s received a payload of %zu bytes that differs from the %zu bytes written", e.suite.name().c_str(), midx, e.nm().c_str(), payload.size(), src->pay[midx].size());
        if (!r) { e.pay.back() = src->pay[midx]; count("probe:genuine-read"); }
    } else if (enc || st_enc) {
        asserted("H02");
        bool cfg = false; for (auto q : w.eps) if (q != &e && q->tr.size() > midx && q->tr[midx] == in && ep_same_transcript(e, *q, midx) && q->ini != e.ini) cfg = true;
        if (cfg) { asserted("H01"); count("probe:config-mismatch-message"); }
        if (r == 0) violate(cfg ? "H01,H02" : "H02", cfg ? "mismatched-config-accepted" : "forgery-accepted", "%s message %zu (%zu bytes) that no peer of %s wrote in this exchange is accepted", e.suite.name().c_str(), midx, in.size(), e.nm().c_str());
        count("probe:forgery-offered");
    } else if (r == 0) count("probe:unauthenticated-accepted");
    if (pv && !e.model()) {
        asserted("H05,H02");
        if ((pred == M_OK) != (r == 0)) {
            world_desync(w.eps);
            // an unauthenticated message the specification accepts, or one it rejects (too short, null key)
            violate(pred == M_OK ? "H05,H01" : pred == M_KEY ? "H05,H02" : pred == M_LEN ? "H05,H02,M03" : "H05,H02", pred == M_OK ? "spec-accepts" : "spec-rejects", "%s message %zu read by %s: library says %s, the specification says %s", e.suite.name().c_str(), midx, e.nm().c_str(), errname(r), pred == M_OK ? "accept" : pred == M_LEN ? "too short" : pred == M_MAC ? "authentication failure" : "null public key");
        } else if (r == 0 && !nullp && payload != pp && !src) violate("H05,H02", "spec-payload-differs", "%s message %zu: payload differs from the specification's", e.suite.name().c_str(), midx);
    }
    if (r) {
        ep_check_action(e);
        if (!e.model()) {
            // a failed handshake cannot be continued
            asserted("H02,H03");
            uint8_t h[64]; int a = CALL(e.be, noise_handshakestate_get_handshake_hash, e.hs, h, sizeof h); NoiseCipherState *c1 = 0, *c2 = 0; int b = CALL(e.be, noise_handshakestate_split, e.hs, &c1, &c2);
            if (!a || !b || c1 || c2) violate("H02,H03", "failed-handshake-usable", "%s after a failed read: get_handshake_hash %s, split %s", e.nm().c_str(), errname(a), errname(b));
        }
    }
}

static void handshake_write(World &w, int i) {
    EP &e = *w.eps[i];
    size_t oh = e.m.overhead(), max = 65535 - oh;
    size_t n = gen_size("payload", w.big ? max : std::min<size_t>(max, 4000));
    Data d("payload", H64(e.id, e.msg)); Bytes pay = d.bytes(n), out;
    uint64_t k = choose("write.cap", 4, 300); size_t cap = n + oh; bool shrt = false;
    if (k == 1) cap += 1 + pick("write.slack", 64); else if (k == 2) cap = 65535 > cap ? 65535 : cap; else if (k == 3 && !e.model() && flip("write.short", 120)) { cap = pick("write.shortcap", cap); shrt = true; }
    size_t midx = e.msg; bool refuse = e.m.write_refused();
    int r = ep_write(e, pay, out, cap, flip("write.null", 500));
    if (r && e.oom) { lg("t%llu %s runs out of memory writing message %zu: %s", (unsigned long long)w.t, e.nm().c_str(), midx, errname(r)); heap_mark(); e.failed = true; e.synced = false; ep_check_action(e); return; }
    lg("t%llu %s writes message %zu payload %zu: %s %s", (unsigned long long)w.t, e.nm().c_str(), midx, n, errname(r), hex(out, 8).c_str());
    if (refuse) { // the peer's public key is one that the key agreement refuses
        asserted("H05,H02"); count("probe:write-with-refused-key");
        if (!r) { world_desync(w.eps); violate("H05,H02", "refused-key-used", "%s message %zu is written by %s although key agreement refuses the peer's public key", e.suite.name().c_str(), midx, e.nm().c_str()); }
        e.failed = true; e.synced = false; ep_check_action(e); return;
    }
    if (shrt) {
        asserted("M03"); count("probe:message-buffer-too-small");
        if (r == 0) violate("M03", "message-overflow", "a message of %zu bytes was written to a buffer of %zu", n + oh, cap);
        else { int a = CALL(e.be, noise_handshakestate_get_action, e.hs); asserted("H03"); if (a != NOISE_ACTION_FAILED && a != NOISE_ACTION_WRITE_MESSAGE) violate("H03", "action-after-failed-write", "action %#x after a refused write", a);
            if (a == NOISE_ACTION_WRITE_MESSAGE) { // the refusal left the handshake open, so it must still work
                r = ep_write(e, pay, out, n + oh); if (r) { violate("H03", "write-after-refusal", "the handshake claims to be open after a refused write but fails with %s", errname(r)); e.failed = true; return; } }
            else { e.failed = true; e.synced = false; return; } }
    }
    if (r) { asserted("H01,H03"); violate(e.fb ? "H01,H03,H04" : "H01,H03", "write-fails", "%s message %zu with a payload of %zu bytes cannot be written by %s: %s", e.suite.name().c_str(), midx, n, e.nm().c_str(), errname(r)); e.failed = true; return; }
    asserted("H01");
    if (out.size() != n + oh) violate("H05,H01", "message-size", "%s message %zu has %zu bytes instead of %zu", e.suite.name().c_str(), midx, out.size(), n + oh);
    send_msg(w, i, out);
}
static void check_pairs(World &w) {
    for (auto a : w.eps) for (auto b : w.eps) {
        if (!a->ini || b->ini || !a->split || !b->split) continue;
        bool pair = ep_compat(*a, *b) && ep_same_transcript(*a, *b, std::max(a->tr.size(), b->tr.size()));
        asserted(a->model() || b->model() ? "H05" : "H01,H02");
        if (pair) {
            count("probe:completed-pair");
            if (a->hash != b->hash) violate(a->fb ? (a->model() || b->model() ? "H05,H04" : "H01,H04") : a->model() || b->model() ? "H05" : "H01", "hash-mismatch", "%s: %s and %s completed one handshake with different hashes", a->suite.name().c_str(), a->nm().c_str(), b->nm().c_str());
            for (int k = 0; k < 2; ++k) {
                EP &x = k ? *b : *a, &y = k ? *a : *b;
                if (x.model() || !y.s.has_pub) continue;
                bool has = y.pat->needs_static(y.ini); if (!has) continue;
                NoiseDHState *d = CALL(x.be, noise_handshakestate_get_remote_public_key_dh, x.hs);
                Bytes pk(y.s.pub.size()); int r = d ? CALL(x.be, noise_dhstate_get_public_key, d, pk.data(), pk.size()) : -1;
                asserted("H01"); count("probe:remote-static-checked");
                if (r || !CALL(x.be, noise_handshakestate_has_remote_public_key, x.hs)) violate(x.fb ? "H01,H04" : "H01", "no-remote-key", "%s: %s completed without the peer's static key (%s)", x.suite.name().c_str(), x.nm().c_str(), errname(r));
                else if (pk != y.s.pub) violate(x.fb ? "H01,H04" : "H01", "wrong-remote-key", "%s: %s holds a static key that is not its peer's", x.suite.name().c_str(), x.nm().c_str());
            }
        } else if (a->hash == b->hash) violate(a->fb ? "H02,H01,H04" : "H02,H01", "hash-collision", "%s and %s did not run the same handshake but have the same handshake hash", a->nm().c_str(), b->nm().c_str());
    }
}

// ------------------------------------------------------------------ transport
struct Dir { EP *e; NoiseCipherState *c; const Api *be; Bytes key; bool known; uint64_t n; uint64_t lo; }; // lo: nonce may lie in [n, lo] after failures
struct Transport {
    World *w; std::vector<Dir> snd, rcv;   // per endpoint
    std::vector<Sent> log; std::set<Bytes> prefixes; std::vector<int> peer;
};
static const uint64_t LAST = ~0ULL;
static size_t g_tcap;                        // longest payload of a message in a long row of short ones
static size_t tsize(bool big) { if (g_tcap) return pick("t.size", g_tcap); return gen_size("t.size", big ? 65519 : 2000); }

// A call with arguments that describe no buffer is refused; what follows shows that nothing changed.
static void bad_args(Dir &d, EP &e, bool enc) {
    Bytes z(40, 7); XBuf b(z); NoiseBuffer nb; uint64_t how = pick("t.badhow", 3); noise_buffer_set_inout(nb, b.p, 20, 40);
    if (how == 1) nb.data = 0; else if (how == 2) nb.size = 41 + pick("t.badby", 70000);
    const uint8_t *ad = how ? (const uint8_t *)"ad" : 0; size_t al = how ? 2 : 1 + pick("t.badad", 5);
    int r = enc ? CALL(d.be, noise_cipherstate_encrypt_with_ad, d.c, ad, al, &nb) : CALL(d.be, noise_cipherstate_decrypt_with_ad, d.c, ad, al, &nb);
    asserted("M03,T03"); count("misuse:transport-buffer");
    if (!r) violate("M03,T03", "bad-buffer-accepted", "%s: %s with %s is accepted", e.nm().c_str(), enc ? "encrypting" : "decrypting", how == 0 ? "missing associated data" : how == 1 ? "no buffer" : "a size beyond the buffer");
}
static void do_send(Transport &T, int i, bool faults) {
    Dir &d = T.snd[i]; EP &e = *T.w->eps[i];
    if (d.be && faults && flip("t.badargs", 25)) { bad_args(d, e, true); if (violated()) return; }
    size_t n = tsize(T.w->big); Data dd("tpay", T.log.size()); Bytes pt = dd.bytes(n), ad;
    if (flip("t.ad", 250)) ad = dd.bytes(maybe_huge("t.adlen", gen_size("t.adlen", 300), 10));
    Sent s{i, d.n, ad, pt, Bytes()};
    if (!d.be) { // model endpoint
        if (d.n == LAST) return;
        s.ct = m_aead_enc(e.suite.cipher, d.key, d.n, ad, pt); d.n++; T.log.push_back(s); return;
    }
    size_t cap = n + 16 + (flip("t.slack", 300) ? pick("t.slackn", 40) : 0); bool shrt = false, oom = false;
    if (faults && flip("t.short", 60)) { cap = n + pick("t.shortn", 16); shrt = true; }
    if (n > 65519) return;
    XBuf b(pt, std::max(cap, n)); NoiseBuffer nb; noise_buffer_set_inout(nb, b.p, n, cap);
    if (faults && d.known && flip("t.oom", 40)) { heap_mark(); HEAP.fail_at.insert(1 + pick("t.oomat", 6)); oom = true; }
    XBuf adb(ad); int r;
    if (ad.empty() && pick("t.plain", 2)) r = CALL(d.be, noise_cipherstate_encrypt, d.c, &nb); else r = CALL(d.be, noise_cipherstate_encrypt_with_ad, d.c, ad.empty() && pick("t.nullad", 2) ? (const uint8_t *)0 : adb.p, ad.size(), &nb);
    bool failed_alloc = oom && HEAP.failed; if (oom) { heap_faults_off(); HEAP.failed = 0; }
    lg("t%llu %s encrypts %zu bytes nonce %llu: %s", (unsigned long long)T.w->t, e.nm().c_str(), n, (unsigned long long)d.n, errname(r));
    state_seen(H64(H64(e.suite.cipher * 4 + (d.be ? d.be->id : 3), n > 64 ? 64 + n % 64 : n), H64(r, shrt * 2 + failed_alloc)));
    asserted("T02,M03");
    if (nb.size > cap) { violate("M03", "encrypt-overflow", "encrypt reports %zu bytes in a buffer of %zu", nb.size, cap); return; }
    if (d.n == LAST && d.lo == LAST) {
        asserted("T02"); count("probe:encrypt-at-exhaustion");
        if (!r) violate("T02", "reserved-nonce-used", "encryption with the reserved last nonce succeeded");
        else if (!shrt && contains_window(b.p, b.n, Bytes())) {}
        return;
    }
    if (shrt) { asserted("M03,T03"); count("probe:encrypt-buffer-too-small"); if (!r) violate("M03", "encrypt-no-room", "encrypt succeeds although the buffer has no room for the authentication tag"); return; }
    if (r) {
        if (failed_alloc) { count("probe:encrypt-allocation-failed"); if (d.lo < LAST) d.lo++; return; }
        if (r == NOISE_ERROR_INVALID_NONCE && d.lo == LAST) { d.n = LAST; count("probe:exhausted-after-failure"); return; } // the failures used up the last nonces
        asserted("H01,T03,T02"); violate("H01,T03", "encrypt-fails", "encrypting %zu bytes at nonce %llu fails: %s", n, (unsigned long long)d.n, errname(r)); return;
    }
    if (failed_alloc && d.be->id == BE_OPENSSL) {} // success despite a failed allocation is judged by the receiver
    s.ct = b.get(nb.size);
    asserted("H01,T02");
    if (nb.size != n + 16) { violate("H05,H01", "ciphertext-size", "a message of %zu bytes was encrypted to %zu", n, nb.size); return; }
    if (d.known) {
        // which nonce was used?
        uint64_t used = d.n; bool found = false;
        for (uint64_t k = d.n;; ++k) { if (m_aead_enc(e.suite.cipher, d.key, k, ad, pt) == s.ct) { used = k; found = true; break; } if (k == d.lo || k - d.n > 64) break; }
        asserted("H05,T02");
        if (!found) {
            // is it an older nonce?
            bool older = false; for (auto &o : T.log) if (o.from == i && m_aead_enc(e.suite.cipher, d.key, o.nonce, ad, pt) == s.ct) { older = true; violate("T02", "nonce-reused", "%s build encrypts under nonce %llu again", d.be->name, (unsigned long long)o.nonce); }
            if (!older) violate("H05,T02", "transport-bytes-differ", "%s at nonce %llu: ciphertext of %zu bytes by the %s build is not what the specification gives", e.suite.name().c_str(), (unsigned long long)d.n, n, d.be->name);
        }
        s.nonce = used; d.n = used;
    }
    if (n >= 16) {
        Bytes ks(16); for (int k = 0; k < 16; ++k) ks[k] = s.ct[k] ^ pt[k];
        asserted("T02");
        if (!T.prefixes.insert(ks).second) violate("T02", "keystream-repeated", "two messages were encrypted with the same key stream (%s, sender %s)", e.suite.name().c_str(), e.nm().c_str());
    }
    d.n = s.nonce == LAST ? LAST : s.nonce + 1; d.lo = d.n;
    T.log.push_back(s);
}
static void do_recv(Transport &T, int i, const Bytes &ct, const Bytes &ad, bool faults, bool must) {
    Dir &d = T.rcv[i]; EP &e = *T.w->eps[i]; const Sent *g = nullptr;
    for (auto &s : T.log) if (s.from == T.peer[i] && s.nonce == d.n && s.ct == ct && s.ad == ad) g = &s;
    if (d.n == LAST) g = nullptr;
    Bytes pt; int r;
    if (!d.be) {
        if (d.n == LAST) return;
        bool ok = m_aead_dec(e.suite.cipher, d.key, d.n, ad, ct, pt);
        asserted("H05");
        if (ok != (g != 0)) violate(T.peer[i] >= 0 ? "H05" : "T01", "model-disagrees", "the model %s a message that %s genuine", ok ? "accepts" : "rejects", g ? "is" : "is not");
        if (ok) d.lo = ++d.n;
        return;
    }
    bool oom = false;
    if (faults && flip("t.badargs", 25)) { bad_args(d, e, false); if (violated()) return; }
    XBuf b(ct, ct.size() + (flip("t.rslack", 300) ? pick("t.slackn", 40) : 0)); Bytes before = b.get(b.n); NoiseBuffer nb; noise_buffer_set_inout(nb, b.p, ct.size(), b.n);
    if (faults && flip("t.roomfault", 40)) { heap_mark(); HEAP.fail_at.insert(1 + pick("t.oomat", 6)); oom = true; }
    XBuf adb(ad);
    if (ad.empty() && pick("t.plain", 2)) r = CALL(d.be, noise_cipherstate_decrypt, d.c, &nb); else r = CALL(d.be, noise_cipherstate_decrypt_with_ad, d.c, ad.empty() && pick("t.nullad", 2) ? (const uint8_t *)0 : adb.p, ad.size(), &nb);
    bool fa = oom && HEAP.failed; if (oom) { heap_faults_off(); HEAP.failed = 0; }
    lg("t%llu %s decrypts %zu bytes nonce %llu (%s): %s", (unsigned long long)T.w->t, e.nm().c_str(), ct.size(), (unsigned long long)d.n, g ? "genuine" : "not genuine", errname(r));
    state_seen(H64(H64(e.suite.cipher * 4 + (d.be ? d.be->id : 3), ct.size() > 64 ? 64 + ct.size() % 64 : ct.size()), H64(r, 8 + (g != 0) * 2 + fa)));
    if (nb.size > b.n) { violate("M03", "decrypt-overflow", "decrypt reports %zu bytes in a buffer of %zu", nb.size, b.n); return; }
    if (r == 0 && !g) {
        asserted("T01");
        if (d.n == LAST) violate("T02", "decrypt-at-exhaustion", "decryption with the reserved last nonce succeeded");
        else { const Sent *o = nullptr; for (auto &s : T.log) if (s.ct == ct) o = &s;
            violate("T01,T03", o ? "replay-accepted" : "forgery-accepted", "%s at nonce %llu accepts %s (%zu bytes)", e.nm().c_str(), (unsigned long long)d.n, !o ? "a message nobody sent" : o->from == T.peer[i] ? "a message sent under another nonce or with other associated data" : "a message of another session or direction", ct.size()); }
        d.lo = ++d.n; return;
    }
    if (r == 0) {
        asserted("T01"); count("probe:transport-accepted");
        pt = b.get(nb.size);
        if (pt != g->pt) violate("T01", "plaintext-differs", "a message of %zu bytes arrives as %zu other bytes", g->pt.size(), pt.size());
        d.lo = ++d.n; return;
    }
    asserted("T01,T03");
    if (g) {
        if (fa) { count("probe:decrypt-allocation-failed"); }
        else violate(must ? "T01,T03,H01" : "T01,H01,T03", "genuine-rejected", "%s at nonce %llu rejects the genuine message of %zu bytes: %s", e.nm().c_str(), (unsigned long long)d.n, ct.size(), errname(r));
    } else { count("probe:transport-rejected"); if (d.n == LAST) { asserted("T02"); count("probe:decrypt-at-exhaustion"); } }
    // residue: what this ciphertext would decrypt to must not be in the buffer
    if (ct.size() >= 16 + 8 && d.n != LAST) {
        Bytes ks; size_t pl = ct.size() - 16;
        if (d.known) { ks = m_aead_enc(e.suite.cipher, d.key, d.n, Bytes(), Bytes(pl, 0)); }
        else for (auto &s : T.log) if (s.from == T.peer[i] && s.nonce == d.n) { ks = s.ct; for (size_t k = 0; k < s.pt.size(); ++k) ks[k] ^= s.pt[k]; pl = std::min(pl, s.pt.size()); }
        if (!ks.empty()) {
            Bytes would(pl); for (size_t k = 0; k < pl; ++k) would[k] = ct[k] ^ ks[k];
            asserted("T03"); count("probe:residue-checked");
            if (contains_window(b.p, b.n, would)) violate("T03", "plaintext-residue", "after a decryption that failed with %s the buffer holds unauthenticated plaintext (%s build, %zu bytes)", errname(r), d.be->name, ct.size());
        }
    }
    if (g && fa) { // the state is as before, so the same message is accepted now
        do_recv(T, i, ct, ad, false, true);
    }
}
static void set_nonce(Transport &T, int i, bool recv, uint64_t v) {
    Dir &d = recv ? T.rcv[i] : T.snd[i];
    if (!d.be) { if (v >= d.n) d.n = d.lo = v; return; }
    int r = CALL(d.be, noise_cipherstate_set_nonce, d.c, v);
    lg("t%llu %s set_nonce(%s) %llu -> %llu: %s", (unsigned long long)T.w->t, T.w->eps[i]->nm().c_str(), recv ? "recv" : "send", (unsigned long long)d.n, (unsigned long long)v, errname(r));
    asserted("T02");
    if (v >= d.lo) { count("op:nonce-forward"); if (r) violate("T02,T01", "nonce-forward-refused", "moving the nonce forward from %llu to %llu is refused: %s", (unsigned long long)d.n, (unsigned long long)v, errname(r)); else d.n = d.lo = v; }
    else if (v < d.n) { count("op:nonce-backward"); if (!r) { violate("T02", "nonce-moved-back", "the nonce was moved back from %llu to %llu", (unsigned long long)d.n, (unsigned long long)v); d.n = d.lo = v; } }
    else { if (!r) d.n = d.lo = v; }
}
static void transport(World &w, unsigned ops) {
    Transport T; T.w = &w;
    std::vector<int> live;
    for (size_t i = 0; i < w.eps.size(); ++i) {
        EP &e = *w.eps[i]; bool kn = e.keys && (e.synced || e.model());
        T.snd.push_back(Dir{&e, e.snd, e.be, e.ks, kn, 0, 0}); T.rcv.push_back(Dir{&e, e.rcv, e.be, e.kr, kn, 0, 0}); T.peer.push_back(-1);
        if (e.split) live.push_back((int)i);
    }
    for (size_t i = 0; i < w.eps.size(); ++i) for (size_t j = 0; j < w.eps.size(); ++j) {
        EP &a = *w.eps[i], &b = *w.eps[j];
        if (i != j && a.split && b.split && ep_compat(a, b) && ep_same_transcript(a, b, std::max(a.tr.size(), b.tr.size()))) T.peer[i] = (int)j;
    }
    if (live.empty()) return;
    for (int i : live) if (T.peer[i] >= 0 && T.rcv[i].known && T.snd[T.peer[i]].known && T.rcv[i].key != T.snd[T.peer[i]].key) violate("H05", "model-keys", "models of both sides derive different keys");
    auto can_send = [&](int i) { EP &e = *w.eps[i]; return e.model() || (e.snd && (!e.pat->oneway || e.ini)); };
    auto can_recv = [&](int i) { EP &e = *w.eps[i]; return e.model() || (e.rcv && (!e.pat->oneway || !e.ini)); };
    if (flip("t.farnonce", 250)) { // start somewhere else in the nonce space, on both ends alike
        static const uint64_t base[] = {255, 256, 65535, 0xFFFFFFFFULL - 2, 0x100000000ULL, 0x1FFFFFFFFULL, 0x7FFFFFFFFFFFFFFEULL, LAST - 3, LAST - 1, 0xFFFFFFFEFFFFFFFFULL};
        for (int i : live) { uint64_t k = pick("t.base", 26), v = base[k % 10]; if (k >= 10) { v = 1ULL << (k < 18 ? 3 + pick("t.bit", 12) : pick("t.bit", 64)); v -= pick("t.below", std::min<uint64_t>(v, 12)); } if (can_send(i)) { set_nonce(T, i, false, v); if (T.peer[i] >= 0 && can_recv(T.peer[i])) set_nonce(T, T.peer[i], true, v); } }
        count("probe:far-nonce");
    }
    unsigned faultpm = w.pm_fault;
    if (flip("t.bulk", 12)) { // a long row of short messages in one direction, undisturbed
        int i = live[pick("t.who", live.size())], j = T.peer[i];
        if (j >= 0 && can_send(i) && can_recv(j) && T.snd[i].n == T.rcv[j].n && T.snd[i].n < LAST - 2000) {
            g_tcap = 24; unsigned m = 1 + (unsigned)pick("t.bulkn", pick("t.bulklong", 3) ? 300 : 1300), had = 0;
            for (; had < m && !violated(); ++had) {
                size_t before = T.log.size(); do_send(T, i, false); w.t++;
                if (T.log.size() == before) break;
                Sent s = T.log.back(); asserted("T01"); do_recv(T, j, s.ct, s.ad, false, true);
                if (T.rcv[j].n != T.snd[i].n) break;
            }
            g_tcap = 0; count("probe:long-row"); count("probe:long-row-messages", had);
        }
    }
    for (unsigned k = 0; k < ops && !violated(); ++k) {
        w.t++;
        int i = live[pick("t.who", live.size())]; uint64_t op = pick("t.op", 10);
        if (op < 4) { if (can_send(i)) do_send(T, i, faultpm > 0); }
        else if (op < 9) {
            if (!can_recv(i)) continue;
            Bytes ct, ad; bool have = false;
            uint64_t f = choose("t.fault", 12, faultpm);
            // the next message in order from the true peer, if there is one
            const Sent *next = nullptr; for (auto &s : T.log) if (s.from == T.peer[i] && s.nonce == T.rcv[i].n) next = &s;
            if (next) { ct = next->ct; ad = next->ad; have = true; }
            static const char *fn[] = {"deliver", "bitflip", "truncate", "extend", "drop", "duplicate", "misdeliver", "replay", "reflect", "garbage", "other-ad", "skip-ahead"};
            if (f == 0) { if (!have) continue; }
            else if (f == 4) { // lost: the receiver is told by its application to go on with the next one
                if (!have || T.rcv[i].n >= LAST - 1) continue;
                count("fault:net-drop"); set_nonce(T, i, true, T.rcv[i].n + 1); continue;
            } else if (f == 11) { // a later message arrives with its nonce known to the application
                std::vector<const Sent *> later; for (auto &s : T.log) if (s.from == T.peer[i] && s.nonce > T.rcv[i].n) later.push_back(&s);
                if (later.empty()) continue;
                count("fault:net-skip-ahead");
                const Sent *s = later[pick("t.which", later.size())]; Sent c = *s;
                if (pick("t.tellnonce", 2)) set_nonce(T, i, true, c.nonce);
                do_recv(T, i, c.ct, c.ad, true, false); continue;
            } else {
                if (T.log.empty() && f != 9) continue;
                count(Str("fault:net-") + fn[f]);
                if (f == 5 || f == 7) { auto &s = T.log[pick("t.which", T.log.size())]; ct = s.ct; ad = s.ad; }
                else if (f == 6 || f == 8) { std::vector<const Sent *> c; for (auto &s : T.log) if (f == 8 ? s.from == i : s.from != T.peer[i]) c.push_back(&s); if (c.empty()) continue; auto *s = c[pick("t.which", c.size())]; ct = s->ct; ad = s->ad; }
                else if (f == 10) { if (!have) { auto &s = T.log[pick("t.which", T.log.size())]; ct = s.ct; ad = s.ad; } if (ad.empty()) { Data d("oad", k); ad = d.bytes(1 + pick("t.adlen2", 20)); } else if (pick("t.adkind", 2)) ad.clear(); else ad[pick("net.pos", ad.size())] ^= 1 << pick("net.bit", 8); }
                else { if (!have && f != 9) { auto &s = T.log[pick("t.which", T.log.size())]; ct = s.ct; ad = s.ad; } static const char *mk[] = {"", "bitflip", "truncate", "extend", "", "", "", "", "", "garbage"}; ct = mutate(w, mk[f], ct); if (ct.size() > 65535) ct.resize(65535); }
            }
            do_recv(T, i, ct, ad, faultpm > 0, f == 0);
        } else {
            bool rc = pick("t.nside", 2); if (rc ? !can_recv(i) : !can_send(i)) continue;
            Dir &d = rc ? T.rcv[i] : T.snd[i]; uint64_t v;
            switch (pick("t.nkind", 5)) {
            case 0: v = d.n ? d.n - 1 - pick("t.nback", std::min<uint64_t>(d.n, 5)) : 0; break;
            case 1: v = d.n; break;
            case 2: v = d.n > LAST - 10 ? LAST : d.n + 1 + pick("t.nfwd", 5); break;
            case 3: v = flip("t.nwrap", 300) ? 0 : d.n > LAST - (1ULL << 33) ? d.n : d.n + (1ULL << 32) - pick("t.nfwd", 3); break;
            default: v = flip("t.nend", 200) ? LAST - pick("t.nfwd", 3) : d.n; break;
            }
            if (rc && faultpm == 0 && v > d.n) continue;
            if (!rc && faultpm == 0 && v > d.n) { set_nonce(T, i, false, v); if (T.peer[i] >= 0 && can_recv(T.peer[i])) { // both sides agree to jump
                    while (true) { const Sent *next = nullptr; for (auto &s : T.log) if (s.from == i && s.nonce == T.rcv[T.peer[i]].n) next = &s; if (!next) break; Sent c = *next; do_recv(T, T.peer[i], c.ct, c.ad, false, true); if (violated()) break; }
                    if (T.rcv[T.peer[i]].n < v) set_nonce(T, T.peer[i], true, v); } continue; }
            set_nonce(T, i, rc, v);
        }
    }
    // the faults stop: every pair must be able to talk again
    if (violated()) return;
    for (int i : live) {
        int j = T.peer[i]; if (j < 0 || !can_send(i) || !can_recv(j)) continue;
        for (int k = 0; k < 3; ++k) {
            uint64_t n = std::max(T.snd[i].lo, T.rcv[j].n); if (n >= LAST) break;
            if (T.snd[i].lo != n || T.snd[i].n != n) set_nonce(T, i, false, n);
            if (T.rcv[j].n != n) set_nonce(T, j, true, n);
            size_t before = T.log.size(); do_send(T, i, false);
            if (T.log.size() == before) break;
            Sent s = T.log.back(); asserted("T01,T03"); count("probe:recovered-delivery");
            do_recv(T, j, s.ct, s.ad, false, true);
        }
        w.t += 3;
    }
}

void make_pair(World &w, int s, const Suite &st, bool mismatch, unsigned pm_model, int identities) {
    EP *a = new EP, *b = new EP; int base = (int)w.eps.size();
    a->id = base; b->id = base + 1; a->ini = true; b->ini = false; a->suite = b->suite = st;
    a->be = pick_be("be", pm_model); b->be = pick_be("be", a->be ? pm_model : 0);
    Data d("cfg", s); size_t pl = pick("prologue.kind", 3) ? pick("prologue.len", 70) : 0; if (flip("prologue.long", 30)) pl = maybe_huge("prologue", 1000 + pick("prologue.big", 3000), 200);
    a->prologue = b->prologue = d.bytes(pl); a->psk = b->psk = d.bytes(32);
    uint64_t idn = pick("ident", identities);
    MKey ki = gen_key(st.dh == D_NEWHOPE ? D_25519 : st.dh, "ident-i", idn), kr = gen_key(st.dh == D_NEWHOPE ? D_25519 : st.dh, "ident-r", idn);
    auto setk = [&](EP *e) {
        const Pattern *p = pattern_by_id(e->suite.pattern); e->s = MKey(); e->rs = MKey();
        int dh = e->suite.dh == D_NEWHOPE ? D_25519 : e->suite.dh;
        MKey I = gen_key(dh, "ident-i", idn), R = gen_key(dh, "ident-r", idn);
        if (p->needs_static(e->ini)) e->s = e->ini ? I : R;
        if (e->ini ? p->pre_rs : p->pre_is) e->rs = mkey_from_pub(dh, e->ini ? R.pub : I.pub);
    };
    if (mismatch) {
        uint64_t k = pick("mismatch.kind", 6); EP *v = pick("mismatch.who", 2) ? b : a;
        count("fault:config-mismatch");
        if (k == 0) { if (v->prologue.empty() || pick("mismatch.how", 2)) v->prologue.push_back((uint8_t)pick("mismatch.byte", 256)); else if (pick("mismatch.how2", 2)) v->prologue.pop_back(); else v->prologue[pick("mismatch.pos", v->prologue.size())] ^= 1 << pick("mismatch.bit", 8); }
        else if (k == 1) v->psk[pick("mismatch.pos", 32)] ^= 1 << pick("mismatch.bit", 8);
        else if (k == 2) {} // static key, below
        else if (k == 3) v->suite.hash = (v->suite.hash + 1 + (int)pick("mismatch.v", 3)) % 4;
        else if (k == 4) v->suite.cipher ^= 1;
        else { if (pick("mismatch.how", 2)) v->suite.psk = !v->suite.psk; else { Suite o = gen_suite("mismatch.suite"); o.dh = v->suite.dh == D_NEWHOPE ? D_25519 : v->suite.dh; v->suite = o; } }
        setk(a); setk(b);
        if (k == 2) { MKey x = gen_key(st.dh == D_NEWHOPE ? D_25519 : st.dh, "stale", idn); if (v->rs.has_pub) v->rs = mkey_from_pub(x.dh, x.pub); else if (v->s.has_pub) v->s = x; }
    } else { setk(a); setk(b); }
    for (EP *e : {a, b}) { e->fixed_e = !flip("eph.random", 350); e->fixed_f = !flip("hyb.random", 350); }
    w.eps.push_back(a); w.eps.push_back(b); w.partner_of.push_back(base + 1); w.partner_of.push_back(base);
    w.inbox.resize(w.eps.size());
}
static void finish(World &w) {
    for (auto e : w.eps) if (!e->model()) learn_secrets(*e);
    // free in a random order
    std::vector<EP *> v = w.eps;
    while (!v.empty()) { size_t k = pick("free.order", v.size()); ep_free(*v[k]); v.erase(v.begin() + k); }
    check_no_leaks("handshakes");
    sut_fd_check();
}
// one direction is enough for a one-way pattern, and an application may want only one of an interactive one
static void split_some(EP &e) {
    if (!flip("split.partial", 200)) { ep_split(e); return; }
    count("op:split-one-direction");
    bool snd = e.pat->oneway ? e.ini : pick("split.which", 2);
    ep_split(e, snd, !snd);
}
static void run_handshakes(World &w) {
    for (unsigned step = 0; step < 400 && !violated(); ++step) {
        std::vector<std::pair<int, int>> c;
        for (size_t i = 0; i < w.eps.size(); ++i) { if (!w.eps[i]->created) continue; if (w.eps[i]->my_turn()) c.push_back({(int)i, 0}); if (!w.inbox[i].empty()) c.push_back({(int)i, 1}); }
        if (c.empty()) break;
        w.t++;
        auto x = c[pick("sched", c.size())]; EP &e = *w.eps[x.first];
        if (w.pm_misuse && flip("misuse", w.pm_misuse)) { ep_misuse(e, "misuse.kind"); if (violated()) break; }
        if (x.second == 0) handshake_write(w, x.first); else deliver(w, x.first);
        if (!e.failed) ep_check_action(e);
    }
}
static void net(unsigned transport_ops, bool long_transport) {
    World w; g_world = &w.eps; HEAP.scan = true;
    uint64_t style = pick("style", 10);
    w.pm_fault = style < 3 ? 0 : style < 7 ? 120 : 350;
    w.pm_misuse = flip("style.misuse", 500) ? 350 : 0;
    w.big = flip("style.big", 40);
    int ns = 1 + (int)choose("sessions", 3, 450);
    Suite st = gen_suite("suite");
    int sessions_same = pick("same-suite", 3) != 0;
    for (int s = 0; s < ns; ++s) {
        Suite x = st; if (s && !sessions_same) x = gen_suite("suite");
        bool mm = style != 0 && flip("mismatch", 220);
        make_pair(w, s, x, mm, 120, 2);
        lg("session %d %s %s prologue %zu %s", s, x.name().c_str(), mm ? "mismatched" : "", w.eps.back()->prologue.size(), (w.eps[w.eps.size() - 2]->nm() + " " + w.eps.back()->nm()).c_str());
        count("suite-dh:" + std::to_string(x.dh)); state_seen(hstr(x.name().c_str()));
    }
    for (auto e : w.eps) { if (!ep_create(*e, w.pm_misuse > 0) || !ep_start(*e)) { finish(w); return; } }
    run_handshakes(w);
    for (auto e : w.eps) if (e->done && !e->failed) {
        if (w.pm_misuse) ep_misuse(*e, "misuse.kind");
        split_some(*e);
        if (w.pm_misuse) ep_misuse(*e, "misuse.kind");
    }
    if (w.pm_fault == 0 && !violated()) {
        // nothing was disturbed: sessions configured alike have completed
        for (size_t i = 0; i + 1 < w.eps.size(); i += 2) { EP &a = *w.eps[i], &b = *w.eps[i + 1]; bool killed = (a.failed && !a.model() ) || (b.failed && !b.model());
            if (ep_compat(a, b) && !killed) { asserted("H01"); count("probe:clean-completion"); if (!a.split || !b.split) violate(a.model() || b.model() ? "H05,H01" : "H01", "clean-handshake-incomplete", "%s between %s and %s does not complete on a clean network", a.suite.name().c_str(), a.nm().c_str(), b.nm().c_str()); } }
    }
    if (!violated()) check_pairs(w);
    if (!violated() && transport_ops) transport(w, long_transport ? transport_ops : (unsigned)pick("ops", transport_ops));
    if (!violated()) finish(w);
    sim_time(w.t);
}
void sc_net() { net(25, false); }
void sc_transport() { net(140, true); }

// ------------------------------------------------------------------ fallback
struct FB { bool new_prologue = false, new_psk = false, mm_prologue = false, mm_psk = false, new_ident = false; Bytes prologue, psk; bool anyway = false, tryfirst = false; int refused = 0; bool dead = false; };
static void fb_params(EP &e, const FB &f, bool second) {
    Bytes p = f.prologue, k = f.psk;
    if (f.new_prologue) { if (second && f.mm_prologue) { if (p.empty()) p.push_back(1); else p[0] ^= 1; } e.prologue = p; if (!e.model()) { XBuf b(p); int r = oom_call([&] { return CALL(e.be, noise_handshakestate_set_prologue, e.hs, b.p, b.n); }, true); asserted("H04"); if (r) violate("H04,H03", "set-prologue", "the prologue cannot be replaced for the fallback: %s", errname(r)); } }
    if (f.new_psk && e.suite.psk) { if (second && f.mm_psk) k[5] ^= 4; e.psk = k; if (!e.model()) { XBuf b(k); int r = CALL(e.be, noise_handshakestate_set_pre_shared_key, e.hs, b.p, b.n); asserted("H04"); if (r) violate("H04,H03", "set-psk", "the pre-shared key cannot be replaced for the fallback: %s", errname(r)); } }
    if (f.new_ident) {
        e.s = gen_key(e.suite.dh, e.ini ? "fb-ident-i" : "fb-ident-r", e.id);
        if (!e.model()) { NoiseDHState *d = CALL(e.be, noise_handshakestate_get_local_keypair_dh, e.hs); XBuf b(e.s.priv); int r = d ? CALL(e.be, noise_dhstate_set_keypair_private, d, b.p, b.n) : -1; asserted("H04"); if (r) violate("H04,H03", "set-identity", "the static key cannot be replaced for the fallback: %s", errname(r)); }
    }
    e.m.prologue = e.prologue; e.m.psk = e.psk; e.m.s = e.s;
}
// true if the endpoint is now in the fallback handshake, started
static bool ep_fallback(World &w, EP &e, FB &f) {
    bool hfs = e.pat->hfs; int target = hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK;
    bool have = e.ini ? e.m.e.has_pub && (!hfs || e.m.f.has_pub) : e.m.re.has_pub && (!hfs || e.m.rf.has_pub);
    bool odd_e = !e.ini && ((e.m.re.has_pub && e.m.re.null_pub()) || (e.m.rf.has_pub && e.m.rf.null_pub()));
    Suite ns = e.suite; ns.pattern = target;
    if (!e.model()) {
        int act = e.expect_action();
        if (flip("fb.wrong-target", 200)) { // a target of the wrong kind first; the state must survive
            static const int ids[] = {NOISE_PATTERN_XX, NOISE_PATTERN_XX_HFS, NOISE_PATTERN_IK, 0, NOISE_PATTERN_N, 9999};
            int id = ids[pick("fb.wrong", 6)], r = CALL(e.be, noise_handshakestate_fallback_to, e.hs, id); asserted("H04,H03"); count("probe:fallback-wrong-target");
            if (!r) { violate("H04,H03", "fallback-to-wrong-pattern", "%s fell back to pattern %d, which is no fallback pattern", e.nm().c_str(), id); return false; }
            if (CALL(e.be, noise_handshakestate_get_action, e.hs) != act) { violate("H04,H03", "refused-fallback-changes-state", "a refused fallback changes the action"); return false; }
        }
        bool plain = !hfs && pick("fb.how", 2);
        int r = oom_call([&] { return plain ? CALL(e.be, noise_handshakestate_fallback, e.hs) : CALL(e.be, noise_handshakestate_fallback_to, e.hs, target); }, true);
        asserted("H04"); count("op:fallback"); lg("%s falls back to %s: %s", e.nm().c_str(), ns.name().c_str(), errname(r));
        if (r && e.oom) return false; // how far the step that ran out of memory got is not specified
        if (!have) {
            count("probe:fallback-without-ephemeral");
            if (!r) violate("H04,H03", "fallback-without-ephemeral", "%s %s fell back although the ephemeral key of the first message was never received", e.suite.name().c_str(), e.nm().c_str());
            else ep_check_action(e);
            return false;
        }
        if (r) { if (odd_e) return false; violate("H04", "fallback-refused", "%s %s in action %#x cannot fall back: %s", e.suite.name().c_str(), e.nm().c_str(), act, errname(r)); return false; }
    } else if (!have) return false;
    w.past.push_back(e); w.past.back().hs = nullptr; w.past.back().snd = w.past.back().rcv = nullptr; w.ghosts.push_back(&w.past.back());
    e.m.fallback(ns);
    e.ini = !e.ini; e.suite = ns; e.pat = pattern_by_id(ns.pattern); e.fb = true; e.failed = e.done = e.split = false; e.msg = 0; e.tr.clear(); e.pay.clear(); e.rs = MKey();
    if (!e.model()) {
        NoiseProtocolId id; memset(&id, 0, sizeof id); CALL(e.be, noise_handshakestate_get_protocol_id, e.hs, &id); NoiseProtocolId want = ns.id();
        int act = CALL(e.be, noise_handshakestate_get_action, e.hs), role = CALL(e.be, noise_handshakestate_get_role, e.hs);
        asserted("H04,H03");
        if (id.pattern_id != want.pattern_id || id.dh_id != want.dh_id || id.cipher_id != want.cipher_id || id.hash_id != want.hash_id || id.hybrid_id != want.hybrid_id || id.prefix_id != want.prefix_id) violate("H04", "wrong-protocol-id", "after the fallback the handshake reports another protocol than %s", ns.name().c_str());
        if (act != NOISE_ACTION_NONE) violate("H04,H03", "action-after-fallback", "after the fallback the action is %#x", act);
        if (role != (e.ini ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER)) violate("H04", "role-after-fallback", "after the fallback the role is %#x", role);
        int nl = CALL(e.be, noise_handshakestate_needs_local_keypair, e.hs), nr = CALL(e.be, noise_handshakestate_needs_remote_public_key, e.hs), np = CALL(e.be, noise_handshakestate_needs_pre_shared_key, e.hs), hr = CALL(e.be, noise_handshakestate_has_remote_public_key, e.hs);
        if (!!nl != !e.s.has_priv || nr || np) violate("H04,H03", "requirements-after-fallback", "after the fallback of %s needs local=%d remote=%d psk=%d", e.nm().c_str(), nl, nr, np);
        if (hr) violate("H04", "stale-remote-key", "after the fallback %s still holds the peer key of the abandoned handshake", e.nm().c_str());
        if (flip("fb.early", 300)) {
            XBuf b(200), pb(200); NoiseBuffer mb, p; noise_buffer_set_input(mb, b.p, b.n); noise_buffer_set_output(p, pb.p, pb.n); NoiseCipherState *c1 = 0, *c2 = 0; uint8_t h[64];
            int a = CALL(e.be, noise_handshakestate_read_message, e.hs, &mb, &p); noise_buffer_set_output(mb, b.p, b.n);
            int b2 = CALL(e.be, noise_handshakestate_write_message, e.hs, &mb, (const NoiseBuffer *)0), c = CALL(e.be, noise_handshakestate_split, e.hs, &c1, &c2), d = CALL(e.be, noise_handshakestate_get_handshake_hash, e.hs, h, sizeof h), g = CALL(e.be, noise_handshakestate_fallback_to, e.hs, target);
            asserted("H03,H04"); count("probe:steps-between-fallback-and-start");
            if (!a || !b2 || !c || !d || !g) violate("H03,H04", "step-before-restart", "between fallback and start: read %s write %s split %s hash %s fallback %s", errname(a), errname(b2), errname(c), errname(d), errname(g));
        }
        if (violated()) return false;
        if (!e.s.has_priv) { // the abbreviated pattern gave this party no static key
            int r = CALL(e.be, noise_handshakestate_start, e.hs); asserted("H03,H04"); count("probe:fallback-lacks-static");
            if (r != NOISE_ERROR_LOCAL_KEY_REQUIRED) violate("H03,H04", "started-without-keys", "the fallback starts without a local static key: %s", errname(r));
            return false;
        }
    } else if (!e.s.has_priv) return false;
    fb_params(e, f, !e.ini);
    if (violated() || !ep_start(e)) return false;
    count("probe:fallback-started");
    return true;
}
static Suite gen_fb_suite() {
    for (int i = 0; i < 200; ++i) {
        Suite s = gen_suite("suite", false); const Pattern *p = pattern_by_id(s.pattern);
        if (p->pre_rs && !p->fallback) return s;
    }
    harness_error("no abbreviated pattern");
}
static void fallback_sc() {
    World w; g_world = &w.eps; HEAP.scan = true;
    uint64_t style = pick("style", 10);  // 0-5: only the first message is disturbed; otherwise faults throughout
    w.pm_fault = style < 6 ? 0 : style < 8 ? 100 : 300; w.pm_misuse = flip("style.misuse", 400) ? 250 : 0; w.big = flip("style.big", 20);
    int ns = 1 + (int)choose("sessions", 3, 400);
    Suite st = gen_fb_suite(); bool same = pick("same-suite", 3) != 0; std::vector<FB> fb(ns * 2);
    if (flip("fb.direct", 100)) { // a fallback pattern cannot be started directly
        const Api *be = &API[pick("fb.direct-be", BE_COUNT)]; Suite x = st; x.pattern = pattern_by_id(st.pattern)->hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK; x.psk = false; NoiseHandshakeState *h = 0;
        for (int role : {NOISE_ROLE_INITIATOR, NOISE_ROLE_RESPONDER}) {
            int r = CALL(be, noise_handshakestate_new_by_name, &h, x.name().c_str(), role); asserted("H03,H04"); count("probe:direct-fallback");
            if (r) { if (h) violate("H03,M01", "handle-after-error", "a failed creation leaves a handle"); continue; }
            NoiseDHState *d = CALL(be, noise_handshakestate_get_local_keypair_dh, h); MKey k = gen_key(x.dh, "direct", 1); if (d) { XBuf b(k.priv); CALL(be, noise_dhstate_set_keypair_private, d, b.p, b.n); }
            d = CALL(be, noise_handshakestate_get_remote_public_key_dh, h); if (d) { XBuf b(k.pub); CALL(be, noise_dhstate_set_public_key, d, b.p, b.n); }
            r = CALL(be, noise_handshakestate_start, h);
            if (!r) violate("H03,H04", "fallback-started-directly", "%s can be started without a handshake to fall back from", x.name().c_str());
            CALL(be, noise_handshakestate_free, h);
        }
    }
    for (int s = 0; s < ns; ++s) {
        Suite x = s && !same ? gen_fb_suite() : st; make_pair(w, s, x, false, 120, 2);
        EP &a = *w.eps[2 * s];
        uint64_t k = pick("fb.kind", 4); // 0-1 stale key at the initiator, 2 damaged first message, 3 responder falls back anyway
        if (k < 2) { MKey z = gen_key(x.dh, "stale", s); a.rs = mkey_from_pub(x.dh, z.pub); count("fault:stale-static-key"); }
        FB f; Data d("fbcfg", s); f.new_prologue = flip("fb.prologue", 300); f.prologue = d.bytes(pick("fb.prologuelen", 60)); f.new_psk = flip("fb.psk", 300); f.psk = d.bytes(32);
        f.mm_prologue = flip("fb.mmprologue", 150); f.mm_psk = flip("fb.mmpsk", 150); f.new_ident = flip("fb.newident", 150); if (f.new_prologue && f.mm_prologue) count("fault:config-mismatch");
        f.anyway = k == 3 || flip("fb.anyway", 200); f.tryfirst = flip("fb.tryfirst", 500);
        fb[2 * s] = fb[2 * s + 1] = f; if (k == 2) fb[2 * s].dead = true; // dead: damage the first message
        lg("session %d %s kind %llu", s, x.name().c_str(), (unsigned long long)k); state_seen(hstr(x.name().c_str()));
    }
    for (auto e : w.eps) if (!ep_create(*e, w.pm_misuse > 0) || !ep_start(*e)) { finish(w); return; }
    std::vector<int> damaged(ns, 0), nofb(ns * 2, 0);
    for (unsigned step = 0; step < 400 && !violated(); ++step) {
        std::vector<std::pair<int, int>> c;
        for (int i = 0; i < ns * 2; ++i) {
            EP &e = *w.eps[i], &p = *w.eps[i ^ 1]; if (nofb[i] == 2) continue;
            bool responder0 = (i & 1) && !e.fb, initiator0 = !(i & 1) && !e.fb;
            if (responder0 && !nofb[i] && (e.failed ? e.msg == 0 || e.msg == 2 : fb[i].anyway && e.msg == 1 && e.my_turn())) { c.push_back({i, 2}); if (!e.failed) continue; }
            if (initiator0 && p.fb && !nofb[i] && (e.failed ? e.msg == 1 : e.msg == 1 && e.their_turn())) {
                if (!fb[i].tryfirst || e.failed || w.inbox[i].empty()) { c.push_back({i, 2}); continue; }
            }
            if (e.my_turn()) c.push_back({i, 0});
            if (!w.inbox[i].empty()) c.push_back({i, 1});
        }
        if (c.empty()) break;
        w.t++;
        auto x = c[pick("sched", c.size())]; int i = x.first; EP &e = *w.eps[i], &p = *w.eps[i ^ 1];
        if (w.pm_misuse && flip("misuse", w.pm_misuse)) { ep_misuse(e, "misuse.kind"); if (violated()) break; }
        if (x.second == 2) { if (!ep_fallback(w, e, fb[i])) { bool inpart = e.fb; nofb[i] = inpart ? 2 : 1; if (inpart) e.failed = true; } continue; }
        if (x.second == 0) {
            size_t before = w.inbox[i ^ 1].size(); bool first = !(i & 1) && e.msg == 0 && !e.fb;
            handshake_write(w, i);
            if (first && fb[i].dead && w.inbox[i ^ 1].size() > before) {
                static const char *kinds[] = {"bitflip", "truncate", "extend", "garbage", "splice", "zero-key", "odd-key"};
                w.dh = e.suite.dh; const char *kd = kinds[pick("fb.damage", 7)]; Bytes &m = w.inbox[i ^ 1].back(); Bytes o = m; count(Str("fault:net-") + kd);
                if (pick("fb.damagetail", 2) && m.size() > 4) { size_t keep = std::min(m.size() - 1, dh_publen(e.suite.dh) + (e.pat->hfs ? dh_publen(e.suite.hybrid) : 0)); Bytes t(m.begin() + keep, m.end()); t = mutate(w, kd, t); m.resize(keep); m.insert(m.end(), t.begin(), t.end()); } else m = mutate(w, kd, m);
                damaged[i / 2] = m != o;
            }
        } else {
            Bytes keep = w.inbox[i].front(); bool was = !e.fb && !(i & 1) && p.fb && e.msg == 1;
            deliver(w, i);
            if (was && e.failed) { w.inbox[i].insert(w.inbox[i].begin(), keep); count("probe:fallback-after-failed-read"); }
            if ((i & 1) && !e.fb && e.failed && !e.synced && !e.m.re.has_pub && keep.size() >= dh_publen(e.suite.dh)) { e.m.re.has_pub = true; e.m.re.dh = e.suite.dh; e.m.re.pub = Bytes(keep.begin(), keep.begin() + dh_publen(e.suite.dh)); }
        }
        if (!e.failed) ep_check_action(e);
    }
    for (auto e : w.eps) if (e->done && !e->failed) { split_some(*e); if (e->fb) count("probe:fallback-completed"); }
    if (w.pm_fault == 0 && !violated()) for (int i = 0; i < ns * 2; i += 2) {
        EP &a = *w.eps[i], &b = *w.eps[i + 1]; // a: initiator of the abandoned handshake
        if (!b.fb || nofb[i] || nofb[i + 1]) continue;
        if (b.m.re.null_pub() || (b.pat->hfs && b.m.rf.null_pub())) continue;
        if (!a.fb) { if (a.msg != 1) { count("probe:late-fallback"); continue; } asserted("H04"); if (!a.failed) violate("H04", "fallback-incomplete", "%s never reaches the fallback", a.nm().c_str()); continue; }
        bool compat = ep_compat(a, b); asserted("H04,H01");
        bool shortw = (a.failed && !a.model()) || (b.failed && !b.model());
        if (compat && !shortw) { count("probe:fallback-clean-completion"); if (!a.split || !b.split) violate("H04", "fallback-incomplete", "%s between %s and %s does not complete although nothing disturbs it", a.suite.name().c_str(), a.nm().c_str(), b.nm().c_str()); }
        if (!compat && a.split && b.split && a.hash == b.hash) violate("H04,H02", "fallback-despite-mismatch", "the fallback completes in agreement although its parameters differ");
        if (!compat) count("probe:fallback-mismatch");
    }
    if (!violated()) check_pairs(w);
    if (!violated()) transport(w, (unsigned)pick("ops", 16));
    if (!violated()) finish(w);
    sim_time(w.t);
}

void sc_fallback() { fallback_sc(); }

// ------------------------------------------------------------------ memory shortage
// a prologue that could not be replaced: whatever the handshake holds then, it must still be able to start
static void prologue_short() {
    const Api *be = pick_be("be", 0); NoiseHandshakeState *h = 0; if (CALL(be, noise_handshakestate_new_by_name, &h, "Noise_NN_25519_ChaChaPoly_BLAKE2s", pick("role", 2) ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER)) { violate("M01", "create-fails", "a handshake cannot be created"); return; }
    for (size_t i = 0, n = 1 + pick("short.n", 3); i < n; ++i) {
        XBuf b(Data("prologue", i).bytes(pick("short.len", 60))); if (i) { heap_mark(); HEAP.fail_at.insert(1); } int r = CALL(be, noise_handshakestate_set_prologue, h, b.p, b.n); heap_faults_off(); bool f = HEAP.failed; HEAP.failed = 0; asserted("M01");
        if (r && !f) violate("M01", "set-prologue", "a prologue of %zu bytes is refused: %s", b.n, errname(r));
        count("probe:prologue-replaced-without-memory", f);
    }
    entropy_party(77); int r = CALL(be, noise_handshakestate_start, h); if (r) violate("M01", "start-fails", "after a failed set_prologue the handshake does not start: %s", errname(r));
    CALL(be, noise_handshakestate_free, h);
}
void sc_oom() {
    g_extra_props = "M01"; static const unsigned pm[] = {60, 150, 300, 600}; g_pm_oom = pm[pick("style.oom", 4)];
    if (flip("style.prologue", 60)) prologue_short();
    if (flip("style.fallback", 300)) { fallback_sc(); return; }
    World w; g_world = &w.eps; HEAP.scan = true;
    w.pm_fault = flip("style.fault", 200) ? 100 : 0; w.pm_misuse = flip("style.misuse", 200) ? 150 : 0;
    int ns = 1 + (int)pick("sessions", 4); std::vector<Suite> st(ns);
    for (int s = 0; s < ns; ++s) {
        st[s] = gen_suite("suite"); make_pair(w, s, st[s], false, 80, 2);
        lg("session %d %s", s, st[s].name().c_str()); state_seen(hstr(st[s].name().c_str()));
    }
    for (auto e : w.eps) if (!ep_create(*e, w.pm_misuse > 0) || !ep_start(*e)) { finish(w); return; }
    unsigned pm0 = g_pm_oom; if (pick("oom.phase", 3)) g_pm_oom = pick("oom.phase2", 2) ? 30 : 0; // mostly spare the messages, so that later stages are reached
    run_handshakes(w);
    g_pm_oom = pm0;
    for (auto e : w.eps) if (e->done && !e->failed && !violated()) { if (e->pat->oneway) ep_split(*e, e->ini || pick("split.both", 2), !e->ini || pick("split.both", 2)); else ep_split(*e); count("probe:completed-under-oom"); }
    if (w.pm_fault == 0 && !violated()) for (size_t i = 0; i < w.eps.size(); i += 2) {
        EP &a = *w.eps[i], &b = *w.eps[i + 1]; asserted("M01");
        if (!a.oom && !b.oom && !a.failed && !b.failed && (!a.split || !b.split) && w.inbox[i].empty() && w.inbox[i + 1].empty()) violate("M01,H01", "clean-handshake-incomplete", "%s stalls although no step of it failed", a.suite.name().c_str());
    }
    if (!violated()) check_pairs(w);
    if (!violated()) { w.pm_fault = 100; transport(w, (unsigned)pick("ops", 20)); }
    g_pm_oom = 0;
    if (!violated()) finish(w);
    sim_time(w.t);
}
