// Scenario "rand": random generators of all builds serving arbitrary sequences of requests side by side, judged only by
// what they draw from the system, what they put out and what they keep.
#include "party.h"
static uint64_t w8(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
struct Seen {                       // every 8-byte window handed out so far, at stride 8 from the start of its request
    std::unordered_set<uint64_t> w;
    bool check(const Bytes &b, bool all) {
        for (size_t i = 0; i + 8 <= b.size(); i += all ? 1 : 8) if (w.count(w8(&b[i]))) return false;
        for (size_t i = 0; i + 8 <= b.size(); i += 8) if (!w.insert(w8(&b[i])).second) return false;
        return true;
    }
};
struct Gen { int id; const Api *be; NoiseRandState *st = 0; uint64_t since = 0; };
static Bytes block_of(void *p) { auto it = HEAP.live.find(p); if (it == HEAP.live.end()) return Bytes(); return Bytes((uint8_t *)p, (uint8_t *)p + it->second.size); }
static int ndistinct(const uint8_t *p) { int d = 0; for (int i = 0; i < 8; ++i) { bool s = false; for (int j = 0; j < i; ++j) if (p[j] == p[i]) s = true; if (!s) d++; } return d; }
static void state_moved_on(Gen &g, const Bytes &before, const char *what) {
    Bytes now = block_of(g.st); asserted("R02"); if (before.empty() || now.empty()) return;
    for (size_t i = 0; i + 8 <= before.size(); ++i) {
        const uint8_t *p = &before[i]; if (ndistinct(p) < 7) continue;
        bool fixed = false; for (size_t j = 0; j + 16 <= before.size() && !fixed; ++j) if (!memcmp(&before[j], "expand 32-byte k", 16) && j < i + 8 && i < j + 16) fixed = true;   // the cipher's constant
        if (fixed) continue;
        uint64_t v; memcpy(&v, p, 8); if (i % 8 == 0 && (v >> 48) == 0) continue;
        bool nearptr = false; for (size_t j = i / 8 * 8; j < i + 8 && j + 8 <= before.size(); j += 8) { uint64_t q = w8(&before[j]); if ((q >> 48) == 0 && q > 0x10000) nearptr = true; } if (nearptr) continue;
        if (memmem(now.data(), now.size(), p, 8)) { violate("R02", (Str("state-kept-after-") + what).c_str(), "after %s in the %s build the generator still holds bytes %zu..%zu of its previous state", what, g.be->name, i, i + 7); return; }
    }
}
// accounts for the bytes handed out since the last time entropy was taken in
static void account(Gen &g, uint64_t len, uint64_t draws) {
    asserted("R02");
    uint64_t total = g.since + len;
    if (total > (draws + 1) * 1700000ULL) violate("R02", "entropy-interval", "%llu bytes have come out of a generator of the %s build with only %llu draws of entropy", (unsigned long long)total, g.be->name, (unsigned long long)draws);
    g.since = draws ? 0 : total;
}
static bool bad_fill(const Bytes *b, size_t n, size_t *pos) { // is some byte position zero in every one of n outputs
    for (size_t i = 0; i < b[0].size(); ++i) { bool all = true; for (size_t k = 0; k < n; ++k) if (b[k][i]) { all = false; break; } if (all) { *pos = i; return true; } } return false;
}
static int twin_output(const Api *be, const Bytes &feed, uint64_t how, const std::vector<size_t> &sizes, std::vector<Bytes> &out, size_t *drawn, uint8_t fill = 0) {   // fill: what the buffers held before
    out.clear(); entropy_mark(); ENT.use_feed = true; ENT.feed = feed; int r = 0;
    auto push = [&](const uint8_t *p, size_t n) { out.push_back(Bytes(p, p + n)); };
    if (how == 0) { NoiseRandState *s = 0; r = CALL(be, noise_randstate_new, &s); for (size_t n : sizes) { if (r) break; XBuf b(n, fill); r = CALL(be, noise_randstate_generate, s, b.p, n); push(b.p, n); } if (s) CALL(be, noise_randstate_free, s); }
    else if (how == 1) { XBuf b(sizes[0], fill); r = CALL(be, noise_randstate_generate_simple, b.p, b.n); push(b.p, b.n); }
    else if (how == 2) { NoiseSignState *s = 0; r = CALL(be, noise_signstate_new_by_id, &s, NOISE_SIGN_ED25519); if (!r) r = CALL(be, noise_signstate_generate_keypair, s); XBuf a(32), b(32); if (!r) r = CALL(be, noise_signstate_get_keypair, s, a.p, 32, b.p, 32); push(a.p, 32); push(b.p, 32); if (s) CALL(be, noise_signstate_free, s); }
    else {
        int id = how == 3 ? NOISE_DH_CURVE25519 : how == 4 ? NOISE_DH_CURVE448 : NOISE_DH_NEWHOPE; NoiseDHState *d = 0;
        r = CALL(be, noise_dhstate_new_by_id, &d, id);
        if (!r && how == 5) CALL(be, noise_dhstate_set_role, d, NOISE_ROLE_INITIATOR);
        if (!r) r = CALL(be, noise_dhstate_generate_keypair, d);
        if (!r) { size_t n = CALL(be, noise_dhstate_get_public_key_length, d); XBuf b(n); r = CALL(be, noise_dhstate_get_public_key, d, b.p, n); push(b.p, n); }
        if (d) CALL(be, noise_dhstate_free, d);
    }
    *drawn = ENT.log.size(); ENT.use_feed = false; ENT.feed.clear(); return r;
}
static const char *TW[] = {"a new generator", "generate_simple", "a generated Ed25519 key", "a generated Curve25519 key", "a generated Curve448 key", "a generated NewHope key"};
void sc_rand() {
    HEAP.scan = true; Seen seen; std::vector<Gen> G; int n = 1 + (int)pick("rand.gens", 3);
    std::set<Bytes> keys;
    for (int i = 0; i < n; ++i) {
        Gen g; g.id = i; g.be = pick_be("be", 0); entropy_party((int)pick("rand.party", 2)); entropy_mark();
        int r = CALL(g.be, noise_randstate_new, &g.st); asserted("R02"); if (r) { violate("R02", "new-fails", "creating a generator fails: %s", errname(r)); return; }
        if (ENT.log.size() < 32) violate("R02", "unseeded", "a new generator of the %s build took in only %zu bytes of entropy", g.be->name, ENT.log.size());
        G.push_back(g);
    }
    unsigned ops = 3 + (unsigned)pick("ops", 25); uint64_t budget = pick("rand.long", 8) == 0 ? 9000000 : 200000;
    for (unsigned k = 0; k < ops && !violated(); ++k) {
        Gen &g = G[pick("rand.who", G.size())]; entropy_party((int)pick("rand.party", 2)); entropy_mark(); Bytes before = block_of(g.st); int r;
        switch (pick("rand.op", 14)) {
        case 0: case 1: case 2: case 3: { // a request of any size
            size_t len = gen_size("rand.len", 2000); if (budget > 1000000 && pick("rand.huge", 3) == 0) { len = pick("rand.hugelen", 5500000); static const size_t e[] = {1599999, 1600000, 1600001, 1600064, 1599936, 3200000, 1048576}; if (pick("rand.hugeedge", 3) == 0) len = e[pick("rand.edge", 7)]; }
            if (len > budget) len = budget % 3000;
            budget -= len; XBuf b(len, 0); r = CALL(g.be, noise_randstate_generate, g.st, b.p, len); asserted("R02"); Bytes o = b.get(len);
            if (r) { violate("R02", "generate-fails", "a request for %zu random bytes fails: %s", len, errname(r)); break; }
            account(g, len, ENT.chunks.size());
            if (!seen.check(o, len < 5000)) violate("R02", "output-repeats", "a request for %zu bytes from the %s build returns bytes that were handed out before", len, g.be->name);
            if (len) { state_moved_on(g, before, "request"); if (!o.empty() && len >= 8) { Bytes now = block_of(g.st); for (size_t i = 0; i + 8 <= std::min<size_t>(len, 4096); i += 8) if (ndistinct(&o[i]) >= 7 && !now.empty() && memmem(now.data(), now.size(), &o[i], 8)) { violate("R02", "output-kept", "the generator of the %s build still holds output it handed out", g.be->name); break; } } }
            lg("gen %d: %zu bytes, %zu draws", g.id, len, ENT.chunks.size()); break; }
        case 4: { // equal requests: every position is filled
            size_t len = 1 + gen_size("rand.burstlen", 300); Bytes o[12];
            for (int i = 0; i < 12; ++i) { XBuf b(len, 0); r = CALL(g.be, noise_randstate_generate, g.st, b.p, len); o[i] = b.get(len); if (r) violate("R02", "generate-fails", "a request fails: %s", errname(r)); if (!seen.check(o[i], true)) { violate("R02", "output-repeats", "a request for %zu bytes from the %s build returns bytes that were handed out before", len, g.be->name); break; } }
            account(g, len * 12, ENT.chunks.size()); asserted("R02"); size_t pos; if (!violated() && bad_fill(o, 12, &pos)) violate("R02", "not-filled", "byte %zu of %zu is zero in twelve requests in a row (%s build)", pos, len, g.be->name);
            count("op:burst"); break; }
        case 5: { // very many small requests
            if (budget < 1000000) break;
            size_t sz = 200 + pick("rand.small", 3000), cnt = (1900000 + pick("rand.smallextra", 200000)) / sz; budget = budget > sz * cnt ? budget - sz * cnt : 0; XBuf b(sz); 
            for (size_t i = 0; i < cnt && !violated(); ++i) { entropy_mark(); r = CALL(g.be, noise_randstate_generate, g.st, b.p, sz); if (r) { violate("R02", "generate-fails", "request fails: %s", errname(r)); break; } account(g, sz, ENT.chunks.size()); if (!seen.w.insert(w8(b.p)).second) violate("R02", "output-repeats", "a request in a long series repeats earlier output"); }
            count("op:long-series"); break; }
        case 6: { // reseeding takes in entropy and changes the state
            r = CALL(g.be, noise_randstate_reseed, g.st); asserted("R02"); if (r) violate("R02", "reseed-fails", "reseed fails: %s", errname(r));
            if (ENT.log.size() < 32) violate("R02", "reseed-without-entropy", "reseeding in the %s build draws %zu bytes of entropy", g.be->name, ENT.log.size());
            state_moved_on(g, before, "reseed"); g.since = 0; break; }
        case 7: case 8: { // padding
            size_t orig = gen_size("rand.orig", 600), padded = flip("rand.shorter", 250) ? pick("rand.padlen", orig + 1) : orig + gen_size("rand.padlen2", 400), cap = std::max(orig, padded); int mode = pick("rand.mode", 4) == 0 ? NOISE_PADDING_ZERO : pick("rand.mode2", 3) ? NOISE_PADDING_RANDOM : (int)pick("rand.modeodd", 5000);
            Data d("pad", k); Bytes pl = d.bytes(cap); XBuf b(pl); r = CALL(g.be, noise_randstate_pad, g.st, b.p, orig, padded, mode); asserted("R02"); Bytes o = b.get(cap);
            if (r) { violate("R02", "pad-fails", "padding %zu to %zu bytes fails: %s", orig, padded, errname(r)); break; }
            if (!std::equal(o.begin(), o.begin() + orig, pl.begin())) violate("R02", "padding-changes-payload", "padding %zu to %zu bytes changes the payload", orig, padded);
            if (padded > orig) { Bytes t(o.begin() + orig, o.end());
                if (mode == NOISE_PADDING_ZERO) { for (auto c : t) if (c) { violate("R02", "zero-padding", "zero padding is not zero"); break; } }
                else { account(g, t.size(), ENT.chunks.size()); if (!seen.check(t, true)) violate("R02", "padding-repeats", "random padding repeats earlier output"); state_moved_on(g, before, "padding");
                    bool same = t.size() >= 8 && std::equal(t.begin(), t.end(), pl.begin() + orig), zero = t.size() >= 8; for (auto c : t) if (c) zero = false;
                    if (same || zero) violate("R02", "not-random-padding", "%zu bytes of random padding are %s (mode %#x)", t.size(), zero ? "zero" : "left as they were", mode); } }
            lg("pad %zu -> %zu mode %#x", orig, padded, mode); count("op:pad"); break; }
        case 9: { // generate_simple
            size_t len = 1 + gen_size("rand.simple", 1000); XBuf b(len, 0); r = CALL(g.be, noise_randstate_generate_simple, b.p, len); asserted("R02"); if (r) { violate("R02", "simple-fails", "generate_simple fails: %s", errname(r)); break; }
            if (ENT.log.size() < 32) violate("R02", "simple-without-entropy", "generate_simple in the %s build draws %zu bytes of entropy", g.be->name, ENT.log.size());
            if (!seen.check(b.get(len), true)) violate("R02", "output-repeats", "generate_simple returns bytes that were handed out before");
            if (len >= 24) { Bytes o = b.get(len); size_t z = 0; for (size_t i = len; i-- > 0 && !o[i];) z++; if (z >= 8) violate("R02", "not-filled", "the last %zu bytes of generate_simple are zero", z); }
            count("op:simple"); break; }
        case 10: case 11: case 12: { // the output is a function of the entropy, and of every byte of it
            uint64_t how = pick("rand.twin", 6); std::vector<size_t> sz; for (uint64_t i = 0, c = 1 + pick("rand.twinreq", 3); i < c; ++i) sz.push_back(16 + pick("rand.twinlen", 200));
            Bytes feed = Data("feed", k).bytes(4096), f2 = feed; std::vector<Bytes> a, b, c; size_t d1, d2, d3;
            if (twin_output(g.be, feed, how, sz, a, &d1) || twin_output(g.be, feed, how, sz, b, &d2, (uint8_t)pick("rand.fill", 256))) { violate("R02", "generate-fails", "%s cannot be made", TW[how]); break; }
            asserted("R02"); if (a != b || d1 != d2) { violate("R02", "not-from-entropy", "%s of the %s build differs although the system delivered the same entropy", TW[how], g.be->name); break; }
            if (d1 < 32) { violate("R02", "too-little-entropy", "%s of the %s build is made from %zu bytes of entropy", TW[how], g.be->name, d1); break; }
            size_t pos = pick("rand.flippos", d1); f2[pos] ^= 0xff; if (twin_output(g.be, f2, how, sz, c, &d3)) { violate("R02", "generate-fails", "%s cannot be made", TW[how]); break; }
            for (size_t i = 0; i < a.size() && !violated(); ++i) {
                if (a[i] == c[i]) violate("R02", "entropy-ignored", "%s of the %s build is the same when byte %zu of %zu of the entropy differs", TW[how], g.be->name, pos, d1);
                else if (how < 2) for (size_t j = 0; j + 8 <= a[i].size(); j += 8) if (!memcmp(&a[i][j], &c[i][j], 8)) { violate("R02", "entropy-ignored", "bytes %zu.. of request %zu of %s (%s build) do not depend on byte %zu of the entropy", j, i, TW[how], g.be->name, pos); break; } }
            count(Str("op:twin-") + TW[how]); break; }
        case 13: { // generated keys never repeat, whoever makes them
            uint64_t how = 2 + pick("rand.key", 4); std::vector<Bytes> a; size_t d1; std::vector<size_t> sz;
            for (int i = 0; i < 3 && !violated(); ++i) { // twin_output without feeding: entropy comes from the party's stream
                entropy_mark(); Bytes f; const Api *be = g.be; (void)f; size_t was = ENT.total; int e = twin_output(be, Data("keyfeed", H64(k, i)).bytes(4096), how, sz, a, &d1); asserted("R02"); (void)was;
                if (e) { violate("R02", "generate-fails", "%s cannot be made: %s", TW[how], errname(e)); break; }
                if (!keys.insert(a.back()).second) violate("R02", "key-repeated", "%s was made twice (%s build)", TW[how], be->name); }
            break; }
        }
        state_seen(H64(H64(hstr("rand"), k), block_of(g.st).empty() ? 0 : w8(block_of(g.st).data() + 16)));
    }
    ENT.use_feed = false;
    for (auto &g : G) { heap_snapshot_secret("random generator state", g.st); CALL(g.be, noise_randstate_free, g.st); }
    sut_fd_check(); check_no_leaks("generators");
}
