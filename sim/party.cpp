#include "party.h"

std::vector<EP *> *g_world;
static Bytes data_bytes(const char *l, uint64_t k, size_t n) { Data d(l, k); return d.bytes(n); }

Str EP::nm() const { char b[40]; snprintf(b, sizeof b, "%d%c[%s]", id, ini ? 'I' : 'R', model() ? "model" : be->name); return b; }
int EP::expect_action() const {
    if (failed) return NOISE_ACTION_FAILED;
    if (split) return NOISE_ACTION_COMPLETE;
    if (done) return NOISE_ACTION_SPLIT;
    return my_turn() ? NOISE_ACTION_WRITE_MESSAGE : NOISE_ACTION_READ_MESSAGE;
}
bool enc_at(const Pattern &p, size_t i, bool psk, bool fb) {
    bool k = fb && psk;
    for (size_t j = 0; j <= i && j < p.msgs.size(); ++j)
        for (auto t : p.msgs[j]) { if (t == T_E) { if (psk) k = true; } else if (t != T_S && t != T_F) k = true; }
    return k;
}
bool static_at(const Pattern &p, size_t i) { for (auto t : p.msgs[i]) if (t == T_S) return true; return false; }
bool ep_compat(const EP &a, const EP &b) {
    if (a.ini == b.ini || a.suite.name() != b.suite.name() || a.prologue != b.prologue || a.fb != b.fb) return false;
    if (a.suite.psk && a.psk != b.psk) return false;
    const EP &i = a.ini ? a : b, &r = a.ini ? b : a;
    if (a.pat->pre_is && i.s.pub != r.rs.pub) return false;
    if (a.pat->pre_rs && r.s.pub != i.rs.pub) return false;
    if (a.fb && (i.m.re.pub != r.m.e.pub || (a.pat->hfs && i.m.rf.pub != r.m.f.pub))) return false;
    return true;
}
bool ep_same_transcript(const EP &a, const EP &b, size_t n) {
    if (a.tr.size() < n || b.tr.size() < n) return false;
    for (size_t i = 0; i < n; ++i) if (a.tr[i] != b.tr[i]) return false;
    return true;
}
EP *ep_genuine_source(std::vector<EP *> &eps, EP &r, const Bytes &m) {
    size_t n = r.tr.size();
    for (auto q : eps) if (q != &r && ep_compat(r, *q) && q->tr.size() > n && ep_same_transcript(r, *q, n) && q->tr[n] == m) return q;
    return nullptr;
}
void world_desync(std::vector<EP *> &eps) { for (auto e : eps) if (!e->model()) e->synced = false; }
static void desync() { if (g_world) world_desync(*g_world); }

const Api *pick_be(const char *stream, unsigned pm_model) {
    if (pm_model && flip((Str(stream) + ".model").c_str(), pm_model)) return nullptr;
    return &API[pick(stream, BE_COUNT)];
}
Suite gen_suite(const char *stream, bool oneway) {
    Suite s; auto &ps = patterns();
    Str b = stream;
    const Pattern *p;
    for (;;) { p = &ps[pick((b + ".pattern").c_str(), ps.size())]; if (p->fallback || (p->oneway && !oneway)) continue; break; }
    s.pattern = p->id; s.hybrid = D_NONE;
    uint64_t d = pick((b + ".dh").c_str(), 10);
    s.dh = d < 7 ? D_25519 : d < 9 ? D_448 : D_NEWHOPE;
    if (p->hfs) { uint64_t h = pick((b + ".hybrid").c_str(), 10); s.hybrid = h < 6 ? D_25519 : h < 7 ? D_448 : D_NEWHOPE; }
    if (s.dh == D_NEWHOPE && p->name != "NN") s.dh = D_25519;
    s.cipher = (int)pick((b + ".cipher").c_str(), 2); s.hash = (int)pick((b + ".hash").c_str(), 4);
    s.psk = flip((b + ".psk").c_str(), 300);
    return s;
}
MKey gen_key(int dh, const char *label, uint64_t k) { return mkey_from_priv(dh, data_bytes(label, k, dh == D_448 ? 56 : 32)); }
size_t gen_size(const char *stream, size_t max) {
    static const size_t edge[] = {0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 79, 80, 95, 96, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 4096};
    uint64_t k = choose((Str(stream) + ".kind").c_str(), 4, 700); size_t n;
    if (k == 0) n = pick(stream, 40);
    else if (k == 1) n = edge[pick(stream, sizeof edge / sizeof *edge)];
    else if (k == 2) n = pick(stream, 700);
    else { uint64_t z = pick(stream, 40); n = z == 0 ? max : z == 1 ? max - 1 : z == 2 ? max - pick((Str(stream) + ".big").c_str(), 40) : z < 6 ? pick((Str(stream) + ".big").c_str(), max) : z * 37; }
    return n > max ? max : n;
}
// now and then a length around the next powers of two
size_t maybe_huge(const char *stream, size_t n, unsigned pm) {
    if (!flip((Str(stream) + ".huge").c_str(), pm)) return n;
    static const size_t e[] = {8191, 8192, 16383, 16384, 32767, 32768, 65519, 65535, 65536, 65537, 131071, 131072}; uint64_t k = pick((Str(stream) + ".hugelen").c_str(), 18); count("probe:huge-length");
    return k < 12 ? e[k] : 4096 + pick((Str(stream) + ".hugeany").c_str(), 140000);
}
bool contains_window(const uint8_t *buf, size_t n, const Bytes &sec) {
    for (size_t i = 0; i + 8 <= sec.size(); ++i) {
        if (!memcmp(sec.data() + i, "\0\0\0\0\0\0\0\0", 8)) continue;
        if (n >= 8 && memmem(buf, n, sec.data() + i, 8)) return true;
    }
    return false;
}
unsigned g_pm_oom = 0;
// Makes a call while memory is short: an arbitrary allocation of it fails, several do, or every one from some point on.
// With retry, the call is repeated with memory available if it failed; otherwise HEAP.failed tells the caller why it failed.
int oom_call(const std::function<int()> &f, bool retry) {
    if (!g_pm_oom || !flip("oom.arm", g_pm_oom)) return f();
    for (int tries = 0;; ++tries) {
        heap_mark();
        switch (pick("oom.mode", 5)) { case 0: HEAP.fail_from = 1 + pick("oom.at", 12); break; case 1: HEAP.fail_at.insert(1 + pick("oom.at", 12)); HEAP.fail_at.insert(1 + pick("oom.at", 12)); break; case 2: HEAP.fail_at.insert(1 + pick("oom.far", 40)); break; default: HEAP.fail_at.insert(1 + pick("oom.at", 8)); }
        int r = f(); bool failed = HEAP.failed != 0; heap_faults_off(); asserted("M01");
        if (!failed) return r;
        if (!r) { heap_mark(); count(Str("probe:success-despite-oom@") + SH->curapi); return r; }
        count(Str("probe:oom@") + SH->curapi);
        if (!retry) return r;
        heap_mark();
        if (tries >= 2 || !flip("oom.again", 300)) return f();
    }
}
// error from NoiseDHState calls made while configuring
static int set_dh(const Api *be, NoiseDHState *d, const MKey &k, bool priv) {
    if (!d) return -1;
    if (!priv) { XBuf b(k.pub); return oom_call([&] { return CALL(be, noise_dhstate_set_public_key, d, b.p, b.n); }, true); }
    if (k.dh == D_NEWHOPE || pick("setkey.how", 2) == 0) { XBuf b(k.priv); return oom_call([&] { return CALL(be, noise_dhstate_set_keypair_private, d, b.p, b.n); }, true); }
    XBuf a(k.priv), b(k.pub);
    return oom_call([&] { return CALL(be, noise_dhstate_set_keypair, d, a.p, a.n, b.p, b.n); }, true);
}
void learn_secrets(EP &e) {
    if (!HEAP.scan) return;
    if (e.s.has_priv) secret_add("static private key", e.s.priv);
    if (e.suite.psk) secret_add("pre-shared key", e.psk);
    for (auto &c : e.m.cks) secret_add("chaining or session key", c);
    if (e.m.e.has_priv) secret_add("ephemeral private key", e.m.e.priv);
    if (e.m.f.has_priv) secret_add("hybrid private key", e.m.f.priv);
    if (e.keys) { secret_add("transport key", e.ks); secret_add("transport key", e.kr); }
}
static int ep_new(EP &e) {
    int r; Str name = e.suite.name(); int role = e.ini ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER;
    entropy_party(e.id);
    bool by_name = pick("create.how", 2) == 0; NoiseProtocolId id = e.suite.id();
    r = oom_call([&] {
        size_t live = HEAP.live.size(); e.hs = (NoiseHandshakeState *)1;
        int x = by_name ? CALL(e.be, noise_handshakestate_new_by_name, &e.hs, name.c_str(), role) : CALL(e.be, noise_handshakestate_new_by_id, &e.hs, &id, role);
        if (x) {
            asserted("M01");
            if (e.hs) { violate("M01", "handle-after-error", "a creation that failed with %s leaves a handle", errname(x)); e.hs = 0; }
            if (HEAP.live.size() != live) violate("M01", "leak:new", "creating %s fails with %s and leaves %zu blocks allocated", name.c_str(), errname(x), HEAP.live.size() - live);
        }
        return x; }, true);
    return r;
}
// Creates and configures a party up to (not including) start.
bool ep_create(EP &e, bool misuse) {
    e.pat = pattern_by_id(e.suite.pattern);
    e.m.init(e.suite, e.ini, e.prologue); e.m.s = e.s; e.m.rs = e.rs; e.m.psk = e.psk;
    if (!e.model() && misuse && flip("create.norole", 100)) { // a role that is neither
        static const int bad[] = {0, -1, 3, 0x5200, 0x5203, 0x7fffffff}; int role = bad[pick("create.badrole", 6)]; NoiseHandshakeState *h = (NoiseHandshakeState *)1; NoiseProtocolId id = e.suite.id(); Str name = e.suite.name();
        int x = pick("create.how", 2) ? CALL(e.be, noise_handshakestate_new_by_id, &h, &id, role) : CALL(e.be, noise_handshakestate_new_by_name, &h, name.c_str(), role);
        asserted("H03"); count("misuse:no-role"); if (!x || h) { violate("H03", "no-role-accepted", "a handshake with role %#x is created (%s)", role, errname(x)); return false; }
    }
    if (!e.model()) {
        int r = ep_new(e);
        if (r != NOISE_ERROR_NONE) { violate("H01,H05,M01", "create-fails", "creating %s fails with %s in the %s build", e.suite.name().c_str(), errname(r), e.be->name); return false; }
        NoiseProtocolId id; memset(&id, 0, sizeof id); CALL(e.be, noise_handshakestate_get_protocol_id, e.hs, &id);
        NoiseProtocolId want = e.suite.id();
        asserted("H01,H03");
        if (id.pattern_id != want.pattern_id || id.dh_id != want.dh_id || id.cipher_id != want.cipher_id || id.hash_id != want.hash_id || id.hybrid_id != want.hybrid_id || id.prefix_id != want.prefix_id)
            violate("H01,H03", "wrong-protocol-id", "a handshake created as %s reports another protocol", e.suite.name().c_str());
        bool nl = e.pat->needs_static(e.ini), nr = e.ini ? e.pat->pre_rs : e.pat->pre_is, np = e.suite.psk;
        auto chk = [&](const char *when, bool hl, bool hr, bool hp) {
            asserted("H03");
            int a = CALL(e.be, noise_handshakestate_needs_local_keypair, e.hs), b = CALL(e.be, noise_handshakestate_needs_remote_public_key, e.hs), c = CALL(e.be, noise_handshakestate_needs_pre_shared_key, e.hs);
            if ((a != 0) != (nl && !hl) || (b != 0) != (nr && !hr) || (c != 0) != (np && !hp))
                violate("H03", "wrong-requirements", "%s %s reports needs local=%d remote=%d psk=%d %s, but the pattern requires local=%d remote=%d psk=%d", e.suite.name().c_str(), e.ini ? "initiator" : "responder", a, b, c, when, nl && !hl, nr && !hr, np && !hp);
        };
        chk("when new", false, false, false);
        bool hl = false, hr = false, hp = false;
        auto prior = [&](bool priv, NoiseDHState *d) { // a key that is replaced before it is used
            if (!d || e.suite.dh == D_NEWHOPE || !flip("setkey.prior", 120)) return;
            MKey o = gen_key(e.suite.dh, "priorkey", e.id); count("probe:key-replaced-before-start"); set_dh(e.be, d, o, priv);
            if (pick("setkey.clear", 2)) CALL(e.be, noise_dhstate_clear_key, d); };
        auto give_l = [&] { if (nl && !hl) { prior(true, CALL(e.be, noise_handshakestate_get_local_keypair_dh, e.hs)); int x = set_dh(e.be, CALL(e.be, noise_handshakestate_get_local_keypair_dh, e.hs), e.s, true); if (x) violate("H01,H03", "set-local-key", "setting the local static key of %s fails: %s", e.suite.name().c_str(), errname(x)); hl = true; } };
        auto give_r = [&] { if (nr && !hr) { prior(false, CALL(e.be, noise_handshakestate_get_remote_public_key_dh, e.hs)); int x = set_dh(e.be, CALL(e.be, noise_handshakestate_get_remote_public_key_dh, e.hs), e.rs, false); if (x) violate("H01,H03", "set-remote-key", "setting the remote static key of %s fails: %s", e.suite.name().c_str(), errname(x)); hr = true; } };
        auto give_p = [&] { if (np && !hp) {
            if (flip("create.priorpsk", 120)) { Bytes o = e.psk; o[pick("create.priorpos", o.size())] ^= 1 << pick("net.bit", 8); XBuf b(o); CALL(e.be, noise_handshakestate_set_pre_shared_key, e.hs, b.p, b.n); count("probe:psk-replaced-before-start"); }
            XBuf b(e.psk); int x = oom_call([&] { return CALL(e.be, noise_handshakestate_set_pre_shared_key, e.hs, b.p, b.n); }, true); if (x) violate("H01,H03", "set-psk", "setting the pre-shared key of %s fails: %s", e.suite.name().c_str(), errname(x)); hp = true; } };
        if (misuse && flip("misuse.omit", 500)) {
            // leave out a subset of the key material first: the handshake must refuse to start and name what is missing
            uint64_t sub = pick("misuse.subset", 8);
            if (sub & 1) give_l();
            if (sub & 2) give_r();
            if (sub & 4) give_p();
            bool ml = nl && !hl, mr = nr && !hr, mp = np && !hp;
            NoiseDHState *ld = CALL(e.be, noise_handshakestate_get_local_keypair_dh, e.hs);
            if (ml && ld && e.suite.dh != D_NEWHOPE && flip("misuse.publiconly", 300)) { // a public key without its private half is not a key pair
                XBuf b(e.s.pub); int x = oom_call([&] { return CALL(e.be, noise_dhstate_set_public_key, ld, b.p, b.n); }, true); count("probe:local-key-public-only");
                if (x) violate("H03", "set-local-key", "setting only the public half of a local key fails: %s", errname(x)); }
            chk("partly configured", hl, hr, hp);
            if (ml || mr || mp) {
                int tries = 1 + (int)pick("misuse.tries", 2);
                for (int i = 0; i < tries; ++i) {
                    int x = CALL(e.be, noise_handshakestate_start, e.hs);
                    asserted("H03"); count("probe:start-without-keys");
                    bool ok = (ml && x == NOISE_ERROR_LOCAL_KEY_REQUIRED) || (mr && x == NOISE_ERROR_REMOTE_KEY_REQUIRED) || (mp && x == NOISE_ERROR_PSK_REQUIRED);
                    if (!ok) violate("H03", "started-without-keys", "%s %s lacking local=%d remote=%d psk=%d: start returned %s", e.suite.name().c_str(), e.ini ? "initiator" : "responder", ml, mr, mp, errname(x));
                    if (x == NOISE_ERROR_NONE) return false;
                    int act = CALL(e.be, noise_handshakestate_get_action, e.hs);
                    if (act != NOISE_ACTION_NONE) violate("H03", "action-after-refused-start", "after a refused start the action is %#x", act);
                }
            }
        }
        if (misuse && flip("misuse.early", 300)) {
            // steps before the start
            Bytes z(64); XBuf b(z); NoiseBuffer mb; noise_buffer_set_inout(mb, b.p, b.n, b.n); NoiseBuffer pb; XBuf pbx(64); noise_buffer_set_output(pb, pbx.p, pbx.n);
            NoiseCipherState *c1 = 0, *c2 = 0; uint8_t hb[64];
            int a = CALL(e.be, noise_handshakestate_read_message, e.hs, &mb, &pb); noise_buffer_set_output(mb, b.p, b.n);
            int w = CALL(e.be, noise_handshakestate_write_message, e.hs, &mb, (const NoiseBuffer *)0), s = CALL(e.be, noise_handshakestate_split, e.hs, &c1, &c2), h = CALL(e.be, noise_handshakestate_get_handshake_hash, e.hs, hb, sizeof hb), f = CALL(e.be, noise_handshakestate_fallback, e.hs);
            asserted("H03"); count("probe:steps-before-start");
            if (!a || !w || !s || !h || !f) violate("H03", "step-before-start", "%s before start: read %s write %s split %s hash %s fallback %s", e.suite.name().c_str(), errname(a), errname(w), errname(s), errname(h), errname(f));
        }
        switch (pick("create.order", 3)) { case 0: give_l(); give_r(); give_p(); break; case 1: give_p(); give_r(); give_l(); break; default: give_r(); give_p(); give_l(); }
        if (!e.prologue.empty() || pick("create.emptyprologue", 2)) {
            while (flip("create.priorprologue", 150)) { // a prologue that is replaced before the start, often one that is nearly the same
                Bytes o = e.prologue; count("probe:prologue-replaced-before-start");
                switch (pick("create.priorhow", 6)) {
                case 0: o = data_bytes("otherprologue", e.id, 1 + pick("create.prologuelen", 60)); break;
                case 1: if (!o.empty()) o.back() ^= 1 << pick("net.bit", 8); break;
                case 2: if (!o.empty()) o[pick("net.pos", o.size())] ^= 1 << pick("net.bit", 8); break;
                case 3: o.push_back(7); break;
                case 4: if (!o.empty()) o.resize(pick("net.pos", o.size())); break;
                case 5: o = data_bytes("otherprologue", e.id, o.size()); break;
                }
                XBuf b(o); oom_call([&] { return CALL(e.be, noise_handshakestate_set_prologue, e.hs, b.p, b.n); }, pick("oom.giveup", 2));
            }
            heap_mark(); XBuf b(e.prologue); int x = oom_call([&] { return CALL(e.be, noise_handshakestate_set_prologue, e.hs, b.p, b.n); }, true);
            if (x) violate("H01,H03", "set-prologue", "setting a prologue of %zu bytes fails: %s", b.n, errname(x));
        } else if (g_pm_oom && pick("create.noprologue", 2)) { // an attempt that fails for lack of memory leaves none behind
            Bytes o = data_bytes("otherprologue", e.id, 1 + pick("create.prologuelen", 60)); XBuf b(o); heap_mark(); HEAP.fail_at.insert(1);
            int x = CALL(e.be, noise_handshakestate_set_prologue, e.hs, b.p, b.n); heap_faults_off(); heap_mark(); count("probe:prologue-without-memory");
            if (!x) { XBuf n(Bytes{}); CALL(e.be, noise_handshakestate_set_prologue, e.hs, n.p, 0); }
        }
        chk("configured", true, true, true);
    }
    e.created = true;
    return true;
}
bool ep_start(EP &e) {
    if (!e.model()) {
        int x = oom_call([&] { return CALL(e.be, noise_handshakestate_start, e.hs); }, true);
        asserted("H01,H03,H04");
        if (x) { violate(e.fb ? "H04,H01,H03" : "H01,H03", "start-fails", "%s %s has everything it needs but start returns %s", e.suite.name().c_str(), e.ini ? "initiator" : "responder", errname(x)); e.failed = true; return false; }
    }
    e.m.start(); e.msg = 0; e.failed = e.done = false;
    if (!e.model()) ep_check_action(e);
    learn_secrets(e);
    return true;
}
void ep_check_action(EP &e) {
    if (e.model() || !e.hs) return;
    int a = CALL(e.be, noise_handshakestate_get_action, e.hs), w = e.expect_action();
    asserted("H03");
    if (a != w) violate(e.failed ? "H03,H02" : e.fb ? "H03,H04" : "H03", "wrong-action", "%s %s at message %zu reports action %#x, expected %#x", e.suite.name().c_str(), e.nm().c_str(), e.msg, a, w);
}
size_t ep_overhead(const EP &e) { return e.m.overhead(); }

// the key a write will use, decided before the call
static void fix_eph(EP &e) {
    MHandshake &m = e.m; const Suite &s = e.suite;
    if (m.write_needs_e()) {
        bool alice = s.dh != D_NEWHOPE || !m.re.has_pub;
        Bytes priv = data_bytes("ephemeral", H64(e.id, e.fb), s.dh == D_448 ? 56 : s.dh == D_25519 ? 32 : alice ? 64 : 32);
        m.next_e = mkey_from_priv(s.dh, priv, alice, alice ? nullptr : &m.re.pub);
    }
    if (m.write_needs_f()) {
        bool alice = !m.rf.has_pub;
        Bytes priv = data_bytes("hybrid", H64(e.id, e.fb), s.hybrid == D_448 ? 56 : s.hybrid == D_25519 ? 32 : alice ? 64 : 32);
        m.next_f = mkey_from_priv(s.hybrid, priv, s.hybrid != D_NEWHOPE || alice, alice ? nullptr : &m.rf.pub);
    }
}
static std::vector<Bytes> ent_windows(size_t len) {
    std::vector<Bytes> r; const Bytes &l = ENT.log;
    for (size_t o = 0; o + len <= l.size() && o < 4096; o += 8) r.push_back(Bytes(l.begin() + o, l.begin() + o + len));
    return r;
}
static Bytes clamp(int dh, Bytes k) { if (dh == D_25519) { k[0] &= 0xF8; k[31] = (k[31] & 0x7F) | 0x40; } else if (dh == D_448) { k[0] &= 0xFC; k[55] |= 0x80; } return k; }
static std::set<Bytes> g_ephs;
// Returns the library's error code.  `out` holds the message on success.
int ep_write(EP &e, const Bytes &payload, Bytes &out, size_t cap, bool null_payload) {
    MHandshake &m = e.m; out.clear();
    entropy_party(e.id);
    bool ne = m.write_needs_e(), nf = m.write_needs_f();
    bool fe = ne && e.fixed_e, ff = nf && e.fixed_f;
    if (e.model() || (e.synced && (fe || ff))) fix_eph(e);
    if (e.model()) {
        MErr r = m.write(payload, out);
        if (r == M_KEY) return NOISE_ERROR_INVALID_PUBLIC_KEY;
        if (r != M_OK) harness_error("model write failed %d", r);
        e.tr.push_back(out); e.pay.push_back(payload); e.msg++; if (e.msg == e.pat->msgs.size()) e.done = true;
        return 0;
    }
    const Suite &s = e.suite;
    if (fe) {
        bool alice = s.dh != D_NEWHOPE || !m.re.has_pub;
        Bytes priv = data_bytes("ephemeral", H64(e.id, e.fb), s.dh == D_448 ? 56 : s.dh == D_25519 ? 32 : alice ? 64 : 32);
        NoiseDHState *d = 0; oom_call([&] { d = CALL(e.be, noise_handshakestate_get_fixed_ephemeral_dh, e.hs); return d ? 0 : NOISE_ERROR_NO_MEMORY; }, true);
        XBuf b(priv); int r = d ? CALL(e.be, noise_dhstate_set_keypair_private, d, b.p, b.n) : -1;
        if (r) { if (HEAP.failed) return r ? r : -1; violate("H05,H01", "fixed-ephemeral", "a fixed ephemeral key is refused (%s)", errname(r)); fe = false; }
    }
    if (ff) {
        bool alice = !m.rf.has_pub;
        Bytes priv = data_bytes("hybrid", H64(e.id, e.fb), s.hybrid == D_448 ? 56 : s.hybrid == D_25519 ? 32 : alice ? 64 : 32);
        NoiseDHState *d = 0; oom_call([&] { d = CALL(e.be, noise_handshakestate_get_fixed_hybrid_dh, e.hs); return d ? 0 : NOISE_ERROR_NO_MEMORY; }, true);
        XBuf b(priv); int r = -1;
        if (d) { CALL(e.be, noise_dhstate_set_role, d, alice ? NOISE_ROLE_INITIATOR : NOISE_ROLE_RESPONDER); r = CALL(e.be, noise_dhstate_set_keypair_private, d, b.p, b.n); }
        if (r) { if (HEAP.failed) return r ? r : -1; violate("H05,H01", "fixed-hybrid", "a fixed hybrid key is refused (%s)", errname(r)); ff = false; }
    }
    entropy_mark();
    XBuf buf(cap); XBuf pb(payload);
    NoiseBuffer mb; noise_buffer_set_output(mb, buf.p, buf.n); mb.size = cap; // left from an earlier use
    NoiseBuffer pbuf; noise_buffer_set_input(pbuf, pb.p, pb.n);
    int r = oom_call([&] { return CALL(e.be, noise_handshakestate_write_message, e.hs, &mb, payload.empty() && null_payload ? (const NoiseBuffer *)0 : &pbuf); }, false);
    asserted("M03");
    if (mb.size > cap) { violate("M03,H01", "size-over-capacity", "write_message reports %zu bytes in a buffer of %zu", mb.size, cap); return -1; }
    if (r) {
        if (HEAP.failed) e.oom = true;
        if (mb.size) violate("M01,M03", "size-after-error", "write_message fails with %s and reports %zu bytes", errname(r), mb.size);
        return r;
    }
    out = buf.get(mb.size);
    e.tr.push_back(out); e.pay.push_back(payload);
    // shadow: find the keys that were used and compare
    if (e.synced && m.write_refused()) { e.synced = false; e.failed = true; return 0; } // the caller reports it
    if (e.synced) {
        MHandshake before = m; Bytes want; bool known = true;
        if (ne && !fe) {
            size_t pl = dh_publen(s.dh, s.dh != D_NEWHOPE || !m.re.has_pub); known = false;
            bool alice = s.dh != D_NEWHOPE || !m.re.has_pub;
            Bytes pub(out.begin(), out.begin() + std::min(pl, out.size()));
            for (auto &w : ent_windows(s.dh == D_448 ? 56 : s.dh == D_25519 ? 32 : alice ? 64 : 32)) {
                MKey k = mkey_from_priv(s.dh, clamp(s.dh, w), alice, alice ? nullptr : &m.re.pub);
                if (k.pub == pub) { m.next_e = k; known = true; before = m; break; }
            }
        }
        bool match = false;
        if (known && nf && !ff) {
            bool alice = !m.rf.has_pub; known = false;
            for (auto &w : ent_windows(s.hybrid == D_448 ? 56 : s.hybrid == D_25519 ? 32 : alice ? 64 : 32)) {
                MHandshake t = before; t.next_f = mkey_from_priv(s.hybrid, clamp(s.hybrid, w), s.hybrid != D_NEWHOPE || alice, alice ? nullptr : &m.rf.pub);
                if (t.write(payload, want) == M_OK && want == out) { m = t; known = match = true; break; }
            }
        } else if (known) { m = before; match = m.write(payload, want) == M_OK && want == out; }
        if (!known) { count("probe:ephemeral-not-learned"); e.synced = false; }
        else {
            asserted("H05"); count("probe:shadow-write");
            if (!match) {
                size_t d = 0; while (d < out.size() && d < want.size() && out[d] == want[d]) d++;
                desync();
                violate(e.fb ? "H05,H04" : "H05", "wire-bytes-differ", "%s message %zu written by the %s build differs from the specification at byte %zu (sizes %zu, %zu)", s.name().c_str(), e.msg, e.be->name, d, out.size(), want.size());
            } else learn_secrets(e);
        }
    }
    if (ne) {
        size_t pl = std::min(out.size(), dh_publen(s.dh, s.dh != D_NEWHOPE || !m.re.has_pub)); Bytes pub(out.begin(), out.begin() + pl);
        if (!fe) { asserted("R02"); if (!g_ephs.insert(pub).second) violate("R02,R01", "ephemeral-repeated", "an ephemeral public key was used twice"); }
    }
    if (!e.synced) { // keep the parts of the shadow that are public
        if (ne) { m.e.has_pub = true; m.e.dh = s.dh; m.e.pub = Bytes(out.begin(), out.begin() + std::min(out.size(), dh_publen(s.dh, s.dh != D_NEWHOPE || !m.re.has_pub))); }
        if (nf) { m.f.has_pub = true; m.f.dh = s.hybrid; }
        // overhead() needs has_key
        m.sym.has_key = enc_at(*e.pat, e.msg, s.psk, e.fb); m.msg = e.msg + 1;
    }
    e.msg++;
    if (e.msg == e.pat->msgs.size()) e.done = true;
    return 0;
}
int ep_read(EP &e, const Bytes &in, Bytes &payload, size_t cap, bool null_payload, MErr *pred, bool *pred_valid, Bytes *pred_payload, bool *leak) {
    MHandshake &m = e.m; payload.clear(); if (leak) *leak = false;
    if (pred_valid) *pred_valid = false;
    if (e.model()) {
        MErr r = m.read(in, payload);
        if (r == M_OK) { e.tr.push_back(in); e.pay.push_back(payload); e.msg++; if (e.msg == e.pat->msgs.size()) e.done = true; return 0; }
        e.failed = true; return r == M_LEN ? NOISE_ERROR_INVALID_LENGTH : r == M_MAC ? NOISE_ERROR_MAC_FAILURE : NOISE_ERROR_INVALID_PUBLIC_KEY;
    }
    MHandshake before = m; Bytes pp; MErr pr = M_BUG; bool pv = e.synced;
    if (e.synced) { pr = m.read(in, pp); if (pr == M_BUG) harness_error("model cannot read %s", e.suite.name().c_str()); }
    if (pred) *pred = pr;
    if (pred_valid) *pred_valid = pv;
    if (pred_payload) *pred_payload = pp;
    entropy_party(e.id); entropy_mark();
    XBuf mb(in); XBuf pb(cap, 0x5C);
    NoiseBuffer b, p; noise_buffer_set_input(b, mb.p, mb.n); noise_buffer_set_output(p, pb.p, pb.n); p.size = cap; // left from an earlier use
    int r = oom_call([&] { return CALL(e.be, noise_handshakestate_read_message, e.hs, &b, null_payload ? (NoiseBuffer *)0 : &p); }, false);
    if (r && HEAP.failed) e.oom = true;
    if (!null_payload) {
        asserted("M03,H02");
        if (p.size > cap) { violate("M03", "size-over-capacity", "read_message reports a payload of %zu bytes in a buffer of %zu", p.size, cap); return -1; }
        if (r && p.size) violate("H02,M03", "payload-after-error", "read_message failed with %s but hands out %zu bytes of payload", errname(r), p.size);
    }
    if (r == 0) {
        if (!null_payload) payload = pb.get(p.size); else payload = pp;
        e.tr.push_back(in); e.pay.push_back(payload); e.msg++; if (e.msg == e.pat->msgs.size()) e.done = true;
        if (e.synced) learn_secrets(e);
        else {
            auto &t = e.pat->msgs[e.msg - 1];
            for (auto x : t) { if (x == T_E) { m.re.has_pub = true; m.re.dh = e.suite.dh; size_t pl = std::min(in.size(), dh_publen(e.suite.dh, e.suite.dh != D_NEWHOPE || !m.e.has_pub)); m.re.pub = Bytes(in.begin(), in.begin() + pl); } if (x == T_F) m.rf.has_pub = true; }
            m.sym.has_key = enc_at(*e.pat, e.msg - 1, e.suite.psk, e.fb); m.msg = e.msg;
        }
    } else {
        if (e.synced && HEAP.scan) { for (auto &c : m.cks) secret_add("chaining or session key", c); }
        e.failed = true;
        if (e.synced) m.failed = true;
        if (leak && !null_payload) { if (pr == M_OK && contains_window(pb.p, pb.n, pp)) *leak = true; }
    }
    return r;
}
// an illegal step at the current point: refused, and nothing changes
void ep_misuse(EP &e, const char *stream) {
    if (e.model() || !e.hs) return;
    int act = e.expect_action(); uint64_t k = pick(stream, 16); int r = -1; const char *what = "";
    entropy_party(e.id);
    switch (k) {
    case 0: case 1: {
        if (act == NOISE_ACTION_READ_MESSAGE) return;
        Bytes junk = data_bytes("misuse", H64(e.id, e.msg), 32 + pick("misuse.len", 200)); XBuf b(junk), pb(300); NoiseBuffer mb, p; noise_buffer_set_input(mb, b.p, b.n); noise_buffer_set_output(p, pb.p, pb.n);
        r = CALL(e.be, noise_handshakestate_read_message, e.hs, &mb, &p); what = "read_message"; break; }
    case 2: case 3: {
        if (act == NOISE_ACTION_WRITE_MESSAGE) return;
        XBuf b(4096); NoiseBuffer mb; noise_buffer_set_output(mb, b.p, b.n); r = CALL(e.be, noise_handshakestate_write_message, e.hs, &mb, (const NoiseBuffer *)0); what = "write_message";
        if (mb.size) violate("H03", "output-from-refused-write", "a refused write_message reports %zu bytes", mb.size);
        break; }
    case 4: case 5: {
        if (act == NOISE_ACTION_SPLIT) return;
        NoiseCipherState *a = 0, *b = 0; r = CALL(e.be, noise_handshakestate_split, e.hs, &a, &b); what = "split";
        if (!r || a || b) { violate("H03,H02", "illegal-split", "%s %s: split in action %#x returned %s and ciphers %d %d", e.suite.name().c_str(), e.nm().c_str(), act, errname(r), a != 0, b != 0); return; }
        break; }
    case 6: r = CALL(e.be, noise_handshakestate_start, e.hs); what = "start"; break;
    case 7: { Bytes o = data_bytes("misuse", e.id, 1 + pick("misuse.len", 40)); XBuf b(o); r = CALL(e.be, noise_handshakestate_set_prologue, e.hs, b.p, b.n); what = "set_prologue"; break; }
    case 8: { Bytes o = data_bytes("misuse", e.id, 32); XBuf b(o); r = CALL(e.be, noise_handshakestate_set_pre_shared_key, e.hs, b.p, b.n); what = "set_pre_shared_key"; break; }
    case 9: { if (act == NOISE_ACTION_SPLIT || act == NOISE_ACTION_COMPLETE) return; uint8_t h[64]; r = CALL(e.be, noise_handshakestate_get_handshake_hash, e.hs, h, sizeof h); what = "get_handshake_hash"; break; }
    case 10: case 11: {
        bool possible = e.pat->pre_rs && !e.pat->oneway && !e.pat->fallback;
        bool state_ok = act == NOISE_ACTION_FAILED || act == (e.ini ? NOISE_ACTION_READ_MESSAGE : NOISE_ACTION_WRITE_MESSAGE);
        // a responder that never obtained the first message's ephemeral key(s) has nothing to fall back with
        bool nokey = act == NOISE_ACTION_FAILED && !e.ini && !e.fb && e.msg == 0 && e.synced && (!e.m.re.has_pub || (e.pat->hfs && !e.m.rf.has_pub));
        if (possible && state_ok && !nokey) return;
        if (possible && state_ok) count("probe:fallback-without-ephemeral");
        r = CALL(e.be, noise_handshakestate_fallback_to, e.hs, e.pat->hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK); what = "fallback"; break; }
    case 12: {
        static const int ids[] = {0, NOISE_PATTERN_XX, NOISE_PATTERN_NN, NOISE_PATTERN_IK, 0x7fff, -1};
        r = CALL(e.be, noise_handshakestate_fallback_to, e.hs, ids[pick("misuse.fbid", 6)]); what = "fallback to a pattern that is not one"; break; }
    case 13: case 14: case 15: { // a legal step with a buffer that is not one
        if (act != NOISE_ACTION_READ_MESSAGE && act != NOISE_ACTION_WRITE_MESSAGE) return;
        Bytes junk = data_bytes("misuse", H64(e.id, e.msg), 32 + pick("misuse.len", 200)); XBuf b(junk), pb(300, 0x5C); NoiseBuffer mb, p; uint64_t how = pick("misuse.how", 3); what = how == 0 ? "a buffer whose size exceeds its capacity" : how == 1 ? "a message buffer without memory" : "a payload buffer without memory";
        noise_buffer_set_input(mb, b.p, b.n); noise_buffer_set_output(p, pb.p, pb.n);
        if (act == NOISE_ACTION_READ_MESSAGE) { if (how == 0) mb.size = b.n + 1 + pick("misuse.by", 70000); else if (how == 1) mb.data = 0; else p.data = 0; r = CALL(e.be, noise_handshakestate_read_message, e.hs, &mb, &p); }
        else { if (how == 0) return; if (how == 1) mb.data = 0; else p.data = 0; r = CALL(e.be, noise_handshakestate_write_message, e.hs, &mb, &p); if (mb.size) violate("M03", "output-from-refused-write", "a refused write_message reports %zu bytes", mb.size); }
        asserted("M03"); count("misuse:bad-buffer");
        if (!r) { violate("M03", "bad-buffer-accepted", "%s %s in action %#x: %s is accepted", e.suite.name().c_str(), e.nm().c_str(), act, what); e.failed = true; return; }
        if (CALL(e.be, noise_handshakestate_get_action, e.hs) == NOISE_ACTION_FAILED) { e.failed = true; e.synced = false; } // allowed; otherwise nothing has changed
        ep_check_action(e); return; }
    }
    asserted("H03"); count(Str("misuse:") + what);
    lg("%s misuse %s -> %s", e.nm().c_str(), what, errname(r));
    if (r == NOISE_ERROR_NONE) violate(strstr(what, "fallback") ? "H03,H04" : "H03", (Str("illegal-step-allowed:") + what).c_str(), "%s %s in action %#x: %s succeeded", e.suite.name().c_str(), e.nm().c_str(), act, what);
    ep_check_action(e);
}
bool ep_split(EP &e, bool ws, bool wr) {
    if (e.synced || e.model()) { e.m.split(e.ks, e.kr); e.keys = true; learn_secrets(e); }
    if (e.model()) { e.hash = e.m.sym.h; e.split = true; return true; }
    size_t hl = hash_len(e.suite.hash); static const size_t cap[] = {0, 1, 16, 100}; size_t c = 0;
    if (flip("hash.odd", 200)) c = cap[pick("hash.cap", 4)];
    size_t n = c ? c : hl; XBuf b(n);
    bool after = pick("hash.when", 2);
    int r = 0;
    auto gethash = [&] {
        r = CALL(e.be, noise_handshakestate_get_handshake_hash, e.hs, b.p, b.n);
        asserted("H01");
        if (r) { violate("H01,H03", "no-handshake-hash", "a completed handshake gives no handshake hash: %s", errname(r)); return; }
        if (n < hl) { uint8_t full[64]; Bytes part = b.get(n); CALL(e.be, noise_handshakestate_get_handshake_hash, e.hs, full, hl); e.hash = Bytes(full, full + hl); if (memcmp(full, part.data(), n)) violate("H01", "hash-truncation", "a short buffer receives other bytes than the start of the handshake hash"); }
        else { e.hash = b.get(hl); for (size_t i = hl; i < n; ++i) if (b.p[i]) { violate("H01", "hash-padding", "bytes beyond the handshake hash are not zero"); break; } }
    };
    if (!after) gethash();
    r = oom_call([&] {
        size_t live = HEAP.live.size(); e.snd = e.rcv = (NoiseCipherState *)1;
        int x = CALL(e.be, noise_handshakestate_split, e.hs, ws ? &e.snd : (NoiseCipherState **)0, wr ? &e.rcv : (NoiseCipherState **)0);
        if (!ws) e.snd = 0;
        if (!wr) e.rcv = 0;
        if (x) {
            asserted("M01");
            if (e.snd || e.rcv) { violate("M01", "handle-after-error", "a split that failed with %s leaves a cipher handle", errname(x)); e.snd = e.rcv = 0; }
            if (HEAP.live.size() > live) violate("M01", "leak:split", "a failed split leaves memory allocated");
        }
        return x; }, true);
    if (r) { if (!HEAP.failed) violate("H01,H03", "split-fails", "split of a completed %s handshake fails: %s", e.suite.name().c_str(), errname(r)); return false; }
    asserted("H01,T01"); if ((ws && !e.snd) || (wr && !e.rcv)) { violate("H01,H03,T01", "no-cipher", "split of a completed %s handshake reports success without a cipher for %s", e.suite.name().c_str(), ws && !e.snd ? "sending" : "receiving"); return false; }
    e.split = true;
    if (after) gethash();
    if (e.synced) {
        asserted("H05"); 
        if (e.hash != e.m.sym.h) { desync(); violate("H05", "handshake-hash-differs", "%s: handshake hash of the %s build differs from the specification", e.suite.name().c_str(), e.be->name); }
    }
    ep_check_action(e);
    return true;
}
void ep_free(EP &e) {
    if (e.model()) return;
    if (e.snd) CALL(e.be, noise_cipherstate_free, e.snd);
    if (e.rcv) CALL(e.be, noise_cipherstate_free, e.rcv);
    if (e.hs) CALL(e.be, noise_handshakestate_free, e.hs);
    e.snd = e.rcv = 0; e.hs = 0;
}
void check_no_leaks(const char *where) {
    asserted("M01");
    size_t c = 0, t = 0; for (auto &b : HEAP.live) { c++; t += b.second.size; }
    if (c) violate("M01", (Str("leak:") + where).c_str(), "%zu blocks (%zu bytes) are still allocated after everything was freed (%s)", c, t, where);
}
