// Scenario "entropy": everything that makes keys or random output runs while the system's random source is missing,
// interrupted, short or broken.  Whatever comes out must be what an undisturbed source delivering the same bytes gives.
#include "rec.h"
struct Out { int rc = 0; bool exited = false; std::vector<Bytes> b; };
typedef std::function<int(std::vector<Bytes> &)> Fn;
static Out attempt(const Fn &f) {
    Out o; ENT.feed_dry = false;
    try { o.rc = f(o.b); } catch (SutExit &e) { o.exited = true; sut_depth = 0; }
    return o;
}
static int op_dh(const Api *be, int id, bool dep, std::vector<Bytes> &o) {
    NoiseDHState *d = 0, *a = 0; int r = CALL(be, noise_dhstate_new_by_id, &d, id); if (r) return r;
    if (dep) {
        r = CALL(be, noise_dhstate_new_by_id, &a, id); CALL(be, noise_dhstate_set_role, a, NOISE_ROLE_INITIATOR); CALL(be, noise_dhstate_set_role, d, NOISE_ROLE_RESPONDER);
        size_t sl = CALL(be, noise_dhstate_get_private_key_length, a); XBuf seed(Data("depseed").bytes(sl)); if (!r) r = CALL(be, noise_dhstate_set_keypair_private, a, seed.p, seed.n);
        if (!r) r = CALL(be, noise_dhstate_generate_dependent_keypair, d, a);
    } else r = CALL(be, noise_dhstate_generate_keypair, d);
    if (!r) {
        size_t n = CALL(be, noise_dhstate_get_public_key_length, d), p = CALL(be, noise_dhstate_get_private_key_length, d); XBuf b(n), c(p);
        r = CALL(be, noise_dhstate_get_public_key, d, b.p, n); o.push_back(b.get(n));
        if (!dep) { XBuf b2(n); int q = CALL(be, noise_dhstate_get_keypair, d, c.p, p, b2.p, n); if (!q) o.push_back(c.get(p)); }
    } else if (CALL(be, noise_dhstate_has_keypair, d)) o.push_back(Bytes(1, 0xEE));
    CALL(be, noise_dhstate_free, d); if (a) CALL(be, noise_dhstate_free, a); return r;
}
static int op_sign(const Api *be, std::vector<Bytes> &o) {
    NoiseSignState *s = 0; int r = CALL(be, noise_signstate_new_by_id, &s, NOISE_SIGN_ED25519); if (r) return r;
    r = CALL(be, noise_signstate_generate_keypair, s); if (!r) { XBuf a(32), b(32); r = CALL(be, noise_signstate_get_keypair, s, a.p, 32, b.p, 32); o.push_back(a.get(32)); o.push_back(b.get(32)); }
    CALL(be, noise_signstate_free, s); return r;
}
static int op_rand(const Api *be, const std::vector<size_t> &sz, bool reseed, uint64_t pad, std::vector<Bytes> &o) {
    NoiseRandState *s = 0; int r = CALL(be, noise_randstate_new, &s); if (r) return r;
    for (size_t i = 0; i < sz.size() && !r; ++i) {
        XBuf b(Bytes(sz[i], 0)); if (reseed && i == 1) r = CALL(be, noise_randstate_reseed, s);
        if (!r) r = pad ? CALL(be, noise_randstate_pad, s, b.p, sz[i] / 3, sz[i], (int)NOISE_PADDING_RANDOM) : CALL(be, noise_randstate_generate, s, b.p, sz[i]);
        if (!r) o.push_back(b.get(sz[i]));
    }
    CALL(be, noise_randstate_free, s); return r;
}
static int op_simple(const Api *be, size_t n, std::vector<Bytes> &o) { XBuf b(Bytes(n, 0)); int r = CALL(be, noise_randstate_generate_simple, b.p, n); o.push_back(b.get(n)); return r; }
static int op_hs(const Api *be, const Suite &s, std::vector<Bytes> &o) {
    NoiseHandshakeState *h = 0; NoiseProtocolId id = s.id(); int r = CALL(be, noise_handshakestate_new_by_id, &h, &id, NOISE_ROLE_INITIATOR); if (r) return r;
    const Pattern *p = pattern_by_id(s.pattern);
    if (s.psk) { XBuf k(Data("psk").bytes(32)); r = CALL(be, noise_handshakestate_set_pre_shared_key, h, k.p, 32); }
    if (!r && p->needs_static(true)) { MKey k = gen_key(s.dh, "ent.s", 1); XBuf b(k.priv); r = CALL(be, noise_dhstate_set_keypair_private, CALL(be, noise_handshakestate_get_local_keypair_dh, h), b.p, b.n); }
    if (!r && p->pre_rs) { MKey k = gen_key(s.dh, "ent.s", 2); XBuf b(k.pub); r = CALL(be, noise_dhstate_set_public_key, CALL(be, noise_handshakestate_get_remote_public_key_dh, h), b.p, b.n); }
    if (!r) r = CALL(be, noise_handshakestate_start, h);
    if (!r) { XBuf b(5000); NoiseBuffer mb; noise_buffer_set_output(mb, b.p, b.n); r = CALL(be, noise_handshakestate_write_message, h, &mb, (const NoiseBuffer *)0); o.push_back(b.get(mb.size)); if (r && mb.size) o.push_back(Bytes(1, 0xEE)); }
    CALL(be, noise_handshakestate_free, h); return r;
}
static int op_save(const Api *be, const Rec &k, const Str &alg, bool file, std::vector<Bytes> &o) {
    void *obj = 0; int r = lib_build(be, k, &obj); if (r) return r; XBuf ps(Data("pass", 1).bytes(12)); 
    if (file) { DISK.files.erase("ent.key"); r = CALL(be, noise_save_private_key_to_file, (Noise_PrivateKey *)obj, "ent.key", ps.p, ps.n, alg.c_str()); if (!r) o.push_back(DISK.files["ent.key"].data); }
    else { XBuf b(70000); NoiseProtobuf pb; CALL(be, noise_protobuf_prepare_output, &pb, b.p, b.n); r = CALL(be, noise_save_private_key_to_buffer, (Noise_PrivateKey *)obj, &pb, ps.p, ps.n, alg.c_str()); uint8_t *dp = 0; size_t n = 0; if (!r) r = CALL(be, noise_protobuf_finish_output, &pb, &dp, &n); if (!r) o.push_back(Bytes(dp, dp + n)); }
    lib_free(be, R_PRIV, obj); return r;
}
static int op_tool(const Api *be, bool echo, const std::vector<Str> &args, std::vector<Bytes> &o) {
    DISK.files.clear(); int r = run_tool(be, echo ? be->echokeygen_main : be->keytool_main, args);
    if (!r) for (auto &f : DISK.files) { o.push_back(Bytes(f.first.begin(), f.first.end())); o.push_back(f.second.data); }
    return r;
}
void sc_entropy() {
    unsigned ops = 2 + (unsigned)pick("ops", 6);
    for (unsigned k = 0; k < ops && !violated(); ++k) {
        const Api *be = &API[flip("ent.sodium", 100) ? BE_SODIUM : pick("ent.be", 2) ? BE_OPENSSL : BE_REF]; entropy_party((int)k); Fn f; Str what;
        switch (pick("ent.op", 15)) {
        case 0: f = [=](std::vector<Bytes> &o) { return op_dh(be, NOISE_DH_CURVE25519, false, o); }; what = "generating a Curve25519 key"; break;
        case 1: f = [=](std::vector<Bytes> &o) { return op_dh(be, NOISE_DH_CURVE448, false, o); }; what = "generating a Curve448 key"; break;
        case 2: f = [=](std::vector<Bytes> &o) { return op_dh(be, NOISE_DH_NEWHOPE, false, o); }; what = "generating a NewHope key"; break;
        case 3: f = [=](std::vector<Bytes> &o) { return op_dh(be, NOISE_DH_NEWHOPE, true, o); }; what = "generating a dependent NewHope key"; break;
        case 4: f = [=](std::vector<Bytes> &o) { return op_sign(be, o); }; what = "generating a signing key"; break;
        case 5: case 6: case 7: { std::vector<size_t> sz; for (uint64_t i = 0, c = 1 + pick("ent.reqs", 3); i < c; ++i) sz.push_back(16 + pick("ent.req", 300)); bool rs = pick("ent.reseed", 2); uint64_t pad = pick("ent.pad", 3) == 0; if (pick("ent.huge", 20) == 0) sz.push_back(1600000 + pick("ent.hugelen", 200000));
            f = [=](std::vector<Bytes> &o) { return op_rand(be, sz, rs, pad, o); }; what = "a random generator"; break; }
        case 8: { size_t n = 16 + pick("ent.req", 300); f = [=](std::vector<Bytes> &o) { return op_simple(be, n, o); }; what = "generate_simple"; break; }
        case 9: case 10: { Suite s = gen_suite("ent"); s.pattern = pattern_by_name(s.dh == D_NEWHOPE ? "NN" : pick("ent.pat", 2) ? "NN" : "NK")->id; s.hybrid = D_NONE; if (pick("ent.hfs", 2) && s.dh != D_NEWHOPE) { static const char *hp[] = {"NNhfs", "NKhfs", "XXhfs", "IKhfs"}; s.pattern = pattern_by_name(hp[pick("ent.hfspat", 4)])->id; s.hybrid = pick("ent.hyb", 2) ? D_NEWHOPE : D_448; }
            f = [=](std::vector<Bytes> &o) { return op_hs(be, s, o); }; what = "a handshake message of " + s.name(); break; }
        case 11: case 12: { Rec r = gen_privkey("ent.rec", false); static const char *alg[] = {"ChaChaPoly_BLAKE2b_PBKDF2", "AESGCM_SHA256_PBKDF2"}; Str a = alg[pick("ent.alg", 2)]; bool file = pick("ent.file", 2);
            f = [=](std::vector<Bytes> &o) { return op_save(be, r, a, file, o); }; what = "saving a private key"; break; }
        case 13: { std::vector<Str> a = {"noise-keytool", "generate", "-p", "secret pass", "-n", "A Name"}; switch (pick("ent.algs", 3)) { case 0: a.push_back("-a"); a.push_back("Ed25519"); break; case 1: a.push_back("-a"); a.push_back("all"); break; } a.push_back("cert"); a.push_back("key");
            f = [=](std::vector<Bytes> &o) { return op_tool(be, false, a, o); }; what = "keytool generate"; break; }
        case 14: { std::vector<Str> a = {"echo-keygen", pick("ent.kt", 2) ? "25519" : "448", "k", "k.pub"}; f = [=](std::vector<Bytes> &o) { return op_tool(be, true, a, o); }; what = "echo-keygen"; break; }
        }
        uint64_t fk = pick("ent.faults", 8); ENT.faults = 0; ENT.max_faults = 1 + (int)pick("ent.nfaults", 3); unsigned pm = pick("ent.often", 2) ? 1000 : 250;
        if (fk == 0) { ENT.pm_eintr = 1000; ENT.max_faults = 1 + (int)pick("ent.storm", 60); }
        if (fk == 1 || fk == 7) ENT.pm_short = pm;
        if (fk == 2) ENT.pm_eof = pm;
        if (fk == 3) ENT.pm_err = pm;
        if (fk == 4) ENT.pm_openfail = pm;
        if (fk == 5) { ENT.pm_eintr = 400; ENT.pm_short = 300; ENT.pm_err = 100; }
        if (fk == 6) { ENT.pm_eintr = ENT.pm_short = ENT.pm_eof = ENT.pm_err = ENT.pm_openfail = pm / 3; }
        if (fk == 7) { ENT.pm_openfail = 0; ENT.pm_eintr = 300; }
        HEAP.owner = (int)k; entropy_mark(); Out a = attempt(f);
        int nf = ENT.faults; bool only_eintr = !ENT.any_hard; Bytes log = ENT.log; auto chunks = ENT.chunks; unsigned fds = ENT.openfds;
        ENT.pm_eintr = ENT.pm_short = ENT.pm_eof = ENT.pm_err = ENT.pm_openfail = 0;
        lg("%s (%s): %d faults, rc %d exited %d, %zu bytes delivered", what.c_str(), be->name, nf, a.rc, a.exited, log.size()); asserted("R01");
        if (!a.exited && fds) violate("R01,M01", "leaked-descriptor", "%s leaves the random device open", what.c_str());
        if (a.exited) { count("probe:stopped-for-lack-of-entropy"); ENT.openfds = 0; }
        if ((a.exited || a.rc) && only_eintr && nf) { violate("R01", "interrupted-not-retried", "%s in the %s build gives up (%s) because %d system calls were interrupted", what.c_str(), be->name, a.exited ? "exit" : errname(a.rc), nf); break; }
        if (a.rc == NOISE_ERROR_INVALID_LENGTH && !a.exited) { count("probe:record-too-big"); continue; }
        if ((a.exited || a.rc) && !nf) { violate("R01", "fails-with-entropy", "%s in the %s build fails (%s) although the random source works", what.c_str(), be->name, a.exited ? "exit" : errname(a.rc)); break; }
        if (a.rc && !a.exited && !a.b.empty() && what.find("handshake") == Str::npos) count("probe:output-with-error");
        if (!a.exited && !a.rc) {
            std::vector<size_t> part; for (size_t i = 0; i < chunks.size(); ++i) if (chunks[i].partial) part.push_back(i);
            bool match = false;
            for (uint64_t m = 0; m < (1u << std::min<size_t>(part.size(), 6)) && !match; ++m) {
                Bytes feed; for (size_t i = 0; i < chunks.size(); ++i) { bool drop = false; for (size_t j = 0; j < part.size(); ++j) if (part[j] == i && (m >> j & 1)) drop = true; if (!drop) feed.insert(feed.end(), log.begin() + chunks[i].off, log.begin() + chunks[i].off + chunks[i].got); }
                entropy_mark(); ENT.use_feed = true; ENT.feed = feed; Out t = attempt(f); bool dry = ENT.feed_dry, rest = !ENT.feed.empty(); ENT.use_feed = false; ENT.feed.clear();
                if (!t.exited && !t.rc && t.b == a.b && !dry && !rest) match = true;
            }
            if (!match) violate("R01", "not-from-delivered-entropy", "%s in the %s build succeeds with output that the bytes delivered by the random source do not explain (%d faults)", what.c_str(), be->name, nf);
            if (nf) count("probe:success-despite-entropy-faults");
        }
        state_seen(H64(H64(hstr(what.substr(0, 20).c_str()), fk), nf * 4 + a.exited * 2 + !!a.rc));
    }
}
