// Scenario "store": records and keys saved to and loaded from a faulty simulated disk by different builds.
#include "rec.h"
struct Item { int kind = 0; Rec rec{R_CERT}; Bytes pass; Str alg; Str path; bool bad_text = false; };
static const char *ALGS[] = {"ChaChaPoly_BLAKE2b_PBKDF2", "AESGCM_SHA256_PBKDF2", "ChaChaPoly_SHA512_PBKDF2", "AESGCM_BLAKE2s_PBKDF2", "ChaChaPoly_BLAKE2s_PBKDF2", "AESGCM_SHA512_PBKDF2", "ChaChaPoly_SHA256_PBKDF2", "AESGCM_BLAKE2b_PBKDF2"};
static std::set<Bytes> g_salts;
static const Api *g_saver;   // the build that saved a private key last

static std::vector<Bytes> keys_of(const Rec &r) { std::vector<Bytes> o; auto it = r.f.find(4); if (r.def == R_PRIV && it != r.f.end()) for (auto &k : it->second) { auto x = k.m->f.find(2); if (x != k.m->f.end()) o.push_back(x->second[0].b); } return o; }
static uint64_t first_tag(const Bytes &b) { uint64_t v = 0; for (size_t i = 0; i < b.size() && i < 10; ++i) { v |= (uint64_t)(b[i] & 127) << (7 * i); if (!(b[i] & 128)) return v >> 3; } return 0; }
static Rec wrap(const Rec &c) { Rec r(R_CHAIN); Val v; v.m = std::make_shared<Rec>(c); r.f[8] = {v}; return r; }
Exp expect_load(int kind, const Bytes &b, const Bytes &pass) {
    Exp e;
    if (kind == R_PRIV) {
        Rec k(R_PRIV); bool huge; Parsed outer; bool ok = enc_open(b, pass, k, &huge, &outer);
        if (huge) { e.skip = true; return e; }
        if (!outer.ok) { e.must_fail = true; return e; }
        if (!ok) { e.must_fail = true; return e; }
        e.alts.push_back(k);
        // a reader may refuse odd constructs, outside or inside the encryption
        Rec &o = outer.alts[0]; (void)o; e.must_ok = !outer.may_reject;
        if (outer.alts.size() > 1) e.must_ok = false;
        return e;
    }
    bool chain = first_tag(b) == 8;
    Parsed pc = rec_parse(R_CHAIN, b), p1 = rec_parse(R_CERT, b);
    auto chain_alts = [&] { for (auto &a : pc.alts) { if (kind == R_CHAIN) e.alts.push_back(a); else if (a.f.count(8) && !a.f.at(8).empty()) e.alts.push_back(*a.f.at(8)[0].m); } };
    auto cert_alts = [&] { for (auto &a : p1.alts) e.alts.push_back(kind == R_CHAIN ? wrap(a) : a); };
    bool rej;
    if (chain) { if (pc.ok) chain_alts(); rej = pc.may_reject; if (pc.ok && pc.may_reject && p1.ok) cert_alts(); }
    else { if (p1.ok) cert_alts(); rej = p1.may_reject || !p1.ok; if (pc.ok && !pc.alts[0].f.empty()) chain_alts(); if (pc.ok && p1.ok && pc.may_reject) rej = true; }
    if (e.alts.empty()) { if (!(pc.ok && pc.may_reject)) e.must_fail = true; }
    else e.must_ok = !rej;
    return e;
}
static const char *kname(int k) { return k == R_CERT ? "certificate" : k == R_CHAIN ? "certificate chain" : "private key"; }
static int do_load(const Api *be, int kind, const Str *path, const Bytes *buf, const Bytes &pass, void **obj) {
    *obj = (void *)1; XBuf pb(pass); int r;
    if (path) {
        if (kind == R_CERT) r = CALL(be, noise_load_certificate_from_file, (Noise_Certificate **)obj, path->c_str());
        else if (kind == R_CHAIN) r = CALL(be, noise_load_certificate_chain_from_file, (Noise_CertificateChain **)obj, path->c_str());
        else r = CALL(be, noise_load_private_key_from_file, (Noise_PrivateKey **)obj, path->c_str(), pb.p, pb.n);
    } else {
        XBuf b(*buf); NoiseProtobuf p; CALL(be, noise_protobuf_prepare_input, &p, b.p, b.n);
        if (kind == R_CERT) r = CALL(be, noise_load_certificate_from_buffer, (Noise_Certificate **)obj, &p);
        else if (kind == R_CHAIN) r = CALL(be, noise_load_certificate_chain_from_buffer, (Noise_CertificateChain **)obj, &p);
        else r = CALL(be, noise_load_private_key_from_buffer, (Noise_PrivateKey **)obj, &p, pb.p, pb.n);
    }
    if (r && *obj == (void *)1) *obj = nullptr; // not touched: fine for a file that could not be read at all
    return r;
}
struct DiskFaultsOff { unsigned a = DISK.pm_openfail, b = DISK.pm_readerr, c = DISK.pm_seekfail, d = DISK.pm_closeerr; DiskFaultsOff() { DISK.pm_openfail = DISK.pm_readerr = DISK.pm_seekfail = DISK.pm_closeerr = 0; } ~DiskFaultsOff() { DISK.pm_openfail = a; DISK.pm_readerr = b; DISK.pm_seekfail = c; DISK.pm_closeerr = d; } };
// loads and judges
void check_load(const Api *be, int kind, const Str *path, const Bytes *buf, const Bytes &pass, bool oom, const char *why) {
    Bytes data; bool absent = false, seekable = true;
    if (path) { auto it = DISK.files.find(*path); absent = it == DISK.files.end(); if (!absent) { data = it->second.data; seekable = it->second.seekable; } } else data = *buf;
    Exp e; if (!absent) e = expect_load(kind, data, pass);
    if (e.skip) { count("probe:huge-iterations-skipped"); return; }
    if (kind == R_PRIV && !absent) { // the key derived from the passphrase is secret
        Parsed P = rec_parse(R_ENC, data);
        if (P.ok) { Rec &o = P.alts[0]; int c, h; if (o.f.count(11) && o.f.count(12) && o.f.count(13) && alg_parse(o.f[11][0].b, c, h) && o.f[13][0].u <= 40000) secret_add("passphrase-derived key", m_pbkdf2(h, pass, o.f[12][0].b, o.f[13][0].u, 40)); }
        for (auto &a : e.alts) for (auto &k : keys_of(a)) secret_add("stored private key", k);
    }
    if (path && (absent || data.size() > 65535)) { e.must_fail = true; e.must_ok = false; }
    if (path && data.empty()) e.must_ok = false;
    if (!path && data.size() > 65535 && kind == R_PRIV) e.must_ok = false;
    disk_mark(); heap_mark(); void *o; size_t live = HEAP.live.size();
    if (oom) { uint64_t span = 60;
        if (kind != R_PRIV && pick("oom.exact", 2)) { // count the allocations first, in a copy of what happens without a fault
            DiskFaultsOff off; void *q; if (!do_load(be, kind, path, buf, pass, &q)) lib_free(be, kind, q); span = HEAP.allocs + 1; disk_mark(); heap_mark(); }
        HEAP.fail_at.insert(1 + pick("oom.at", span)); }
    int r = do_load(be, kind, path, buf, pass, &o);
    bool mem = HEAP.failed > 0; heap_faults_off();
    bool io = DISK.io_failed, rd = DISK.read_failed;
    lg("%s loads %s as %s (%zu bytes, %s): %s", be->name, path ? path->c_str() : "buffer", kname(kind), data.size(), why, errname(r));
    state_seen(H64(H64(kind * 8 + be->id, r), H64(io * 2 + mem, e.must_ok * 2 + e.must_fail)));
    asserted("M03"); if (io) asserted("S01"); if (mem) { asserted("M01"); count("probe:load-out-of-memory"); }
    if (r == 0) {
        if (!o) { violate("S01,S02,M03", "null-object", "loading a %s succeeds without an object", kname(kind)); return; }
        Rec got = lib_extract(be, kind, o); bool in = false; for (auto &a : e.alts) if (a == got) in = true;
        asserted(kind == R_PRIV ? "S02,S03" : "S02");
        if (mem) { if (!in && !e.must_fail) violate("M01", "partial-record-after-oom", "an allocation failed but loading a %s reports success with %s", kname(kind), got.show().c_str()); }
        else if (rd && !in) violate("S01", "partial-record-after-read-error", "a read failed but loading a %s reports success with %s", kname(kind), got.show().c_str());
        else if (e.must_fail || !in) {
            bool overlong = path && data.size() > 65535 && !seekable;
            violate(kind == R_PRIV ? "S02,S03" : "S02", e.must_fail ? (overlong ? "overlong-file-accepted" : kind == R_PRIV ? "damaged-key-accepted" : "damaged-file-accepted") : "fields-differ", "a %s of %zu bytes (%s) is loaded as %s, the bytes mean %s", kname(kind), data.size(), why, got.show().c_str(), e.alts.empty() ? "nothing valid" : e.alts[0].show().c_str());
        } else {
            count(Str("probe:loaded-") + (kind == R_CERT ? "certificate" : kind == R_CHAIN ? "chain" : "key"));
            Bytes out, want = rec_encode(got); int w = lib_write(be, kind, o, out, 70000); asserted("S01");
            bool nul = false; std::function<void(const Rec &)> chk = [&](const Rec &x) { for (auto &d : SCHEMA[x.def].f) { auto it = x.f.find(d.tag); if (it != x.f.end()) for (auto &v : it->second) { if (d.type == F_STR && std::find(v.b.begin(), v.b.end(), 0) != v.b.end()) nul = true; if (v.m) chk(*v.m); } } }; chk(got);
            if (!nul && (w || out != want)) violate("S01,S02", "reencoding-differs", "a loaded %s cannot be written back as it was (%s, %zu bytes instead of %zu)", kname(kind), errname(w), out.size(), want.size());
        }
        lib_free(be, kind, o);
    } else {
        if (o) violate("M01,M03,S03", "object-after-error", "loading a %s fails with %s but hands out an object", kname(kind), errname(r));
        if (e.must_ok && !io && !mem) lg("the file: %s", hex(data, 600).c_str()), violate(kind == R_PRIV ? "S01,S02,S03" : "S01,S02", kind == R_PRIV ? "valid-key-refused" : "valid-file-refused", "a well-formed %s of %zu bytes (%s) is refused with %s; it means %s", kname(kind), data.size(), why, errname(r), e.alts[0].show().c_str());
        else { asserted(kind == R_PRIV ? "S02,S03" : "S02"); if (e.must_fail) count("probe:damaged-refused"); if (rd) count("probe:read-error-reported"); }
    }
    if (mem && r && e.must_ok && kind != R_PRIV && !violated()) { // with memory available the same load works
        DiskFaultsOff off; disk_mark(); void *q = 0; int w = do_load(be, kind, path, buf, pass, &q); asserted("M01");
        if (w && !DISK.io_failed) violate("M01", "retry-fails", "after a failed allocation loading a %s again fails with %s", kname(kind), errname(w)); else if (!w) lib_free(be, kind, q); }
    if (HEAP.live.size() != live) violate("M01", "leak:load", "loading a %s (%s) leaves %zd blocks allocated", kname(kind), errname(r), (ssize_t)HEAP.live.size() - (ssize_t)live);
    if (DISK.open_streams) { violate("S01,M01", "leaked-stream", "loading a %s leaves a file open", kname(kind)); DISK.open_streams = 0; }
}
// ------------------------------------------------------------------ generation
static void vint(Bytes &o, uint64_t v, bool odd) { int pad = odd && flip("wire.nonminimal", 60) ? 1 + (int)pick("wire.padn", 3) : 0; if (pad) count("probe:non-minimal-varint"); while (v >= 128) { o.push_back((uint8_t)(v | 128)); v >>= 7; } if (!pad) { o.push_back((uint8_t)v); return; } o.push_back((uint8_t)(v | 128)); while (--pad) o.push_back(128); o.push_back(0); }
static void unknown_field(Bytes &o, int def) {
    uint64_t tag; do { uint64_t k = pick("wire.tagkind", 4); tag = k < 2 ? 1 + pick("wire.tag", 15) : k == 2 ? 16 + pick("wire.tag2", 2000) : 2048 + pick("wire.tag3", 500000000 - 2048); } while ([&] { for (auto &d : SCHEMA[def].f) if ((uint64_t)d.tag == tag) return true; return tag == 8 && def == R_CERT; }());
    int wt = (int)pick("wire.wt", 4); static const int w[] = {0, 1, 2, 5}; Data d("unk", tag); count("probe:unknown-field");
    vint(o, tag << 3 | w[wt], true);
    if (w[wt] == 0) vint(o, pick("wire.small", 2) ? pick("wire.val", 300) : d.next(), true);
    else if (w[wt] == 2) { size_t n = pick("wire.unklen", 3) ? pick("wire.unkn", 20) : 120 + pick("wire.unkn", 20); vint(o, n, true); Bytes b = d.bytes(n); o.insert(o.end(), b.begin(), b.end()); }
    else { Bytes b = d.bytes(w[wt] == 1 ? 8 : 4); o.insert(o.end(), b.begin(), b.end()); }
}
// an encoding that means the same record but is not the one the library writes
Bytes rec_encode_odd(const Rec &r, bool top) {
    std::vector<std::pair<int, Bytes>> fs;
    for (auto &d : SCHEMA[r.def].f) {
        auto it = r.f.find(d.tag); if (it == r.f.end()) continue;
        for (auto &v : it->second) {
            Bytes o; vint(o, (uint64_t)d.tag << 3 | (d.type == F_U32 ? 0 : 2), true);
            if (d.type == F_U32) vint(o, v.u, true); else { Bytes b = d.type == F_MSG ? rec_encode_odd(*v.m, false) : v.b; vint(o, b.size(), true); o.insert(o.end(), b.begin(), b.end()); }
            if (!d.rep && d.type != F_MSG && flip("wire.duplicate", 30)) { // an earlier value that the later one replaces
                Bytes x; vint(x, (uint64_t)d.tag << 3 | (d.type == F_U32 ? 0 : 2), false); if (d.type == F_U32) vint(x, 77, false); else { vint(x, 2, false); x.push_back('o'); x.push_back('k'); } o.insert(o.begin(), x.begin(), x.end()); count("probe:duplicate-field");
            }
            fs.push_back({d.tag, o});
        }
    }
    if (flip("wire.shuffle", 150)) { count("probe:fields-out-of-order"); for (size_t i = fs.size(); i > 1; --i) { size_t j = pick("wire.perm", i); // keep the order of equal tags
            if (fs[i - 1].first != fs[j].first) { bool ok = true; for (size_t k = std::min(i - 1, j); k <= std::max(i - 1, j); ++k) if (k != i - 1 && k != j && (fs[k].first == fs[i - 1].first || fs[k].first == fs[j].first)) ok = false; if (ok) std::swap(fs[i - 1], fs[j]); } } }
    Bytes o; size_t n = 0;
    for (auto &f : fs) { if ((n++ || !top) && flip("wire.unknown", 60)) unknown_field(o, r.def); o.insert(o.end(), f.second.begin(), f.second.end()); }
    if (flip("wire.unknown", 60) && (!top || !o.empty())) unknown_field(o, r.def);
    return o;
}
static Rec *find_meta(Rec &r) {
    if (r.def == R_META) return &r;
    for (auto &d : SCHEMA[r.def].f) { if (d.type != F_MSG) continue; auto it = r.f.find(d.tag); if (it != r.f.end()) for (auto &v : it->second) { Rec *m = find_meta(*v.m); if (m) return m; } }
    return nullptr;
}
// grow the record until its encoding has the given size, if it can be done
static void pad_to(Rec &r, size_t target) {
    Rec *m = find_meta(r); if (!m) { int t = r.def == R_PRIV ? 5 : 0; if (!t) return; Val v; v.m = std::make_shared<Rec>(R_META); r.f[t].push_back(v); m = find_meta(r); }
    Val v; m->f[2] = {v};
    for (int i = 0; i < 8; ++i) { size_t n = rec_encode(r).size(); size_t cur = m->f[2][0].b.size(); if (n == target) return; ssize_t want = (ssize_t)cur + (ssize_t)target - (ssize_t)n; if (want < 0) return; m->f[2][0].b.assign(want, 'x'); }
}
static Item gen_item(int i) {
    Item it; it.kind = (int)(pick("item.kind", 5)); it.kind = it.kind < 2 ? R_CERT : it.kind == 2 ? R_CHAIN : R_PRIV;
    it.rec = it.kind == R_PRIV ? gen_privkey("rec.data", pick("rec.real", 2)) : gen_rec(it.kind, "rec.data", 2);
    if (it.kind == R_CHAIN && it.rec.f[8].empty()) it.rec.f.erase(8);
    Data d("pass", i); it.pass = d.bytes(pick("pass.len", 40)); if (flip("pass.long", 60)) it.pass = d.bytes(60 + pick("pass.longlen", 100));
    it.alg = ALGS[pick("rec.algo", 8)]; char b[40]; snprintf(b, sizeof b, "/sim/file%d", i); it.path = b;
    if (flip("rec.edge", 40)) { static const size_t t[] = {65535, 65534, 65519, 65520, 65518, 65536, 65503, 65450, 65400}; pad_to(it.rec, t[pick("rec.edgesize", 9)] - (it.kind == R_PRIV && pick("rec.edgekey", 2) ? pick("rec.edgeoff", 120) : 0)); count("probe:size-limit-record"); }
    if (flip("rec.badtext", 40)) { // text that is no UTF-8 must not be written
        Rec *m = find_meta(it.rec); if (m) { Val v; static const char *bad[] = {"\xC0\x80", "ok\xFF", "\xE2\x82", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\x80", "\xE2\x82\x28", "\xF0\x82\x82\xAC", "\xC3\x28"}; const char *s = bad[pick("rec.badkind", 9)]; v.b = Bytes(s, s + strlen(s)); m->f[1] = {v}; it.bad_text = true; count("probe:bad-text"); } }
    return it;
}
static void learn_rec(const Rec &r) { for (auto &k : keys_of(r)) secret_add("stored private key", k); }
static bool encodable(const Item &it, bool &unsure) { size_t n = rec_encode(it.rec).size(); unsure = it.kind == R_PRIV && n + it.alg.size() + 60 > 65535 && n <= 65519; if (it.bad_text || n == 0) { if (n == 0) unsure = it.kind != R_PRIV; return n == 0; } return it.kind == R_PRIV ? n <= 65519 : n <= 65535; }
static void reserved_nonce() { KDF = KdfSeam(); if (flip("kdf.reserved", 60)) KDF.reserved = 1 + (int)pick("kdf.times", 2); }
// Saves, judges the outcome; returns true if the file now holds the record.
static bool do_save(const Api *be, Item &it, bool oom, bool crash) {
    void *o = 0; if (lib_build(be, it.rec, &o)) { violate("M01,S01", "build-fails", "a record cannot be built"); return false; }
    learn_rec(it.rec);
    bool unsure, can = encodable(it, unsure);
    disk_mark(); heap_mark(); entropy_party(50); entropy_mark();
    bool existed = DISK.files.count(it.path); Bytes before = existed ? DISK.files[it.path].data : Bytes();
    if (crash) DISK.crash_at_write = DISK.writes + 1 + pick("disk.crashat", 3);
    if (oom) HEAP.fail_at.insert(1 + pick("oom.at", 20));
    XBuf ps(it.pass); int r; size_t live = HEAP.live.size();
    if (it.kind == R_CERT) r = CALL(be, noise_save_certificate_to_file, (Noise_Certificate *)o, it.path.c_str());
    else if (it.kind == R_CHAIN) r = CALL(be, noise_save_certificate_chain_to_file, (Noise_CertificateChain *)o, it.path.c_str());
    else { reserved_nonce(); r = CALL(be, noise_save_private_key_to_file, (Noise_PrivateKey *)o, it.path.c_str(), ps.p, ps.n, it.alg.c_str()); }
    KDF.reserved = 0; KDF.salts.clear(); bool mem = HEAP.failed > 0; heap_faults_off(); bool frozen = DISK.frozen; DISK.crash_at_write = 0; DISK.frozen = false;
    lg("%s saves a %s (%zu bytes) to %s: %s%s", be->name, kname(it.kind), rec_encode(it.rec).size(), it.path.c_str(), errname(r), frozen ? ", crashed" : "");
    state_seen(H64(H64(it.kind * 8 + be->id, r), H64(DISK.io_failed * 4 + mem * 2 + frozen, can)));
    if (HEAP.live.size() != live) violate("M01", "leak:save", "saving a %s (%s) leaves %zd blocks allocated", kname(it.kind), errname(r), (ssize_t)HEAP.live.size() - (ssize_t)live);
    if (DISK.open_streams) { violate("S01,M01", "leaked-stream", "saving a %s leaves a file open", kname(it.kind)); DISK.open_streams = 0; }
    if (mem) { asserted("M01"); count("probe:save-out-of-memory"); }
    Bytes got = DISK.files.count(it.path) ? DISK.files[it.path].data : Bytes(); bool whole = false;
    if (it.kind != R_PRIV) whole = DISK.files.count(it.path) && got == rec_encode(it.rec);
    else if (!DISK.files.count(it.path)) whole = false;
    else if (r == 0 || DISK.io_failed || mem || frozen) { Rec k(R_PRIV); bool h; Parsed P; whole = enc_open(got, it.pass, k, &h, &P) && k == it.rec; if (whole) { // it is what was written now, not an older save
            Bytes salt = P.alts[0].f[12][0].b; if (r == 0 && !frozen) {
                asserted("S03,R02");
                if (!g_salts.insert(salt).second) violate("S03,R02", "salt-repeated", "two saves of private keys use the same salt %s", hex(salt).c_str());
                if (salt.size() < 8 || ENT.log.empty()) violate("S03,R01,R02", "salt-without-entropy", "a key was saved with a salt of %zu bytes after %zu bytes of entropy were drawn", salt.size(), ENT.log.size());
                if (P.alts[0].f[13][0].u < 1000) violate("S03", "few-iterations", "a key was saved with %u iterations", P.alts[0].f[13][0].u);
            } } }
    if (it.kind == R_PRIV && got != before && !got.empty()) {
        asserted("S03");
        for (auto &k : keys_of(it.rec)) if (k.size() >= 8 && contains_window(got.data(), got.size(), k)) violate("S03", "key-in-clear", "the saved file contains private key bytes in clear");
    }
    if (frozen) { lib_free(be, it.kind, o); return whole; }  // the process died: nothing was reported to anyone
    asserted("S01"); if (DISK.io_failed) count("probe:save-with-io-fault");
    if (r == 0 && !whole) violate(mem ? "S01,M01" : it.kind == R_PRIV ? "S01,S03" : "S01", "incomplete-save-reported-as-success", "saving a %s of %zu bytes reports success but %zu bytes are on the disk that do not hold it (%s)", kname(it.kind), rec_encode(it.rec).size(), got.size(), DISK.io_failed ? "after an I/O fault" : mem ? "after a failed allocation" : "no fault");
    if (r && can && !unsure && !DISK.io_failed && !mem) violate("S01", "save-fails", "saving a %s of %zu bytes fails with %s although nothing went wrong", kname(it.kind), rec_encode(it.rec).size(), errname(r));
    if (r == 0 && it.bad_text) violate("S01,S02", "bad-text-saved", "a %s with text that is not UTF-8 is saved, although no reader accepts it", kname(it.kind));
    // the object that was saved is unharmed
    Rec still = lib_extract(be, it.kind, o); asserted("M01"); if (!(still == it.rec)) violate("M01,S01", "object-changed", "saving changed the %s in memory", kname(it.kind));
    if (mem && r) { // with memory available the same save works
        disk_mark(); unsigned a = DISK.pm_openfail, b = DISK.pm_writeerr, c = DISK.pm_closeerr; uint64_t cap = DISK.capacity; DISK.pm_openfail = DISK.pm_writeerr = DISK.pm_closeerr = 0; DISK.capacity = ~0ULL;
        if (it.kind != R_PRIV && can) { int q = it.kind == R_CERT ? CALL(be, noise_save_certificate_to_file, (Noise_Certificate *)o, it.path.c_str()) : CALL(be, noise_save_certificate_chain_to_file, (Noise_CertificateChain *)o, it.path.c_str()); if (q) violate("M01", "retry-fails", "after a failed allocation saving again fails with %s", errname(q)); else whole = true; }
        DISK.pm_openfail = a; DISK.pm_writeerr = b; DISK.pm_closeerr = c; DISK.capacity = cap;
    }
    lib_free(be, it.kind, o);
    return whole;
}
static const char *damage(const Str &path, std::vector<Item> &items) {
    Bytes &b = DISK.files[path].data; static const char *n[] = {"bit flip", "truncated", "extended", "zeroed range", "byte changed", "cut out", "spliced with another file", "garbage", "length byte changed"};
    uint64_t k = pick("damage.kind", 9); if (b.empty()) k = 7;
    count(Str("fault:rot-") + n[k]);
    switch (k) {
    case 0: { size_t c = 1 + choose("damage.count", 3, 150); for (size_t i = 0; i < c; ++i) b[pick("net.pos", b.size())] ^= 1 << pick("net.bit", 8); break; }
    case 1: b.resize(pick("net.pos", b.size())); break;
    case 2: { Data d("ext", b.size()); Bytes x = d.bytes(1 + pick("damage.extlen", 30)); if (pick("damage.extzero", 2)) std::fill(x.begin(), x.end(), 0); b.insert(b.end(), x.begin(), x.end()); break; }
    case 3: { size_t p = pick("net.pos", b.size()), l = std::min(b.size() - p, (size_t)(1 + pick("damage.len", 64))); std::fill(b.begin() + p, b.begin() + p + l, 0); break; }
    case 4: { size_t p = pick("net.pos", b.size()); b[p] = (uint8_t)(b[p] + 1 + pick("net.delta", 255)); break; }
    case 5: { size_t p = pick("net.pos", b.size()), l = std::min(b.size() - p, (size_t)(1 + pick("damage.len", 64))); b.erase(b.begin() + p, b.begin() + p + l); break; }
    case 6: { auto &o = items[pick("damage.other", items.size())]; auto it = DISK.files.find(o.path); if (it == DISK.files.end() || o.path == path) { b.push_back(0x22); break; } Bytes x = it->second.data; size_t c = pick("net.pos", b.size() + 1); Bytes r(b.begin(), b.begin() + c); if (x.size() > c) r.insert(r.end(), x.begin() + c, x.end()); b = r; break; }
    case 7: { Data d("garb", b.size()); b = d.bytes(pick("damage.garblen", 80)); break; }
    case 8: { size_t p = pick("net.pos", std::min<size_t>(b.size(), 24)); static const uint8_t v[] = {0, 1, 0x7F, 0x80, 0xFF, 0x81}; b[p] = v[pick("damage.lenval", 6)]; break; }
    }
    return n[k];
}
void sc_store() {
    HEAP.scan = true; g_salts.clear(); g_saver = nullptr;
    int n = 1 + (int)choose("items", 3, 500); std::vector<Item> items; for (int i = 0; i < n; ++i) items.push_back(gen_item(i));
    uint64_t style = pick("style", 8); // 0,1 clean; 2-4 disk faults; 5 memory; 6,7 everything
    bool df = style >= 2 && style != 5, mf = style >= 5; DISK.max_faults = 1 + (int)pick("disk.maxfaults", 2);
    auto faults = [&](bool on) { on = on && df; DISK.pm_openfail = on ? 60 : 0; DISK.pm_readerr = on ? 200 : 0; DISK.pm_writeerr = on ? 150 : 0; DISK.pm_closeerr = on ? 150 : 0; DISK.pm_seekfail = on ? 100 : 0; DISK.pm_readshort = df && flip("disk.shortreads", 300) ? 300 : 0; DISK.bufmode = (int)pick("disk.bufmode", 5); DISK.sticky = pick("disk.sticky", 2); };
    faults(true);
    unsigned ops = 3 + (unsigned)pick("ops", 16), heavy = 0;
    for (unsigned k = 0; k < ops && !violated(); ++k) {
        Item &it = items[pick("op.item", items.size())]; const Api *be = &API[pick("be", BE_COUNT)]; if (it.kind == R_PRIV && g_saver && pick("be.same", 2)) be = g_saver; faults(flip("disk.on", 700));
        bool oom = mf && flip("oom", 350);
        switch (pick("op", 8)) {
        case 0: case 1: { // save with the library
            if (it.kind == R_PRIV) { if (++heavy > 3) break; g_saver = be; }
            if (df && flip("disk.full", 250)) { uint64_t used = 0; for (auto &f : DISK.files) if (f.first != it.path) used += f.second.data.size(); DISK.capacity = used + pick("disk.room", rec_encode(it.rec).size() + 100); }
            count("op:save"); bool w = do_save(be, it, oom, df && flip("disk.crash", 150)); DISK.capacity = ~0ULL;
            if (w && !violated() && flip("save.readback", 700)) { faults(false); if (it.kind != R_PRIV || ++heavy <= 3) check_load(&API[pick("be", BE_COUNT)], it.kind, &it.path, nullptr, it.pass, false, "just saved"); }
            break; }
        case 2: { // a file written by another implementation
            DISK.files[it.path].data = it.kind == R_PRIV ? enc_seal(it.rec, it.pass, it.alg, 1 + (uint32_t)pick("rec.iter", 40), Data("salt", k).bytes(pick("rec.saltlen", 40))) : rec_encode_odd(it.rec, true);
            if (it.kind == R_PRIV && flip("wire.oddkey", 500)) { // same content, unusual encoding of the container and of what is inside
                Bytes kd, salt = Data("salt", k).bytes(1 + pick("rec.saltlen", 40)); int c, h; Bytes an(it.alg.begin(), it.alg.end()); alg_parse(an, c, h); uint32_t itn = 1 + (uint32_t)pick("rec.iter", 40); kd = m_pbkdf2(h, it.pass, salt, itn, 40); uint64_t nn = 0; for (int i = 0; i < 8; ++i) nn = nn << 8 | kd[32 + i];
                Rec e(R_ENC); Val v; v.u = 1; e.f[10] = {v}; v = Val(); v.b = an; e.f[11] = {v}; v.b = salt; e.f[12] = {v}; v = Val(); v.u = itn; e.f[13] = {v}; v = Val(); v.b = m_aead_enc(c, Bytes(kd.begin(), kd.begin() + 32), nn, Bytes(), rec_encode_odd(it.rec, true)); e.f[15] = {v};
                DISK.files[it.path].data = rec_encode_odd(e, false);
            }
            if (it.kind == R_PRIV && flip("wire.tamper", 400)) { // the container says something else than what was sealed
                Parsed P = rec_parse(R_ENC, DISK.files[it.path].data); if (P.alts.empty()) break; Rec e = P.alts[0]; auto at = [&](int t) -> Val & { if (!e.f.count(t)) e.f[t] = {Val()}; return e.f[t][0]; }; Bytes &al = at(11).b; Data d("tamper", k);
                static const char *names[] = {"ChaChaPoly_BLAKE2b_PBKDF", "ChaChaPoly_BLAKE2b_pbkdf2", "ChaChaPoly_BLAKE2b", "ChaChaPoly", "", "ChaChaPoly_BLAKE2b_PBKDF2_PBKDF2", "AESGCM_SHA256_Scrypt", "_BLAKE2b_PBKDF2", "ChaChaPoly__PBKDF2", "ChaChaPolyBLAKE2b_PBKDF2", "NoiseTest_SHA256_PBKDF2", "SHA256_ChaChaPoly_PBKDF2"};
                count("fault:tampered-key-container");
                switch (pick("tamper", 12)) {
                case 0: al.push_back((uint8_t)(33 + pick("tamper.char", 90))); break;
                case 1: if (!al.empty()) al.pop_back(); break;
                case 2: { Str x = ALGS[pick("tamper.alg", 8)]; al = Bytes(x.begin(), x.end()); break; }
                case 3: { Str x = names[pick("tamper.name", 12)]; al = Bytes(x.begin(), x.end()); break; }
                case 4: if (!al.empty()) al[pick("net.pos", al.size())] = (uint8_t)(33 + pick("tamper.char", 90)); break;
                case 5: at(13).u += 1 + pick("tamper.iter", 3); break;
                case 6: at(12).b.push_back((uint8_t)pick("tamper.byte", 2)); break;
                case 7: if (!at(12).b.empty()) at(12).b.pop_back(); break;
                case 8: at(15).b.push_back(0); break;
                case 9: if (!at(15).b.empty()) at(15).b.resize(pick("net.pos", at(15).b.size())); break;
                case 10: { int t = 10 + (int)pick("tamper.field", 6); e.f.erase(t); break; }
                case 11: at(10).u = pick("tamper.version", 4) == 0 ? 0xFFFFFFFFu : 2 + pick("tamper.version2", 5); break;
                }
                for (auto f = e.f.begin(); f != e.f.end();) if (f->second.empty()) f = e.f.erase(f); else ++f;
                if (e.f.count(10) && !e.f[10][0].u) e.f.erase(10);
                if (e.f.count(13) && !e.f[13][0].u) e.f.erase(13);
                DISK.files[it.path].data = rec_encode(e);
            }
            DISK.files[it.path].seekable = !flip("disk.pipe", 100); count("op:foreign-file"); lg("foreign %s of %zu bytes at %s", kname(it.kind), DISK.files[it.path].data.size(), it.path.c_str()); break; }
        case 3: { // over-long file whose first 65535 bytes are complete in themselves
            if (!flip("disk.overlong", 120)) break;
            Bytes b = it.kind == R_PRIV ? enc_seal(it.rec, it.pass, it.alg, 3, Data("salt", k).bytes(16)) : rec_encode(it.rec);
            if (b.empty() || b.size() > 65000) break;
            size_t rest = 65535 - b.size() - 2 - 3; b.push_back(0xF2); b.push_back(0x3E); // field 1006
            b.push_back((uint8_t)(rest | 128)); b.push_back((uint8_t)(rest >> 7 | 128)); b.push_back((uint8_t)(rest >> 14)); b.resize(65535, 'p');
            if (pick("disk.overlongby", 3)) { b.push_back(0x22); b.push_back(3); b.push_back(0x12); b.push_back(1); b.push_back('x'); }
            DISK.files[it.path].data = b; DISK.files[it.path].seekable = pick("disk.pipe2", 2); count("probe:overlong-file"); break; }
        case 4: case 5: {
            if (!DISK.files.count(it.path) && !flip("load.absent", 200)) break;
            bool saved_by_lib = DISK.files.count(it.path) && it.kind == R_PRIV && DISK.files[it.path].data.size() > 4; if (saved_by_lib) { Parsed P = rec_parse(R_ENC, DISK.files[it.path].data); if (P.ok && P.alts[0].f.count(13) && P.alts[0].f[13][0].u > 1000 && ++heavy > 4) break; }
            Bytes pass = it.pass; const char *why = "as it is"; if (it.kind == R_PRIV && flip("pass.wrong", 250)) { why = "wrong passphrase"; count("fault:wrong-passphrase"); if (pass.empty() || pick("pass.how", 2)) pass.push_back((uint8_t)pick("pass.byte", 256)); else if (pick("pass.how2", 2)) pass.pop_back(); else pass[pick("net.pos", pass.size())] ^= 1 << pick("net.bit", 8); }
            int kind = it.kind; if (kind != R_PRIV) { uint64_t o = pick("load.as", 8); if (o == 0) kind = kind == R_CERT ? R_CHAIN : R_CERT; else if (o == 1 && flip("load.askey", 300)) kind = R_PRIV; }
            count("op:load"); check_load(be, kind, &it.path, nullptr, pass, oom, why); break; }
        case 6: { // bit rot or a torn file
            if (!DISK.files.count(it.path)) break;
            Str d = damage(it.path, items); if (it.kind == R_PRIV) { Parsed P = rec_parse(R_ENC, DISK.files[it.path].data); if (P.ok && P.alts[0].f.count(13) && P.alts[0].f[13][0].u > 1000 && ++heavy > 4) { DISK.files[it.path].data.resize(DISK.files[it.path].data.size() / 2); } }
            faults(false); check_load(be, it.kind, &it.path, nullptr, it.pass, oom, d.c_str()); break; }
        case 7: { // through buffers of any size
            void *o = 0; if (it.kind == R_PRIV) { if (++heavy > 3) break; g_saver = be; } if (lib_build(be, it.rec, &o)) break;
            learn_rec(it.rec);
            bool unsure, can = encodable(it, unsure); size_t need = rec_encode(it.rec).size(); size_t cap = need; if (it.kind == R_PRIV) cap += it.alg.size() + 128; bool shrt = flip("buf.short", 400); if (shrt) cap = pick("buf.cap", cap + 1);
            XBuf b(cap, 0x5C), ps(it.pass); NoiseProtobuf pb; CALL(be, noise_protobuf_prepare_output, &pb, b.p, b.n); entropy_party(51); entropy_mark(); int r; reserved_nonce();
            if (it.kind == R_CERT) r = CALL(be, noise_save_certificate_to_buffer, (Noise_Certificate *)o, &pb); else if (it.kind == R_CHAIN) r = CALL(be, noise_save_certificate_chain_to_buffer, (Noise_CertificateChain *)o, &pb);
            else r = CALL(be, noise_save_private_key_to_buffer, (Noise_PrivateKey *)o, &pb, ps.p, ps.n, it.alg.c_str());
            KDF.reserved = 0; KDF.salts.clear(); uint8_t *d = 0; size_t sz = 0; int r2 = r ? r : CALL(be, noise_protobuf_finish_output, &pb, &d, &sz);
            lg("%s saves a %s to a buffer of %zu: %s", be->name, kname(it.kind), cap, errname(r2)); asserted("M03,S01"); count("op:buffer-save");
            if (!r2 && (d < b.p || d + sz > b.p + b.n)) violate("M03", "output-outside-buffer", "output lies outside the buffer");
            else if (!r2 && it.kind != R_PRIV && Bytes(d, d + sz) != rec_encode(it.rec)) violate("S01,M03", "buffer-save-differs", "a %s saved to a buffer of %zu reports %zu bytes that are not its encoding", kname(it.kind), cap, sz);
            else if (r2 && can && !unsure && !shrt && need) violate("S01", "save-fails", "saving a %s of %zu bytes to a buffer of %zu fails: %s", kname(it.kind), need, cap, errname(r2));
            else if (!r2 && it.kind == R_PRIV) { Rec k2(R_PRIV); bool h2; Parsed P; bool op = enc_open(Bytes(d, d + sz), it.pass, k2, &h2, &P); asserted("S03,R02");
                if (!op || !(k2 == it.rec)) violate("S01,S03", "incomplete-save-reported-as-success", "a key saved to a buffer of %zu bytes cannot be read back from the %zu bytes produced", cap, sz);
                else if (P.ok && P.alts[0].f.count(12) && !g_salts.insert(P.alts[0].f[12][0].b).second) violate("S03,R02", "salt-repeated", "two saves of private keys use the same salt %s", hex(P.alts[0].f[12][0].b).c_str()); }
            if (!r2 && !violated()) check_load(&API[pick("be", BE_COUNT)], it.kind, nullptr, new Bytes(d, d + sz), it.pass, false, "from a buffer");
            if (it.kind == R_PRIV) { asserted("M02"); for (auto &kk : keys_of(it.rec)) if (contains_window(b.p, b.n, kk)) { violate("M02,S03", "key-left-in-output-buffer", "after saving a key (%s) the caller's buffer still holds private key bytes", errname(r2)); break; } }
            lib_free(be, it.kind, o); break; }
        }
        sim_time(k);
    }
    if (!violated()) check_no_leaks("records");
    sut_fd_check();
}
