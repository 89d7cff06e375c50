// Scenario "tools": the command line tools generate keys onto a faulty disk and display files.
#include "rec.h"
static Bytes sb(const Str &s) { return Bytes(s.begin(), s.end()); }
static Bytes cstr(const Bytes &b) { auto e = std::find(b.begin(), b.end(), 0); return Bytes(b.begin(), e); }
static const Bytes *opt(const Rec &r, int tag) { auto it = r.f.find(tag); return it == r.f.end() || it->second.empty() ? nullptr : &it->second[0].b; }
static int key_alg(const Bytes &a) { Str s(a.begin(), a.end()); return s == "25519" ? D_25519 : s == "448" ? D_448 : s == "Ed25519" ? 100 : s == "NewHope" ? D_NEWHOPE : -1; }
static bool public_of(int alg, const Bytes &priv, Bytes &pub) {
    if (alg == 100 && priv.size() == 32) { pub = m_ed25519_pub(priv); return true; }
    if (alg == D_NEWHOPE && priv.size() == 64) { pub = mkey_from_priv(alg, priv).pub; return true; }
    if ((alg == D_25519 && priv.size() == 32) || (alg == D_448 && priv.size() == 56)) { pub = mkey_from_priv(alg, priv).pub; return true; }
    return false;
}
static Bytes finger(const Bytes &pub, bool full) { Bytes h = m_hash(H_SHA256, pub); Str w; size_t c = full ? 32 : 16; for (size_t i = 0; i < c; ++i) { char b[8]; snprintf(b, 8, "%02x%s", h[i], i + 1 < c ? ":" : ""); w += b; } return sb(w); }
static Str text_arg(const char *st, bool &bad, size_t &total) {
    static uint64_t seq; Data d(st, ++seq); Str s; uint64_t k = choose("arg.kind", 8, 600);
    size_t n = k == 5 ? 200 + pick("arg.long", 5000) : k == 6 && flip("arg.huge", 80) ? 30000 + pick("arg.hugelen", 45000) : k == 7 ? 0 : 1 + pick("arg.len", 30);
    for (size_t i = 0; s.size() < n; ++i) { if (k == 2 && d.next() % 3 == 0) { static const char *u[] = {"\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x94\x91", "\xC2\x80", "\xED\x9F\xBF"}; s += u[d.next() % 5]; } else s += (char)(33 + d.next() % 94); }
    if (k == 3 && flip("arg.bad", 250)) { static const char *u[] = {"\xFF", "\xC0\xAF", "\xE2\x82", "\xED\xA0\x80"}; s += u[pick("arg.badkind", 4)]; bad = true; count("probe:bad-text-argument"); }
    total += s.size(); return s;
}
struct TFile { Str path, pass; };
static std::set<Bytes> g_seen;
static void tool_faults(bool df, bool mf) {
    disk_mark(); heap_mark(); heap_faults_off(); DISK.max_faults = 1 + (int)pick("disk.maxfaults", 2); DISK.capacity = ~0ULL; DISK.frozen = false; DISK.crash_at_write = 0;
    DISK.pm_openfail = df ? 60 : 0; DISK.pm_readerr = df ? 300 : 0; DISK.pm_writeerr = df ? 120 : 0; DISK.pm_closeerr = df ? 120 : 0; DISK.pm_seekfail = df ? 80 : 0; DISK.pm_readshort = flip("disk.shortreads", 300) ? 300 : 0; DISK.bufmode = (int)pick("disk.bufmode", 5); DISK.sticky = pick("disk.sticky", 2);
    if (df && flip("disk.full", 250)) { uint64_t used = 0; for (auto &f : DISK.files) used += f.second.data.size(); DISK.capacity = used + pick("disk.room", 1200); }
    if (mf) { if (flip("oom.all", 150)) HEAP.fail_from = 1 + pick("oom.at", 60); else HEAP.fail_at.insert(1 + pick("oom.at", 60)); }
}
static void tool_faults_off() { DISK.pm_openfail = DISK.pm_readerr = DISK.pm_writeerr = DISK.pm_closeerr = DISK.pm_seekfail = DISK.pm_readshort = 0; DISK.capacity = ~0ULL; DISK.frozen = false; DISK.crash_at_write = 0; DISK.open_streams = 0; heap_faults_off(); }
static void prompt(const Str &a, const Str &b, int how) { GETPASS.clear(); GETPASS_I = 0; GETPASS.push_back({how != 1, a}); GETPASS.push_back({how != 2, how == 3 ? a + "x" : b}); if (how == 3 && a.empty()) GETPASS[1].second = "x"; }
static void option(std::vector<Str> &a, const char *lng, char shrt, const Str &v) {
    switch (pick("arg.form", 4)) { case 0: a.push_back(Str("--") + lng + "=" + v); break; case 1: a.push_back(Str("--") + lng); a.push_back(v); break; case 2: if (!v.empty()) { a.push_back(Str("-") + shrt + v); break; } // fall through
        default: a.push_back(Str("-") + shrt); a.push_back(v); }
}
static bool take(const Str &out, size_t &pos, const Bytes &tok) { size_t p = out.find(Str(tok.begin(), tok.end()), pos); if (p == Str::npos) return false; pos = p + tok.size(); return true; }

static void generate(const Api *be, std::vector<TFile> &files, bool df, bool mf) {
    bool badtext = false, must_fail = false, may_fail = false; size_t total = 0; std::vector<Str> a = {"noise-keytool", "generate"}; Rec subj(R_SUBJECT);
    auto text = [&](int tag, const char *l, char c) { if (!flip("arg.given", 600)) return; Str v = text_arg(l, badtext, total); if (pick("arg.twice", 12) == 0) option(a, l, c, "replaced"); option(a, l, c, v); Val x; x.b = sb(v); subj.f[tag] = {x}; };
    std::vector<int> order = {0, 1, 2, 3, 4}; for (size_t i = 5; i > 1; --i) std::swap(order[i - 1], order[pick("arg.order", i)]);
    std::set<Str> want; Str pass; bool given = false; int how = 0;
    for (int o : order) switch (o) {
        case 0: text(1, "id", 'i'); break;
        case 1: text(2, "name", 'n'); break;
        case 2: text(3, "role", 'r'); break;
        case 3: { size_t times = choose("arg.algs", 3, 650); for (size_t t = 0; t < times; ++t) { Str v; size_t n = 1 + pick("arg.nalg", 3); for (size_t i = 0; i < n; ++i) { static const char *al[] = {"25519", "448", "Ed25519", "all", "NewHope", "X25519", "ed25519", "2551"}; Str x = al[choose("arg.alg", 4, 700)]; if (flip("arg.badalg", 25)) { x = al[4 + pick("arg.badalgk", 4)]; if (x == "NewHope") may_fail = true; else must_fail = true; }
                if (i) v += ","; v += x; if (x == "all") { want.insert("25519"); want.insert("448"); want.insert("Ed25519"); } else want.insert(x); } if (flip("arg.comma", 60)) v += ","; option(a, "algorithms", 'a', v); } break; }
        case 4: { Data d("toolpass", files.size()); size_t n = choose("pass.len", 25, 900); for (size_t i = 0; i < n; ++i) pass += (char)(33 + d.next() % 94); given = pick("arg.pass", 3) != 0; if (given) option(a, "passphrase", 'p', pass); else how = (int)choose("prompt.how", 4, 250); break; }
    }
    prompt(pass, pass, how); if (!given && how) { must_fail = true; count("probe:prompt-failure"); }
    if (want.empty()) want = {"25519", "448", "Ed25519"};
    bool fresh = files.size() < 2 || pick("file.fresh", 3); size_t id = fresh ? files.size() : pick("file.which", files.size()); char nm[40]; snprintf(nm, sizeof nm, "/sim/t%zu", id); Str cf = Str(nm) + ".cert", kf = Str(nm) + ".key";
    if (flip("arg.wrong", 60)) { must_fail = true; count("probe:bad-arguments"); switch (pick("arg.wrongkind", 4)) { case 0: a.push_back(cf); break; case 1: a.push_back(cf); a.push_back(kf); a.push_back("extra"); break; case 2: a.push_back("--bogus"); a.push_back(cf); a.push_back(kf); break; case 3: a[1] = "genrate"; a.push_back(cf); a.push_back(kf); break; } }
    else { a.push_back(cf); a.push_back(kf); }
    tool_faults(df, mf); if (df && flip("disk.crash", 150)) DISK.crash_at_write = DISK.writes + 1 + pick("disk.crashat", 3);
    entropy_mark(); int rc = run_tool(be, be->keytool_main, a); bool io = DISK.io_failed, mem = HEAP.failed > 0, frozen = DISK.frozen; tool_faults_off();
    lg("%s keytool generate: exit %d%s%s%s", be->name, rc, io ? ", disk fault" : "", mem ? ", memory fault" : "", frozen ? ", crashed" : ""); count("op:generate");
    state_seen(H64(H64(rc, io * 4 + mem * 2 + frozen), H64(want.size(), must_fail * 2 + given)));
    if (frozen) return; // nobody saw an exit status
    asserted("K01");
    size_t keys_len = want.size() * 200 + (may_fail ? 4000 : 0); bool big = total + keys_len > 65000;
    if (rc == 0) {
        count("probe:generated");
        if (must_fail) { violate("K01", "bad-arguments-accepted", "keytool generate exits with success although the request cannot be carried out"); return; }
        Rec cert(R_CERT), key(R_PRIV); Bytes cb = DISK.files.count(cf) ? DISK.files[cf].data : Bytes(), kb = DISK.files.count(kf) ? DISK.files[kf].data : Bytes(); const char *after = io ? "after a disk fault" : mem ? "after a failed allocation" : "without any fault";
        Parsed p = rec_parse(R_CERT, cb); bool huge; Parsed P;
        if (cb.empty() || !p.ok) { violate("K01,S01", "certificate-missing", "keytool generate exits with success %s but the certificate file of %zu bytes is no certificate", after, cb.size()); return; }
        if (!enc_open(kb, sb(pass), key, &huge, &P)) { violate("K01,S01", "key-file-missing", "keytool generate exits with success %s but the key file of %zu bytes cannot be opened with the passphrase", after, kb.size()); return; }
        cert = p.alts[0]; Rec s = cert.f.count(2) && !cert.f[2].empty() ? *cert.f[2][0].m : Rec(R_SUBJECT);
        if (!cert.f.count(1) || cert.f[1][0].u != 1) { violate("K01", "certificate-version", "the generated certificate has no version 1"); return; }
        for (int t = 1; t <= 3; ++t) { const Bytes *w = opt(subj, t), *g = opt(s, t), *k = opt(key, t); if ((w ? 1 : 0) != (g ? 1 : 0) || (w && *w != *g) || (w ? 1 : 0) != (k ? 1 : 0) || (w && *w != *k)) { violate("K01", "identity-differs", "keytool generate exits with success %s but the %s in the %s is not the one given", after, t == 1 ? "id" : t == 2 ? "name" : "role", w && g && *w == *g ? "key file" : "certificate"); return; } }
        std::vector<Val> ck = s.f.count(4) ? s.f[4] : std::vector<Val>(), pk = key.f.count(4) ? key.f[4] : std::vector<Val>(); std::set<Str> got; Str list;
        for (auto &v : ck) { const Bytes *al = opt(*v.m, 1); Str n = al ? Str(al->begin(), al->end()) : ""; got.insert(n); list += n + " "; }
        if (got != want || ck.size() != want.size() || pk.size() != ck.size()) { violate("K01", "wrong-set-of-keys", "keytool generate exits with success %s with %zu public and %zu private keys (%s), %zu were asked for", after, ck.size(), pk.size(), list.c_str(), want.size()); return; }
        for (auto &v : ck) {
            const Bytes *al = opt(*v.m, 1), *pub = opt(*v.m, 2), *priv = nullptr; for (auto &q : pk) if (opt(*q.m, 1) && *opt(*q.m, 1) == *al) priv = opt(*q.m, 2);
            Bytes x; if (!pub || !priv || !public_of(key_alg(*al), *priv, x) || x != *pub) { violate("K01", "halves-do-not-match", "keytool generate exits with success %s but the halves of the %s key do not belong together", after, Str(al->begin(), al->end()).c_str()); return; }
            if (!g_seen.insert(*priv).second) { violate("K01,R02", "key-repeated", "keytool generate produced a private key that it had produced before"); return; }
            if (contains_window(cb.data(), cb.size(), *priv) || contains_window(kb.data(), kb.size(), *priv)) violate("K01,S03", "key-in-clear", "a generated private key is on the disk in clear");
        }
        if (fresh) files.push_back({nm, pass}); else files[id].pass = pass;
        if (io || mem) count("probe:generated-despite-fault");
    } else if (!must_fail && !may_fail && !badtext && !big && !io && !mem) violate("K01", "generate-fails", "keytool generate exits with %d although nothing went wrong", rc);
    else count("probe:generate-refused");
}
static void echo_keygen(const Api *be, size_t k, bool df, bool mf) {
    static const char *al[] = {"25519", "448", "NewHope", "Ed25519", "x", ""}; Str t = al[choose("ek.alg", 6, 700) ? pick("ek.alg2", 6) : 0]; char nm[40]; snprintf(nm, sizeof nm, "/sim/e%zu", k % 2); Str pf = nm, bf = Str(nm) + ".pub";
    std::vector<Str> a = {"echo-keygen", t, pf, bf}; bool good = t == "25519" || t == "448" || t == "NewHope"; if (flip("arg.wrong", 40)) { a.resize(1 + pick("ek.short", 3)); good = false; }
    tool_faults(df, mf); if (df && flip("disk.crash", 150)) DISK.crash_at_write = DISK.writes + 1 + pick("disk.crashat", 3);
    int rc = run_tool(be, be->echokeygen_main, a); bool io = DISK.io_failed, mem = HEAP.failed > 0, frozen = DISK.frozen; tool_faults_off();
    lg("%s echo-keygen %s: exit %d%s%s", be->name, t.c_str(), rc, io ? ", disk fault" : "", mem ? ", memory fault" : ""); count("op:echo-keygen"); state_seen(H64(H64(rc, io * 4 + mem * 2 + frozen), 7 + good));
    if (frozen) return;
    asserted("K01"); const char *after = io ? "after a disk fault" : mem ? "after a failed allocation" : "without any fault";
    if (rc == 0) {
        if (!good) { violate("K01", "bad-arguments-accepted", "echo-keygen exits with success for key type '%s'", t.c_str()); return; }
        Bytes priv = DISK.files.count(pf) ? DISK.files[pf].data : Bytes(), pub; Str b64;
        if (!public_of(key_alg(sb(t)), priv, pub)) { violate("K01", io ? "echo-keygen-ignores-write-error-private" : "key-file-missing", "echo-keygen exits with success %s with a private key file of %zu bytes", after, priv.size()); return; }
        if (DISK.files.count(bf)) for (uint8_t c : DISK.files[bf].data) if (!isspace(c)) b64 += (char)c;
        static const char tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Str w; for (size_t i = 0; i < pub.size(); i += 3) { uint32_t g = 0; for (size_t j = 0; j < 3; ++j) g = g << 8 | (i + j < pub.size() ? pub[i + j] : 0); for (size_t j = 0; j < 4; ++j) w += i + j <= pub.size() ? tab[g >> (18 - 6 * j) & 63] : '='; }
        if (b64 != w) { violate("K01", io ? "echo-keygen-ignores-write-error-public" : "public-key-file-wrong", "echo-keygen exits with success %s but the public key file of %zu characters does not hold the public key", after, b64.size()); return; }
        if (!g_seen.insert(priv).second) violate("K01,R02", "key-repeated", "echo-keygen produced a private key that had been produced before");
        count("probe:echo-key-generated");
    } else if (good && !io && !mem) violate("K01", "generate-fails", "echo-keygen exits with %d although nothing went wrong", rc);
}
static std::vector<Bytes> tokens_cert(const Rec &c, bool full) {
    std::vector<Bytes> t; t.push_back(sb(std::to_string(c.f.count(1) ? c.f.at(1)[0].u : 0))); if (!c.f.count(2) || c.f.at(2).empty()) return t;
    const Rec &s = *c.f.at(2)[0].m; for (int i = 1; i <= 3; ++i) if (opt(s, i)) t.push_back(cstr(*opt(s, i)));
    if (s.f.count(4)) for (auto &v : s.f.at(4)) { const Bytes *al = opt(*v.m, 1), *k = opt(*v.m, 2); t.push_back(al ? cstr(*al) : sb("")); if (k && !k->empty()) t.push_back(finger(*k, full)); }
    if (s.f.count(5)) for (auto &v : s.f.at(5)) { const Bytes *n = opt(*v.m, 1), *x = opt(*v.m, 2); t.push_back(n ? cstr(*n) : sb("")); if (x) t.push_back(cstr(*x)); }
    return t;
}
static std::vector<Bytes> tokens_priv(const Rec &s, bool full) {
    std::vector<Bytes> t; for (int i = 1; i <= 3; ++i) if (opt(s, i)) t.push_back(cstr(*opt(s, i)));
    if (s.f.count(4)) for (auto &v : s.f.at(4)) { const Bytes *al = opt(*v.m, 1), *k = opt(*v.m, 2); t.push_back(al ? cstr(*al) : sb("")); Bytes pub; if (k && !k->empty() && al && key_alg(cstr(*al)) != D_NEWHOPE && public_of(key_alg(cstr(*al)), *k, pub)) t.push_back(finger(pub, full)); }
    if (s.f.count(5)) for (auto &v : s.f.at(5)) { const Bytes *n = opt(*v.m, 1), *x = opt(*v.m, 2); t.push_back(n ? cstr(*n) : sb("")); if (x) t.push_back(cstr(*x)); }
    return t;
}
static void show(const Api *be, std::vector<TFile> &files, bool df, bool mf) {
    std::vector<Str> a = {"noise-keytool", "show"}, paths; bool full = false; size_t nf = 1 + choose("show.files", 3, 250); std::vector<Str> passes; unsigned heavy = 0;
    struct Doc { Exp e; std::vector<std::vector<Bytes>> toks; }; std::vector<Doc> docs; std::vector<std::pair<bool, Str>> replies; Str gpass; bool usep = false;
    for (size_t i = 0; i < nf; ++i) {
        uint64_t k = pick("show.what", 8); Str path, pass;
        if (k < 3 && !files.empty() && heavy < 2) { TFile &f = files[pick("file.which", files.size())]; bool key = pick("show.key", 2); if (key) heavy++; path = f.path + (key ? ".key" : ".cert"); pass = f.pass; }
        else if (k == 3) { path = "/sim/absent"; DISK.files.erase(path); }
        else {
            char nm[40]; snprintf(nm, sizeof nm, "/sim/s%zu", i); path = nm; int kind = k < 5 ? R_CERT : k < 6 ? R_CHAIN : R_PRIV; Rec r = kind == R_PRIV ? gen_privkey("show.rec", pick("rec.real", 4)) : gen_rec(kind, "show.rec", 2); if (kind == R_CHAIN && r.f[8].empty()) r.f.erase(8);
            Bytes b = flip("show.odd", 250) ? rec_encode_odd(r, true) : rec_encode(r);
            if (kind == R_PRIV) { Data d("showpass", i); size_t n = pick("pass.len", 20); for (size_t j = 0; j < n; ++j) pass += (char)(33 + d.next() % 94); b = enc_seal(r, sb(pass), "ChaChaPoly_BLAKE2b_PBKDF2", 3, Data("salt", i).bytes(16)); }
            DISK.files[path].data = b; DISK.files[path].seekable = true; if (flip("disk.pipe", 100)) DISK.files[path].seekable = false;
        }
        if (DISK.files.count(path)) { Bytes &b = DISK.files[path].data; if (flip("show.damage", 250)) { count("fault:rot"); if (!b.empty()) switch (pick("damage.kind", 5)) { case 0: b[pick("net.pos", b.size())] ^= 1 << pick("net.bit", 8); break; case 1: b.resize(pick("net.pos", b.size())); break; case 2: b.push_back((uint8_t)pick("damage.byte", 256)); break; case 3: { size_t at = pick("net.pos", b.size()); b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + 1 + pick("damage.len", 20))); break; } case 4: if (flip("disk.overlong", 200)) { Data d("long"); Bytes x = d.bytes(3 + pick("damage.longlen", 40)); size_t rest = 65535 - (b.size() + 5) % 65535; if (b.size() + 5 < 65535) { b.push_back(0xF2); b.push_back(0x3E); b.push_back((uint8_t)(rest | 128)); b.push_back((uint8_t)(rest >> 7 | 128)); b.push_back((uint8_t)(rest >> 14)); b.resize(65535, 'p'); b.insert(b.end(), x.begin(), x.end()); } } break; } } }
        paths.push_back(path); passes.push_back(pass);
    }
    usep = pick("arg.pass", 2); if (usep) { gpass = passes[pick("show.pass", passes.size())]; if (flip("pass.wrong", 150)) gpass += "?"; option(a, "passphrase", 'p', gpass); }
    if (pick("show.fp", 2)) { full = pick("show.full", 2); a.push_back(full ? (pick("arg.form", 2) ? "-F" : "--full-fingerprint") : "-f"); }
    for (size_t i = 0; i < nf; ++i) {
        Doc d; auto it = DISK.files.find(paths[i]);
        if (it == DISK.files.end() || it->second.data.empty() || it->second.data.size() > 65535) d.e.must_fail = true;
        else {
            const Bytes &b = it->second.data; int kind = b[0] == 0x50 ? R_PRIV : b[0] == 0x42 ? R_CHAIN : R_CERT; Str p = usep ? gpass : passes[i]; bool noreply = false;
            if (kind == R_PRIV && !usep) { int how = (int)choose("prompt.how", 3, 150); if (how == 2) p += "!"; noreply = how == 1; replies.push_back({!noreply, p}); }
            d.e = expect_load(kind, b, sb(p)); if (noreply) { d.e = Exp(); d.e.must_fail = true; }
            if (d.e.skip) { count("probe:huge-iterations-skipped"); return; }
            if (kind == R_CERT && (b[0] & 0x78) == 0x40 && b[0] != 0x42) { Exp c = expect_load(R_CHAIN, b, sb(p)); for (auto &x : c.alts) d.e.alts.push_back(x); d.e.must_ok = false; if (!c.must_fail) d.e.must_fail = false; }
            for (auto &x : d.e.alts) { std::vector<Bytes> t; if (x.def == R_CHAIN) { if (x.f.count(8)) for (auto &v : x.f.at(8)) for (auto &y : tokens_cert(*v.m, full)) t.push_back(y); } else t = x.def == R_CERT ? tokens_cert(x, full) : tokens_priv(x, full); if (nf > 1) t.insert(t.begin(), sb(paths[i])); d.toks.push_back(t); }
        }
        docs.push_back(d); a.push_back(paths[i]);
    }
    GETPASS = replies; GETPASS_I = 0; if (GETPASS.empty()) GETPASS.push_back({false, ""});
    tool_faults(df, mf); int rc = run_tool(be, be->keytool_main, a); bool io = DISK.io_failed, mem = HEAP.failed > 0; tool_faults_off(); Str out = CAP_OUT;
    count("op:show"); lg("%s keytool show of %zu files: exit %d%s%s", be->name, nf, rc, io ? ", disk fault" : "", mem ? ", memory fault" : ""); asserted("K01");
    bool all_ok = true, any_fail = false; for (auto &d : docs) { if (!d.e.must_ok) all_ok = false; if (d.e.must_fail) any_fail = true; }
    state_seen(H64(H64(rc, io * 2 + mem), H64(nf, all_ok * 2 + any_fail)));
    if (rc == 0 && any_fail) { violate("K01,S02", "bad-file-shown", "keytool show exits with success although a file is missing, damaged or cannot be opened"); return; }
    if (rc != 0 && all_ok && !io && !mem) { violate("K01", "show-fails", "keytool show exits with %d although all %zu files are in order", rc, nf); return; }
    if (any_fail) count("probe:bad-file-reported");
    if (mem) return; // fingerprints may be missing then
    // every file that was shown is shown as it is
    size_t pos = 0; bool complete = rc == 0;
    for (size_t i = 0; i < docs.size(); ++i) {
        Doc &d = docs[i]; if (!complete && (!d.e.must_ok || io)) continue;
        size_t best = Str::npos; for (auto &t : d.toks) { size_t p = pos; bool ok = true; for (auto &x : t) if (!take(out, p, x)) { ok = false; break; } if (ok && (best == Str::npos || p < best)) best = p; }
        if (best == Str::npos) { Str miss; size_t p = pos; if (!d.toks.empty()) for (auto &x : d.toks[0]) if (!take(out, p, x)) { miss = Str(x.begin(), x.end()); break; }
            violate("K01", io ? "partial-file-shown" : "data-not-shown", "keytool show (exit %d%s) does not display what %s contains; not found: '%.80s'", rc, io ? ", after a disk fault" : "", paths[i].c_str(), miss.c_str()); lg("output: %.1500s", out.c_str()); return; }
        pos = best; count("probe:file-shown");
    }
}
void sc_tools() {
    g_seen.clear(); std::vector<TFile> files; unsigned ops = 2 + (unsigned)pick("ops", 5); uint64_t style = pick("style", 6); unsigned gens = 0;
    for (unsigned k = 0; k < ops && !violated(); ++k) {
        const Api *be = &API[pick("be", BE_COUNT)]; HEAP.owner = (int)k; entropy_party((int)k); bool df = style >= 2 && style != 4 && flip("disk.on", 600), mf = style >= 4 && flip("oom", 400);
        switch (pick("op", 6)) {
        case 0: case 1: if (++gens > 2) break; generate(be, files, df, mf); break;
        case 2: echo_keygen(be, k, df, mf); break;
        case 3: { // subcommands that do no work must not claim success
            if (!flip("tool.misc", 300)) { show(be, files, df, mf); break; }
            std::vector<Str> a = {"noise-keytool"}; uint64_t m = pick("tool.kind", 5); DISK.files.erase("/sim/signed"); DISK.files["/sim/unsigned"].data = rec_encode(gen_rec(R_CERT, "sign.rec", 0));
            Rec kr = gen_privkey("sign.key", true); DISK.files["/sim/sk"].data = enc_seal(kr, sb("pw"), "ChaChaPoly_BLAKE2b_PBKDF2", 3, Data("salt", 9).bytes(16));
            if (m == 1) a.push_back("bogus"); if (m == 2) a.push_back("show"); if (m == 3) { a.push_back("help"); a.push_back("bogus"); } if (m == 4) { a.push_back("sign"); option(a, "signing-key", 'k', "/sim/sk"); option(a, "passphrase", 'p', "pw"); a.push_back("/sim/unsigned"); a.push_back("/sim/signed"); }
            tool_faults(false, false); int rc = run_tool(be, be->keytool_main, a); tool_faults_off(); asserted("K01"); count("op:misc-command");
            if (rc == 0 && (m != 4 || !DISK.files.count("/sim/signed") || !rec_parse(R_CERT, DISK.files["/sim/signed"].data).ok)) violate("K01", "success-without-work", "keytool %s exits with success without having done anything", m == 4 ? "sign" : "with a bad command");
            break; }
        default: show(be, files, df, mf); break;
        }
        sim_time(k + 1);
    }
}
