// The echo programs over a simulated kernel and network: real server and clients, model clients and servers,
// strangers, tampering links, crashes, failing system calls (E01, E02, E03).
#include "proc.h"
#include "party.h"
#include <unistd.h>
#include <sys/socket.h>

namespace {
const int PORT = 7000;
struct Deferred { Str props, cls, msg; };
struct Sess {
    int id = 0; Str kind; Suite suite; bool compat = true; bool padding = false, verbose = false, fixed = false;
    const Api *be = nullptr; Proc *client = nullptr; std::vector<Str> lines; Str input; ConnP conn; Str disturbed; bool oom = false;
    bool refused_keys = false; int port = PORT; Str srv;           // srv: what a model server does
    size_t good = 0; bool finished = false, ok = false; Str why; size_t expect_upto = ~(size_t)0;
    bool fresh = false;
};
struct World {
    std::map<Str, Bytes> priv, pub; Bytes psk, psk2;
    std::vector<std::unique_ptr<Sess>> ss; Proc *server = nullptr; const Api *sbe = nullptr;
    std::vector<Deferred> bad; Str wrapped; bool server_ended = false; Str server_fault;
    void fail(const char *props, const Str &cls, const Str &msg) { lg("found: %s: %s", cls.c_str(), msg.c_str()); bad.push_back({props, cls, msg}); }
};
World *W;
Bytes data_bytes(const char *l, uint64_t k, size_t n) { Data d(l, k); return d.bytes(n); }

Str b64(const Bytes &k) {
    static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Str r; size_t i = 0;
    for (; i + 3 <= k.size(); i += 3) { uint32_t g = k[i] << 16 | k[i + 1] << 8 | k[i + 2]; for (int s = 18; s >= 0; s -= 6) r += a[g >> s & 63]; }
    if (k.size() - i == 2) { uint32_t g = k[i] << 16 | k[i + 1] << 8; r += a[g >> 18 & 63]; r += a[g >> 12 & 63]; r += a[g >> 6 & 63]; r += '='; }
    else if (k.size() - i == 1) { uint32_t g = k[i] << 16; r += a[g >> 18 & 63]; r += a[g >> 12 & 63]; r += "=="; }
    return r;
}
Bytes sb(const Str &s) { return Bytes(s.begin(), s.end()); }
void put(const Str &name, const Bytes &d) { DISK.files[name].data = d; }
void make_keys() {
    static const struct { const char *n; int dh; } ks[] = {{"server_key_25519", D_25519}, {"server_key_448", D_448}, {"client_key_25519", D_25519}, {"client_key_448", D_448}, {"other_25519", D_25519}, {"other_448", D_448}};
    for (auto &k : ks) {
        MKey m = gen_key(k.dh, k.n, 0); W->priv[k.n] = m.priv; W->pub[k.n] = m.pub;
        put(Str("keys/") + k.n, m.priv); put(Str("keys/") + k.n + ".pub", sb(b64(m.pub) + (pick("key.newline", 2) ? "\n" : "")));
    }
    W->psk = data_bytes("echo-psk", 0, 32); W->psk2 = data_bytes("echo-psk", 1, 32);
    if (flip("psk.near", 600)) { W->psk2 = W->psk; size_t at = pick("psk.at", 34); W->psk2[at > 31 ? 31 : at] ^= 1 << pick("psk.bit", 8); }     // a stranger that knows all but one bit of it
    put("keys/psk", sb(b64(W->psk))); put("keys/psk2", sb(b64(W->psk2)));
}
Str kn(const char *who, int dh) { return Str(who) + (dh == D_448 ? "448" : "25519"); }
bool echo_pattern(const Str &n, int *id) {
    static const char *base[] = {"NN", "KN", "NK", "KK", "NX", "KX", "XN", "IN", "XK", "IK", "XX", "IX"};
    Str b = n; bool h = b.size() > 4 && b.compare(b.size() - 4, 4, "+hfs") == 0; if (!h && b.size() > 3 && b.compare(b.size() - 3, 3, "hfs") == 0) { h = true; b = b.substr(0, b.size() - 3); } else if (h) b = b.substr(0, b.size() - 4);
    for (int i = 0; i < 12; ++i) if (b == base[i]) { *id = i | (h ? 0x80 : 0); return true; }
    return false;
}
Bytes id_bytes(const Suite &s) {
    int p = 0; echo_pattern(pattern_by_id(s.pattern)->name, &p);
    int dh = s.dh == D_25519 ? 0 : s.dh == D_448 ? 1 : 2, hy = s.hybrid == D_25519 ? 0x10 : s.hybrid == D_448 ? 0x20 : s.hybrid == D_NEWHOPE ? 0x30 : 0;
    int h = s.hash == H_SHA256 ? 0 : s.hash == H_SHA512 ? 1 : s.hash == H_B2S ? 2 : 3;
    return Bytes{(uint8_t)s.psk, (uint8_t)p, (uint8_t)(s.cipher == C_CHACHA ? 0 : 1), (uint8_t)(dh | hy), (uint8_t)h};
}
Suite echo_suite() {
    for (int i = 0;; ++i) { Suite s = gen_suite("echo", false); int p; if (echo_pattern(pattern_by_id(s.pattern)->name, &p)) return s; if (i > 60) { s.pattern = pattern_by_name("XX")->id; s.hybrid = D_NONE; return s; } }
}

// ------------------------------------------------------------------ model peers
bool send_all(int fd, const Bytes &b) { size_t p = 0; while (p < b.size()) { long r = k_send(fd, b.data() + p, b.size() - p, MSG_NOSIGNAL); if (r <= 0) { if (errno == EINTR) continue; return false; } p += r; } return true; }
bool recv_n(int fd, size_t n, Bytes &b) { b.clear(); while (b.size() < n) { uint8_t t[4096]; long r = k_recv(fd, t, std::min(n - b.size(), sizeof t), 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; b.insert(b.end(), t, t + r); } return true; }
Bytes frame(const Bytes &m) { Bytes f{(uint8_t)(m.size() >> 8), (uint8_t)m.size()}; f.insert(f.end(), m.begin(), m.end()); return f; }
bool recv_frame(int fd, Bytes &m) { Bytes h; if (!recv_n(fd, 2, h)) return false; return recv_n(fd, h[0] << 8 | h[1], m); }
void ephemerals(MHandshake &m, int who) {
    const Suite &s = m.suite; int dh[2] = {s.dh, s.hybrid}; bool need[2] = {m.write_needs_e(), m.write_needs_f()}; MKey *rem[2] = {&m.re, &m.rf}, *out[2] = {&m.next_e, &m.next_f};
    for (int i = 0; i < 2; ++i) if (need[i]) {
        bool alice = dh[i] != D_NEWHOPE || !rem[i]->has_pub;
        *out[i] = mkey_from_priv(dh[i], data_bytes(i ? "echo-f" : "echo-e", who, dh[i] == D_448 ? 56 : dh[i] == D_25519 ? 32 : alice ? 64 : 32), alice, alice ? nullptr : &rem[i]->pub);
    }
}
MHandshake model_side(const Suite &s, bool ini, bool wrong_key, bool wrong_psk, bool wrong_peer) {
    MHandshake m; m.init(s, ini, id_bytes(s)); const Pattern *p = m.pat;
    if (s.psk) m.psk = wrong_psk ? W->psk2 : W->psk;
    auto key = [&](const Str &n) { MKey k = mkey_from_priv(s.dh, W->priv[n]); return k; };
    if (s.dh != D_NEWHOPE) {
        if (p->needs_static(ini)) m.s = key(wrong_key ? kn("other_", s.dh) : kn(ini ? "client_key_" : "server_key_", s.dh));
        if (ini ? p->pre_rs : p->pre_is) m.rs = mkey_from_pub(s.dh, W->pub[wrong_peer ? kn("other_", s.dh) : kn(ini ? "server_key_" : "client_key_", s.dh)]);
    }
    m.start(); return m;
}
// true when the handshake completes; `upto`: stop after so many messages
bool run_handshake(int fd, MHandshake &m, int who, Bytes *sent = nullptr) {
    while (!m.done && !m.failed) {
        if (m.my_turn) { ephemerals(m, who); Bytes out; if (m.write(Bytes(), out) != M_OK) return false; if (sent) *sent = out; if (!send_all(fd, frame(out))) return false; }
        else { Bytes in, pl; if (!recv_frame(fd, in)) return false; if (m.read(in, pl) != M_OK) return false; }
    }
    return m.done;
}
void wait_eof(int fd, size_t *got) { uint8_t t[512]; for (;;) { long r = k_recv(fd, t, sizeof t, 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) return; *got += r; } }
Bytes payload(Sess *s, size_t i, bool big) { size_t n = big ? gen_size("frame.len", 65519) : gen_size("frame.len", 3000); return data_bytes("echo-frame", s->id * 1000 + i, n); }

void model_client(Sess *s, bool bad_keys, bool bad_psk, bool bad_peer, int mischief, size_t nframes) {
    int fd = k_socket(2); if (fd < 0) return;
    if (k_connect(fd, 2, PORT) < 0) { s->why = "refused"; s->finished = true; k_close(fd); return; }
    s->conn = k_conn(fd); MHandshake m = model_side(s->suite, true, bad_keys, bad_psk, bad_peer);
    if (!send_all(fd, id_bytes(s->suite)) || !run_handshake(fd, m, s->id)) {
        if (!s->compat && m.msg) { Bytes g = data_bytes("echo-garbage", s->id, 40); send_all(fd, frame(g)); size_t got = 0; wait_eof(fd, &got); s->good = got; }
        s->why = "handshake failed"; s->finished = true; k_close(fd); return;
    }
    Bytes ks, kr; m.split(ks, kr); uint64_t ns = 0, nr = 0; bool pipeline = pick("client.pipeline", 2); std::vector<Bytes> sent, pls;
    size_t bad_at = mischief ? pick("client.badat", nframes) : ~(size_t)0;
    auto check_echo = [&](size_t i) {
        Bytes f, pl; if (!recv_frame(fd, f)) { s->why = "no echo of frame " + std::to_string(i); return false; }
        if (!m_aead_dec(s->suite.cipher, kr, nr++, Bytes(), f, pl) || pl != pls[i]) { s->why = "wrong echo of frame " + std::to_string(i); W->fail(s->compat && !mischief ? "E01" : "E03", "wrong-echo", s->kind + " received something else than it sent as echo of frame " + std::to_string(i)); return false; }
        s->good++; return true;
    };
    for (size_t i = 0; i < nframes; ++i) {
        Bytes pl = payload(s, i, true), c = m_aead_enc(s->suite.cipher, ks, ns++, Bytes(), pl);
        if (i == bad_at) {
            Bytes f = c;
            if (mischief == 1) f[pick("client.flip", f.size())] ^= 1 << pick("client.bit", 8);
            else if (mischief == 2) { if (sent.empty()) f = m_aead_enc(s->suite.cipher, ks, ns, Bytes(), pl); else f = sent[pick("client.replay", sent.size())]; }
            else if (mischief == 3) f.resize(pick("client.cut", f.size()));
            else if (mischief == 4) f = m_aead_enc(s->suite.cipher, kr, nr, Bytes(), pl);        // its own direction's key
            else if (mischief == 5) f.push_back(0);
            else if (mischief == 6) f = m_aead_enc(s->suite.cipher, ks, ns, Bytes(), pl);         // as if one frame had been lost
            if (f.size() > 65535) f.resize(65535);
            if (f == c) f.push_back(1);
            for (size_t k = s->good; k < i; ++k) if (!check_echo(k)) { k_close(fd); s->finished = true; return; }
            bool whole = send_all(fd, frame(f)); if (whole && flip("client.more", 500)) send_all(fd, frame(m_aead_enc(s->suite.cipher, ks, ns - 1, Bytes(), pl)));
            size_t got = 0; wait_eof(fd, &got); s->finished = true; asserted("E03"); count("probe:echo-bad-frame");
            if (got) W->fail("E03", "bad-frame-answered", s->kind + ": the server sent " + std::to_string(got) + " bytes after a frame that is not genuine (kind " + std::to_string(mischief) + ")");
            k_close(fd); return;
        }
        // both ends blocked in sending is the fault of a client that does not read: keep what is under way within the buffers
        auto under_way = [&] { size_t t = 0; for (size_t k = s->good; k < sent.size(); ++k) t += sent[k].size() + 2; return t; };
        while (s->good < sent.size() && under_way() + c.size() + 2 > K->net.cap) if (!check_echo(s->good)) { k_close(fd); s->finished = true; return; }
        if (!send_all(fd, frame(c))) { s->why = "cannot send"; k_close(fd); s->finished = true; return; }
        sent.push_back(c); pls.push_back(pl);
        if (!pipeline && !check_echo(i)) { k_close(fd); s->finished = true; return; }
    }
    while (s->good < sent.size()) if (!check_echo(s->good)) { k_close(fd); s->finished = true; return; }
    s->ok = true; s->finished = true; count("probe:echo-model-client");
    if (flip("client.close", 500)) { k_shutdown(fd, SHUT_WR); size_t got = 0; wait_eof(fd, &got); if (got) W->fail("E03", "unasked-data", "the server sent data that nobody asked for"); }
    k_close(fd);
}
void model_server(Sess *s, bool wrong_key, bool wrong_psk, bool wrong_peer, int mischief) {
    int l = k_socket(2); if (k_bind(l, 2, s->port) < 0 || k_listen(l, 3) < 0) harness_error("model server cannot listen");
    int fd = k_accept(l); k_close(l); if (fd < 0) return;
    Bytes id; MHandshake m = model_side(s->suite, false, wrong_key, wrong_psk, wrong_peer);
    if (!recv_n(fd, 5, id)) { k_close(fd); return; }
    asserted("E01"); if (id != id_bytes(s->suite)) W->fail("E01", "protocol-identifier", "the client announced " + hex(id) + " for " + s->suite.name());
    if (!run_handshake(fd, m, s->id + 500)) {
        if (!s->compat && m.msg) { send_all(fd, frame(data_bytes("echo-garbage", s->id, 60))); size_t g = 0; wait_eof(fd, &g); }
        k_close(fd); return;
    }
    Bytes ks, kr; m.split(ks, kr); uint64_t ns = 0, nr = 0; size_t bad_at = mischief ? pick("server.badat", 3) : ~(size_t)0; Bytes last; size_t i = 0;
    for (;; ++i) {
        Bytes f, pl; if (!recv_frame(fd, f)) break;
        if (!m_aead_dec(s->suite.cipher, kr, nr++, Bytes(), f, pl)) { W->fail("E01", "client-frame", "the client sent a frame that its peer cannot decrypt"); break; }
        Bytes c = m_aead_enc(s->suite.cipher, ks, ns++, Bytes(), pl), r = c;
        if (i == bad_at) {
            s->expect_upto = i; count("probe:echo-bad-server");
            if (mischief == 1) r[pick("server.flip", r.size())] ^= 1 << pick("server.bit", 8);
            else if (mischief == 2) r = last.empty() ? f : last;                                  // replay, or reflection
            else if (mischief == 3) r = f;
            else if (mischief == 4) r = m_aead_enc(s->suite.cipher, ks, ns, Bytes(), pl);
            else if (mischief == 5) r.clear();
            else if (mischief == 6) r = data_bytes("echo-oversize", s->id, 4095 + (choose("server.overkind", 2, 500) ? 2 + pick("server.over", 4) : pick("server.over", 60000)));
            else if (mischief == 7) r.resize(pick("server.cut", r.size()));
            if (r == c) r.push_back(7);
            send_all(fd, frame(r)); size_t g = 0; wait_eof(fd, &g); k_close(fd); return;
        }
        last = c; if (!send_all(fd, frame(c))) break;
    }
    k_close(fd);
}

// ------------------------------------------------------------------ real clients
void make_lines(Sess *s) {
    size_t n = 1 + pick("lines", s->fresh ? 2 : 6);
    bool many = !s->fresh && flip("lines.many", 20);      // a long session of short lines
    if (many) { n = 20 + pick("lines.long", 1100); count("probe:long-session"); }
    for (size_t i = 0; i < n; ++i) {
        size_t len = many ? pick("line.len", 12) : gen_size("line.len", 9000); Bytes d = data_bytes("echo-line", s->id * 100000 + i, len); Str l;
        bool bin = pick("line.binary", 4) == 0;
        for (uint8_t c : d) l += bin ? (char)(c == 0 || c == '\n' ? 1 : c) : (char)(' ' + c % 95);
        if (i + 1 < n || !flip("line.open", 150)) l += '\n';
        if (l.empty()) l = "\n";
        s->lines.push_back(l); s->input += l;
    }
}
std::vector<Str> chunks(Sess *s) {                       // what one fgets() after the other returns
    size_t max = 4096 + 2 - 2 - 16 - 1; std::vector<Str> r;
    for (auto &l : s->lines) for (size_t p = 0; p < l.size(); p += max) r.push_back(l.substr(p, max));
    // an unterminated line is continued by what follows, but only the last one can be unterminated
    return r;
}
Proc *real_client(Sess *s, const Str &ck, const Str &sk, const Str &psk) {
    std::vector<Str> a{"echo-client"}; const Pattern *p = pattern_by_id(s->suite.pattern);
    bool st = p->needs_static(true) && s->suite.dh != D_NEWHOPE, rs = p->pre_rs && s->suite.dh != D_NEWHOPE;
    if (st || flip("arg.extra", 300)) { a.push_back("-c"); a.push_back("keys/" + ck); }
    if (rs || flip("arg.extra", 300)) { a.push_back("--server-public-key=keys/" + sk + ".pub"); }
    if (s->suite.psk || flip("arg.extra", 300)) { a.push_back("-p"); a.push_back("keys/" + psk); }
    if (s->padding) a.push_back("--padding");
    if (s->verbose) a.push_back("-v");
    if (s->fixed) a.push_back("-f");
    a.push_back(s->suite.name()); a.push_back("localhost"); a.push_back(std::to_string(s->port));
    Proc *c = spawn(image("client", s->be->id), "client" + std::to_string(s->id), a, s->id);
    Proc *cc = c; size_t pos = 0; uint64_t t = K->now + 1;
    if (flip("input.slow", 400)) { while (pos < s->input.size()) { size_t k = 1 + pick("input.part", s->input.size() - pos); Str part = s->input.substr(pos, k); t += 1 + pick("input.delay", 300); at(t, [cc, part] { input_put(cc, part); }); pos += k; } at(t + 1 + pick("input.delay", 300), [cc] { cc->input_eof = true; }); }
    else { input_put(c, s->input); c->input_eof = true; }
    s->client = c; count("op:echo-client"); return c;
}
Str strip_verbose(const Str &o) {                       // the packets printed by --verbose are not part of the echo
    Str r; size_t p = 0; bool cont = false;
    while (p < o.size()) { size_t e = o.find('\n', p); e = e == Str::npos ? o.size() : e + 1; Str l = o.substr(p, e - p); p = e;
        if (l.compare(0, 3, "Tx:") == 0 || l.compare(0, 3, "Rx:") == 0) { cont = true; continue; }
        if (cont && l.compare(0, 4, "    ") == 0) continue;
        cont = false; r += l; }
    return r;
}
void judge_real(Sess *s) {
    Proc *c = s->client; Str out = c->outbuf; std::vector<Str> ch = chunks(s); Str banner = s->suite.name() + " handshake complete.  Enter text to be echoed ...\n";
    if (s->verbose) { if (!s->disturbed.empty()) return; out = strip_verbose(out); bool odd = false; for (auto &x : ch) if (x.back() != '\n') odd = true; if (odd) return; }
    bool ended = !c->alive(); bool ok = ended && c->status == 0; Str body; bool hs = out.compare(0, banner.size(), banner) == 0; if (hs) body = out.substr(banner.size());
    bool padbad = false; size_t n = 0, pos = 0; bool wrong = false;
    while (pos < body.size()) {
        if (n >= ch.size()) { wrong = true; break; }
        Str w = "Received: " + ch[n];
        if (body.compare(pos, w.size(), w) == 0) { pos += w.size(); n++; if (s->padding && ch[n - 1].back() != '\n') { size_t q = body.find("Received: ", pos); Str extra = body.substr(pos, q == Str::npos ? Str::npos : q - pos); if (!extra.empty()) { padbad = true; pos += extra.size(); } } continue; }
        if (s->padding) for (auto &x : ch) if (x.back() != '\n') padbad = true;
        wrong = true; break;
    }
    if (padbad) { W->fail("E01", "padding-echoed-as-text", "with --padding, a line that does not end in a newline is echoed with random bytes after it"); return; }
    Str nm = s->kind + " (" + s->suite.name() + (s->padding ? ", padding" : "") + ")";
    bool tampered = s->conn && (s->conn->d[0].effective() != ~0ULL || s->conn->d[1].effective() != ~0ULL);
    bool strangers = !s->compat; size_t upto = std::min(s->expect_upto, ch.size());
    if (strangers) { asserted("E03"); count("probe:echo-stranger");
        if (n || wrong || ok) W->fail("E03", "stranger-served", nm + ": echoed " + std::to_string(n) + " lines, exit " + std::to_string(c->status) + ", although the keys do not match"); return; }
    if (wrong) { asserted("E03"); W->fail(tampered || s->expect_upto != ~(size_t)0 ? "E03,E01" : "E01", "wrong-text", nm + ": line " + std::to_string(n) + " came back changed"); return; }
    asserted("E01"); 
    if (n > upto) { W->fail("E03", "bad-frame-delivered", nm + " delivered a frame that is not genuine"); return; }
    if (tampered) { asserted("E03"); count("probe:echo-tampered"); if (ok) W->fail("E03", "tampering-unnoticed", nm + " exits with success although the bytes in flight were changed"); return; }
    if (!s->disturbed.empty() || s->oom || s->expect_upto != ~(size_t)0) {
        if (ok && n < ch.size()) W->fail("E01", "success-without-echo", nm + " exits with success after " + std::to_string(n) + " of " + std::to_string(ch.size()) + " lines (" + s->disturbed + ")"); return; }
    if (!ended) { W->fail(s->fresh ? "E02,E01" : "E01", "client-stuck", nm + " never finishes (waiting in " + c->where + " after " + std::to_string(n) + " lines)"); return; }
    if (!ok || n < ch.size() || !hs) W->fail(s->fresh ? "E02,E01" : "E01", "echo-fails", nm + ": exit status " + std::to_string(c->status) + ", " + std::to_string(n) + " of " + std::to_string(ch.size()) + " lines echoed although nothing went wrong; it says '" + c->errbuf.substr(0, 120) + "'");
    else count(s->port == PORT ? "probe:echo-complete" : "probe:echo-complete-model-server");
}

// ------------------------------------------------------------------ sessions
Sess *new_sess(const char *kind) { W->ss.emplace_back(new Sess); Sess *s = W->ss.back().get(); s->id = (int)W->ss.size(); s->kind = Str(kind) + std::to_string(s->id); s->suite = echo_suite(); s->be = &API[pick("echo.backend", BE_COUNT)]; return s; }
void start_real(Sess *s, bool mism) {
    const Pattern *p = pattern_by_id(s->suite.pattern); Str ck = kn("client_key_", s->suite.dh), sk = kn("server_key_", s->suite.dh), psk = "psk";
    if (mism) {
        int k = (int)pick("mismatch", 3); bool nh = s->suite.dh == D_NEWHOPE;
        if (k == 0 && p->pre_is && !nh) { ck = kn("other_", s->suite.dh); s->compat = false; }
        else if (k == 1 && p->pre_rs && !nh) { sk = kn("other_", s->suite.dh); s->compat = false; }
        else if (s->suite.psk) { psk = "psk2"; s->compat = false; }
    }
    s->padding = flip("arg.padding", 200); s->verbose = flip("arg.verbose", 100); s->fixed = flip("arg.fixed", 100);
    make_lines(s); real_client(s, ck, sk, psk);
}
void gen_ops(ConnP c, uint64_t span) {
    int n = 1 + (int)pick("tamper.n", 2);
    for (int i = 0; i < n; ++i) {
        Dir &d = c->d[pick("tamper.dir", 2)]; TamperOp o{(TamperKind)pick("tamper.kind", 6), choose("tamper.near", 2, 500) ? pick("tamper.at", 12) : pick("tamper.at", span), 0, false};
        o.arg = o.kind == TK_FLIP ? pick("tamper.bit", 8) : 1 + pick("tamper.len", o.kind == TK_DUP ? 200 : 40); d.ops.push_back(o);
    }
}
Sess *sess_of(ConnP c) { for (auto &s : W->ss) if (s->id == c->label) return s.get(); return nullptr; }

bool start_session(int kind) {
    Sess *s;
    switch (kind) {
    case 0: case 1: s = new_sess("client "); start_real(s, false); break;
    case 2: s = new_sess("stranger "); start_real(s, true); break;
    case 3: { s = new_sess("client over a bad link "); s->disturbed = "tamper"; start_real(s, false); break; }
    case 4: { s = new_sess("model client "); size_t n = 1 + pick("frames", 5); spawn_actor(s->kind, [s, n] { model_client(s, false, false, false, 0, n); }, s->id); break; }
    case 5: { s = new_sess("misbehaving client "); int m = 1 + (int)pick("mischief", 6); size_t n = 1 + pick("frames", 4); spawn_actor(s->kind, [s, n, m] { model_client(s, false, false, false, m, n); }, s->id); s->disturbed = "misbehaves"; break; }
    case 6: {
        s = new_sess("model stranger "); const Pattern *p = pattern_by_id(s->suite.pattern); bool nh = s->suite.dh == D_NEWHOPE; int k = (int)pick("mismatch", 3);
        bool bk = k == 0 && p->pre_is && !nh, bs = k == 1 && p->pre_rs && !nh, bp = !bk && !bs && s->suite.psk; s->compat = !(bk || bs || bp);
        size_t n = 1 + pick("frames", 3); spawn_actor(s->kind, [s, bk, bp, bs, n] { model_client(s, bk, bp, bs, 0, n); }, s->id); break; }
    case 7: {
        s = new_sess("garbage client "); s->disturbed = "garbage"; Bytes g = data_bytes("echo-noise", s->id, gen_size("garbage", 3000)); if (flip("garbage.id", 600)) { Bytes i = id_bytes(s->suite); g.insert(g.begin(), i.begin(), i.end()); }
        int end = (int)pick("garbage.end", 3);
        spawn_actor(s->kind, [s, g, end] { int fd = k_socket(2); if (k_connect(fd, 2, PORT) < 0) return; s->conn = k_conn(fd); send_all(fd, g); if (end == 0) k_abort(fd); else { if (end == 1) k_shutdown(fd, SHUT_WR); size_t got = 0; if (end == 1) wait_eof(fd, &got); k_close(fd); } }, s->id); break; }
    case 8: {
        s = new_sess("stalling client "); s->disturbed = "stalls"; int how = (int)pick("stall", 4);
        spawn_actor(s->kind, [s, how] { int fd = k_socket(2); if (k_connect(fd, 2, PORT) < 0) return; s->conn = k_conn(fd); Bytes i = id_bytes(s->suite); if (how == 1) i.resize(3); if (how) send_all(fd, i); if (how == 3) { MHandshake m = model_side(s->suite, true, false, false, false); run_handshake(fd, m, s->id); } size_t got = 0; wait_eof(fd, &got); k_close(fd); }, s->id); break; }
    case 9: { s = new_sess("vanishing client "); s->disturbed = "vanishes"; spawn_actor(s->kind, [s] { int fd = k_socket(2); if (k_connect(fd, 2, PORT) < 0) return; s->conn = k_conn(fd); if (flip("vanish.late", 500)) k_sleep(1 + pick("vanish.after", 60)); k_abort(fd); }, s->id); break; }
    default: {                                            // real client, model server
        s = new_sess("client of model server "); s->port = PORT + s->id; const Pattern *p = pattern_by_id(s->suite.pattern); bool nh = s->suite.dh == D_NEWHOPE; int what = (int)pick("server.kind", 3); bool wk = false, wp = false, wc = false; int mis = 0;
        if (what == 1) { if (p->pre_rs && !nh && !flip("server.psk", 300)) wk = true; else if (s->suite.psk) wp = true; else if (p->pre_is && !nh) wc = true; s->compat = !(wk || wp || wc); }
        else if (what == 2) mis = 1 + (int)pick("server.mischief", 7);
        spawn_actor("model-server", [s, wk, wp, wc, mis] { model_server(s, wk, wp, wc, mis); }, s->id);
        at(K->now + 30, [s] { s->padding = flip("arg.padding", 200); make_lines(s); real_client(s, kn("client_key_", s->suite.dh), kn("server_key_", s->suite.dh), "psk"); });
        break; }
    }
    count("op:echo-session"); return true;
}
void server_state_check(const char *when) {
    Proc *sv = W->server; asserted("E02");
    if (!sv->alive()) {
        Str cls = W->server_fault == "accept-error" ? "server-exits-on-accept-error" : W->server_fault == "fork-fails" ? "server-exits-on-fork-failure" : "server-gone";
        if (!W->server_ended) W->fail("E02", cls, "the server has ended, status " + std::to_string(sv->status) + (W->server_fault.empty() ? "" : ", after " + W->server_fault) + "; it says '" + sv->errbuf.substr(0, 120) + "'"); W->server_ended = true; return; }
    int streams = 0; for (auto &f : sv->fds) if (f.second->kind == KFile::STREAM) streams++;
    if (streams && sv->st == Proc::BLOCKED) W->fail("E02", "descriptors-left-open", Str("the server keeps ") + std::to_string(streams) + " connections of its children open " + when);
}
}

void sc_echo() {
    W = new World; W->sbe = &API[pick("server.backend", BE_COUNT)]; make_keys(); kernel_begin(); Net &n = K->net;
    bool startup_fault = flip("startup.fault", 60); Str broken;
    if (startup_fault) {
        static const char *fs[] = {"server_key_25519", "server_key_448", "client_key_25519.pub", "client_key_448.pub", "psk"}; int f = (int)pick("startup.file", 5); Str p = Str("keys/") + fs[f]; Bytes &d = DISK.files[p].data; bool pubf = f >= 2;
        switch (pick("startup.how", pubf ? 5 : 3)) {
        case 0: DISK.files.erase(p); broken = "missing"; break;
        case 1: d.resize(pick("startup.cut", d.size() - 3)); broken = "cut off"; break;
        case 2: if (pubf) { Str t = b64(data_bytes("long", 1, 80)); d = sb(t); } else d.push_back(1); broken = "too long"; break;
        case 3: d[pick("startup.pos", 40)] = "!#%-_.\x80~"[pick("startup.char", 8)]; broken = "not base64"; break;
        case 4: d.insert(d.begin() + pick("startup.pos", 40), "\n \t\r"[pick("startup.ws", 4)]); broken = "wrapped"; break;
        }
        W->server = spawn(image("server", W->sbe->id), "server", {"echo-server", "-k", "keys", "7000"}, 0); kernel_run();
        bool up = W->server->alive(); lg("key file %s: server %s", broken.c_str(), up ? "runs" : "refuses"); asserted("E03,E01"); count("fault:key-file-" + broken);
        if (broken == "wrapped") { if (!up) violate("E01", "wrapped-key-file-refused", "a public key file with white space in front of or between the digits is refused"); }
        else if (up) violate("E03", "broken-key-file-accepted", "the server starts although %s is %s", fs[f], broken.c_str());
        return;
    }
    // faults of the environment
    if (flip("env.delay", 700)) { n.delay_max = 1 + (unsigned)pick("env.delaymax", 200); n.pm_delay = 300; }
    if (flip("env.short", 600)) { n.pm_short_recv = 10 + (unsigned)pick("env.pm", 300); n.pm_short_send = 10 + (unsigned)pick("env.pm", 300); }
    if (flip("env.eintr", 400)) n.pm_eintr = 5 + (unsigned)pick("env.pm", 60);
    if (flip("env.accept", 60)) n.pm_accept_err = 100;
    if (flip("env.fork", 60)) n.pm_fork_fail = 150;
    if (flip("env.smallbuf", 200)) n.cap = 200 + pick("env.cap", 5000);
    switch (pick("env.families", 5)) { case 1: n.server_families = {2, 10}; n.client_families = {10, 2}; break; case 2: n.server_families = {10, 2}; n.client_families = {10, 2}; break; case 3: n.server_families = {2}; n.client_families = {10, 2}; break; case 4: n.server_families = {2, 10}; n.client_families = {2}; n.bind_fails = {10}; break; }
    unsigned accept0 = n.pm_accept_err, fork0 = n.pm_fork_fail; n.pm_accept_err = n.pm_fork_fail = 0;
    bool sfixed = flip("server.fixed", 60), sverb = flip("server.verbose", 100);
    std::vector<Str> sa{"echo-server", "-k", "keys"}; if (sfixed) sa.push_back("-f"); if (sverb) sa.push_back("-v"); sa.push_back("7000");
    K->on_fault = [](ConnP c, const char *what) { Sess *s = sess_of(c); if (s && s->disturbed.empty()) s->disturbed = what; };
    K->on_connect = [](ConnP c) { Sess *s = sess_of(c); if (!s) return; if (!s->conn) s->conn = c; if (s->disturbed == "tamper") gen_ops(c, 600); };
    K->on_exit = [](Proc *p) { if (p == W->server) W->server_fault = K->lastfault; if (p->killed) for (auto &c : K->conns) if (c->server_pid == p->pid) { Sess *s = sess_of(c); if (s && s->disturbed.empty()) s->disturbed = "server child killed"; } };
    W->server = spawn(image("server", W->sbe->id), "server", sa, 0);
    kernel_run();                                         // until it waits for connections
    if (!W->server->alive()) { violate("E02,E01", "server-does-not-start", "the server ends at once, status %d: %s", W->server->status, W->server->errbuf.substr(0, 200).c_str()); return; }
    n.pm_accept_err = accept0; n.pm_fork_fail = fork0;
    // the participants
    size_t parts = 1 + pick("participants", 5); uint64_t t = K->now;
    static const int kinds[] = {0, 1, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10, 10, 10};
    for (size_t i = 0; i < parts; ++i) { t += pick("start.gap", 400); at(t, [] { start_session(kinds[pick("session.kind", sizeof kinds / sizeof *kinds)]); }); }
    if (flip("env.kill", 150)) at(K->now + 1 + pick("kill.at", 1500), [] {
        std::vector<Proc *> v; for (Proc *p : K->procs) if (p->alive() && p->img && p != W->server) v.push_back(p); if (v.empty()) return;
        Proc *p = v[pick("kill.who", v.size())]; count("fault:process-killed"); lg("%s[%d] is killed", p->name.c_str(), p->pid);
        for (auto &s : W->ss) if (s->client == p) s->disturbed = "client killed";
        proc_kill(p, 9); });
    if (flip("env.oom", 100)) at(K->now + 1 + pick("oom.at", 500), [] { for (Proc *p : K->procs) if (p->alive() && p->img && p != W->server) { p->pm_oom = 200; for (auto &s : W->ss) if (p->label == s->id || p->ppid == W->server->pid) s->oom = true; } });
    kernel_run();
    // what may be left over now waits for a peer that says nothing, or for the rest of a frame whose length was altered
    server_state_check("with connections open");
    bool held = false; for (auto &c : K->conns) if (c->open[1] && c->accepted) held = true;
    n.on = false;
    if (W->server->alive() && held) {
        count("probe:echo-served-while-held");
        Sess *s = new_sess("client while another one stalls "); s->fresh = true; start_real(s, false); kernel_run();
        if (s->client->alive()) { asserted("E02"); W->fail("E02", K->reapspin ? "server-spins-in-waitpid-while-clients-wait" : "stalled-client-blocks-others", "a client is not served while an earlier one stalls (server in " + Str(W->server->where) + ")"); s->disturbed = "blocked"; }
    }
    if (K->reapspin || !W->server->alive()) for (auto &s : W->ss) if (s->disturbed.empty() && s->port == PORT && (!s->conn || !s->conn->accepted)) s->disturbed = "server not available";
    for (auto &s : W->ss) if (s->client && s->client->alive() && s->disturbed.empty()) { judge_real(s.get()); s->disturbed = "judged"; }
    for (auto &c : K->conns) if (c->open[0] || c->open[1]) link_reset(c);
    kernel_run();
    // later clients are served
    server_state_check("after all clients are gone");
    if (W->server->alive()) for (int i = 0; i < 3; ++i) { Sess *s = new_sess("fresh client "); s->fresh = true; start_real(s, false); kernel_run(); }
    server_state_check("at the end");
    int live = 0, zomb = 0; for (Proc *p : K->procs) if (p->img && p != W->server && p->ppid == W->server->pid) { if (p->alive()) live++; else if (p->st == Proc::ZOMBIE) zomb++; }
    if (live) W->fail("E02", "children-left", std::to_string(live) + " server processes are left although every client is gone");
    if (zomb > 2) W->fail("E02", "zombies-left", std::to_string(zomb) + " dead children have not been collected");
    if (K->reapspin) W->fail("E02", "reaping-spins-while-children-live", "the server calls waitpid() again and again while a child is still running");
    for (auto &s : W->ss) {
        if (s->disturbed == "judged") continue;
        if (s->client) judge_real(s.get());
        else if (s->kind.compare(0, 5, "model") == 0) {
            if (!s->compat) { asserted("E03"); count("probe:echo-stranger"); if (s->ok || s->good) W->fail("E03", "stranger-served", s->kind + " (" + s->suite.name() + ") was served although its keys do not match"); }
            else if (s->disturbed.empty() && !s->oom) { asserted("E01"); if (!s->ok) W->fail("E01", s->finished ? "echo-fails" : "client-stuck", s->kind + " (" + s->suite.name() + "): " + (s->why.empty() ? "never finishes" : s->why) + " although nothing went wrong"); }
        }
    }
    state_seen(H64(K->switches, H64(K->procs.size(), K->conns.size())));
    for (auto &d : W->bad) violate(d.props.c_str(), d.cls.c_str(), "%s", d.msg.c_str());
}
