// One endpoint of a handshake: the real library under a chosen build, or the independent model.
#pragma once
#include "model.h"

// a heap buffer of exactly the stated size, so that AddressSanitizer sees any access outside it
struct XBuf {
    uint8_t *p; size_t n;
    explicit XBuf(size_t n_, uint8_t fill = 0x5C) : p((uint8_t *)malloc(n_ ? n_ : 1)), n(n_) { memset(p, fill, n ? n : 1); }
    XBuf(const Bytes &b, size_t cap) : XBuf(cap) { if (!b.empty()) memcpy(p, b.data(), b.size()); }
    explicit XBuf(const Bytes &b) : XBuf(b, b.size()) {}
    ~XBuf() { free(p); }
    XBuf(const XBuf &) = delete;
    Bytes get(size_t k) const { return Bytes(p, p + k); }
};
struct Ident { MKey k; };        // a static identity

struct EP {
    int id = 0; const Api *be = nullptr; bool ini = true; Suite suite; const Pattern *pat = nullptr;
    Bytes prologue, psk; MKey s, rs;           // own static key, presupposed peer key (if any)
    bool fixed_e = true, fixed_f = true;
    NoiseHandshakeState *hs = nullptr;
    MHandshake m; bool synced = true;          // shadow of a real endpoint, or the model endpoint itself
    std::vector<Bytes> tr, pay;                // transcript and payloads (written or accepted), in order
    bool oom = false;                          // a step of this party failed for lack of memory
    bool failed = false, done = false, fb = false, created = false, split = false;
    size_t msg = 0;
    Bytes hash, ks, kr; bool keys = false;
    NoiseCipherState *snd = nullptr, *rcv = nullptr;
    std::vector<std::pair<int, MKey>> used_eph;
    bool model() const { return !be; }
    bool my_turn() const { return !failed && !done && (ini == (msg % 2 == 0)); }
    bool their_turn() const { return !failed && !done && !my_turn(); }
    int expect_action() const;
    Str nm() const;
};

bool enc_at(const Pattern &p, size_t i, bool psk, bool fb);        // is the payload of message i authenticated
bool static_at(const Pattern &p, size_t i);
bool ep_compat(const EP &a, const EP &b);
bool ep_same_transcript(const EP &a, const EP &b, size_t n);
EP *ep_genuine_source(std::vector<EP *> &eps, EP &r, const Bytes &m);
Suite gen_suite(const char *stream, bool allow_oneway = true);
MKey gen_key(int dh, const char *label, uint64_t k);
void ep_setup_keys(EP &e, int &err);
extern unsigned g_pm_oom;                       // per mille of library calls made while memory is short
int oom_call(const std::function<int()> &f, bool retry);
bool ep_create(EP &e, bool misuse);
bool ep_start(EP &e);
int ep_write(EP &e, const Bytes &payload, Bytes &out, size_t slack, bool null_payload = false);
int ep_read(EP &e, const Bytes &in, Bytes &payload, size_t cap, bool null_payload, MErr *pred, bool *pred_valid, Bytes *pred_payload, bool *leak);
void ep_check_action(EP &e);
void ep_misuse(EP &e, const char *stream);
bool ep_split(EP &e, bool want_snd = true, bool want_rcv = true);
void ep_free(EP &e);
size_t ep_overhead(const EP &e);
size_t maybe_huge(const char *stream, size_t n, unsigned pm);
size_t gen_size(const char *stream, size_t max);
void world_desync(std::vector<EP *> &eps);
extern std::vector<EP *> *g_world;
void learn_secrets(EP &e);
bool contains_window(const uint8_t *buf, size_t n, const Bytes &secret);
const Api *pick_be(const char *stream, unsigned pm_model);
void check_no_leaks(const char *where);
