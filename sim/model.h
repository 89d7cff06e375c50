// An independent implementation of the protocol that noise-c implements (Noise, NoisePSK revision,
// hybrid forward secrecy extension), used as oracle and as peer.  Primitives come from OpenSSL.
#pragma once
#include "sim.h"

enum MTok { T_E, T_S, T_EE, T_ES, T_SE, T_SS, T_F, T_FF };
enum MDH { D_NONE, D_25519, D_448, D_NEWHOPE };
enum MCipher { C_CHACHA, C_AESGCM };
enum MHash { H_B2S, H_B2B, H_SHA256, H_SHA512 };

struct Pattern {
    Str name;
    int id;                      // noise-c identifier
    std::vector<std::vector<MTok>> msgs;
    bool pre_is, pre_rs;         // initiator/responder static known beforehand
    bool oneway, hfs, fallback;
    bool uses(bool initiator, MTok t) const;   // does this party need / send the static key
    bool needs_static(bool initiator) const;   // must own a static keypair
    bool sends_s(bool initiator) const;
};
const std::vector<Pattern> &patterns();
const Pattern *pattern_by_id(int id);
const Pattern *pattern_by_name(const Str &n);

struct Suite {
    int pattern; int dh, hybrid, cipher, hash; bool psk;
    Str name() const;
    NoiseProtocolId id() const;
};
size_t dh_publen(int dh, bool newhope_alice = true);
size_t hash_len(int h);
Bytes m_hash(int h, const Bytes &a, const Bytes &b = Bytes());
Bytes m_hmac(int h, const Bytes &key, const Bytes &data);
void m_hkdf(int h, const Bytes &ck, const Bytes &in, Bytes &o1, Bytes &o2);
Bytes m_aead_enc(int c, const Bytes &k, uint64_t n, const Bytes &ad, const Bytes &pt);
bool m_aead_dec(int c, const Bytes &k, uint64_t n, const Bytes &ad, const Bytes &ct, Bytes &pt);
Bytes m_pbkdf2(int h, const Bytes &pass, const Bytes &salt, unsigned iter, size_t len);
Bytes m_ed25519_pub(const Bytes &seed);
Bytes m_ed25519_sign(const Bytes &seed, const Bytes &msg);
bool m_ed25519_verify(const Bytes &pub, const Bytes &msg, const Bytes &sig);

// a key of either party; for NewHope "priv" is the seed and the role matters
struct MKey { int dh = D_NONE; bool has_priv = false, has_pub = false; Bytes priv, pub; bool alice = true; bool null_pub() const; };
MKey mkey_from_priv(int dh, const Bytes &priv, bool alice = true, const Bytes *alice_pub = nullptr);
MKey mkey_from_pub(int dh, const Bytes &pub, bool alice = true);
bool m_dh(const MKey &priv, const MKey &pub, Bytes &shared);
bool m_dh_refused(const MKey &pub);
Bytes odd_pub(int dh, uint64_t k);

struct MSym {
    int hash, cipher; Bytes h, ck, k; uint64_t n; bool has_key;
    void init(const Suite &s);
    void mix_hash(const Bytes &d);
    void mix_key(const Bytes &d);
    void mix_psk(const Bytes &d);
    Bytes enc(const Bytes &p);
    bool dec(const Bytes &c, Bytes &p);
};

enum MErr { M_OK, M_LEN, M_MAC, M_KEY, M_BUG };
struct MHandshake {
    Suite suite; bool initiator; const Pattern *pat; size_t msg; bool my_turn, done, failed, fb;
    MSym sym; MKey s, rs, e, re, f, rf; Bytes psk, prologue;
    std::vector<Bytes> cks;                       // chaining keys and keys seen (secrets)
    void init(const Suite &st, bool init_role, const Bytes &prologue);
    void start();
    // the ephemeral (and hybrid) key to use for the next write must be in next_e / next_f
    MKey next_e, next_f;
    bool write_refused() const; bool write_needs_e() const, write_needs_f() const;
    MErr write(const Bytes &payload, Bytes &out);
    MErr read(const Bytes &in, Bytes &payload);
    size_t overhead() const;                      // bytes a write adds to the payload, in the current state
    size_t eph_offset_len() const;
    bool payload_encrypted_next() const;          // whether the next message's payload is authenticated
    void fallback(const Suite &st);
    void split(Bytes &send, Bytes &recv);
    MErr mixdh(const MKey &a, const MKey &b);
};
