// Scenario "conc": several threads use objects of their own at the same time.  The library is compiled with the
// compiler's memory-access callbacks (the ones ThreadSanitizer uses, but implemented here), so that every load, store,
// call and atomic operation of the library is a point at which the seeded scheduler may switch threads.  The threads
// are real (so thread-local state is real) but only the holder of the baton runs.
// Oracle: each thread's results when it runs alone, from the same state of the library's global data.
#include "rec.h"
#include "proc.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <sys/mman.h>

// ------------------------------------------------------------------ scheduler
struct Thr { sem_t sem; bool alive = false; uint64_t steps = 0; };
static const int MAXT = 4;
static Thr T[MAXT]; static sem_t g_main;
static int g_cur = -1, g_nthr; static bool g_on;
static int64_t g_left; static uint64_t g_switches, g_spins, g_total;
static int g_regime; static std::vector<uint64_t> g_change;   // regime 3: global step numbers at which to switch
static std::unordered_map<uintptr_t, int> g_writer; static unsigned g_hot; static uint64_t g_gwrites, g_grw;
static uintptr_t g_lo = ~(uintptr_t)0, g_hi;
static uint64_t g_span;   // steps of all threads run alone
static const int64_t FOREVER = 1LL << 60;
static const uint64_t MAXSW = 1500;
static int64_t next_slice() {
    if (g_switches >= MAXSW) return FOREVER;
    if (g_regime == 3) { while (!g_change.empty() && g_change.back() <= g_total) g_change.pop_back(); return g_change.empty() ? FOREVER : (int64_t)(g_change.back() - g_total); }
    uint64_t n = g_regime == 0 ? std::max<uint64_t>(g_span / 6, 4) : 0;
    if (!n) n = 2ULL << pick("sched.mag", g_regime == 1 ? 17 : 8);
    uint64_t v = choose("sched.len", n, 996); return v ? (int64_t)v : FOREVER;   // 0: until the thread ends
}
static int64_t g_slice;
static void settle() { if (g_slice < FOREVER) { int64_t used = g_slice - g_left; g_total += used; if (g_cur >= 0) T[g_cur].steps += used; } else { int64_t used = FOREVER - g_left; g_total += used; if (g_cur >= 0) T[g_cur].steps += used; } }
static void new_slice() { g_slice = g_left = next_slice(); }
// hands the baton to another thread that is still running and waits for its return
static void switch_to(int k) {
    int me = g_cur, er = errno, party = ENT.party, owner = HEAP.owner, depth = sut_depth; char api[sizeof SH->curapi]; memcpy(api, SH->curapi, sizeof api);
    settle(); g_switches++; g_cur = k;
    sem_post(&T[k].sem);
    while (sem_wait(&T[me].sem)) {}
    errno = er; ENT.party = party; HEAP.owner = owner; sut_depth = depth; memcpy(SH->curapi, api, sizeof api);
    new_slice();
}
static int others(int *o) { int n = 0; for (int i = 1; i < g_nthr; ++i) { int k = (g_cur + i) % g_nthr; if (T[k].alive) o[n++] = k; } return n; }
static void sw(bool forced) {
    int o[MAXT], n = others(o);
    if (!n || (!forced && g_switches >= MAXSW)) { settle(); g_slice = g_left = FOREVER; return; }
    switch_to(o[pick("sched.next", n)]);
}
static void point() { if (g_on && --g_left < 0) sw(false); }
// access to the library's own writable data: where interference can happen
static void hot(uintptr_t a, size_t n, bool wr) {
    g_grw++; bool foreign = false;
    for (uintptr_t w = a >> 3; w <= (a + n - 1) >> 3; ++w) {
        auto it = g_writer.find(w);
        if (wr) { if (it != g_writer.end() && it->second != g_cur) foreign = true; g_writer[w] = g_cur; g_gwrites++; }
        else if (it != g_writer.end() && it->second != g_cur) foreign = true;
        if (w - (a >> 3) > 64) break;
    }
    if (foreign) count("probe:foreign-global-access");
    if ((wr || foreign) && g_hot < 6000) { g_hot++; uint64_t k = choose("sched.hot", 4, 300); if (k == 1) sw(false); else if (k > 1) { settle(); g_slice = g_left = k == 2 ? 0 : 20; } }
}
static inline void access(const void *p, size_t n, bool wr) {
    if (!g_on) return;
    uintptr_t a = (uintptr_t)p;
    if (a >= g_lo && a < g_hi && n && sut_global(p)) hot(a, n, wr);
    point();
}
static void spin(const char *what) {   // a wait in the code under test: somebody else must run
    if (!g_on) return;
    if (++g_spins > 200000) { violate("C01", "deadlock", "threads wait for each other forever in %s", what); run_done(); }
    sw(true);
}
static uint64_t g_atom;
static void atom(const void *p, size_t n, bool wr) { if (!g_on) return; access(p, n, wr); if (++g_atom % 500 == 0) spin("an atomic operation"); }

typedef unsigned __int128 u128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { point(); }
void __tsan_func_exit() { point(); }
#define A(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); }
A(1) A(2) A(4) A(8) A(16)
#undef A
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(b, t) \
    t __tsan_atomic##b##_load(const volatile t *p, int) { atom((const void *)p, b / 8, false); return *p; } \
    void __tsan_atomic##b##_store(volatile t *p, t v, int) { atom((const void *)p, b / 8, true); *p = v; } \
    t __tsan_atomic##b##_exchange(volatile t *p, t v, int) { atom((const void *)p, b / 8, true); t o = *p; *p = v; return o; } \
    t __tsan_atomic##b##_fetch_add(volatile t *p, t v, int) { atom((const void *)p, b / 8, true); t o = *p; *p = o + v; return o; } \
    t __tsan_atomic##b##_fetch_sub(volatile t *p, t v, int) { atom((const void *)p, b / 8, true); t o = *p; *p = o - v; return o; } \
    t __tsan_atomic##b##_fetch_and(volatile t *p, t v, int) { atom((const void *)p, b / 8, true); t o = *p; *p = o & v; return o; } \
    t __tsan_atomic##b##_fetch_or(volatile t *p, t v, int) { atom((const void *)p, b / 8, true); t o = *p; *p = o | v; return o; } \
    t __tsan_atomic##b##_fetch_xor(volatile t *p, t v, int) { atom((const void *)p, b / 8, true); t o = *p; *p = o ^ v; return o; } \
    t __tsan_atomic##b##_fetch_nand(volatile t *p, t v, int) { atom((const void *)p, b / 8, true); t o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *e, t v, int, int) { atom((const void *)p, b / 8, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *e, t v, int, int) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, 0, 0); } \
    t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t e, t v, int, int) { atom((const void *)p, b / 8, true); t o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
#undef AT
// block operations in two halves, so that another thread can come in between when global data is involved
static size_t halfway(const void *d, const void *s, size_t n) {
    if (!g_on || n < 2) { point(); return n; }
    bool g = (d && (uintptr_t)d >= g_lo && (uintptr_t)d < g_hi && sut_global(d)) || (s && (uintptr_t)s >= g_lo && (uintptr_t)s < g_hi && sut_global(s));
    return g ? n / 2 : n;
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); size_t h = halfway(d, s, n); memcpy(d, s, h); if (h < n) { access((char *)d + h, n - h, true); memcpy((char *)d + h, (const char *)s + h, n - h); } return d; }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); memmove(d, s, n); point(); return d; }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true); size_t h = halfway(d, 0, n); memset(d, c, h); if (h < n) { access((char *)d + h, n - h, true); memset((char *)d + h, c, n - h); } return d; }
void *__wrap___memcpy_chk(void *d, const void *s, size_t n, size_t) { return __wrap_memcpy(d, s, n); }
void *__wrap___memset_chk(void *d, int c, size_t n, size_t) { return __wrap_memset(d, c, n); }
// locks: try, and let others run while they are taken
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { point(); while (int r = pthread_mutex_trylock(m)) { if (r != EBUSY) return r; if (!g_on) return pthread_mutex_lock(m); spin("a mutex"); } return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); if (g_on && choose("sched.hot", 4, 300)) sw(false); return r; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { point(); while (int r = pthread_rwlock_tryrdlock(m)) { if (r != EBUSY) return r; if (!g_on) return pthread_rwlock_rdlock(m); spin("a lock"); } return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { point(); while (int r = pthread_rwlock_trywrlock(m)) { if (r != EBUSY) return r; if (!g_on) return pthread_rwlock_wrlock(m); spin("a lock"); } return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { point(); while (int r = pthread_spin_trylock(m)) { if (r != EBUSY) return r; if (!g_on) return pthread_spin_lock(m); spin("a spin lock"); } return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    volatile int *w = (volatile int *)o;
    for (;;) { access(o, 4, false); if (*w == 2) return 0; if (*w != 1) break; if (!g_on) break; spin("pthread_once"); }
    *w = 1; f(); access(o, 4, true); *w = 2; return 0;
}
int __wrap_sched_yield(void) { spin("sched_yield"); return 0; }
int __wrap_usleep(unsigned u) { if (K && K->cur) { k_sleep(u / 1000 + 1); return 0; } spin("usleep"); return 0; }
unsigned __wrap_sleep(unsigned u) { if (K && K->cur) { k_sleep(u * 1000ULL); return 0; } spin("sleep"); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { if (K && K->cur) { k_sleep(t->tv_sec * 1000 + t->tv_nsec / 1000000 + 1); return 0; } spin("nanosleep"); return 0; }
}

// ------------------------------------------------------------------ programs
enum { K_HASH, K_KDF, K_CIPHER, K_DH, K_SIGN, K_SYM, K_SESSION, K_RAND, K_NAMES, K_REC, K_FILE, K_KEYFILE, K_INIT, K_SAVEKEY, K_COUNT };
static const char *KN[] = {"hash", "kdf", "cipher", "dh", "sign", "symmetric", "session", "random", "names", "record", "file", "keyfile", "init", "savekey"};
struct Op { int kind, id; const Api *be; Suite suite; bool psk; int rdef = 0; std::shared_ptr<Rec> rec; Str pass; Bytes sealed; uint64_t flavour; };
struct Out { int op; Str what; Bytes v; };
struct Prog { std::vector<Op> ops; std::vector<Out> out; bool solo; int tid; };

struct W {   // writer of results
    Prog &p; int op;
    void rc(const char *what, int r) { Bytes b(4); memcpy(b.data(), &r, 4); p.out.push_back({op, what, b}); }
    void by(const char *what, const void *d, size_t n) { p.out.push_back({op, what, Bytes((const uint8_t *)d, (const uint8_t *)d + n)}); }
    void by(const char *what, const Bytes &b) { p.out.push_back({op, what, b}); }
};
static const int HID[] = {NOISE_HASH_BLAKE2s, NOISE_HASH_BLAKE2b, NOISE_HASH_SHA256, NOISE_HASH_SHA512};
static const int CID[] = {NOISE_CIPHER_CHACHAPOLY, NOISE_CIPHER_AESGCM};
static const int DID[] = {NOISE_DH_CURVE25519, NOISE_DH_CURVE448, NOISE_DH_NEWHOPE};
static size_t rn(Data &d, size_t n) { return n ? d.next() % n : 0; }
static size_t len(Data &d, size_t big) { switch (rn(d, 4)) { case 0: return rn(d, 20); case 1: return rn(d, 200); case 2: return rn(d, 600); default: return rn(d, big); } }

static void x_hash(const Op &o, W &w, Data &d) {
    const Api *b = o.be; NoiseHashState *h = 0; int a = o.flavour & 3; w.rc("new", CALL(b, noise_hashstate_new_by_id, &h, HID[a])); if (!h) return;
    size_t hl = hash_len(a); Bytes out(hl);
    for (int i = 0, n = 1 + (int)rn(d, 3); i < n; ++i) {
        Bytes x = d.bytes(len(d, 2000)), y = d.bytes(len(d, 300));
        switch (rn(d, 3)) {
        case 0: w.rc("one", CALL(b, noise_hashstate_hash_one, h, x.data(), x.size(), out.data(), hl)); break;
        case 1: w.rc("two", CALL(b, noise_hashstate_hash_two, h, x.data(), x.size(), y.data(), y.size(), out.data(), hl)); break;
        default: CALL(b, noise_hashstate_reset, h); for (size_t p = 0; p < x.size();) { size_t k = std::min(x.size() - p, 1 + rn(d, 200)); CALL(b, noise_hashstate_update, h, x.data() + p, k); p += k; } w.rc("finalize", CALL(b, noise_hashstate_finalize, h, out.data(), hl));
        }
        w.by("digest", out);
    }
    CALL(b, noise_hashstate_free, h);
}
static void x_kdf(const Op &o, W &w, Data &d) {
    const Api *b = o.be; NoiseHashState *h = 0; int a = o.flavour & 3; w.rc("new", CALL(b, noise_hashstate_new_by_id, &h, HID[a])); if (!h) return;
    size_t hl = hash_len(a); Bytes o1(hl), o2(hl), key = d.bytes(len(d, 200)), in = d.bytes(len(d, 200));
    w.rc("hkdf", CALL(b, noise_hashstate_hkdf, h, key.data(), key.size(), in.data(), in.size(), o1.data(), hl, o2.data(), hl)); w.by("hkdf output", o1); w.by("hkdf output", o2);
    Bytes o3(1 + rn(d, 200)); w.rc("pbkdf2", CALL(b, noise_hashstate_pbkdf2, h, key.data(), key.size(), in.data(), in.size(), 1 + rn(d, 4), o3.data(), o3.size())); w.by("pbkdf2 output", o3);
    CALL(b, noise_hashstate_free, h);
}
static void pump(const Api *b, NoiseCipherState *e, NoiseCipherState *r, W &w, Data &d, int n) {
    for (int i = 0; i < n; ++i) {
        Bytes pt = d.bytes(len(d, 1200)), ad = d.bytes(rn(d, 3) ? 0 : rn(d, 80)), buf = pt; buf.resize(pt.size() + 16); NoiseBuffer nb; noise_buffer_set_inout(nb, buf.data(), pt.size(), buf.size());
        w.rc("encrypt", CALL(b, noise_cipherstate_encrypt_with_ad, e, ad.data(), ad.size(), &nb)); w.by("ciphertext", buf.data(), std::min(nb.size, buf.size()));
        if (!r) continue;
        bool bad = rn(d, 5) == 0; Bytes m(buf.begin(), buf.begin() + std::min(nb.size, buf.size())), t = m; if (bad && !t.empty()) t[rn(d, t.size())] ^= 1 << rn(d, 8);
        if (bad) { noise_buffer_set_inout(nb, t.data(), t.size(), t.size()); w.rc("decrypt altered", CALL(b, noise_cipherstate_decrypt_with_ad, r, ad.data(), ad.size(), &nb)); }
        noise_buffer_set_inout(nb, m.data(), m.size(), m.size()); w.rc("decrypt", CALL(b, noise_cipherstate_decrypt_with_ad, r, ad.data(), ad.size(), &nb)); w.by("plaintext", m.data(), std::min(nb.size, m.size()));
    }
}
static void x_cipher(const Op &o, W &w, Data &d) {
    const Api *b = o.be; NoiseCipherState *e = 0, *r = 0; int id = CID[o.flavour & 1]; w.rc("new", CALL(b, noise_cipherstate_new_by_id, &e, id)); w.rc("new", CALL(b, noise_cipherstate_new_by_id, &r, id));
    if (e && r) { Bytes k = d.bytes(32); uint64_t n = rn(d, 2) ? d.next() >> rn(d, 60) : 0; w.rc("key", CALL(b, noise_cipherstate_init_key, e, k.data(), 32)); w.rc("key", CALL(b, noise_cipherstate_init_key, r, k.data(), 32)); CALL(b, noise_cipherstate_set_nonce, e, n); CALL(b, noise_cipherstate_set_nonce, r, n); pump(b, e, r, w, d, 1 + (int)rn(d, 4)); }
    CALL(b, noise_cipherstate_free, e); CALL(b, noise_cipherstate_free, r);
}
static void dh_out(const Api *b, NoiseDHState *s, W &w) {
    size_t n = CALL(b, noise_dhstate_get_private_key_length, s), m = CALL(b, noise_dhstate_get_public_key_length, s); Bytes k(n), p(m); w.rc("keypair", CALL(b, noise_dhstate_get_keypair, s, k.data(), n, p.data(), m)); w.by("private key", k); w.by("public key", p);
    char f[100]; memset(f, 0, sizeof f); int id = CALL(b, noise_dhstate_get_dh_id, s); if (id != NOISE_DH_NEWHOPE) { w.rc("fingerprint", CALL(b, noise_dhstate_format_fingerprint, s, NOISE_FINGERPRINT_FULL, f, sizeof f)); w.by("fingerprint", f, sizeof f); }
}
static void x_dh(const Op &o, W &w, Data &d) {
    const Api *b = o.be; static const int wt[] = {0, 0, 0, 1, 2, 0}; int a = wt[o.flavour % 6]; NoiseDHState *x = 0, *y = 0, *z = 0;
    w.rc("new", CALL(b, noise_dhstate_new_by_id, &x, DID[a])); w.rc("new", CALL(b, noise_dhstate_new_by_id, &y, DID[a])); w.rc("new", CALL(b, noise_dhstate_new_by_id, &z, DID[a]));
    if (x && y && z) {
        CALL(b, noise_dhstate_set_role, x, NOISE_ROLE_INITIATOR); CALL(b, noise_dhstate_set_role, y, NOISE_ROLE_RESPONDER);
        if (a != 2 && rn(d, 2)) { Bytes k = d.bytes(a ? 56 : 32); w.rc("set", CALL(b, noise_dhstate_set_keypair_private, x, k.data(), k.size())); } else w.rc("generate", CALL(b, noise_dhstate_generate_keypair, x));
        w.rc("generate", CALL(b, noise_dhstate_generate_dependent_keypair, y, x)); if (a != 2) { dh_out(b, x, w); dh_out(b, y, w); }
        size_t n = CALL(b, noise_dhstate_get_shared_key_length, x); Bytes s1(n), s2(n); 
        // NewHope: the responder's side first, as in a handshake
        w.rc("calculate", CALL(b, noise_dhstate_calculate, y, x, s2.data(), n)); w.rc("calculate", CALL(b, noise_dhstate_calculate, x, y, s1.data(), n)); w.by("shared", s1); w.by("shared", s2);
        w.rc("copy", CALL(b, noise_dhstate_copy, z, x));
        if (a != 2) { dh_out(b, z, w); size_t kl = a ? 56 : 32; Bytes k(kl), p(kl); CALL(b, noise_dhstate_get_keypair, y, k.data(), kl, p.data(), kl); if (rn(d, 2)) p[rn(d, kl)] ^= 2; w.rc("set pair", CALL(b, noise_dhstate_set_keypair, z, k.data(), kl, p.data(), kl)); if (CALL(b, noise_dhstate_has_keypair, z)) dh_out(b, z, w); }
    }
    CALL(b, noise_dhstate_free, x); CALL(b, noise_dhstate_free, y); CALL(b, noise_dhstate_free, z);
}
static void x_sign(const Op &o, W &w, Data &d) {
    const Api *b = o.be; NoiseSignState *s = 0, *v = 0; w.rc("new", CALL(b, noise_signstate_new_by_id, &s, NOISE_SIGN_ED25519)); w.rc("new", CALL(b, noise_signstate_new_by_id, &v, NOISE_SIGN_ED25519));
    if (s && v) {
        if (rn(d, 2)) { Bytes k = d.bytes(32); w.rc("set", CALL(b, noise_signstate_set_keypair_private, s, k.data(), 32)); } else w.rc("generate", CALL(b, noise_signstate_generate_keypair, s));
        Bytes k(32), p(32); w.rc("keypair", CALL(b, noise_signstate_get_keypair, s, k.data(), 32, p.data(), 32)); w.by("private key", k); w.by("public key", p); w.rc("set public", CALL(b, noise_signstate_set_public_key, v, p.data(), 32));
        for (int i = 0, n = 1 + (int)rn(d, 2); i < n; ++i) { Bytes m = d.bytes(len(d, 800)), g(64); w.rc("sign", CALL(b, noise_signstate_sign, s, m.data(), m.size(), g.data(), 64)); w.by("signature", g); w.rc("verify", CALL(b, noise_signstate_verify, v, m.data(), m.size(), g.data(), 64)); if (!m.empty() && rn(d, 2)) { m[rn(d, m.size())] ^= 4; w.rc("verify altered", CALL(b, noise_signstate_verify, v, m.data(), m.size(), g.data(), 64)); } }
        char f[100]; memset(f, 0, sizeof f); w.rc("fingerprint", CALL(b, noise_signstate_format_fingerprint, v, NOISE_FINGERPRINT_BASIC, f, sizeof f)); w.by("fingerprint", f, sizeof f);
    }
    CALL(b, noise_signstate_free, s); CALL(b, noise_signstate_free, v);
}
static void x_sym(const Op &o, W &w, Data &d) {
    const Api *b = o.be; NoiseSymmetricState *s = 0, *r = 0; Str nm = o.suite.name(); NoiseProtocolId id = o.suite.id(); if (o.flavour & 1) w.rc("new", CALL(b, noise_symmetricstate_new_by_id, &s, &id)); else w.rc("new", CALL(b, noise_symmetricstate_new_by_name, &s, nm.c_str())); w.rc("new", CALL(b, noise_symmetricstate_new_by_name, &r, nm.c_str()));
    if (s && r) {
        for (int i = 0, n = 1 + (int)rn(d, 6); i < n; ++i) {
            Bytes x = d.bytes(len(d, 300));
            switch (rn(d, 3)) {
            case 0: w.rc("mix_hash", CALL(b, noise_symmetricstate_mix_hash, s, x.data(), x.size())); CALL(b, noise_symmetricstate_mix_hash, r, x.data(), x.size()); break;
            case 1: w.rc("mix_key", CALL(b, noise_symmetricstate_mix_key, s, x.data(), x.size())); CALL(b, noise_symmetricstate_mix_key, r, x.data(), x.size()); break;
            default: { Bytes buf = x; buf.resize(x.size() + 16); NoiseBuffer nb; noise_buffer_set_inout(nb, buf.data(), x.size(), buf.size()); w.rc("encrypt", CALL(b, noise_symmetricstate_encrypt_and_hash, s, &nb)); w.by("ciphertext", buf.data(), nb.size); NoiseBuffer n2; noise_buffer_set_inout(n2, buf.data(), nb.size, buf.size()); w.rc("decrypt", CALL(b, noise_symmetricstate_decrypt_and_hash, r, &n2)); w.by("plaintext", buf.data(), n2.size); }
            }
        }
        NoiseCipherState *a = 0, *c = 0; w.rc("split", CALL(b, noise_symmetricstate_split, s, &a, &c)); if (a && c) { pump(b, a, 0, w, d, 1); pump(b, c, 0, w, d, 1); } if (a) CALL(b, noise_cipherstate_free, a); if (c) CALL(b, noise_cipherstate_free, c);
    }
    CALL(b, noise_symmetricstate_free, s); CALL(b, noise_symmetricstate_free, r);
}
static void x_session(const Op &o, W &w, Data &d) {
    const Api *b = o.be; NoiseHandshakeState *h[2] = {0, 0}; Str nm = o.suite.name(); static const int role[] = {NOISE_ROLE_INITIATOR, NOISE_ROLE_RESPONDER};
    for (int i = 0; i < 2; ++i) { NoiseProtocolId id = o.suite.id(); w.rc("new", o.flavour & 1 ? CALL(b, noise_handshakestate_new_by_id, &h[i], &id, role[i]) : CALL(b, noise_handshakestate_new_by_name, &h[i], nm.c_str(), role[i])); if (h[i]) { memset(&id, 0, sizeof id); w.rc("get id", CALL(b, noise_handshakestate_get_protocol_id, h[i], &id)); w.by("id", &id, sizeof id); } }
    if (h[0] && h[1]) {
        Bytes pro = d.bytes(rn(d, 60)), psk = d.bytes(32);
        for (int i = 0; i < 2; ++i) {
            w.rc("prologue", CALL(b, noise_handshakestate_set_prologue, h[i], pro.data(), pro.size())); if (o.suite.psk) w.rc("psk", CALL(b, noise_handshakestate_set_pre_shared_key, h[i], psk.data(), 32));
            if (CALL(b, noise_handshakestate_needs_local_keypair, h[i])) w.rc("generate", CALL(b, noise_dhstate_generate_keypair, CALL(b, noise_handshakestate_get_local_keypair_dh, h[i])));
        }
        for (int i = 0; i < 2; ++i) if (CALL(b, noise_handshakestate_needs_remote_public_key, h[i])) { NoiseDHState *s = CALL(b, noise_handshakestate_get_local_keypair_dh, h[!i]); Bytes p(CALL(b, noise_dhstate_get_public_key_length, s)); CALL(b, noise_dhstate_get_public_key, s, p.data(), p.size()); w.rc("peer key", CALL(b, noise_dhstate_set_public_key, CALL(b, noise_handshakestate_get_remote_public_key_dh, h[i]), p.data(), p.size())); }
        for (int i = 0; i < 2; ++i) w.rc("start", CALL(b, noise_handshakestate_start, h[i]));
        bool fb = rn(d, 3) == 0;     // the responder cannot read the first message, and both fall back
        for (int m = 0; m < 7; ++m) {
            int s = CALL(b, noise_handshakestate_get_action, h[1]) == NOISE_ACTION_WRITE_MESSAGE; if (CALL(b, noise_handshakestate_get_action, h[s]) != NOISE_ACTION_WRITE_MESSAGE) break;
            Bytes pay = d.bytes(rn(d, 120)), msg(8000), got(8000); NoiseBuffer pb, mb; noise_buffer_set_input(pb, pay.data(), pay.size()); noise_buffer_set_output(mb, msg.data(), msg.size());
            int r = CALL(b, noise_handshakestate_write_message, h[s], &mb, &pb); w.rc("write", r); if (r) break; w.by("message", msg.data(), mb.size);
            if (fb && !m && mb.size) msg[mb.size - 1] ^= 1;
            NoiseBuffer ib; noise_buffer_set_input(ib, msg.data(), mb.size); noise_buffer_set_output(pb, got.data(), got.size()); r = CALL(b, noise_handshakestate_read_message, h[!s], &ib, &pb); w.rc("read", r);
            if (r && fb && !m) {
                int ok = 0;
                for (int i = 0; i < 2; ++i) { int f = i || rn(d, 2) ? CALL(b, noise_handshakestate_fallback_to, h[i], pattern_by_id(o.suite.pattern)->hfs ? NOISE_PATTERN_XX_FALLBACK_HFS : NOISE_PATTERN_XX_FALLBACK) : CALL(b, noise_handshakestate_fallback, h[i]); w.rc("fallback", f); ok += !f; }
                for (int i = 0; i < 2 && ok == 2; ++i) { if (CALL(b, noise_handshakestate_needs_local_keypair, h[i])) w.rc("generate", CALL(b, noise_dhstate_generate_keypair, CALL(b, noise_handshakestate_get_local_keypair_dh, h[i]))); w.rc("start again", CALL(b, noise_handshakestate_start, h[i])); }
                if (ok == 2) { count("op:fallback"); continue; }
            }
            if (r) break; w.by("payload", got.data(), pb.size);
        }
        Bytes hh(32); w.rc("hash", CALL(b, noise_handshakestate_get_handshake_hash, h[0], hh.data(), 32)); w.by("handshake hash", hh);
        NoiseCipherState *c[4] = {0, 0, 0, 0}; w.rc("split", CALL(b, noise_handshakestate_split, h[0], &c[0], &c[1])); w.rc("split", CALL(b, noise_handshakestate_split, h[1], &c[2], &c[3]));
        if (c[0] && c[3]) pump(b, c[0], c[3], w, d, 1 + (int)rn(d, 2));
        if (c[2] && c[1]) pump(b, c[2], c[1], w, d, 1 + (int)rn(d, 2));
        for (auto x : c) if (x) CALL(b, noise_cipherstate_free, x);
    }
    for (auto x : h) if (x) CALL(b, noise_handshakestate_free, x);
}
static void x_rand(const Op &o, W &w, Data &d) {
    const Api *b = o.be; NoiseRandState *r = 0; w.rc("new", CALL(b, noise_randstate_new, &r)); if (!r) return;
    for (int i = 0, n = 1 + (int)rn(d, 4); i < n; ++i) switch (o.flavour < 4 ? 2 : rn(d, 4)) {
    case 0: w.rc("reseed", CALL(b, noise_randstate_reseed, r)); break;
    case 1: { Bytes x(1 + rn(d, 100)), p = d.bytes(x.size() / 2); memcpy(x.data(), p.data(), p.size()); w.rc("pad", CALL(b, noise_randstate_pad, r, x.data(), p.size(), x.size(), rn(d, 2) ? NOISE_PADDING_RANDOM : NOISE_PADDING_ZERO)); w.by("padded", x); break; }
    case 2: { Bytes x(rn(d, 100)); w.rc("simple", CALL(b, noise_randstate_generate_simple, x.data(), x.size())); w.by("random", x); break; }
    default: { Bytes x(len(d, 2000)); w.rc("generate", CALL(b, noise_randstate_generate, r, x.data(), x.size())); w.by("random", x); } }
    CALL(b, noise_randstate_free, r);
}
static void x_names(const Op &o, W &w, Data &d) {
    const Api *b = o.be; Str nm = o.suite.name(); NoiseProtocolId id; memset(&id, 0, sizeof id); w.rc("name to id", CALL(b, noise_protocol_name_to_id, &id, nm.c_str(), nm.size())); w.by("id", &id, sizeof id);
    char buf[128]; memset(buf, 0, sizeof buf); w.rc("id to name", CALL(b, noise_protocol_id_to_name, buf, sizeof buf, &id)); w.by("name", buf, sizeof buf);
    static const char *nn[] = {"ChaChaPoly", "AESGCM", "25519", "448", "NewHope", "SHA256", "BLAKE2s", "XX", "IK", "NoisePSK", "Ed25519", "bogus"};
    for (int i = 0; i < 6; ++i) { const char *s = nn[rn(d, 12)]; int x = CALL(b, noise_name_to_id, 0, s, strlen(s)); w.rc("id", x); const char *t = CALL(b, noise_id_to_name, 0, x); if (t) w.by("back", t, strlen(t)); memset(buf, 0, sizeof buf); int e = rn(d, 3) ? NOISE_ID('E', rn(d, 20)) : (int)(d.next() & 0xffff); w.rc("strerror", CALL(b, noise_strerror, e, buf, 1 + rn(d, 100))); w.by("text", buf, sizeof buf); }
    Bytes k = d.bytes(rn(d, 100)); memset(buf, 0, sizeof buf); w.rc("fingerprint", CALL(b, noise_format_fingerprint, rn(d, 2) ? NOISE_FINGERPRINT_BASIC : NOISE_FINGERPRINT_FULL, buf, sizeof buf, k.data(), k.size())); w.by("fingerprint", buf, sizeof buf);
}
static void x_rec(const Op &o, W &w, Data &, bool file, int tid) {
    const Api *b = o.be; void *x = 0; w.rc("build", lib_build(b, *o.rec, &x)); if (!x) return;
    Bytes e; w.rc("write", lib_write(b, o.rdef, x, e, 70000)); w.by("encoding", e);
    if (file) {
        Str path = "/conc/" + std::to_string(tid) + "-" + std::to_string(o.id);
        int r = o.rdef == R_CERT ? CALL(b, noise_save_certificate_to_file, (Noise_Certificate *)x, path.c_str()) : CALL(b, noise_save_certificate_chain_to_file, (Noise_CertificateChain *)x, path.c_str()); w.rc("save", r);
        auto f = DISK.files.find(path); w.by("file", f == DISK.files.end() ? Bytes() : f->second.data);
        if (o.rdef == R_CHAIN) { Noise_CertificateChain *c = 0; w.rc("load", CALL(b, noise_load_certificate_chain_from_file, &c, path.c_str())); if (c) { Str s = lib_extract(b, R_CHAIN, c).show(); w.by("loaded", s.data(), s.size()); lib_free(b, R_CHAIN, c); } }
        else { Noise_Certificate *c = 0; w.rc("load", CALL(b, noise_load_certificate_from_file, &c, path.c_str())); if (c) { Str s = lib_extract(b, R_CERT, c).show(); w.by("loaded", s.data(), s.size()); lib_free(b, R_CERT, c); } }
    }
    lib_free(b, o.rdef, x); x = 0; w.rc("read", lib_read(b, o.rdef, e, &x)); if (x) { Str s = lib_extract(b, o.rdef, x).show(); w.by("read back", s.data(), s.size()); lib_free(b, o.rdef, x); }
}
static void x_keyfile(const Op &o, W &w, Data &d, int tid) {
    const Api *b = o.be; Str path = "/conc/k" + std::to_string(tid) + "-" + std::to_string(o.id); DISK.files[path].data = o.sealed; Str pass = o.pass; if (rn(d, 5) == 0) pass += "x";
    Noise_PrivateKey *k = 0; w.rc("load key", CALL(b, noise_load_private_key_from_file, &k, path.c_str(), pass.data(), pass.size())); if (k) { Str s = lib_extract(b, R_PRIV, k).show(); w.by("key", s.data(), s.size()); lib_free(b, R_PRIV, k); }
}
static void x_savekey(const Op &o, W &w, Data &d, int tid) {
    const Api *b = o.be; void *x = 0; w.rc("build", lib_build(b, *o.rec, &x)); if (!x) return;
    Str path = "/conc/s" + std::to_string(tid) + "-" + std::to_string(o.id); const char *proto = o.flavour & 1 ? "AESGCM_SHA256_PBKDF2" : "ChaChaPoly_BLAKE2b_PBKDF2";
    w.rc("save key", CALL(b, noise_save_private_key_to_file, (Noise_PrivateKey *)x, path.c_str(), o.pass.data(), o.pass.size(), rn(d, 4) ? proto : "none"));
    auto f = DISK.files.find(path); w.by("key file", f == DISK.files.end() ? Bytes() : f->second.data);
    lib_free(b, R_PRIV, x); Noise_PrivateKey *k = 0; w.rc("load key", CALL(b, noise_load_private_key_from_file, &k, path.c_str(), o.pass.data(), o.pass.size())); if (k) { Str s = lib_extract(b, R_PRIV, k).show(); w.by("key", s.data(), s.size()); lib_free(b, R_PRIV, k); }
}
static void x_op(const Op &o, Prog &p) {
    W w{p, (int)o.id}; Data d("conc.op", o.id * 16 + p.tid); entropy_party(p.tid);
    try {
        switch (o.kind) {
        case K_HASH: x_hash(o, w, d); break; case K_KDF: x_kdf(o, w, d); break; case K_CIPHER: x_cipher(o, w, d); break; case K_DH: x_dh(o, w, d); break; case K_SIGN: x_sign(o, w, d); break;
        case K_SYM: x_sym(o, w, d); break; case K_SESSION: x_session(o, w, d); break; case K_RAND: x_rand(o, w, d); break; case K_NAMES: x_names(o, w, d); break;
        case K_REC: x_rec(o, w, d, false, p.tid); break; case K_FILE: x_rec(o, w, d, true, p.tid); break; case K_KEYFILE: x_keyfile(o, w, d, p.tid); break; case K_SAVEKEY: x_savekey(o, w, d, p.tid); break; case K_INIT: w.rc("init", CALL(o.be, noise_init)); break;
        }
    } catch (SutExit &e) { w.rc("exit", e.code); }
}
static void *thread_main(void *a) {
    Prog &p = *(Prog *)a; int me = p.solo ? 0 : p.tid;
    while (sem_wait(&T[me].sem)) {}
    sut_depth = 0; new_slice();
    for (auto &o : p.ops) x_op(o, p);
    settle(); g_on = false; T[me].alive = false;
    int o[MAXT], n = others(o);
    if (n) { g_on = true; g_cur = o[pick("sched.next", n)]; g_slice = g_left = 0; sem_post(&T[g_cur].sem); } else { g_cur = -1; sem_post(&g_main); }
    return 0;
}
static void run_threads(std::vector<Prog *> ps) {
    g_nthr = (int)ps.size(); g_switches = g_spins = g_total = g_atom = 0; g_hot = 0; g_writer.clear(); std::vector<pthread_t> th(g_nthr); const size_t SS = 1 << 20; std::vector<void *> stk;
    for (int i = 0; i < g_nthr; ++i) { T[i].alive = true; T[i].steps = 0; sem_init(&T[i].sem, 0, 0); }
    sem_init(&g_main, 0, 0);
    for (int i = 0; i < g_nthr; ++i) {   // fresh stacks, so that nothing is inherited from an earlier thread
        void *m = mmap(0, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) harness_error("mmap"); stk.push_back(m);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, m, SS); if (pthread_create(&th[i], &at, thread_main, ps[i])) harness_error("pthread_create"); pthread_attr_destroy(&at);
    }
    g_cur = 0; g_on = true; g_slice = g_left = FOREVER; sem_post(&T[0].sem); while (sem_wait(&g_main)) {}
    g_on = false; for (int i = 0; i < g_nthr; ++i) pthread_join(th[i], 0);
    for (void *m : stk) munmap(m, SS);
}
static void fresh_world(bool pristine) { for (int b = 0; b < BE_COUNT; ++b) { if (pristine) sut_globals_pristine(b); else sut_globals_restore(b); } entropy_restart(); DISK.files.clear(); }

void sc_conc() {
    KDF = KdfSeam(); KDF.cap = 2;     // a key derivation of 20000 rounds is too long to be stepped through
    sut_globals_range(&g_lo, &g_hi);
    int n = 2 + (pick("conc.threads", 3) == 2); bool same = pick("conc.same", 10) < 7; bool pristine = flip("conc.pristine", 250); const Api *b0 = &API[pick("be.c", BE_COUNT)];
    static const int wt[] = {K_HASH, K_KDF, K_CIPHER, K_DH, K_SIGN, K_SYM, K_SESSION, K_SESSION, K_RAND, K_NAMES, K_REC, K_FILE, K_KEYFILE, K_CIPHER, K_DH, K_REC, K_SAVEKEY, K_SAVEKEY};
    std::vector<Prog> prog(n); size_t nops = 1 + pick("conc.ops", 3); std::vector<int> kinds; std::vector<uint64_t> flav; std::vector<Suite> suites;
    for (size_t i = 0; i < nops; ++i) { kinds.push_back(wt[pick("conc.kind", 18)]); flav.push_back(pick("conc.flavour", 12)); suites.push_back(gen_suite("suite", true)); }
    extern bool g_rec_noinsert; g_rec_noinsert = true;
    for (int t = 0; t < n; ++t) {
        prog[t].tid = t; prog[t].solo = false; size_t k = same ? nops : 1 + pick("conc.ops", 3);
        if (pristine) { Op o; o.kind = K_INIT; o.id = 100; o.be = b0; o.psk = false; o.flavour = 0; prog[t].ops.push_back(o); }
        for (size_t i = 0; i < k; ++i) {
            Op o; o.id = (int)i; o.kind = same ? kinds[i] : wt[pick("conc.kind", 18)]; o.be = choose("conc.otherbe", 2, 100) ? &API[pick("be.c", BE_COUNT)] : b0; o.flavour = same ? flav[i] : pick("conc.flavour", 12); o.suite = same && pick("conc.samesuite", 2) ? suites[i] : gen_suite("suite", true); o.psk = o.suite.psk;
            if (o.kind == K_REC || o.kind == K_FILE) { o.rdef = o.kind == K_REC ? (int)pick("conc.def", R_COUNT) : pick("conc.chain", 2) ? R_CHAIN : R_CERT; o.rec = std::make_shared<Rec>(gen_rec(o.rdef, "rec.data", 1)); if (o.rdef == R_CHAIN && o.rec->f.count(8) && o.rec->f[8].empty()) o.rec->f.erase(8); }
            if (o.kind == K_SAVEKEY) { o.rec = std::make_shared<Rec>(gen_privkey("rec.data", true)); o.pass = "pass" + std::to_string(t); }
            if (o.kind == K_KEYFILE) { Rec r = gen_privkey("rec.data", true); o.pass = "pass" + std::to_string(t); o.sealed = enc_seal(r, Bytes(o.pass.begin(), o.pass.end()), pick("conc.alg", 2) ? "AESGCM_SHA256_PBKDF2" : "ChaChaPoly_BLAKE2b_PBKDF2", 2, Data("salt", t * 16 + i).bytes(16)); }
            count(Str("op:") + KN[o.kind]); prog[t].ops.push_back(o);
        }
    }
    // alone
    std::vector<Prog> ref = prog; uint64_t total = 0;
    g_regime = 0; g_span = 1 << 20;
    for (auto &p : ref) { p.solo = true; fresh_world(pristine); size_t live = HEAP.live.size(); run_threads({&p}); total += g_total; if (HEAP.live.size() != live) lg("solo leaves %zd blocks", (ssize_t)HEAP.live.size() - (ssize_t)live); }
    // together
    fresh_world(pristine); g_regime = (int)pick("sched.regime", 4); g_change.clear(); g_span = total;
    if (g_regime == 3) { for (size_t i = 0, k = 1 + pick("sched.changes", 6); i < k; ++i) g_change.push_back(pick("sched.at", total + 1)); std::sort(g_change.rbegin(), g_change.rend()); }
    g_gwrites = g_grw = 0; std::vector<Prog *> ps; for (auto &p : prog) ps.push_back(&p);
    run_threads(ps); sim_time(g_total);
    count("probe:switches", g_switches); count("probe:steps", g_total); count("probe:global-accesses", g_grw); count("probe:global-writes", g_gwrites); count("fault:preemption", g_switches); if (pristine) count("probe:uninitialised-library");
    lg("%d threads, %zu operations, regime %d, %llu steps, %llu switches", n, nops, g_regime, (unsigned long long)g_total, (unsigned long long)g_switches);
    state_seen(H64(H64(g_switches, g_total), H64(kinds[0], n * 4 + g_regime)));
    for (int t = 0; t < n; ++t) {
        asserted("C01"); auto &a = ref[t].out; auto &b = prog[t].out; uint64_t h = 7;
        for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
            if (i < a.size() && i < b.size() && a[i].what == b[i].what && a[i].v == b[i].v && a[i].op == b[i].op) { for (uint8_t c : b[i].v) h = (h ^ c) * 1099511628211ULL; continue; }
            const Out &x = i < a.size() ? a[i] : b[i]; int kind = K_INIT; for (auto &o : prog[t].ops) if (o.id == x.op) kind = o.kind;
            violate("C01", (Str("interference:") + KN[kind]).c_str(), "thread %d (%s, %s back end): the %s of operation %d is %s when the thread runs alone and %s when %d other threads with objects of their own run at the same time", t, KN[kind], prog[t].ops.back().be->name, x.what.c_str(), x.op, i < a.size() ? hex(a[i].v, 24).c_str() : "absent", i < b.size() ? hex(b[i].v, 24).c_str() : "absent", n - 1);
            return;
        }
        lg("thread %d: %zu results %016llx", t, b.size(), (unsigned long long)h);
    }
}
