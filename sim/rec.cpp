#include "rec.h"
#include <dlfcn.h>
const MDef SCHEMA[R_COUNT] = {
    {"Certificate", {{1, "version", F_U32, false, 0}, {2, "subject", F_MSG, false, R_SUBJECT}, {3, "signatures", F_MSG, true, R_SIG}}},
    {"CertificateChain", {{8, "certs", F_MSG, true, R_CERT}}},
    {"SubjectInfo", {{1, "id", F_STR, false, 0}, {2, "name", F_STR, false, 0}, {3, "role", F_STR, false, 0}, {4, "keys", F_MSG, true, R_PUBKEY}, {5, "meta", F_MSG, true, R_META}}},
    {"PublicKeyInfo", {{1, "algorithm", F_STR, false, 0}, {2, "key", F_BYTES, false, 0}}},
    {"MetaInfo", {{1, "name", F_STR, false, 0}, {2, "value", F_STR, false, 0}}},
    {"Signature", {{1, "id", F_STR, false, 0}, {2, "name", F_STR, false, 0}, {3, "signing_key", F_MSG, false, R_PUBKEY}, {4, "hash_algorithm", F_STR, false, 0}, {5, "extra_signed_info", F_MSG, false, R_EXTRA}, {15, "signature", F_BYTES, false, 0}}},
    {"ExtraSignedInfo", {{1, "nonce", F_BYTES, false, 0}, {2, "valid_from", F_STR, false, 0}, {3, "valid_to", F_STR, false, 0}, {4, "meta", F_MSG, true, R_META}}},
    {"EncryptedPrivateKey", {{10, "version", F_U32, false, 0}, {11, "algorithm", F_STR, false, 0}, {12, "salt", F_BYTES, false, 0}, {13, "iterations", F_U32, false, 0}, {15, "encrypted_data", F_BYTES, false, 0}}},
    {"PrivateKey", {{1, "id", F_STR, false, 0}, {2, "name", F_STR, false, 0}, {3, "role", F_STR, false, 0}, {4, "keys", F_MSG, true, R_PRIVINFO}, {5, "meta", F_MSG, true, R_META}}},
    {"PrivateKeyInfo", {{1, "algorithm", F_STR, false, 0}, {2, "key", F_BYTES, false, 0}}},
};
bool Val::operator==(const Val &o) const { return u == o.u && b == o.b && (!m == !o.m) && (!m || *m == *o.m); }
Str Rec::show() const {
    Str s = Str(SCHEMA[def].name) + "{";
    for (auto &d : SCHEMA[def].f) { auto it = f.find(d.tag); if (it == f.end()) continue;
        for (auto &v : it->second) { s += Str(d.name) + ":"; if (d.type == F_U32) s += std::to_string(v.u); else if (d.type == F_MSG) s += v.m->show(); else s += std::to_string(v.b.size()) + "/" + hex(v.b, 6); s += " "; } }
    return s + "}";
}
size_t Rec::weight() const { size_t n = 1; for (auto &x : f) for (auto &v : x.second) n += 1 + v.b.size() + (v.m ? v.m->weight() : 0); return n; }
static void put_varint(Bytes &o, uint64_t v) { while (v >= 128) { o.push_back((uint8_t)(v | 128)); v >>= 7; } o.push_back((uint8_t)v); }
Bytes rec_encode(const Rec &r) {
    Bytes o;
    for (auto &d : SCHEMA[r.def].f) {
        auto it = r.f.find(d.tag); if (it == r.f.end()) continue;
        for (auto &v : it->second) {
            put_varint(o, (uint64_t)d.tag << 3 | (d.type == F_U32 ? 0 : 2));
            if (d.type == F_U32) put_varint(o, v.u);
            else { Bytes b = d.type == F_MSG ? rec_encode(*v.m) : v.b; put_varint(o, b.size()); o.insert(o.end(), b.begin(), b.end()); }
        }
    }
    return o;
}
bool utf8_ok(const Bytes &b) {
    size_t i = 0, n = b.size();
    while (i < n) {
        uint32_t c = b[i]; int k;
        if (c < 0x80) k = 0; else if (c >= 0xC2 && c <= 0xDF) { k = 1; c &= 0x1F; } else if (c >= 0xE0 && c <= 0xEF) { k = 2; c &= 15; } else if (c >= 0xF0 && c <= 0xF4) { k = 3; c &= 7; } else return false;
        if (i + k >= n) return false;
        for (int j = 1; j <= k; ++j) { if ((b[i + j] & 0xC0) != 0x80) return false; c = c << 6 | (b[i + j] & 0x3F); }
        if ((k == 2 && c < 0x800) || (k == 3 && (c < 0x10000 || c > 0x10FFFF)) || (c >= 0xD800 && c <= 0xDFFF)) return false;
        i += k + 1;
    }
    return true;
}
static const FDef *field(int def, uint64_t tag) { for (auto &d : SCHEMA[def].f) if ((uint64_t)d.tag == tag) return &d; return nullptr; }
// 0 fine, 1 truncated or too long; *odd for encodings that overflow 64 bits
static bool get_varint(const Bytes &b, size_t &p, size_t end, uint64_t &v, bool &odd) {
    v = 0;
    for (int s = 0; s < 70; s += 7) {
        if (p >= end) return false;
        uint8_t c = b[p++];
        if (s == 63 && (c & 0x7E)) odd = true;
        v |= (uint64_t)(c & 0x7F) << s;
        if (!(c & 0x80)) return true;
    }
    return false;
}
static void merge(Rec &a, const Rec &b) { // protobuf semantics for a repeated occurrence of a singular message
    for (auto &x : b.f) {
        const FDef *d = field(a.def, x.first);
        if (d->rep) for (auto &v : x.second) a.f[x.first].push_back(v);
        else if (d->type == F_MSG && a.f.count(x.first)) { Val v; v.m = std::make_shared<Rec>(*a.f[x.first][0].m); merge(*v.m, *x.second[0].m); a.f[x.first][0] = v; }
        else a.f[x.first] = x.second;
    }
}
static bool parse(int def, const Bytes &b, size_t p, size_t end, bool merging, Rec &r, bool &mayrej, bool &merged) {
    while (p < end) {
        uint64_t key, v; bool odd = false;
        if (!get_varint(b, p, end, key, odd)) return false;
        if (odd || key >> 32) mayrej = true;
        uint64_t tag = key >> 3; int wt = key & 7;
        if (!tag) mayrej = true;
        const FDef *d = field(def, tag);
        size_t vs = p, len = 0;
        switch (wt) {
        case 0: if (!get_varint(b, p, end, v, odd)) return false; if (odd) mayrej = true; break;
        case 1: if (end - p < 8) return false; p += 8; break;
        case 5: if (end - p < 4) return false; p += 4; break;
        case 2: { uint64_t l; if (!get_varint(b, p, end, l, odd)) return false; if (odd) mayrej = true; if (l > end - p) return false; vs = p; len = l; p += l; break; }
        default: return false;
        }
        if (!d) continue;
        if (wt != (d->type == F_U32 ? 0 : 2)) { mayrej = true; continue; }
        Val x;
        if (d->type == F_U32) { x.u = (uint32_t)v; if (v >> 32) {} if (x.u) r.f[d->tag] = {x}; else r.f.erase(d->tag); continue; }
        if (d->type == F_MSG) {
            Rec c(d->msg); if (!parse(d->msg, b, vs, vs + len, merging, c, mayrej, merged)) return false;
            if (!d->rep && r.f.count(d->tag)) { merged = true; if (merging) { Rec o = *r.f[d->tag][0].m; merge(o, c); c = o; } }
            x.m = std::make_shared<Rec>(c);
        } else {
            x.b = Bytes(b.begin() + vs, b.begin() + vs + len);
            if (d->type == F_STR) { if (!utf8_ok(x.b)) return false; if (std::find(x.b.begin(), x.b.end(), 0) != x.b.end()) mayrej = true; }
        }
        if (d->rep) r.f[d->tag].push_back(x); else r.f[d->tag] = {x};
    }
    return true;
}
Parsed rec_parse(int def, const Bytes &b) {
    Parsed P; bool mr = false, mg = false; Rec r(def);
    P.ok = parse(def, b, 0, b.size(), false, r, mr, mg);
    P.may_reject = mr;
    if (P.ok) { P.alts.push_back(r); if (mg) { Rec q(def); bool x = false, y = false; parse(def, b, 0, b.size(), true, q, x, y); P.alts.push_back(q); } }
    return P;
}
void *lib_sym(const Api *be, const Str &name) {
    static std::map<std::pair<int, Str>, void *> c;
    auto &p = c[{be->id, name}];
    if (!p) { p = dlsym(be->handle, name.c_str()); if (!p) harness_error("no symbol %s", name.c_str()); }
    return p;
}
Str fn(int def, const char *verb, const char *f) { return Str("Noise_") + SCHEMA[def].name + "_" + verb + (f ? Str("_") + f : Str()); }
bool g_rec_noinsert;   // no choices while building (threads)
static int fill(const Api *be, const Rec &r, void *o) {
    for (auto &d : SCHEMA[r.def].f) {
        auto it = r.f.find(d.tag); if (it == r.f.end()) continue;
        size_t idx = 0;
        for (auto &v : it->second) {
            int e = 0;
            if (d.type == F_U32) e = LCALL(be, fset32, fn(r.def, "set", d.name), o, v.u);
            else if (d.type != F_MSG) { XBuf b(v.b); e = LCALL(be, fsetb, fn(r.def, "set", d.name), o, b.p, b.n); }
            else {
                void *c = (void *)1;
                if (!d.rep) e = LCALL(be, fadd, fn(r.def, "get_new", d.name), o, &c);
                else if (idx && !g_rec_noinsert && pick("rec.insert", 4) == 1) { // insert built object in front of the last one and put the last back: exercises insert
                    int x = lib_build(be, *v.m, &c);
                    if (x) return x;
                    e = LCALL(be, fins, fn(r.def, "insert", d.name), o, idx + pick("rec.insertpos", 3), c);
                    if (e) { lib_free(be, d.msg, c); return e; }
                    ++idx; continue;
                } else e = LCALL(be, fadd, fn(r.def, "add", d.name), o, &c);
                if (e && c) violate("M01", "object-after-error", "%s_%s fails with %s but hands out an object", SCHEMA[r.def].name, d.name, errname(e));
                if (!e) { if (!c) { violate("M01", "null-object", "%s_%s succeeds without an object", SCHEMA[r.def].name, d.name); return NOISE_ERROR_NO_MEMORY; } e = fill(be, *v.m, c); }
            }
            if (e) return e;
            ++idx;
        }
    }
    return 0;
}
int lib_build(const Api *be, const Rec &r, void **obj) {
    *obj = nullptr;
    int e = LCALL(be, fnew, fn(r.def, "new", 0), obj);
    if (e) { if (*obj) violate("M01", "object-after-error", "%s_new fails but hands out an object", SCHEMA[r.def].name); return e; }
    e = fill(be, r, *obj);
    if (e) { lib_free(be, r.def, *obj); *obj = nullptr; }
    return e;
}
void lib_free(const Api *be, int def, void *o) { if (o) LCALL(be, ffree, fn(def, "free", 0), o); }
Rec lib_extract(const Api *be, int def, void *o) {
    Rec r(def);
    for (auto &d : SCHEMA[def].f) {
        bool has = LCALL(be, fhas, fn(def, "has", d.name), o) != 0;
        if (d.type == F_U32) { Val v; v.u = LCALL(be, fget32, fn(def, "get", d.name), o); if (v.u) r.f[d.tag] = {v}; if (has != (v.u != 0)) violate("S01,S02,S04", "has-disagrees", "has_%s disagrees with get", d.name); continue; }
        if (d.rep) {
            size_t n = LCALL(be, fsz, fn(def, "count", d.name), o);
            for (size_t i = 0; i < n; ++i) { void *c = LCALL(be, fat, fn(def, "get_at", d.name), o, i); if (!c) { violate("M01,M03,S01,S02,S04", "null-element", "element %zu of %zu of %s.%s is missing", i, n, SCHEMA[def].name, d.name); continue; } Val v; v.m = std::make_shared<Rec>(lib_extract(be, d.msg, c)); r.f[d.tag].push_back(v); }
            if (LCALL(be, fat, fn(def, "get_at", d.name), o, n)) violate("M03,S04", "element-out-of-range", "%s.%s has an element beyond its count", SCHEMA[def].name, d.name);
            continue;
        }
        const void *p = LCALL(be, fgetb, fn(def, "get", d.name), o);
        if (has != (p != 0)) violate("S01,S02,S04", "has-disagrees", "has_%s disagrees with get", d.name);
        if (!p) { size_t n = d.type == F_MSG ? 0 : LCALL(be, fsz, fn(def, "get_size", d.name), o); if (n) violate("S04,M01", "size-without-value", "%s.%s is absent but has a size of %zu", SCHEMA[def].name, d.name, n); continue; }
        Val v;
        if (d.type == F_MSG) v.m = std::make_shared<Rec>(lib_extract(be, d.msg, (void *)p));
        else {
            size_t n = LCALL(be, fsz, fn(def, "get_size", d.name), o);
            v.b = Bytes((const uint8_t *)p, (const uint8_t *)p + n);
            if (d.type == F_STR && ((const char *)p)[n]) violate("M03,S02,S04", "unterminated-string", "%s.%s is not terminated", SCHEMA[def].name, d.name);
        }
        r.f[d.tag] = {v};
    }
    return r;
}
int lib_write(const Api *be, int def, void *o, Bytes &out, size_t cap) {
    out.clear(); XBuf b(cap); NoiseProtobuf pb;
    CALL(be, noise_protobuf_prepare_output, &pb, b.p, b.n);
    int e = LCALL(be, int (*)(NoiseProtobuf *, int, const void *), fn(def, "write", 0), &pb, 0, o);
    uint8_t *d = 0; size_t n = 0;
    if (!e) e = CALL(be, noise_protobuf_finish_output, &pb, &d, &n);
    if (!e) { if (d < b.p || d + n > b.p + b.n) { violate("M03", "output-outside-buffer", "a written %s lies outside the buffer", SCHEMA[def].name); return -1; } out = Bytes(d, d + n); }
    return e;
}
int lib_read(const Api *be, int def, const Bytes &in, void **obj) {
    XBuf b(in); NoiseProtobuf pb; *obj = (void *)1;
    CALL(be, noise_protobuf_prepare_input, &pb, b.p, b.n);
    int e = LCALL(be, int (*)(NoiseProtobuf *, int, void **), fn(def, "read", 0), &pb, 0, obj);
    if (e && *obj) { violate("M01,M03,S02", "object-after-error", "reading a %s fails with %s but hands out an object", SCHEMA[def].name, errname(e)); *obj = 0; }
    return e;
}
// ------------------------------------------------------------------ generation
static void put_utf8(Bytes &b, uint32_t c) {
    if (c < 0x80) b.push_back(c);
    else if (c < 0x800) { b.push_back(0xC0 | c >> 6); b.push_back(0x80 | (c & 63)); }
    else if (c < 0x10000) { b.push_back(0xE0 | c >> 12); b.push_back(0x80 | (c >> 6 & 63)); b.push_back(0x80 | (c & 63)); }
    else { b.push_back(0xF0 | c >> 18); b.push_back(0x80 | (c >> 12 & 63)); b.push_back(0x80 | (c >> 6 & 63)); b.push_back(0x80 | (c & 63)); }
}
static uint64_t g_seq;
static Bytes gen_text(const char *st, size_t n) {
    Data d(st, ++g_seq); Bytes b; bool ascii = choose("rec.unicode", 2, 350) == 0;
    while (b.size() < n) {
        uint64_t r = d.next(); uint32_t c;
        if (ascii) c = 32 + r % 95;
        else switch (r % 8) { case 0: c = 0x80 + (r >> 8) % 0x780; break; case 1: c = 0x800 + (r >> 8) % 0xD000; break; case 2: c = 0xE000 + (r >> 8) % 0x2000; break; case 3: c = 0x10000 + (r >> 8) % 0x100000; break;
            case 4: { static const uint32_t e[] = {1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0xFEFF, 0xFFFD}; c = e[(r >> 8) % 12]; break; } default: c = 32 + (r >> 8) % 95; }
        put_utf8(b, c);
    }
    return b;
}
static size_t rsize(const char *st, unsigned level) {
    uint64_t k = choose("rec.size", 5, 500);
    if (k == 0) return 1 + pick(st, 12);
    if (k == 1) return pick(st, 3);
    if (k == 2) return 120 + pick(st, 16);
    if (k == 3) return pick(st, 400);
    return level > 1 && flip("rec.huge", 100) ? 16370 + pick(st, 40) : pick(st, 40);
}
Val gen_val(const FDef &d, const char *st, unsigned level) {
    Val v;
    if (d.type == F_U32) { static const uint32_t e[] = {1, 2, 127, 128, 16383, 16384, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu}; v.u = e[choose("rec.u32", 9, 400)]; }
    else if (d.type == F_MSG) v.m = std::make_shared<Rec>(gen_rec(d.msg, st, level > 0 ? level - 1 : 0));
    else if (d.type == F_STR) v.b = gen_text(st, rsize(st, level));
    else { Data x(st, ++g_seq); v.b = x.bytes(rsize(st, level)); }
    return v;
}
Rec gen_rec(int def, const char *st, unsigned level) {
    Rec r(def);
    for (auto &d : SCHEMA[def].f) {
        if (d.rep) {
            uint64_t k = choose("rec.rep", 5, 600); size_t n = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : k == 3 ? 3 + pick("rec.repn", 4) : level > 0 && d.msg == R_META ? pick("rec.repn", 12) : 1;
            if (def == R_CHAIN && n == 0) n = pick("rec.chain0", 8) ? 1 + pick("rec.chainn", 3) : 0;
            if ((d.msg == R_META || d.msg == R_PUBKEY) && flip("rec.many", 8)) n = 60 + pick("rec.repn", 80);
            for (size_t i = 0; i < n; ++i) { Val v; v.m = std::make_shared<Rec>(gen_rec(d.msg, st, level > 0 ? level - 1 : 0)); r.f[d.tag].push_back(v); }
            continue;
        }
        if (flip("rec.absent", 250)) continue;
        r.f[d.tag] = {gen_val(d, st, level)};
    }
    return r;
}
Rec gen_privkey(const char *st, bool real) {
    Rec r = gen_rec(R_PRIV, st, 1); if (!real) return r;
    r.f.erase(4); size_t n = 1 + pick("rec.nkeys", 3);
    for (size_t i = 0; i < n; ++i) {
        static const char *alg[] = {"25519", "448", "Ed25519"}; int a = (int)pick("rec.alg", 3); Rec k(R_PRIVINFO); Data x(st, ++g_seq);
        Val v; v.b = Bytes(alg[a], alg[a] + strlen(alg[a])); k.f[1] = {v}; v.b = x.bytes(a == 1 ? 56 : 32); k.f[2] = {v};
        v = Val(); v.m = std::make_shared<Rec>(k); r.f[4].push_back(v);
    }
    return r;
}
// ------------------------------------------------------------------ encrypted container
bool alg_parse(const Bytes &name, int &c, int &h) {
    Str s(name.begin(), name.end()); size_t a = s.find('_'), b = a == Str::npos ? a : s.find('_', a + 1);
    if (b == Str::npos || s.substr(b + 1) != "PBKDF2") return false;
    Str cs = s.substr(0, a), hs = s.substr(a + 1, b - a - 1);
    if (cs == "ChaChaPoly") c = C_CHACHA; else if (cs == "AESGCM") c = C_AESGCM; else return false;
    if (hs == "BLAKE2s") h = H_B2S; else if (hs == "BLAKE2b") h = H_B2B; else if (hs == "SHA256") h = H_SHA256; else if (hs == "SHA512") h = H_SHA512; else return false;
    return true;
}
static uint64_t be64(const uint8_t *p) { uint64_t n = 0; for (int i = 0; i < 8; ++i) n = n << 8 | p[i]; return n; }
Bytes enc_seal(const Rec &key, const Bytes &pass, const Str &alg, uint32_t iter, const Bytes &salt) {
    int c, h; Bytes an(alg.begin(), alg.end()); if (!alg_parse(an, c, h)) harness_error("bad algorithm");
    Bytes kd = m_pbkdf2(h, pass, salt, iter, 40); Bytes k(kd.begin(), kd.begin() + 32);
    Rec e(R_ENC); Val v; v.u = 1; e.f[10] = {v}; v = Val(); v.b = an; e.f[11] = {v}; v.b = salt; e.f[12] = {v}; v = Val(); v.u = iter; if (iter) e.f[13] = {v}; v = Val(); v.b = m_aead_enc(c, k, be64(&kd[32]), Bytes(), rec_encode(key)); e.f[15] = {v};
    return rec_encode(e);
}
// opens a container: true if it is valid under the passphrase
bool enc_open(const Bytes &file, const Bytes &pass, Rec &key, bool *huge, Parsed *outer) {
    Parsed P = rec_parse(R_ENC, file); if (outer) *outer = P; if (huge) *huge = false;
    if (!P.ok) return false;
    Rec &e = P.alts[0];
    if (!e.f.count(10) || e.f[10][0].u != 1 || !e.f.count(11) || !e.f.count(12) || !e.f.count(13) || !e.f.count(15)) return false;
    int c, h; Bytes an = e.f[11][0].b; { size_t z = std::find(an.begin(), an.end(), 0) - an.begin(); an.resize(z); }
    if (!alg_parse(an, c, h)) return false;
    if (e.f[13][0].u > 40000) { if (huge) *huge = true; return false; }
    Bytes kd = m_pbkdf2(h, pass, e.f[12][0].b, e.f[13][0].u, 40), pt;
    if (!m_aead_dec(c, Bytes(kd.begin(), kd.begin() + 32), be64(&kd[32]), Bytes(), e.f[15][0].b, pt)) return false;
    Parsed Q = rec_parse(R_PRIV, pt); if (!Q.ok) return false;
    key = Q.alts[0]; return true;
}
