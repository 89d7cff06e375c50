// Scenario "gen": code that noise-protoc generated from random definitions (schema.cpp) is compiled and put to work:
// records are edited, written, read, cleared and freed while allocations fail and the bytes on the wire are damaged.
// The model knows the definition only, not the code.
#include "party.h"
#include "rec.h"
#include "schema.h"
Str schema_source(uint64_t seed) { Schema s = schema_make(seed); Rng r{seed * 31 + 5}; return "// Definition " + std::to_string(seed) + "\n" + tokens_text(schema_tokens(s, r, seed != 0), r); }
namespace {
struct GRec; struct GVal { uint64_t u = 0; Bytes b; std::shared_ptr<GRec> m; bool operator==(const GVal &o) const; };
struct GRec { int msg; std::map<uint32_t, std::vector<GVal>> f; explicit GRec(int m) : msg(m) {} bool operator==(const GRec &o) const { return msg == o.msg && f == o.f; } };
bool GVal::operator==(const GVal &o) const { return u == o.u && b == o.b && !m == !o.m && (!m || *m == *o.m); }
Schema S; const Api *B; bool g_short; uint64_t g_seq2;
bool is64(int t) { return t == P_INT64 || t == P_UINT64 || t == P_SINT64 || t == P_FIXED64 || t == P_SFIXED64 || t == P_DOUBLE; }
bool rep(const PField &f) { return f.label == L_PACKED || f.label == L_LIST; }
Str show(const GRec &r, int depth = 0) {
    Str s = S.m[r.msg].simple + "{"; size_t k = 0;
    for (auto &x : r.f) { const PField *f = S.m[r.msg].by_tag(x.first); for (auto &v : x.second) { if (++k > 12) return s + "..."; s += f->name + ":"; char b[40]; if (p_num(f->type)) { snprintf(b, 40, "%llx", (unsigned long long)v.u); s += b; } else if (f->type == P_MSG) s += depth > 2 ? "{...}" : show(*v.m, depth + 1); else s += std::to_string(v.b.size()) + "/" + hex(v.b, 6); s += " "; } }
    return s + "}";
}
size_t weight(const GRec &r) { size_t n = 1; for (auto &x : r.f) for (auto &v : x.second) n += 1 + v.b.size() / 8 + (v.m ? weight(*v.m) : 0); return n; }
GRec deep(const GRec &r) { GRec o(r.msg); for (auto &x : r.f) for (auto v : x.second) { if (v.m) v.m = std::make_shared<GRec>(deep(*v.m)); o.f[x.first].push_back(v); } return o; }
// ---- wire format, from the protobuf specification
void vint(Bytes &o, uint64_t v) { while (v >= 128) { o.push_back((uint8_t)(v | 128)); v >>= 7; } o.push_back((uint8_t)v); }
int wire(int t) { switch (t) { case P_FIXED32: case P_SFIXED32: case P_FLOAT: return 5; case P_FIXED64: case P_SFIXED64: case P_DOUBLE: return 1; case P_STRING: case P_BYTES: case P_MSG: return 2; default: return 0; } }
void num_bytes(Bytes &o, int t, uint64_t u) {
    switch (t) {
    case P_INT32: vint(o, (uint64_t)(int64_t)(int32_t)u); break; case P_SINT32: { int32_t v = (int32_t)u; vint(o, (uint32_t)v << 1 ^ (uint32_t)(v >> 31)); break; } case P_SINT64: { int64_t v = (int64_t)u; vint(o, (uint64_t)v << 1 ^ (uint64_t)(v >> 63)); break; }
    case P_BOOL: vint(o, u ? 1 : 0); break; case P_UINT32: case P_INT64: case P_UINT64: vint(o, u); break;
    default: for (int i = 0; i < (wire(t) == 5 ? 4 : 8); ++i) o.push_back((uint8_t)(u >> (8 * i)));
    }
}
uint64_t num_of(int t, uint64_t raw) { switch (t) { case P_INT32: case P_UINT32: return (uint32_t)raw; case P_SINT32: { uint32_t v = (uint32_t)raw; return (uint32_t)((v >> 1) ^ (0 - (v & 1))); } case P_SINT64: return (raw >> 1) ^ (0 - (raw & 1)); case P_BOOL: return raw != 0; default: return raw; } }
void key(Bytes &o, const PField &f, int w) { vint(o, (uint64_t)f.tag << 3 | w); }
Bytes encode(const GRec &r, bool odd) {
    std::vector<Bytes> parts; size_t fixed = 0;
    auto junk = [&](std::vector<Bytes> &p) { uint32_t t = 1 + (uint32_t)pick("gen.junktag", 300); if (S.m[r.msg].by_tag(t)) return; Bytes o; Data d("genjunk", ++g_seq2); switch (pick("gen.junk", 4)) { case 0: vint(o, t << 3); vint(o, d.next()); break; case 1: vint(o, t << 3 | 1); { Bytes x = d.bytes(8); o.insert(o.end(), x.begin(), x.end()); } break; case 2: vint(o, t << 3 | 2); { Bytes x = d.bytes(pick("gen.junklen", 40)); vint(o, x.size()); o.insert(o.end(), x.begin(), x.end()); } break; default: vint(o, t << 3 | 5); { Bytes x = d.bytes(4); o.insert(o.end(), x.begin(), x.end()); } } p.push_back(o); };
    for (auto &f : S.m[r.msg].f) {
        auto it = r.f.find(f.tag); if (it == r.f.end()) continue; Bytes one;
        if (odd && !rep(f) && flip("gen.twice", 60)) { Data d("gentwice", ++g_seq2); key(one, f, wire(f.type)); if (f.type == P_MSG) vint(one, 0); /* merged or replaced: the same */ else if (p_num(f.type)) num_bytes(one, f.type, num_of(f.type, is64(f.type) ? d.next() : (uint32_t)d.next())); else { vint(one, 3); one.insert(one.end(), {'o', 'l', 'd'}); } }
        if (f.label == L_PACKED) { size_t i = 0; do { Bytes in; size_t upto = odd && flip("gen.splitpack", 150) ? i + pick("gen.splitat", it->second.size() - i + 1) : it->second.size(); for (; i < upto; ++i) num_bytes(in, f.type, it->second[i].u); key(one, f, 2); vint(one, in.size()); one.insert(one.end(), in.begin(), in.end()); } while (i < it->second.size()); }
        else for (auto &v : it->second) { key(one, f, wire(f.type)); if (p_num(f.type)) num_bytes(one, f.type, v.u); else { Bytes b = f.type == P_MSG ? encode(*v.m, odd) : v.b; vint(one, b.size()); one.insert(one.end(), b.begin(), b.end()); } }
        parts.push_back(one); if (odd && flip("gen.withjunk", 80)) junk(parts);
    }
    (void)fixed; if (odd) for (size_t i = parts.size(); i > 1; --i) if (flip("gen.shuffle", 300)) std::swap(parts[i - 1], parts[pick("gen.shuffleto", i)]);
    Bytes o; for (auto &p : parts) o.insert(o.end(), p.begin(), p.end()); return o;
}
bool get(const Bytes &b, size_t &p, size_t e, uint64_t &v, bool &odd) { v = 0; for (int s = 0; s < 70; s += 7) { if (p >= e) return false; uint8_t c = b[p++]; if (s == 63 && (c & 0x7E)) odd = true; v |= (uint64_t)(c & 127) << s; if (!(c & 128)) return true; } return false; }
struct P { bool ok = false, may_reject = false, vague = false, form = false; GRec r{0}; };   // vague: several readings; form: a list is not written the way the definition says
bool num_read(int t, const Bytes &b, size_t &p, size_t e, uint64_t &u, bool &odd) { uint64_t v; if (wire(t) == 0) { if (!get(b, p, e, v, odd)) return false; if (t == P_SINT32 && v >> 32) odd = true; u = num_of(t, v); return true; } size_t n = wire(t) == 5 ? 4 : 8; if (e - p < n) return false; u = 0; for (size_t i = 0; i < n; ++i) u |= (uint64_t)b[p + i] << (8 * i); p += n; return true; }
bool parse(const Bytes &b, size_t p, size_t e, GRec &r, P &st) {
    while (p < e) {
        uint64_t k, v; bool odd = false; if (!get(b, p, e, k, odd)) return false;
        if (odd || k >> 32 || !(k >> 3)) st.may_reject = true;
        const PField *f = k >> 35 ? nullptr : S.m[r.msg].by_tag((uint32_t)(k >> 3)); int w = k & 7; size_t vs = p, len = 0;
        if (f && w == wire(f->type) && p_num(f->type)) { GVal x; if (!num_read(f->type, b, p, e, x.u, odd)) return false; if (odd) st.may_reject = st.vague = true; if (f->label == L_PACKED) { st.may_reject = st.vague = st.form = true; } if (rep(*f)) r.f[f->tag].push_back(x); else if (x.u) r.f[f->tag] = {x}; else r.f.erase(f->tag); continue; }
        switch (w) { case 0: if (!get(b, p, e, v, odd)) return false; break; case 1: if (e - p < 8) return false; p += 8; break; case 5: if (e - p < 4) return false; p += 4; break; case 2: { uint64_t l; if (!get(b, p, e, l, odd)) return false; if (l > e - p) return false; vs = p; len = l; p += l; break; } default: return false; }
        if (odd) st.may_reject = true;
        if (!f) continue;
        if (w != 2 || (p_num(f->type) && !rep(*f))) { st.may_reject = st.vague = true; continue; }
        if (p_num(f->type)) { if (f->label == L_LIST) st.may_reject = st.vague = st.form = true; size_t q = vs; while (q < vs + len) { GVal x; bool od = false; if (!num_read(f->type, b, q, vs + len, x.u, od)) { if (f->label == L_LIST) return true; return false; } if (od) st.may_reject = st.vague = true; r.f[f->tag].push_back(x); } continue; }
        GVal x;
        if (f->type == P_MSG) { GRec c(f->msg); if (!parse(b, vs, vs + len, c, st)) return false; if (!rep(*f) && r.f.count(f->tag) && !(*r.f[f->tag][0].m == GRec(f->msg))) st.vague = true; x.m = std::make_shared<GRec>(c); }
        else { x.b = Bytes(b.begin() + vs, b.begin() + vs + len); if (f->type == P_STRING) { if (!utf8_ok(x.b)) return false; if (std::find(x.b.begin(), x.b.end(), 0) != x.b.end()) { st.may_reject = true; } } }
        if (rep(*f)) r.f[f->tag].push_back(x); else r.f[f->tag] = {x};
    }
    return true;
}
P parse(int msg, const Bytes &b) { P st; st.r = GRec(msg); st.ok = parse(b, 0, b.size(), st.r, st); return st; }
// what a reader finds after the record was written: a required string or message that is absent arrives empty
GRec arrived(const GRec &r) { GRec o(r.msg); for (auto &f : S.m[r.msg].f) { auto it = r.f.find(f.tag); if (it != r.f.end()) { for (auto v : it->second) { if (v.m) v.m = std::make_shared<GRec>(arrived(*v.m)); o.f[f.tag].push_back(v); } } else if (f.label == L_REQUIRED && !p_num(f.type)) { GVal v; if (f.type == P_MSG) v.m = std::make_shared<GRec>(GRec(f.msg)); o.f[f.tag] = {v}; } } return o; }
// ---- the generated functions
Str gn(int m, const char *verb, const PField *f = 0) { return S.m[m].cname + "_" + verb + (f ? "_" + f->name : Str()); }
int num_put(const Str &n, void *o, int t, uint64_t u) { if (t == P_FLOAT) { float x; uint32_t w = (uint32_t)u; memcpy(&x, &w, 4); return LCALL(B, int (*)(void *, float), n, o, x); } if (t == P_DOUBLE) { double x; memcpy(&x, &u, 8); return LCALL(B, int (*)(void *, double), n, o, x); } if (is64(t)) return LCALL(B, int (*)(void *, uint64_t), n, o, u); return LCALL(B, int (*)(void *, uint32_t), n, o, (uint32_t)u); }
uint64_t num_get(const Str &n, const void *o, int t, size_t at) {
    if (t == P_FLOAT) { float x = LCALL(B, float (*)(const void *, size_t), n, o, at); uint32_t w; memcpy(&w, &x, 4); return w; }
    if (t == P_DOUBLE) { double x = LCALL(B, double (*)(const void *, size_t), n, o, at); uint64_t w; memcpy(&w, &x, 8); return w; }
    if (is64(t)) return LCALL(B, uint64_t (*)(const void *, size_t), n, o, at);
    uint32_t w = LCALL(B, uint32_t (*)(const void *, size_t), n, o, at); return t == P_BOOL ? w != 0 : w;
}
bool num_zero(int t, uint64_t u) { if (t == P_FLOAT) return !(uint32_t)(u << 1); if (t == P_DOUBLE) return !(u << 1); return !u; }
void *gnew(int m) { void *o = (void *)1; int r = LCALL(B, int (*)(void **), gn(m, "new"), &o); if (r) { if (o) violate("K03", "object-after-error", "%s fails with %s but hands out an object", gn(m, "new").c_str(), errname(r)); return 0; } if (!o) violate("K03", "null-object", "%s succeeds without an object", gn(m, "new").c_str()); return o; }
void gfree(int m, void *o) { if (o) { int r = LCALL(B, int (*)(void *), gn(m, "free"), o); if (r) violate("K03", "free-fails", "%s fails with %s", gn(m, "free").c_str(), errname(r)); } }
GRec extract(int m, void *o) {
    GRec r(m);
    for (auto &f : S.m[m].f) {
        bool has = LCALL(B, int (*)(const void *), gn(m, "has", &f), o) != 0; auto bad = [&](const char *cls, const char *what) { violate("K03", cls, "%s of %s field %s (%s)", what, S.m[m].full.c_str(), f.name.c_str(), f.type < P_MSG ? PNAME[f.type] : "message"); };
        if (rep(f)) {
            size_t n = LCALL(B, size_t (*)(const void *), gn(m, "count", &f), o); if (has != (n != 0)) bad("has-disagrees", "has() disagrees with count()");
            if (n > 100000) { bad("list-length", "an impossible number of elements"); return r; }
            for (size_t i = 0; i <= n; ++i) {
                GVal v; bool over = i == n;
                if (p_num(f.type)) { v.u = num_get(gn(m, "get_at", &f), o, f.type, i); if (over && v.u) bad("element-out-of-range", "a value beyond the end"); }
                else { void *p = LCALL(B, void *(*)(const void *, size_t), gn(m, "get_at", &f), o, i); if (over) { if (p) bad("element-out-of-range", "an element beyond the end"); } else if (!p) { bad("null-element", "a missing element"); continue; }
                    if (f.type == P_MSG) { if (!over) v.m = std::make_shared<GRec>(extract(f.msg, p)); }
                    else { size_t z = LCALL(B, size_t (*)(const void *, size_t), gn(m, "get_size_at", &f), o, i); if (over) { if (z) bad("element-out-of-range", "a size beyond the end"); } else { v.b = Bytes((uint8_t *)p, (uint8_t *)p + z); if (f.type == P_STRING && ((char *)p)[z]) bad("unterminated-string", "no terminator"); } } }
                if (!over) r.f[f.tag].push_back(v);
            }
            continue;
        }
        GVal v;
        if (p_num(f.type)) { v.u = num_get(gn(m, "get", &f), o, f.type, 0); if (has != (f.label == L_REQUIRED || !num_zero(f.type, v.u))) bad("has-disagrees", "has() disagrees with get()"); if (!v.u) continue; }
        else {
            void *p = LCALL(B, void *(*)(const void *), gn(m, "get", &f), o); if (has != (p != 0)) bad("has-disagrees", "has() disagrees with get()");
            size_t z = f.type == P_MSG ? 0 : LCALL(B, size_t (*)(const void *), gn(m, "get_size", &f), o); if (!p) { if (z) bad("size-without-value", "a size without a value"); continue; }
            if (f.type == P_MSG) v.m = std::make_shared<GRec>(extract(f.msg, p)); else { v.b = Bytes((uint8_t *)p, (uint8_t *)p + z); if (f.type == P_STRING && ((char *)p)[z]) bad("unterminated-string", "no terminator"); }
        }
        r.f[f.tag] = {v};
    }
    return r;
}
// ---- values
Bytes some_bytes(bool text) {
    Data d("gendata", ++g_seq2); uint64_t k = choose("gen.size", 5, 400); size_t n = k == 0 ? 1 + pick("gen.len", 12) : k == 1 ? pick("gen.len", 3) : k == 2 ? 120 + pick("gen.len", 16) : k == 3 ? pick("gen.len", 300) : flip("gen.huge", 60) ? 16370 + pick("gen.len", 40) : pick("gen.len", 30);
    if (!text) return d.bytes(n);
    Bytes b; while (b.size() < n) { uint64_t r = d.next(); static const char *u[] = {"\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x94\x91", "\x7F", "\xED\x9F\xBF", "\xF4\x8F\xBF\xBF"}; Str x = r % 5 ? Str(1, (char)(32 + r % 95)) : u[(r >> 8) % 6]; b.insert(b.end(), x.begin(), x.end()); } return b;
}
uint64_t some_num(int t) {
    static const uint64_t e[] = {1, 2, 127, 128, 16383, 16384, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x100000000ULL, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, ~0ULL, ~0ULL - 1, 0x3F800000, 0xBFF0000000000000ULL};
    Data d("gennum", ++g_seq2); uint64_t k = choose("gen.num", 18, 700), v = k < 16 ? e[k] : k == 16 ? d.next() : 0; if (t == P_BOOL) return v & 1; if (!is64(t)) v = (uint32_t)v;
    if (t == P_FLOAT && (v & 0x7F800000) == 0x7F800000) v &= ~0x007FFFFFULL; if (t == P_DOUBLE && (v & 0x7FF0000000000000ULL) == 0x7FF0000000000000ULL) v &= ~0xFFFFFFFFFFFFFULL;   // infinities, but no signalling NaN
    return v;
}
GRec some_rec(int m, int depth) {
    GRec r(m);
    for (auto &f : S.m[m].f) {
        if (flip("gen.absent", 350)) continue;
        if (f.type == P_MSG && depth > 2) continue;
        size_t n = rep(f) ? 1 + choose("gen.count", 6, 400) : 1; if (rep(f) && f.type != P_MSG && flip("gen.many", 25)) n = 20 + pick("gen.manyn", 120);
        for (size_t i = 0; i < n; ++i) { GVal v; if (p_num(f.type)) v.u = some_num(f.type); else if (f.type == P_MSG) v.m = std::make_shared<GRec>(some_rec(f.msg, depth + 1)); else v.b = some_bytes(f.type == P_STRING); if (!rep(f) && p_num(f.type) && !v.u) continue; r.f[f.tag].push_back(v); }
        if (depth && weight(r) > 300) break;
    }
    return r;
}
void arm() { heap_mark(); if (g_short && flip("gen.oom", 250)) { if (pick("gen.oomlate", 3) == 0) HEAP.fail_at.insert(1 + pick("gen.oomfar", 60)); else HEAP.fail_at.insert(1 + choose("gen.oomat", 6, 500)); } }
bool disarm() { bool f = HEAP.failed > 0; heap_faults_off(); HEAP.failed = 0; return f; }
struct Doc { int msg; void *o; GRec r; };
bool compare(const Doc &d, const char *what) { asserted("K03"); GRec got = extract(d.msg, d.o); if (violated()) return false; if (got == d.r) return true; violate("K03", "record-differs", "after %s the record holds %.900s, it should hold %.900s", what, show(got).c_str(), show(d.r).c_str()); return false; }
int fill(void *o, const GRec &r);
int gbuild(const GRec &r, void **o) { *o = gnew(r.msg); if (!*o) return NOISE_ERROR_NO_MEMORY; int e = fill(*o, r); if (e) { gfree(r.msg, *o); *o = 0; } return e; }
int fill(void *o, const GRec &r) {
    for (auto &x : r.f) { const PField &f = *S.m[r.msg].by_tag(x.first); size_t i = 0;
        for (auto &v : x.second) { int e; ++i;
            if (p_num(f.type)) e = num_put(gn(r.msg, rep(f) ? "add" : "set", &f), o, f.type, v.u);
            else if (f.type != P_MSG) { XBuf b(v.b); e = LCALL(B, int (*)(void *, const void *, size_t), gn(r.msg, rep(f) ? "add" : "set", &f), o, b.p, b.n); }
            else { void *c = (void *)1; e = LCALL(B, int (*)(void *, void **), gn(r.msg, rep(f) ? "add" : "get_new", &f), o, &c); if (e && c) violate("K03", "object-after-error", "%s fails but hands out an object", f.name.c_str()); if (!e) e = fill(c, *v.m); }
            if (e) return e; } }
    return 0;
}
void edit(Doc &d) {
    void *o = d.o; GRec *r = &d.r;
    while (pick("gen.down", 3)) { std::vector<std::pair<const PField *, size_t>> kids; for (auto &f : S.m[r->msg].f) { auto it = r->f.find(f.tag); if (f.type == P_MSG && it != r->f.end()) for (size_t i = 0; i < it->second.size(); ++i) kids.push_back({&f, i}); } if (kids.empty()) break; auto k = kids[pick("gen.child", kids.size())]; o = rep(*k.first) ? LCALL(B, void *(*)(const void *, size_t), gn(r->msg, "get_at", k.first), o, k.second) : LCALL(B, void *(*)(const void *), gn(r->msg, "get", k.first), o); r = r->f[k.first->tag][k.second].m.get(); if (!o) { violate("K03", "null-element", "a message field is missing"); return; } }
    const PField &f = S.m[r->msg].f[pick("gen.field", S.m[r->msg].f.size())]; auto old = r->f.count(f.tag) ? r->f[f.tag] : std::vector<GVal>(); size_t live = HEAP.live.size(); char what[200]; Str fname;
    auto put = [&](const std::vector<GVal> &v) { if (v.empty()) r->f.erase(f.tag); else r->f[f.tag] = v; };
    auto name = [&](const char *verb) { fname = gn(r->msg, verb, &f); snprintf(what, sizeof what, "%s on %zu", fname.c_str(), old.size()); return fname; };
    auto check = [&](int e, bool mem, bool leaks = true) { if (!e) return true; if (!mem) violate("K03", "edit-fails", "%s fails with %s although nothing is short", what, errname(e)); else { count("probe:gen-edit-failed"); asserted("M01"); if (e != NOISE_ERROR_NO_MEMORY) violate("K03", "edit-error", "%s fails with %s when memory is short", what, errname(e)); if (leaks && HEAP.live.size() > live) violate("K03,M01", "leak:generated-edit", "%s fails and leaves memory allocated", what); } return false; };
    unsigned op = (unsigned)choose("gen.op", 4, 500);
    if (op == 1 && (!rep(f) || old.size() < 4 || pick("gen.keep", 3) == 0)) { int e = LCALL(B, int (*)(void *), name("clear"), o); check(e, false); put({}); count("op:gen-clear"); }
    else if (p_num(f.type)) { GVal v; v.u = some_num(f.type); size_t n = rep(f) && op == 2 ? 1 + pick("gen.run", 40) : 1; int e = 0; arm();
        for (size_t i = 0; i < n && !e; ++i) { live = HEAP.live.size(); e = num_put(name(rep(f) ? "add" : "set"), o, f.type, v.u); if (!e) { if (rep(f)) { old.push_back(v); put(old); } else put(v.u ? std::vector<GVal>{v} : std::vector<GVal>()); } }
        bool mem = disarm(); check(e, mem); count("op:gen-number"); }
    else if (f.type != P_MSG) { GVal v; v.b = some_bytes(f.type == P_STRING); XBuf b(v.b); arm(); int e = LCALL(B, int (*)(void *, const void *, size_t), name(rep(f) ? "add" : "set"), o, v.b.empty() && pick("gen.null", 2) && rep(f) ? (uint8_t *)0 : b.p, b.n); bool mem = disarm(); count("op:gen-bytes");
        if (check(e, mem)) { if (rep(f)) { old.push_back(v); put(old); } else put({v}); }
        else if (!rep(f) && !violated() && !LCALL(B, int (*)(const void *), gn(r->msg, "has", &f), o)) put({}); }
    else if (!rep(f)) { void *c = (void *)1; arm(); int e = LCALL(B, int (*)(void *, void **), name("get_new"), o, &c); bool mem = disarm(); count("op:gen-new"); if (check(e, mem)) { GVal v; v.m = std::make_shared<GRec>(GRec(f.msg)); put({v}); if (c != LCALL(B, void *(*)(const void *), gn(r->msg, "get", &f), o)) violate("K03", "other-object", "%s hands out another object than the one in place", what); } else { if (c) violate("K03", "object-after-error", "%s fails but hands out an object", what); if (!LCALL(B, int (*)(const void *), gn(r->msg, "has", &f), o)) put({}); } }
    else if (op != 3) { void *c = (void *)1; arm(); int e = LCALL(B, int (*)(void *, void **), name("add"), o, &c); bool mem = disarm(); count("op:gen-add"); if (check(e, mem)) { GVal v; v.m = std::make_shared<GRec>(GRec(f.msg)); old.push_back(v); put(old); } else if (c) violate("K03", "object-after-error", "%s fails but hands out an object", what); }
    else { GRec x = some_rec(f.msg, 2); void *c = 0; if (gbuild(x, &c)) { violate("K03", "build-fails", "a record of %s cannot be built", S.m[f.msg].full.c_str()); return; } live = HEAP.live.size(); size_t at = pick("gen.past", 6) ? pick("gen.at", old.size() + 1) : old.size() + pick("gen.beyond", 3); arm(); int e = LCALL(B, int (*)(void *, size_t, void *), name("insert"), o, at, c); bool mem = disarm(); count("op:gen-insert");
        if (check(e, mem)) { GVal v; v.m = std::make_shared<GRec>(deep(x)); old.insert(old.begin() + std::min(at, old.size()), v); put(old); } else gfree(f.msg, c); }
    lg("%s", what); state_seen(H64(H64(hstr(fname.c_str()), std::min<size_t>(old.size(), 40)), op));
    if (!violated()) compare(d, what);
}
int gread(int m, const Bytes &in, void **o) { XBuf b(in); NoiseProtobuf pb; *o = (void *)1; CALL(B, noise_protobuf_prepare_input, &pb, b.p, b.n); int e = LCALL(B, int (*)(NoiseProtobuf *, int, void **), gn(m, "read"), &pb, 0, o); if (!e) { int e2 = CALL(B, noise_protobuf_finish_input, &pb); if (e2) violate("K03", "input-left-over", "reading %s succeeds but finishing fails with %s", S.m[m].full.c_str(), errname(e2)); } if (e && *o) { violate("K03", "object-after-error", "reading a %s fails with %s but hands out an object", S.m[m].full.c_str(), errname(e)); *o = 0; } return e; }
int gwrite(int m, void *o, Bytes &out, size_t cap) { out.clear(); XBuf b(cap); NoiseProtobuf pb; CALL(B, noise_protobuf_prepare_output, &pb, b.p, b.n); int e = LCALL(B, int (*)(NoiseProtobuf *, int, const void *), gn(m, "write"), &pb, 0, o); uint8_t *d = 0; size_t n = 0; if (!e) e = CALL(B, noise_protobuf_finish_output, &pb, &d, &n); if (!e) out = Bytes(d, d + n); return e; }
void transfer(Doc &d) {
    GRec want = arrived(d.r); Bytes out; size_t cap = 0; { P p; Bytes b = encode(want, false); cap = b.size() + 12 * 2 * (weight(d.r) + S.m.size() * 40) + 200; } if (cap > 400000) return;
    arm(); int e = gwrite(d.msg, d.o, out, cap); bool mem = disarm(); asserted("K03"); count("op:gen-write");
    if (e) { if (!mem) violate("K03", "write-fails", "%s cannot be written: %s", show(d.r).c_str(), errname(e)); return; }
    P p = parse(d.msg, out); // -0.0 counts as absent when read into an optional field only if the writer left it out
    if (!p.ok || p.may_reject || p.form || !(p.r == want)) { violate("K03", p.form ? "written-form" : "written-differs", "%.700s is written as %zu bytes that %s %.700s", show(want).c_str(), out.size(), !p.ok ? "are malformed" : p.form ? "hold a list in the other form," : "mean", show(p.r).c_str()); return; }
    if (!out.empty() && flip("gen.tight", 300)) { Bytes t; if (gwrite(d.msg, d.o, t, out.size()) || t != out) violate("K03", "write-not-tight", "a record of %zu bytes cannot be written into just as many", out.size()); else if (!gwrite(d.msg, d.o, t, out.size() - 1 - pick("gen.tightn", std::min<size_t>(out.size(), 40)))) violate("K03,M03", "written-into-too-little", "a record of %zu bytes is written into less", out.size()); }
    if (!compare(d, "writing it")) return;
    if (flip("gen.foreign", 300)) { Bytes q = encode(want, true); P x = parse(d.msg, q); if (x.ok && !x.may_reject && !x.vague && x.r == want) { out = q; count("probe:gen-foreign-encoding"); } }
    bool hurt = flip("gen.hurt", 400) && !out.empty();
    if (hurt) { count("fault:gen-wire"); size_t at = pick("gen.pos", out.size()); switch (pick("gen.damage", 4)) { case 0: out[at] ^= 1 << pick("gen.bit", 8); break; case 1: out.resize(at); break; case 2: out.erase(out.begin() + at, out.begin() + std::min(out.size(), at + 1 + pick("gen.cut", 8))); break; default: out.insert(out.begin() + at, (uint8_t)pick("gen.byte", 256)); } }
    P x = hurt ? parse(d.msg, out) : P(); void *o = 0; size_t live = HEAP.live.size(); arm(); e = gread(d.msg, out, &o); mem = disarm(); count("op:gen-read"); asserted("K03,M01"); lg("%zu bytes%s of %s are read: %s", out.size(), hurt ? ", damaged," : "", S.m[d.msg].full.c_str(), errname(e)); state_seen(H64(H64(d.msg, hurt), H64(e, mem)));
    if (violated()) return;
    if (e) { if (HEAP.live.size() != live) violate("K03,M01", "leak:generated-read", "a read that fails with %s leaves memory allocated", errname(e)); if (!mem && (!hurt || (x.ok && !x.may_reject))) violate("K03", "read-fails", "%zu bytes that mean %.900s are refused: %s", out.size(), show(hurt ? x.r : want).c_str(), errname(e)); if (mem) count("probe:gen-read-oom"); else count("probe:gen-read-refused"); return; }
    Doc n{d.msg, o, hurt ? x.r : want};
    if (hurt && !x.ok) violate("K03", "damaged-accepted", "%zu damaged bytes are read as %.900s", out.size(), show(extract(d.msg, o)).c_str());
    else if (hurt && x.vague) { n.r = extract(d.msg, o); count("probe:gen-vague"); }
    else if (mem) { GRec got = extract(d.msg, o); if (!(got == n.r)) violate("K03,M01", "partial-record-after-oom", "an allocation failed but reading reports success with %.800s instead of %.800s", show(got).c_str(), show(n.r).c_str()); }
    else compare(n, "reading it");
    if (hurt) count("probe:gen-damaged-yet-valid");
    if (!violated() && pick("gen.swap", 2) && weight(n.r) < 2000) std::swap(n, d);
    gfree(n.msg, n.o);
}
void nulls() { // nothing to work on is an error, not a crash
    int m = (int)pick("gen.msg", S.m.size()); const PField &f = S.m[m].f[pick("gen.field", S.m[m].f.size())]; count("op:gen-null"); NoiseProtobuf pb; XBuf b(20); CALL(B, noise_protobuf_prepare_output, &pb, b.p, b.n); bool bad = false; void *o = (void *)1;
    bad |= LCALL(B, int (*)(void *), gn(m, "free"), nullptr) == 0; bad |= LCALL(B, int (*)(void **), gn(m, "new"), nullptr) == 0; bad |= LCALL(B, int (*)(NoiseProtobuf *, int, const void *), gn(m, "write"), &pb, 0, nullptr) == 0; bad |= LCALL(B, int (*)(NoiseProtobuf *, int, void **), gn(m, "read"), nullptr, 0, &o) == 0 || o; bad |= LCALL(B, int (*)(void *), gn(m, "clear", &f), nullptr) == 0; bad |= LCALL(B, int (*)(const void *), gn(m, "has", &f), nullptr) != 0;
    if (rep(f)) bad |= LCALL(B, size_t (*)(const void *), gn(m, "count", &f), nullptr) != 0;
    if (bad) violate("K03", "null-accepted", "a function of %s accepts a missing object", S.m[m].full.c_str());
}
} // namespace
void sc_gen() {
    B = &API[BE_GEN]; g_seq2 = 0; FILE *st = fopen((g_libdir + "/gen/status").c_str(), "r"); if (!st) harness_error("no generated code");
    char l[600]; if (!fgets(l, sizeof l, st) || !atoi(l)) harness_error("no generated code"); size_t k = pick("gen.schema", atoi(l)); S = schema_make(k);
    while (fgets(l, sizeof l, st)) { l[strcspn(l, "\n")] = 0; char *t; if (strtoul(l, &t, 10) == k && *t == ' ') { asserted("K03"); violate("K03", "no-usable-code", "definition %zu: %s", k, t + 1); } } fclose(st);
    if (violated()) return;
    g_short = flip("style.oom", 600); std::vector<Doc> ds; size_t nd = 1 + pick("gen.docs", 3);
    for (size_t i = 0; i < nd && !violated(); ++i) { Doc d{(int)pick("gen.msg", S.m.size()), 0, GRec(0)}; d.r = pick("gen.start", 3) ? some_rec(d.msg, 0) : GRec(d.msg); d.r = deep(d.r); size_t live = HEAP.live.size(); arm(); int e = gbuild(d.r, &d.o); bool mem = disarm(); if (e) { if (!mem) violate("K03", "build-fails", "%s cannot be built: %s", show(d.r).c_str(), errname(e)); if (HEAP.live.size() != live) violate("K03,M01", "leak:generated-build", "a failed build leaves memory allocated"); continue; } compare(d, "building it"); ds.push_back(d); }
    for (size_t i = 0, n = 10 + pick("gen.ops", 40); i < n && !ds.empty() && !violated(); ++i) { Doc &d = ds[pick("gen.who", ds.size())]; if (weight(d.r) > 4000) break; if (flip("gen.nulls", 30)) nulls(); else if (pick("gen.what", 5)) edit(d); else transfer(d); sim_time(1); }
    while (!ds.empty()) { size_t j = pick("free.order", ds.size()); gfree(ds[j].msg, ds[j].o); ds.erase(ds.begin() + j); }
    if (!violated() && !HEAP.live.empty()) violate("K03,M01", "leak:generated", "%zu blocks are still allocated after everything was freed", HEAP.live.size());
}
