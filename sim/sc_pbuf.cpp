// Scenario "pbuf": structured data written by one build through the message encoding, damaged or not on its way, and read
// back field by field by another build, against an independent reader.
#include "party.h"
#include <cmath>
enum PT { P_I32, P_U32, P_I64, P_U64, P_S32, P_S64, P_SF32, P_F32, P_SF64, P_F64, P_FLT, P_DBL, P_BOOL, P_STR, P_BYTES, P_EL, P_NTYPES };
struct Fld { int t; int tag; uint64_t v; Bytes b; std::vector<Fld> sub; };
static int wtype(int t) { return t <= P_S64 || t == P_BOOL ? 0 : t == P_SF64 || t == P_F64 || t == P_DBL ? 1 : t == P_STR || t == P_BYTES || t == P_EL ? 2 : 5; }
static Data *FOREIGN = nullptr;   // set: encode as another implementation may (longer varints than needed, unusual values of booleans, upper bits of 32 bit integers)
static void vi(Bytes &o, uint64_t v) {
    size_t start = o.size(); while (v >= 128) { o.push_back((uint8_t)(v | 128)); v >>= 7; } o.push_back((uint8_t)v);
    if (FOREIGN && FOREIGN->next() % 6 == 0) { size_t room = 10 - (o.size() - start), x = room ? FOREIGN->next() % (room + 1) : 0; for (; x; --x) { o.back() |= 128; o.push_back(0); } }
}
static uint64_t upper(uint64_t v) { return FOREIGN && FOREIGN->next() % 2 ? (v & 0xffffffffu) | FOREIGN->next() << 32 : v; }
static uint64_t truth(uint64_t v) { if (!v) return 0; if (!FOREIGN) return 1; return FOREIGN->next() % 2 ? 1ULL << FOREIGN->next() % 64 : FOREIGN->next() << FOREIGN->next() % 60 | 1ULL << 63; }
static Bytes enc(const std::vector<Fld> &f);
static void enc1(const Fld &f, Bytes &o) {
    if (f.tag) vi(o, (uint64_t)f.tag << 3 | wtype(f.t));
    switch (f.t) {
    case P_I32: vi(o, upper((uint64_t)(int64_t)(int32_t)f.v)); break;
    case P_U32: vi(o, upper((uint32_t)f.v)); break;
    case P_I64: case P_U64: vi(o, f.v); break;
    case P_S32: { int32_t x = (int32_t)f.v; vi(o, (uint32_t)((uint32_t)x << 1) ^ (x < 0 ? 0xffffffffu : 0u)); break; }
    case P_S64: { int64_t x = (int64_t)f.v; vi(o, ((uint64_t)x << 1) ^ (x < 0 ? ~0ULL : 0ULL)); break; }
    case P_BOOL: vi(o, truth(f.v)); break;
    case P_SF32: case P_F32: case P_FLT: for (int i = 0; i < 4; ++i) o.push_back((uint8_t)(f.v >> (8 * i))); break;
    case P_SF64: case P_F64: case P_DBL: for (int i = 0; i < 8; ++i) o.push_back((uint8_t)(f.v >> (8 * i))); break;
    case P_STR: case P_BYTES: vi(o, f.b.size()); o.insert(o.end(), f.b.begin(), f.b.end()); break;
    case P_EL: { Bytes s = enc(f.sub); if (f.tag) vi(o, s.size()); o.insert(o.end(), s.begin(), s.end()); break; }
    }
}
static Bytes enc(const std::vector<Fld> &f) { Bytes o; for (auto &x : f) enc1(x, o); return o; }
static bool utf8(const Bytes &b) {
    for (size_t i = 0; i < b.size();) {
        uint32_t c = b[i++]; if (!c) return false; if (c < 0x80) continue;
        int n = c >= 0xC2 && c <= 0xDF ? 1 : c >= 0xE0 && c <= 0xEF ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : 0; if (!n || i + n > b.size()) return false;
        c &= n == 1 ? 0x1F : n == 2 ? 0x0F : 0x07; for (int k = 0; k < n; ++k) { if ((b[i] & 0xC0) != 0x80) return false; c = c << 6 | (b[i++] & 0x3F); }
        if (c < (n == 1 ? 0x80u : n == 2 ? 0x800u : 0x10000u) || c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF)) return false;
    }
    return true;
}
static Bytes text(Data &d, size_t n) {
    static const char *sample[] = {"a", "Z", "\xC3\xA9", "\xDF\xBF", "\xE0\xA0\x80", "\xE2\x82\xAC", "\xEF\xBF\xBD", "\xED\x9F\xBF", "\xEE\x80\x80", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF", "7"};
    Bytes o; while (o.size() < n) { const char *s = sample[d.next() % 12]; if (o.size() + strlen(s) <= n) o.insert(o.end(), s, s + strlen(s)); else o.push_back('x'); } return o;
}
static Fld gen_fld(int depth, uint64_t k) {
    Fld f; f.t = (int)pick("pb.type", depth < 3 ? P_NTYPES : P_EL); Data d("pbval", k); f.v = 0;
    uint64_t tk = pick("pb.tagkind", 10); f.tag = tk < 6 ? 1 + (int)pick("pb.tag", 20) : tk < 8 ? 1 + (int)pick("pb.tagw", 5000) : tk == 8 ? 1 + (int)pick("pb.tagx", 536870911) : 536870911;
    switch (pick("pb.valkind", 4)) { case 0: f.v = pick("pb.small", 300); break; case 1: f.v = ~pick("pb.small", 300); break; case 2: { static const uint64_t e[] = {0, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7ffffffffffffffULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL, (1ULL << 35) - 1, 1ULL << 35, (1ULL << 42) - 1, 1ULL << 42, (1ULL << 49), (1ULL << 49) - 1, 1ULL << 56, 1ULL << 63}; f.v = e[pick("pb.edge", 25)]; break; } default: f.v = d.next(); }
    if (f.t == P_FLT) { f.v = (uint32_t)f.v; float x; uint32_t u = (uint32_t)f.v; memcpy(&x, &u, 4); if (std::isnan(x)) f.v = 0x3f800000; }
    else if (f.t == P_DBL) { double x; memcpy(&x, &f.v, 8); if (std::isnan(x)) f.v = 0x3ff0000000000000ULL; }
    else if (wtype(f.t) == 5) f.v = (uint32_t)f.v;
    size_t n = pick("pb.lenkind", 8) ? pick("pb.len", 30) : pick("pb.biglen", 400); n = maybe_huge("pb.len", n, 4);
    if (f.t == P_BYTES) f.b = d.bytes(n);
    if (f.t == P_STR) { f.b = text(d, n); if (flip("pb.badtext", 50) && n) { f.b[pick("pb.badpos", n)] = (uint8_t)pick("pb.badbyte", 256); } }
    if (f.t == P_EL) { size_t c = pick("pb.children", 5); for (size_t i = 0; i < c; ++i) f.sub.push_back(gen_fld(depth + 1, H64(k, i))); }
    return f;
}
static bool bad_text(const std::vector<Fld> &f) { for (auto &x : f) { if (x.t == P_STR && !utf8(x.b)) return true; if (x.t == P_EL && bad_text(x.sub)) return true; } return false; }
// once a write has failed, every later one fails
static bool WFAILED;
static void wret(int r) { if (r) WFAILED = true; else if (WFAILED && !violated()) { asserted("P01"); violate("P01", "write-after-error", "after a write that failed, another one on the same message succeeds"); } }
// the library writes a message from its last field to its first
static void lib_write_f(const Api *be, NoiseProtobuf *p, const std::vector<Fld> &fs) {
    for (size_t i = fs.size(); i-- > 0;) {
        const Fld &f = fs[i]; float fl; double db; uint32_t u = (uint32_t)f.v; memcpy(&fl, &u, 4); memcpy(&db, &f.v, 8);
        switch (f.t) {
        case P_I32: wret(CALL(be, noise_protobuf_write_int32, p, f.tag, (int32_t)f.v)); break;
        case P_U32: wret(CALL(be, noise_protobuf_write_uint32, p, f.tag, (uint32_t)f.v)); break;
        case P_I64: wret(CALL(be, noise_protobuf_write_int64, p, f.tag, (int64_t)f.v)); break;
        case P_U64: wret(CALL(be, noise_protobuf_write_uint64, p, f.tag, f.v)); break;
        case P_S32: wret(CALL(be, noise_protobuf_write_sint32, p, f.tag, (int32_t)f.v)); break;
        case P_S64: wret(CALL(be, noise_protobuf_write_sint64, p, f.tag, (int64_t)f.v)); break;
        case P_SF32: wret(CALL(be, noise_protobuf_write_sfixed32, p, f.tag, (int32_t)f.v)); break;
        case P_F32: wret(CALL(be, noise_protobuf_write_fixed32, p, f.tag, (uint32_t)f.v)); break;
        case P_SF64: wret(CALL(be, noise_protobuf_write_sfixed64, p, f.tag, (int64_t)f.v)); break;
        case P_F64: wret(CALL(be, noise_protobuf_write_fixed64, p, f.tag, f.v)); break;
        case P_FLT: wret(CALL(be, noise_protobuf_write_float, p, f.tag, fl)); break;
        case P_DBL: wret(CALL(be, noise_protobuf_write_double, p, f.tag, db)); break;
        case P_BOOL: wret(CALL(be, noise_protobuf_write_bool, p, f.tag, f.v ? (int)(1 + f.v % 5) : 0)); break;
        case P_STR: { XBuf b(f.b); wret(CALL(be, noise_protobuf_write_string, p, f.tag, (const char *)b.p, b.n)); break; }
        case P_BYTES: { XBuf b(f.b); wret(CALL(be, noise_protobuf_write_bytes, p, f.tag, (const void *)b.p, b.n)); break; }
        case P_EL: { size_t end = 0; wret(CALL(be, noise_protobuf_write_end_element, p, &end)); lib_write_f(be, p, f.sub); wret(CALL(be, noise_protobuf_write_start_element, p, f.tag, end)); break; }
        }
    }
}
// ---- the independent reader
struct Rd {
    const Bytes &d; size_t pos = 0; bool err = false;
    explicit Rd(const Bytes &b) : d(b) {}
    bool vint(uint64_t &v) { v = 0; if (err) return false; for (int i = 0; i < 10; ++i) { if (pos >= d.size()) { err = true; return false; } uint8_t c = d[pos++]; v |= (uint64_t)(c & 127) << (7 * i); if (!(c & 128)) return true; } err = true; return false; }
    bool peek(uint64_t &v, size_t &p) const { v = 0; for (int i = 0; i < 10; ++i) { if (p >= d.size()) return false; uint8_t c = d[p++]; v |= (uint64_t)(c & 127) << (7 * i); if (!(c & 128)) return true; } return false; }
    bool tag(int t, int w) { if (err) return false; if (!t) return true; if (t < 0) { err = true; return false; } uint64_t v; if (!vint(v)) return false; if (v != ((uint64_t)t << 3 | w)) { err = true; return false; } return true; }
    bool space(uint64_t n, Bytes &o) { if (err) return false; if (n > d.size() - pos) { err = true; return false; } o = Bytes(d.begin() + pos, d.begin() + pos + n); pos += n; return true; }
};
struct PB { const Api *be; NoiseProtobuf p; Rd *r; bool bad = false; unsigned budget = 400; };
static void mism(PB &c, const char *cls, const char *fmt, ...) { char b[400]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); c.bad = true; violate("P01", cls, "%s", b); }
static void check_err(PB &c, int r, const char *op, bool oom) {
    asserted("P01,M03");
    if (oom && r) { c.r->err = true; asserted("M01"); if (r != NOISE_ERROR_NO_MEMORY && !c.r->err) mism(c, "oom-error", "%s after a failed allocation returns %s", op, errname(r)); return; }
    if ((r != 0) != c.r->err) mism(c, c.r->err ? "malformed-accepted" : "well-formed-refused", "%s at byte %zu of %zu returns %s, the independent reader says %s", op, c.r->pos, c.r->d.size(), errname(r), c.r->err ? "malformed" : "well-formed");
}
static void skip_model(Rd &r) { uint64_t v, n; Bytes x; if (!r.vint(v)) return; switch (v & 7) { case 0: r.vint(n); break; case 1: r.space(8, x); break; case 2: if (r.vint(n)) r.space(n, x); break; case 5: r.space(4, x); break; default: r.err = true; } }
static void read_one(PB &c, const Fld &f) {
    Rd &r = *c.r; const Api *be = c.be; int rc = -1; uint64_t v = 0; Bytes b; int w = wtype(f.t); bool oom = false;
    { // look before reading
        uint64_t pv; size_t pp = r.pos; int want = 0; size_t ws = 0;
        if (!r.err && r.peek(pv, pp)) { if ((pv >> 3) && (pv >> 3) <= 536870911) want = (int)(pv >> 3); uint64_t sv; if ((pv & 7) == 2 && r.peek(sv, pp)) ws = (size_t)sv; }
        int t = CALL(be, noise_protobuf_peek_tag, &c.p); size_t s = CALL(be, noise_protobuf_peek_size, &c.p); asserted("P01,M03");
        if (t != want || s != ws) mism(c, "peek-differs", "at byte %zu peek_tag gives %d and peek_size %zu, expected %d and %zu", r.pos, t, s, want, ws);
    }
    int tag = f.tag; if (flip("pb.wrongtag", 15)) { tag = f.tag ^ (1 + (int)pick("pb.tag", 20)); if (tag <= 0) tag = 1; if (pick("pb.negtag", 4) == 0) tag = -tag; count("probe:wrong-tag-asked"); }
    if (w != 2) {
        int32_t i32 = 77; uint32_t u32 = 77; int64_t i64 = 77; uint64_t u64 = 77; int bo = 77; float fl = 77; double db = 77; uint64_t got = 0; bool ok = r.tag(tag, w); Bytes sp;
        if (ok) { if (w == 0) ok = r.vint(v); else { ok = r.space(w == 1 ? 8 : 4, sp); for (size_t i = 0; i < sp.size(); ++i) v |= (uint64_t)sp[i] << (8 * i); } }
        uint64_t exp = 0;
        switch (f.t) {
        case P_I32: rc = CALL(be, noise_protobuf_read_int32, &c.p, tag, &i32); got = (uint32_t)i32; exp = (uint32_t)v; break;
        case P_U32: rc = CALL(be, noise_protobuf_read_uint32, &c.p, tag, &u32); got = u32; exp = (uint32_t)v; break;
        case P_I64: rc = CALL(be, noise_protobuf_read_int64, &c.p, tag, &i64); got = (uint64_t)i64; exp = v; break;
        case P_U64: rc = CALL(be, noise_protobuf_read_uint64, &c.p, tag, &u64); got = u64; exp = v; break;
        case P_S32: rc = CALL(be, noise_protobuf_read_sint32, &c.p, tag, &i32); got = (uint32_t)i32; exp = (uint32_t)(v >> 1) ^ (v & 1 ? 0xffffffffu : 0u); break;
        case P_S64: rc = CALL(be, noise_protobuf_read_sint64, &c.p, tag, &i64); got = (uint64_t)i64; exp = (v >> 1) ^ (v & 1 ? ~0ULL : 0ULL); break;
        case P_SF32: rc = CALL(be, noise_protobuf_read_sfixed32, &c.p, tag, &i32); got = (uint32_t)i32; exp = v; break;
        case P_F32: rc = CALL(be, noise_protobuf_read_fixed32, &c.p, tag, &u32); got = u32; exp = v; break;
        case P_SF64: rc = CALL(be, noise_protobuf_read_sfixed64, &c.p, tag, &i64); got = (uint64_t)i64; exp = v; break;
        case P_F64: rc = CALL(be, noise_protobuf_read_fixed64, &c.p, tag, &u64); got = u64; exp = v; break;
        case P_FLT: { rc = CALL(be, noise_protobuf_read_float, &c.p, tag, &fl); uint32_t t; memcpy(&t, &fl, 4); got = t; exp = v; break; }
        case P_DBL: rc = CALL(be, noise_protobuf_read_double, &c.p, tag, &db); memcpy(&got, &db, 8); exp = v; break;
        case P_BOOL: rc = CALL(be, noise_protobuf_read_bool, &c.p, tag, &bo); got = bo ? 1 : 0; exp = v ? 1 : 0; break;
        }
        check_err(c, rc, "reading a number", false);
        if (!rc && !c.bad) { bool nan = false; if (f.t == P_FLT) nan = std::isnan(fl); if (f.t == P_DBL) nan = std::isnan(db); if (got != exp && !nan) mism(c, "value-differs", "a value of type %d is read as %#llx, the bytes say %#llx", f.t, (unsigned long long)got, (unsigned long long)exp); }
        else if (rc && got && !c.bad && f.t != P_FLT && f.t != P_DBL) mism(c, "value-after-error", "a failed read hands out the value %#llx", (unsigned long long)got);
        return;
    }
    if (f.t == P_EL) {
        size_t end = 7; uint64_t n = 0; bool ok = r.tag(tag, 2); if (ok && tag) { if (r.vint(n) && n > r.d.size() - r.pos) r.err = true; } size_t stop = tag ? r.pos + n : r.d.size();
        rc = CALL(be, noise_protobuf_read_start_element, &c.p, tag, &end); check_err(c, rc, "entering an element", false);
        if (rc || c.bad) return;
        if (end > r.d.size()) { violate("M03,P01", "element-beyond-input", "an element is said to end at byte %zu of %zu", end, r.d.size()); c.bad = true; return; }
        size_t k = 0;
        while (!c.bad && --c.budget) {
            bool at = CALL(be, noise_protobuf_read_at_end_element, &c.p, end), want = r.err || r.pos >= stop; asserted("P01");
            if (at != want) { mism(c, "element-end-differs", "read_at_end_element says %d at byte %zu of an element that ends at %zu", at, r.pos, stop); return; }
            if (at) break;
            if (k < f.sub.size() && !flip("pb.skip", 60)) read_one(c, f.sub[k++]);
            else { skip_model(r); rc = CALL(be, noise_protobuf_read_skip, &c.p); check_err(c, rc, "skipping a field", false); k++; count("probe:field-skipped"); }
        }
        if (c.bad) return;
        if (!r.err && r.pos != stop) r.err = true;
        rc = CALL(be, noise_protobuf_read_end_element, &c.p, end); check_err(c, rc, "leaving an element", false);
        return;
    }
    // strings and bytes: into the caller's buffer, or allocated
    bool str = f.t == P_STR, alloc = pick("pb.alloc", 2); size_t mx = f.b.size() + 1; uint64_t n = 0;
    switch (pick("pb.maxkind", 6)) { case 0: mx = f.b.size(); break; case 1: mx = pick("pb.max", 40); break; case 2: mx = f.b.size() + 2 + pick("pb.max", 40); break; case 3: if (alloc) mx = 0; break; }
    if (!alloc && str && !mx) mx = 1;
    bool ok = r.tag(tag, 2); if (ok) ok = r.vint(n);
    if (ok) {
        if (alloc ? (mx ? n > mx : n > r.d.size() - r.pos) : str ? n >= mx : n > mx) r.err = true;
        else if (r.space(n, b) && str && !utf8(b)) r.err = true;
    }
    heap_mark(); size_t live = HEAP.live.size(); size_t sz = 12345; Bytes got; bool null = false;
    if (alloc && flip("pb.oom", 60)) HEAP.fail_at.insert(1);
    if (alloc) {
        char *s = (char *)1; void *v2 = (void *)1;
        rc = str ? CALL(be, noise_protobuf_read_alloc_string, &c.p, tag, &s, mx, &sz) : CALL(be, noise_protobuf_read_alloc_bytes, &c.p, tag, &v2, mx, &sz);
        oom = HEAP.failed; heap_faults_off(); void *q = str ? (void *)s : v2;
        if (oom && !rc) { violate("M01,P01", "success-after-oom", "reading a field succeeds although its allocation failed"); c.bad = true; return; }
        if (rc && q) { violate("M01,M03,P01", "pointer-after-error", "a failed read (%s) hands out a pointer", errname(rc)); c.bad = true; return; }
        if (!rc) { if (!q) null = true; else { got = Bytes((uint8_t *)q, (uint8_t *)q + sz); if (str && ((char *)q)[sz]) mism(c, "no-terminator", "an allocated string is not terminated"); CALL(be, noise_protobuf_free_memory, q, sz); } }
        if (HEAP.live.size() != live) violate("M01,P01", "leak:read-field", "reading and releasing a field leaves memory allocated");
    } else {
        XBuf o(mx, 0x5C);
        rc = str ? CALL(be, noise_protobuf_read_string, &c.p, tag, (char *)o.p, mx, &sz) : CALL(be, noise_protobuf_read_bytes, &c.p, tag, (void *)o.p, mx, &sz);
        asserted("M03");
        if (!rc && (sz > mx || (str && sz >= mx))) { violate("M03,P01", "size-over-capacity", "a field of %zu bytes is reported in a buffer of %zu", sz, mx); c.bad = true; return; }
        if (!rc) { got = o.get(sz); if (str && o.p[sz]) mism(c, "no-terminator", "a string is not terminated"); }
    }
    check_err(c, rc, str ? "reading a string" : "reading bytes", oom);
    if (rc && !c.bad && sz && sz != 12345) mism(c, "size-after-error", "a failed read reports %zu bytes", sz);
    if (!rc && !c.bad && (null || got != b)) mism(c, "value-differs", "a %s of %zu bytes is read as %zu other bytes", str ? "string" : "byte field", b.size(), got.size());
}
// a growing list of fixed-size elements, with and without memory
static void grow_list(const Api *rb) {
    size_t es = pick("pb.elsize", 2) ? 4 : 1 + pick("pb.elsizes", 40); void *arr = 0; size_t cnt = 0, mx = 0; std::vector<Bytes> model; size_t ops = pick("pb.listops", 90), big = pick("pb.listbig", 5) ? 0 : 60 + pick("pb.listbigs", 220), live = HEAP.live.size();
    Data d("listvals", es);
    for (size_t i = 0; i < ops + big && !violated(); ++i) {
        Bytes v = d.bytes(es); bool quiet = i < big; size_t idx = quiet ? model.size() : pick("pb.idx", model.size() + 2); bool ins = !quiet && pick("pb.ins", 2); XBuf vb(v); heap_mark(); if (!quiet && flip("pb.listoom", 60)) HEAP.fail_at.insert(1);
        int x = ins ? CALL(rb, noise_protobuf_insert_into_array, &arr, &cnt, &mx, idx, vb.p, es) : CALL(rb, noise_protobuf_add_to_array, &arr, &cnt, &mx, vb.p, es);
        bool o = HEAP.failed; heap_faults_off(); asserted("P01,M01");
        if ((x != 0) != o) { violate("M01,P01", "list-add", "adding to a list of %zu (allocation failed: %d) returns %s", model.size(), o, errname(x)); break; }
        if (!x) { if (ins && idx < model.size()) model.insert(model.begin() + idx, v); else model.push_back(v); }
        bool same = cnt == model.size(); for (size_t k = 0; same && k < cnt; ++k) same = !memcmp((uint8_t *)arr + k * es, model[k].data(), es);
        if (!same) { violate("M01,P01", "list-differs", "a list of %zu entries has other contents after %s (%s)", model.size(), ins ? "an insertion" : "an addition", errname(x)); break; }
    }
    CALL(rb, noise_protobuf_free_memory, arr, mx * es); count("op:list");
    if (HEAP.live.size() != live && !violated()) violate("M01,P01", "leak:list", "a released list leaves memory allocated");
}
// a growing list of strings or byte strings
static void grow_blocks(const Api *rb) {
    bool str = pick("pb.liststr", 2); char **sa = 0; void **ba = 0; size_t *len = 0, cnt = 0, mx = 0, live = HEAP.live.size(); std::vector<Bytes> model; size_t ops = pick("pb.listops", 40) + (pick("pb.listbig", 5) ? 0 : 60);
    Data d("blocks", str);
    for (size_t i = 0; i < ops && !violated(); ++i) {
        size_t n = pick("pb.blocklen", 12); Bytes v = str ? text(d, n) : d.bytes(n); XBuf vb(v); heap_mark(); if (flip("pb.listoom", 80)) HEAP.fail_at.insert(1 + pick("pb.oomat", 3));
        bool null = n == 0 && pick("pb.null", 2);
        int x = str ? CALL(rb, noise_protobuf_add_to_string_array, &sa, &len, &cnt, &mx, null ? nullptr : (const char *)vb.p, n) : CALL(rb, noise_protobuf_add_to_bytes_array, &ba, &len, &cnt, &mx, null ? nullptr : (const void *)vb.p, n);
        bool o = HEAP.failed; heap_faults_off(); asserted("P01,M01");
        if ((x != 0) != o) { violate("M01,P01", "list-add", "adding %zu bytes to a list of %zu (allocation failed: %d) returns %s", n, model.size(), o, errname(x)); break; }
        if (!x) model.push_back(v); else count("fault:list-growth-oom");
        bool same = cnt == model.size() && cnt <= mx;
        for (size_t k = 0; same && k < cnt; ++k) { const char *q = str ? sa[k] : (const char *)ba[k]; same = len[k] == model[k].size() && q && !memcmp(q, model[k].data(), len[k]) && (!str || !q[len[k]]); }
        if (!same) { violate("M01,P01", "list-differs", "a list of %zu %s has other contents after an addition (%s)", model.size(), str ? "strings" : "byte strings", errname(x)); break; }
    }
    for (size_t k = 0; k < model.size() && k < cnt; ++k) CALL(rb, noise_protobuf_free_memory, str ? (void *)sa[k] : ba[k], len[k]);
    CALL(rb, noise_protobuf_free_memory, str ? (void *)sa : (void *)ba, mx * sizeof(void *)); CALL(rb, noise_protobuf_free_memory, len, mx * sizeof(size_t)); count("op:block-list");
    if (HEAP.live.size() != live && !violated()) violate("M01,P01", "leak:list", "a released list of blocks leaves memory allocated");
}
void sc_pbuf() {
    unsigned faults = pick("style", 3) ? 450 : 0; uint64_t t = 0; unsigned rounds = 3 + (unsigned)pick("rounds", 8); std::vector<Bytes> older;
    for (unsigned k = 0; k < rounds && !violated(); ++k) {
        ++t; Fld root; root.t = P_EL; root.tag = pick("pb.roottag", 3) ? 0 : 1 + (int)pick("pb.tag", 20); root.v = 0; size_t nf = pick("pb.fields", 12);
        for (size_t i = 0; i < nf; ++i) root.sub.push_back(gen_fld(0, H64(k, i)));
        std::vector<Fld> top{root}; Bytes want = enc(top); bool bt = bad_text(top);
        const Api *wb = &API[pick("be.w", BE_COUNT)], *rb = &API[pick("be.r", BE_COUNT)];
        // measure and write into a buffer that may be too small
        NoiseProtobuf p; size_t cap = want.size(), ms = 99;
        switch (choose("pb.cap", 4, 500)) { case 1: cap += pick("pb.capmore", 50); break; case 2: cap = cap ? cap - 1 - pick("pb.capless", std::min<size_t>(cap, 12)) : 0; break; case 3: cap = pick("pb.capany", want.size() + 30); break; }
        CALL(wb, noise_protobuf_prepare_measure, &p, cap); WFAILED = false; lib_write_f(wb, &p, top); int m = CALL(wb, noise_protobuf_finish_measure, &p, &ms);
        XBuf buf(cap); uint8_t *dp = 0; size_t n = 0; CALL(wb, noise_protobuf_prepare_output, &p, buf.p, buf.n); WFAILED = false; lib_write_f(wb, &p, top);
        bool shift = pick("pb.shift", 2); int r = shift ? CALL(wb, noise_protobuf_finish_output_shift, &p, &dp, &n) : CALL(wb, noise_protobuf_finish_output, &p, &dp, &n);
        bool can = !bt && want.size() <= cap; lg("t%llu %s writes %zu fields, %zu bytes into %zu: %s", (unsigned long long)t, wb->name, nf, want.size(), cap, errname(r)); state_seen(H64(want.size(), H64(cap, r)));
        asserted("P01,M03");
        if (!can) count(bt ? "probe:bad-text" : "probe:buffer-too-small");
        if ((r == 0) != can || (m == 0) != can) { violate("P01", can ? "write-refused" : "write-overflow-accepted", "writing %zu bytes into %zu%s: write %s, measure %s", want.size(), cap, bt ? " with invalid text" : "", errname(r), errname(m)); return; }
        if (r) { if (n || dp) violate("P01,M03", "output-after-error", "a failed write hands out %zu bytes", n); if (bt) continue; }
        else {
            if (ms != want.size()) { violate("P01", "measure-differs", "a message of %zu bytes measures %zu", want.size(), ms); return; }
            if (dp < buf.p || dp + n > buf.p + cap || (shift && dp != buf.p)) { violate("M03,P01", "output-outside-buffer", "the output lies outside the buffer or at the wrong place"); return; }
            if (Bytes(dp, dp + n) != want) { violate("P01", "encoding-differs", "%zu fields are written as other bytes than the format defines (%zu instead of %zu bytes)", nf, n, want.size()); return; }
        }
        // the bytes travel
        Bytes in = want; static const char *fn[] = {"none", "bitflip", "truncate", "extend", "splice", "garbage", "byte", "lost-range", "repeated-range", "foreign-encoder"};
        uint64_t f = choose("net.fault", 10, faults);
        switch (f) {
        case 1: if (!in.empty()) in[pick("net.pos", in.size())] ^= 1 << pick("net.bit", 8); break;
        case 2: if (!in.empty()) in.resize(pick("net.pos", in.size())); break;
        case 3: { Data d("ext", k); Bytes e = d.bytes(1 + pick("net.small", 20)); in.insert(in.end(), e.begin(), e.end()); break; }
        case 4: if (!older.empty()) { const Bytes &o = older[pick("net.which", older.size())]; size_t c = pick("net.pos", in.size() + 1); in.resize(c); if (o.size() > c) in.insert(in.end(), o.begin() + c, o.end()); } break;
        case 5: { Data d("garbage", k); in = d.bytes(pick("net.garbagelen", 60)); break; }
        case 6: if (!in.empty()) in[pick("net.pos", in.size())] = (uint8_t)(pick("net.hot", 3) ? 0xFF : pick("net.byte", 256)); break;
        case 7: if (!in.empty()) { size_t a = pick("net.pos", in.size()), l = 1 + pick("net.small", 20); in.erase(in.begin() + a, in.begin() + std::min(in.size(), a + l)); } break;
        case 8: if (!in.empty()) { size_t a = pick("net.pos", in.size()), l = std::min<size_t>(in.size() - a, 1 + pick("net.small", 20)); Bytes s(in.begin() + a, in.begin() + a + l); in.insert(in.begin() + a, s.begin(), s.end()); } break;
        }
        if (f == 9) { Data d("foreign", k); FOREIGN = &d; in = enc(top); FOREIGN = nullptr; }
        if (f) count(Str("fault:wire-") + fn[f]);
        older.push_back(want);
        Rd rd(in); XBuf ib(in); PB c; c.be = rb; c.r = &rd; CALL(rb, noise_protobuf_prepare_input, &c.p, ib.p, ib.n);
        read_one(c, root);
        if (c.bad) return;
        int fi = CALL(rb, noise_protobuf_finish_input, &c.p); bool all = !rd.err && rd.pos == in.size(); asserted("P01");
        if ((fi == 0) != all && c.budget) { violate("P01", all ? "well-formed-refused" : "malformed-accepted", "finish_input returns %s after %zu of %zu bytes (%s)", errname(fi), rd.pos, in.size(), rd.err ? "malformed" : "well-formed"); return; }
        if (ib.get(in.size()) != in) violate("M03,P01", "input-changed", "reading changes the input");
        lg("t%llu %s reads it (%s): %s", (unsigned long long)t, rb->name, fn[f], errname(fi)); count(fi ? "probe:message-refused" : "probe:message-read");
        if (pick("pb.list", 3) == 0) { if (pick("pb.listkind", 2)) grow_list(rb); else grow_blocks(rb); }
    }
    check_no_leaks("messages"); sim_time(t);
}
