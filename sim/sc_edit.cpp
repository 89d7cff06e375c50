// Scenario "edit": records built, changed, written and read back in memory while allocations fail.
// A record of the library must at every moment hold exactly what a plain record (rec.h) holds after the same edits.
#include "rec.h"
struct Doc { const Api *be; int def; void *o; Rec r{R_CERT}; };
static bool g_short; // allocations may fail
static void arm() { heap_mark(); if (g_short && flip("edit.oom", 250)) HEAP.fail_at.insert(1 + choose("edit.oomat", 4, 300)); }
static bool disarm() { bool f = HEAP.failed > 0; heap_faults_off(); HEAP.failed = 0; if (f) { asserted("M01"); count("fault:alloc-fail-while-editing"); } return f; }
static void learn(const Rec &r) { for (auto &d : SCHEMA[r.def].f) { auto it = r.f.find(d.tag); if (it == r.f.end()) continue; for (auto &v : it->second) { if (d.type == F_MSG) learn(*v.m); else if (r.def == R_PRIVINFO && d.type == F_BYTES && v.b.size() >= 16) secret_add("stored private key", v.b); } } }
static void compare(const Doc &d, const char *what) {
    asserted("S04"); Rec got = lib_extract(d.be, d.def, d.o);
    if (!(got == d.r)) violate("S04", "edit-differs", "after %s the %s build holds %s, it should hold %s", what, d.be->name, got.show().c_str(), d.r.show().c_str());
}
// the node of the tree to work on
struct Node { void *o; Rec *r; };
static Node descend(const Doc &d, Rec &root) {
    Node n{d.o, &root};
    while (pick("edit.down", 3)) {
        std::vector<std::pair<const FDef *, size_t>> kids;
        for (auto &f : SCHEMA[n.r->def].f) { auto it = n.r->f.find(f.tag); if (f.type == F_MSG && it != n.r->f.end()) for (size_t i = 0; i < it->second.size(); ++i) kids.push_back({&f, i}); }
        if (kids.empty()) break;
        auto k = kids[pick("edit.child", kids.size())];
        void *c = k.first->rep ? LCALL(d.be, fat, fn(n.r->def, "get_at", k.first->name), n.o, k.second) : (void *)LCALL(d.be, fgetb, fn(n.r->def, "get", k.first->name), n.o);
        if (!c) { violate("S04", "child-missing", "%s.%s has no element %zu", SCHEMA[n.r->def].name, k.first->name, k.second); return n; }
        Rec *r = n.r->f[k.first->tag][k.second].m.get(); n = Node{c, r};
    }
    return n;
}
// A deep copy, since records share their children
static Rec deep(const Rec &r) { Rec o(r.def); for (auto &x : r.f) for (auto v : x.second) { if (v.m) v.m = std::make_shared<Rec>(deep(*v.m)); o.f[x.first].push_back(v); } return o; }
static void edit(Doc &d) {
    Node n = descend(d, d.r); if (violated()) return;
    auto &fs = SCHEMA[n.r->def].f; const FDef &f = fs[pick("edit.field", fs.size())]; const char *mn = SCHEMA[n.r->def].name; char what[120]; size_t live = HEAP.live.size();
    auto old = n.r->f.count(f.tag) ? n.r->f[f.tag] : std::vector<Val>();
    auto fail_ok = [&](int r, bool mem) { if (mem) count("probe:edit-failed"); else violate("S04", "edit-fails", "%s fails with %s although nothing is short", what, errname(r)); };
    auto put = [&](std::vector<Val> v) { if (v.empty()) n.r->f.erase(f.tag); else n.r->f[f.tag] = v; };
    if (!f.rep && pick("edit.op", 4) == 0) {
        snprintf(what, sizeof what, "%s_clear_%s", mn, f.name); int r = LCALL(d.be, ffree, fn(n.r->def, "clear", f.name), n.o); count("op:edit-clear");
        if (r) fail_ok(r, false);
        put({});
    } else if (f.type == F_U32) {
        Val v = gen_val(f, "edit.data", 1); if (flip("edit.zero", 150)) v.u = 0;
        snprintf(what, sizeof what, "%s_set_%s(%u)", mn, f.name, v.u); int r = LCALL(d.be, fset32, fn(n.r->def, "set", f.name), n.o, v.u); count("op:edit-set");
        if (r) fail_ok(r, false);
        else if (v.u) put({v}); else put({});
    } else if (f.type != F_MSG) {
        Val v = gen_val(f, "edit.data", 1); XBuf b(v.b); Rec one(n.r->def); one.f[f.tag] = {v}; learn(one);
        snprintf(what, sizeof what, "%s_set_%s(%zu bytes)", mn, f.name, v.b.size()); arm(); int r = LCALL(d.be, fsetb, fn(n.r->def, "set", f.name), n.o, b.p, b.n); bool mem = disarm(); count("op:edit-set");
        if (!r) put({v});
        else { fail_ok(r, mem); // the old value may be gone, but nothing else may be there
            bool has = LCALL(d.be, fhas, fn(n.r->def, "has", f.name), n.o) != 0; size_t sz = LCALL(d.be, fsz, fn(n.r->def, "get_size", f.name), n.o); asserted("M01");
            if (!has) { put({}); if (sz) violate("M01,S04", "size-without-value", "%s failed and left a size of %zu for an absent value", what, sz); } }
    } else if (!f.rep) {
        void *c = (void *)1; snprintf(what, sizeof what, "%s_get_new_%s", mn, f.name); arm(); int r = LCALL(d.be, fadd, fn(n.r->def, "get_new", f.name), n.o, &c); bool mem = disarm(); count("op:edit-get-new");
        if (r) { fail_ok(r, mem); if (c) violate("M01", "object-after-error", "%s fails with %s but hands out an object", what, errname(r)); if (!LCALL(d.be, fhas, fn(n.r->def, "has", f.name), n.o)) put({}); }
        else { Val v; v.m = std::make_shared<Rec>(f.msg); put({v}); if (c != LCALL(d.be, fgetb, fn(n.r->def, "get", f.name), n.o)) violate("S04", "other-object", "%s hands out another object than the one in place", what); }
    } else {
        uint64_t k = choose("edit.listop", 5, 750);
        if (k == 3 && old.size() > 3 && pick("edit.keep", 4)) k = 1;
        if (k == 3) { snprintf(what, sizeof what, "%s_clear_%s", mn, f.name); int r = LCALL(d.be, ffree, fn(n.r->def, "clear", f.name), n.o); count("op:edit-clear"); if (r) fail_ok(r, false); put({}); }
        else if (k == 4) { // many at once
            size_t m = 1 + pick("edit.many", 90), done = 0; snprintf(what, sizeof what, "%zu times %s_add_%s to %zu", m, mn, f.name, old.size()); arm(); int r = 0;
            for (; done < m && !r; ++done) { void *c = 0; r = LCALL(d.be, fadd, fn(n.r->def, "add", f.name), n.o, &c); if (r) break; Val v; v.m = std::make_shared<Rec>(f.msg); old.push_back(v); }
            if (r) fail_ok(r, disarm()); else disarm();
            put(old); count("op:edit-add", done);
        } else if (k == 0) {
            void *c = (void *)1; snprintf(what, sizeof what, "%s_add_%s", mn, f.name); arm(); int r = LCALL(d.be, fadd, fn(n.r->def, "add", f.name), n.o, &c); bool mem = disarm(); count("op:edit-add");
            if (r) { fail_ok(r, mem); if (c) violate("M01", "object-after-error", "%s fails with %s but hands out an object", what, errname(r)); if (HEAP.live.size() != live) violate("M01", "leak:edit", "%s fails and leaves memory allocated", what); }
            else { Val v; v.m = std::make_shared<Rec>(f.msg); old.push_back(v); put(old); }
        } else {
            Rec x = gen_rec(f.msg, "edit.data", 1); learn(x); void *c = 0; if (lib_build(d.be, x, &c)) { violate("M01,S04", "build-fails", "a record cannot be built"); return; }
            size_t at = pick("edit.past", 6) ? pick("edit.at", old.size() + 1) : old.size() + 1 + pick("edit.beyond", 3);
            snprintf(what, sizeof what, "%s_insert_%s at %zu of %zu", mn, f.name, at, old.size()); arm(); int r = LCALL(d.be, fins, fn(n.r->def, "insert", f.name), n.o, at, c); bool mem = disarm(); count("op:edit-insert");
            if (r) { fail_ok(r, mem); lib_free(d.be, f.msg, c); if (HEAP.live.size() != live) violate("M01", "leak:edit", "%s fails and leaves memory allocated", what); }
            else { Val v; v.m = std::make_shared<Rec>(deep(x)); old.insert(old.begin() + std::min(at, old.size()), v); put(old); }
        }
    }
    lg("%s: %s", d.be->name, what); state_seen(H64(H64(n.r->def, f.tag), H64(hstr(fn(n.r->def, "x", f.name).c_str()), std::min<size_t>(old.size(), 70))));
    if (!violated()) compare(d, what);
}
// written by one build and read by another, which goes on with it
static void transfer(Doc &d) {
    Bytes want = rec_encode(d.r), out; if (want.size() > 60000) return;
    arm(); int r = lib_write(d.be, d.def, d.o, out, want.size() + pick("edit.slack", 20)); bool mem = disarm(); asserted("S04,P01");
    if (r || out != want) { if (!(r && mem)) { violate("S04,P01", "written-differs", "%s written by the %s build: %s, %zu bytes instead of %zu", d.r.show().c_str(), d.be->name, errname(r), out.size(), want.size()); return; } out = want; }
    if (want.size() && flip("edit.tight", 300)) { Bytes t; if (!lib_write(d.be, d.def, d.o, t, want.size() - 1 - pick("edit.tightn", std::min<size_t>(want.size(), 40)))) violate("S04,M03", "written-into-too-little", "a record of %zu bytes is written into less", want.size()); }
    compare(d, "writing it"); if (violated()) return;
    bool odd = flip("edit.foreign", 150); if (odd) { Bytes q = rec_encode_odd(d.r, true); Parsed P = rec_parse(d.def, q); if (P.ok && !P.may_reject && P.alts.size() == 1 && P.alts[0] == d.r) { out = q; count("probe:foreign-encoding"); } }
    const Api *to = pick_be("edit.to", 0); void *o = 0; size_t live = HEAP.live.size(); arm(); r = lib_read(to, d.def, out, &o); mem = disarm(); count("op:edit-transfer");
    lg("%zu bytes go from the %s to the %s build: %s", out.size(), d.be->name, to->name, errname(r));
    if (r) { if (!mem) violate("S04,P01", "read-fails", "the %s build refuses the %s of %zu bytes that the %s build wrote: %s", to->name, d.r.show().c_str(), out.size(), d.be->name, errname(r)); if (HEAP.live.size() != live) violate("M01", "leak:read", "a failed read leaves memory allocated"); return; }
    Doc n{to, d.def, o, deep(d.r)}; if (mem) { asserted("M01"); Rec got = lib_extract(to, d.def, o); if (!(got == n.r)) violate("M01", "partial-record-after-oom", "an allocation failed but reading reports success with %s", got.show().c_str()); } else compare(n, "reading it");
    if (pick("edit.swap", 2)) std::swap(n, d);
    lib_free(n.be, n.def, n.o);
}
void sc_edit() {
    HEAP.scan = true; g_short = flip("style.oom", 600); size_t nd = 1 + pick("edit.docs", 3); std::vector<Doc> ds; static const int defs[] = {R_CERT, R_PRIV, R_CHAIN, R_ENC};
    for (size_t i = 0; i < nd; ++i) {
        Doc d{pick_be("be", 0), defs[pick("edit.def", 4)], 0}; d.r = pick("edit.start", 3) ? Rec(d.def) : gen_rec(d.def, "edit.data", 1); d.r = deep(d.r); learn(d.r);
        arm(); size_t live = HEAP.live.size(); int r = lib_build(d.be, d.r, &d.o); bool mem = disarm();
        if (r) { if (!mem) violate("S04", "build-fails", "a record cannot be built: %s", errname(r)); if (HEAP.live.size() != live) violate("M01", "leak:build", "a failed build leaves memory allocated"); continue; }
        compare(d, "building it"); ds.push_back(d);
    }
    for (size_t k = 0, n = 10 + pick("edit.ops", 50); k < n && !ds.empty() && !violated(); ++k) { Doc &d = ds[pick("edit.who", ds.size())]; if (d.r.weight() > 6000) break; if (pick("edit.what", 7)) edit(d); else transfer(d); sim_time(1); }
    for (auto &d : ds) if (!violated()) compare(d, "everything");
    while (!ds.empty()) { size_t k = pick("free.order", ds.size()); lib_free(ds[k].be, ds[k].def, ds[k].o); ds.erase(ds.begin() + k); }
    if (!violated()) check_no_leaks("records");
}
