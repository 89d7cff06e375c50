// Scenario "protoc" (K02): noise-protoc reads definitions from a disk that fails, is cut short or fills up, writes
// its two files to it, and is short of memory; definitions are written down in many ways, or damaged.
#include "party.h"
#include "schema.h"
namespace {
const Api *B; Schema S; Rng R; struct Out { Str c, h; bool operator==(const Out &o) const { return c == o.c && h == o.h; } };
struct Names { Str c, h, in; bool dflt; }; std::map<Str, Out> g_ref;       // by output names
Bytes sb(const Str &s) { return Bytes(s.begin(), s.end()); }
Str file(const Str &p) { auto it = DISK.files.find(p); return it == DISK.files.end() ? Str() : Str(it->second.data.begin(), it->second.data.end()); }
bool have(const Str &p) { return DISK.files.count(p) != 0; }
void put(const Str &p, const Str &t) { DISK.files[p].data = sb(t); DISK.files[p].seekable = true; }
void faults(bool df, bool mf) {
    disk_mark(); heap_mark(); heap_faults_off(); DISK.max_faults = 1 + (int)pick("disk.maxfaults", 2); DISK.capacity = ~0ULL; DISK.frozen = false; DISK.crash_at_write = 0;
    bool rd = df && pick("disk.which", 3) != 0, wr = df && pick("disk.which", 3) != 0, tiny; DISK.bufmode = (int)pick("disk.bufmode", 5); tiny = DISK.bufmode && DISK.bufmode < 4;
    DISK.pm_openfail = df ? 80 : 0; DISK.pm_readerr = rd ? (tiny ? 20 : 300) : 0; DISK.pm_writeerr = wr ? (tiny ? 5 : 120) : 0; DISK.pm_closeerr = wr ? 200 : 0; DISK.pm_readshort = flip("disk.shortreads", 300) ? 300 : 0; DISK.sticky = pick("disk.sticky", 2);
    if (wr && flip("disk.full", 350)) { uint64_t used = 0; for (auto &f : DISK.files) used += f.second.data.size(); DISK.capacity = used + (pick("disk.little", 2) ? pick("disk.room", 3000) : pick("disk.room2", 150000)); }
    if (mf) { if (flip("oom.all", 150)) HEAP.fail_from = 1 + pick("oom.at", 400); else HEAP.fail_at.insert(1 + pick("oom.at", 400)); }
}
void calm() { DISK.pm_openfail = DISK.pm_readerr = DISK.pm_writeerr = DISK.pm_closeerr = DISK.pm_readshort = 0; DISK.capacity = ~0ULL; DISK.frozen = false; DISK.crash_at_write = 0; DISK.open_streams = 0; heap_faults_off(); }
void option(std::vector<Str> &a, const char *lng, char shrt, const Str &v) { switch (pick("arg.form", 4)) { case 0: a.push_back(Str("--") + lng + "=" + v); break; case 1: a.push_back(Str("--") + lng); a.push_back(v); break; case 2: a.push_back(Str("-") + shrt + v); break; default: a.push_back(Str("-") + shrt); a.push_back(v); } }
int tool(const std::vector<Str> &a) { HEAP.live.clear(); return run_tool(B, B->protoc_main, a); }
Str unlicensed(const Str &t) { if (t.compare(0, 2, "/*")) return t; size_t p = t.find("*/"); if (p == Str::npos) return t; p += 2; while (p < t.size() && (t[p] == '\n' || t[p] == ' ')) ++p; return t.substr(p); }
// what the complete definition gives when nothing fails
bool reference(const Names &n, const Str &text, Out &o, bool valid) {
    Str key = valid ? n.c + "|" + n.h : ""; if (valid && g_ref.count(key)) { o = g_ref[key]; return true; }
    auto keep = DISK.files; DISK.files.erase(n.c); DISK.files.erase(n.h); put(n.in, text); calm(); DISK.bufmode = 0; disk_mark(); heap_mark(); int rc = tool(n.dflt ? std::vector<Str>{"noise-protoc", n.in} : std::vector<Str>{"noise-protoc", "-c", n.c, "-h", n.h, n.in});
    o.c = file(n.c); o.h = file(n.h); bool both = have(n.c) && have(n.h); DISK.files = keep; if (rc || !both) return false; if (valid) g_ref[key] = o; return true;
}
Str squeeze(const Str &t) { Str o; for (size_t i = 0; i < t.size(); ++i) { if (isspace((unsigned char)t[i])) { bool w = !o.empty() && (isalnum((unsigned char)o.back()) || o.back() == '_'); size_t j = i; while (j < t.size() && isspace((unsigned char)t[j])) ++j; if (w && j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_')) o += ' '; i = j - 1; } else o += t[i]; } return o; }
// the declarations that a user of the header relies on
void contents(const Out &o) {
    Str h = squeeze(o.h), c = squeeze(o.c); asserted("K02"); auto need = [&](const Str &w, bool both) { if (h.find(w) == Str::npos) violate("K02", "declaration-missing", "the header lacks '%s'", w.c_str()); else if (both && c.find(w) == Str::npos) violate("K02", "definition-missing", "the source lacks '%s'", w.c_str()); };
    for (auto &e : S.e) for (auto &v : e.v) { Str w = "#define " + e.cname + "_" + v.first + " " + std::to_string(v.second); size_t p = h.find(w); if (p == Str::npos || isdigit((unsigned char)h[p + w.size()])) violate("K02", "enumeration-value", "the header lacks '%s'", w.c_str()); }
    static const char *ct[] = {"int32_t", "uint32_t", "int64_t", "uint64_t", "int32_t", "int64_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "float", "double", "int"};
    for (auto &m : S.m) {
        const Str &n = m.cname; need("int " + n + "_new(" + n + "**obj)", true); need("int " + n + "_free(" + n + "*obj)", true); need("int " + n + "_write(NoiseProtobuf*pbuf,int tag,const " + n + "*obj)", true); need("int " + n + "_read(NoiseProtobuf*pbuf,int tag," + n + "**obj)", true);
        for (auto &f : m.f) {
            bool rep = f.label == L_PACKED || f.label == L_LIST; need("int " + n + "_clear_" + f.name + "(" + n + "*obj)", true); need("int " + n + "_has_" + f.name + "(const " + n + "*obj)", true); if (rep) need("size_t " + n + "_count_" + f.name + "(const " + n + "*obj)", true);
            Str of = f.type == P_MSG ? S.m[f.msg].cname : "", ret = p_num(f.type) ? Str(ct[f.type]) + " " : f.type == P_STRING ? "const char*" : f.type == P_BYTES ? "const void*" : of + "*";
            need(ret + n + (rep ? "_get_at_" : "_get_") + f.name + "(const " + n + "*obj" + (rep ? ",size_t index)" : ")"), true);
            if (f.type == P_MSG) need("int " + n + (rep ? "_add_" : "_get_new_") + f.name + "(" + n + "*obj," + of + "**value)", true);
            else need("int " + n + (rep ? "_add_" : "_set_") + f.name + "(" + n + "*obj," + (p_num(f.type) ? Str(ct[f.type]) + " value)" : f.type == P_STRING ? "const char*value,size_t size)" : "const void*value,size_t size)"), true);
        }
        if (violated()) return;
    }
    // no message and no field more than the definition has
    size_t nnew = 0, nhas = 0, want = 0; for (size_t p = 0; (p = h.find("_new(", p)) != Str::npos; ++p) nnew++; for (size_t p = 0; (p = h.find("_has_", p)) != Str::npos; ++p) nhas++; for (auto &m : S.m) want += m.f.size();
    if (nnew != S.m.size() || nhas < want) violate("K02", "other-declarations", "%zu messages and %zu fields are declared, the definition has %zu and %zu", nnew, nhas, S.m.size(), want);
}
enum { V_VALID, V_INVALID, V_UNKNOWN };
// one damage to a definition; what it makes of it
int damage(Str &text, Str &what) {
    std::vector<Tok> t = schema_tokens(S, R, true); std::vector<size_t> starts; uint64_t k = pick("protoc.damage", 16);
    auto of_kind = [&](int kind) { std::vector<size_t> v; for (size_t i = 0; i < t.size(); ++i) if (t[i].kind == kind) v.push_back(i); return v; };
    auto any = [&](const std::vector<size_t> &v) { return v[pick("protoc.where", v.size())]; };
    auto field_end = [&](size_t i) { while (t[i].t != ";") ++i; return i; };
    if (k == 0) {   // cut off
        text = tokens_text(t, R, &starts); size_t cut = pick("protoc.cut", text.size()); size_t n = 0; while (n < t.size() && starts[n] + t[n].t.size() <= cut) ++n;
        int depth = 0; for (size_t i = 0; i < n; ++i) { if (t[i].t == "{") ++depth; if (t[i].t == "}") --depth; }
        bool partial = n < t.size() && starts[n] < cut, open = depth || (n && t[n - 1].t != ";" && t[n - 1].t != "}") || partial; text.resize(cut); what = "cut off after " + std::to_string(cut) + " bytes"; return open ? V_INVALID : V_UNKNOWN;
    }
    if (k <= 2) {   // two fields with one number, or one name
        std::vector<size_t> m; for (size_t i = 0; i < S.m.size(); ++i) if (S.m[i].f.size() > 1) m.push_back(i);
        if (!m.empty()) { size_t w = any(m); int kind = k == 1 ? TK_TAG : TK_FIELD; std::vector<size_t> v; for (size_t i = 0; i < t.size(); ++i) if (t[i].kind == kind && t[i].msg == (int)w) v.push_back(i); size_t a = pick("protoc.first", v.size()), b = (a + 1 + pick("protoc.second", v.size() - 1)) % v.size(); t[v[a]].t = t[v[b]].t; text = tokens_text(t, R); what = (k == 1 ? "number " : "name ") + t[v[a]].t + " used twice in " + S.m[w].full; return V_INVALID; }
    }
    if (k == 3) { static const char *bad[] = {"0", "19000", "19500", "19999", "536870912", "536870913", "1073741825", "4294967297", "4294967301", "18446744073709551615", "18446744073709551617", "x7", "-3"}; size_t i = any(of_kind(TK_TAG)); t[i].t = bad[pick("protoc.tag", 13)]; text = tokens_text(t, R); what = "number " + t[i].t; return V_INVALID; }
    if (k == 4 || k == 5) { static const int kinds[] = {TK_SEMI, TK_OPEN, TK_CLOSE, TK_EQ, TK_TAG, TK_MSGNAME, TK_FIELD}; std::vector<size_t> v = of_kind(kinds[pick("protoc.kind", 7)]); if (!v.empty()) { size_t i = any(v); what = "'" + t[i].t + "' left out"; t.erase(t.begin() + i); text = tokens_text(t, R); return V_INVALID; } }
    if (k == 6) { static const char *bad[] = {"\"proto2\"", "\"proto33\"", "\"\"", "\"Proto3\"", "proto3", "3"}; size_t i = any(of_kind(TK_SYNTAX)); t[i].t = bad[pick("protoc.syntax", 6)]; text = tokens_text(t, R); what = "syntax " + t[i].t; return V_INVALID; }
    if (k == 7) { for (auto &e : S.e) if (e.v.size() > 1) { std::vector<size_t> v; for (size_t i = 0; i < t.size(); ++i) if (t[i].kind == TK_ENUMVAL) for (auto &x : e.v) if (x.first == t[i].t) v.push_back(i); size_t a = pick("protoc.first", e.v.size()), b = (a + 1 + pick("protoc.second", e.v.size() - 1)) % e.v.size(); for (size_t i : v) if (t[i].t == e.v[a].first) { t[i].t = e.v[b].first; break; } std::set<Str> one; bool clash = false; (void)clash; text = tokens_text(t, R); what = "enumerated value " + e.v[b].first + " twice"; size_t same = 0; for (auto &e2 : S.e) for (auto &x : e2.v) if (x.first == e.v[a].first) same++; return same == 1 ? V_INVALID : V_UNKNOWN; } }
    if (k == 8 || k == 9) {   // something that must not be there
        static const std::vector<std::vector<Str>> extra = {{"message", "Zz", "{", "}"}, {"message", "Zz", "{", "reserved", "5", ";", "}"}, {"message", "Zz", "{", "option", "a", "=", "true", ";", "}"}, {"enum", "Zz", "{", "}"}, {"enum", "Zz", "{", "option", "a", "=", "1", ";", "}"}, {"package", "other", ";"}, {"message", "Zz", "{", "map", "<", "int32", ",", "string", ">", "zz", "=", "1", ";", "}"}, {"message", "Zz", "{", "repeated", "string", "zz", "=", "1", "[", "packed", "=", "true", "]", ";", "}"}, {"message", "Zz", "{", "repeated", "bytes", "zz", "=", "1", "[", "packed", "=", "true", "]", ";", "}"}, {"message", "Zz", "{", "repeated", "Zz", "zz", "=", "1", "[", "packed", "=", "true", "]", ";", "}"}, {"message", "Zz", "{", "repeated", "int32", "zz", "=", "1", "[", "packed", "=", "1", "]", ";", "}"}, {"message", "Zz", "{", "oneof", "x", "{", "int32", "zz", "=", "1", ";", "}", "}"}, {"service", "Zz", "{", "}"}, {"int32", "zz", "=", "1", ";"}, {"}"}, {"{", "}"}, {"message", "Zz", ";"}, {"message", "Zz", "{", "int32", "zz", "=", "1", "}"}, {"message", "Zz", "{", "optional", "repeated", "int32", "zz", "=", "1", ";", "}"}, {"enum", "Zz", "{", "A", "=", "0", ",", "B", "=", "1", ";", "}"}, {"enum", "Zz", "{", "A", "=", "-1", ";", "}"}, {"message", "Zz", "{", "reserved", "0", ";", "int32", "zz", "=", "1", ";", "}"}, {"message", "Zz", "{", "reserved", "7", "to", "19001", ";", "int32", "zz", "=", "1", ";", "}"}};
        const auto &x = extra[pick("protoc.extra", extra.size())]; std::vector<size_t> at; int depth = 0; for (size_t i = 0; i < t.size(); ++i) { if (t[i].t == "{") ++depth; if (t[i].t == "}" && --depth == 0) at.push_back(i + 1); } size_t i = any(at); std::vector<Tok> ins; for (auto &w : x) { ins.push_back({w, TK_PLAIN, -1, -1}); what += w + " "; } t.insert(t.begin() + i, ins.begin(), ins.end()); text = tokens_text(t, R); return V_INVALID; }
    if (k == 10) { size_t i = any(of_kind(TK_MSGNAME)); static const char *bad[] = {"9a", "message", "\"M\"", "a.b", "_x", "int32"}; t[i].t = bad[pick("protoc.name", 6)]; text = tokens_text(t, R); what = "called " + t[i].t; return V_INVALID; }
    if (k == 11) {   // declared again
        std::vector<size_t> v = of_kind(TK_MSGNAME); size_t i = any(v); std::vector<Tok> ins = {{pick("protoc.asenum", 2) ? "enum" : "message", TK_PLAIN, -1, -1}, {t[i].t, TK_PLAIN, -1, -1}, {"{", TK_PLAIN, -1, -1}}; if (ins[0].t == "message") ins.push_back({"int32", TK_PLAIN, -1, -1}); for (const char *w : {"A", "=", "0", ";", "}"}) ins.push_back({w, TK_PLAIN, -1, -1}); if (ins[0].t == "message") ins[6].t = "1";
        what = t[i].t + " declared again as " + ins[0].t; size_t e = i; int depth = 0; do { ++e; if (t[e].t == "{") ++depth; if (t[e].t == "}") --depth; } while (depth || t[e].t != "}"); size_t at = pick("protoc.before", 2) ? i - 1 : e + 1; t.insert(t.begin() + at, ins.begin(), ins.end()); text = tokens_text(t, R); return V_INVALID; }
    if (k == 12) { text = tokens_text(t, R, &starts); static const char bad[] = "@#$%^&*?\\!~`'\x01\x7F\xC3\x80\xFF\0"; size_t i = pick("protoc.where", t.size()); char ch = bad[pick("protoc.char", sizeof bad - 1)]; text.insert(starts[i], 1, ch); what = Str("a stray '") + (isprint((unsigned char)ch) ? Str(1, ch) : "control character") + "'"; return V_INVALID; }
    if (k == 13) { std::vector<size_t> v = of_kind(TK_LABEL); if (!v.empty()) { size_t i = any(v), e = field_end(i); if (t[i].t == "repeated" && t[e - 1].t != "]") { const PField &f = S.m[t[i].msg].f[t[i].field]; if (!p_num(f.type)) { for (const char *w : {"[", "packed", "=", "true", "]"}) t.insert(t.begin() + e++, Tok{w, TK_PLAIN, -1, -1}); text = tokens_text(t, R); what = "a packed list of " + Str(f.type == P_MSG ? "messages" : PNAME[f.type]); return V_INVALID; } } } }
    // an arbitrary change of a byte: whatever it means now
    text = tokens_text(t, R); size_t at = pick("protoc.pos", text.size()); text[at] = (char)(pick("protoc.byte", 3) ? 32 + pick("protoc.chr", 95) : pick("protoc.chr8", 256)); what = "byte " + std::to_string(at) + " changed"; return V_UNKNOWN;
}
void once(unsigned, bool df, bool mf) {
    Names n; uint64_t nm = choose("protoc.names", 3, 300); n.dflt = nm == 1; n.c = nm == 0 ? "/sim/out.c" : nm == 1 ? "proto_defs.c" : "/sim/deep/other.cpp"; n.h = nm == 0 ? "/sim/out.h" : nm == 1 ? "proto_defs.h" : "hdr.hh"; n.in = pick("protoc.inname", 2) ? "/sim/in.proto" : "x";
    DISK.files.clear(); Str text, what = "in order"; int valid = V_VALID; R = Rng{pick("protoc.layout", 1u << 20)};
    if (flip("protoc.bad", 400)) valid = damage(text, what); else text = tokens_text(schema_tokens(S, R, true), R);
    Out ref; bool r; { Str t = text; if (valid == V_VALID) { Rng plain{1}; t = tokens_text(schema_tokens(S, plain, false), plain); } r = valid == V_INVALID ? false : reference(n, t, ref, valid == V_VALID); }
    if (valid == V_VALID) { if (!r) { asserted("K02"); violate("K02", "valid-definition-refused", "noise-protoc refuses a definition that is in order"); return; } contents(ref); if (violated()) return; }
    bool lic = flip("protoc.license", 250), licthere = lic && pick("protoc.licthere", 5); Str lictext; if (licthere) { size_t k = pick("protoc.liclines", 5); for (size_t i = 0; i < k; ++i) { Data d("lic", i); size_t len = flip("protoc.liclong", 60) ? 7000 + d.next() % 3000 : d.next() % 70; for (size_t j = 0; j < len; ++j) lictext += (char)('a' + d.next() % 26); if (i + 1 < k || pick("protoc.licend", 2)) lictext += '\n'; } put("/sim/license", lictext); }
    Str oldc, oldh; bool old = pick("protoc.old", 2); if (old) { oldc = "/* what was there */\n"; oldh = "/* an older header */\n"; put(n.c, oldc); put(n.h, oldh); }
    std::vector<Str> a = {"noise-protoc"}; int badarg = flip("protoc.badarg", 60) ? 1 + (int)pick("protoc.badkind", 4) : 0; bool first = pick("protoc.filefirst", 4) == 0; if (first) a.push_back(n.in);
    if (!n.dflt) { if (pick("protoc.order", 2)) { option(a, "output-c", 'c', n.c); option(a, "output-h", 'h', n.h); } else { option(a, "output-h", 'h', n.h); option(a, "output-c", 'c', n.c); } } if (lic) option(a, "license", 'l', "/sim/license");
    if (badarg == 1) a.push_back("--bogus"); if (badarg == 2) a.push_back("second.proto"); if (!first && badarg != 3) a.push_back(n.in); if (badarg == 3 && first) a.erase(a.begin() + 1); bool gone = badarg == 4;
    DISK.files.erase(n.in); if (!gone) put(n.in, text);
    faults(df, mf); if (df && flip("disk.crash", 80)) DISK.crash_at_write = DISK.writes + 1 + pick("disk.crashat", 6); int rc = tool(a); bool io = DISK.io_failed, wr = DISK.write_failed, mem = HEAP.failed > 0, frozen = DISK.frozen; calm();
    count(valid == V_VALID ? "op:protoc" : "op:protoc-damaged"); if (valid != V_VALID) count("fault:definition-damaged"); lg("definition %s: exit %d%s%s%s", what.c_str(), rc, io ? ", disk fault" : "", mem ? ", memory fault" : "", frozen ? ", crashed" : ""); state_seen(H64(H64(rc, io * 8 + wr * 4 + mem * 2 + frozen), H64(valid * 8 + badarg, nm * 4 + old * 2 + lic)));
    if (frozen) return;
    asserted("K02"); Str gc = file(n.c), gh = file(n.h); const char *after = io ? " after a disk fault" : mem ? " after a failed allocation" : "";
    if (rc == 0) {
        if (badarg) violate("K02", "bad-arguments-accepted", "noise-protoc exits with success although the request cannot be carried out (%d)", badarg);
        else if (valid == V_INVALID || (valid == V_UNKNOWN && !r)) violate("K02", "bad-definition-accepted", "noise-protoc exits with success%s for a definition that is not in order: %s", after, what.c_str());
        else if (!have(n.c) || !have(n.h)) violate("K02", "output-missing", "noise-protoc exits with success%s without both output files", after);
        else if (unlicensed(gc) != ref.c) violate("K02", io ? "incomplete-output-success" : mem ? "output-differs-oom" : "output-differs", "noise-protoc exits with success%s but the source of %zu bytes is not the one of %zu bytes that the definition stands for", after, gc.size(), ref.c.size());
        else if (unlicensed(gh) != ref.h) violate("K02", io ? "incomplete-output-success" : mem ? "output-differs-oom" : "output-differs", "noise-protoc exits with success%s but the header of %zu bytes is not the one of %zu bytes that the definition stands for", after, gh.size(), ref.h.size());
        else { count(valid == V_VALID ? "probe:generated-code" : "probe:still-valid"); if (io || mem) count("probe:fault-survived"); if (licthere && !io) { Str lines = lictext; size_t p = 0; for (size_t q; p < lines.size(); p = q + 1) { q = lines.find('\n', p); if (q == Str::npos) q = lines.size(); Str l = lines.substr(p, std::min<size_t>(q - p, 100)); if (gc.find(l) == Str::npos || gh.find(l) == Str::npos) { violate("K02", "license-missing", "a line of the license is missing in the output"); break; } } } }
        return;
    }
    if (valid == V_VALID && !badarg && !io && !mem) { violate("K02", "valid-definition-refused", "noise-protoc exits with %d for a definition that is in order and merely written differently", rc); return; }
    if (valid == V_UNKNOWN && r && !badarg && !io && !mem) { violate("K02", "unstable-verdict", "noise-protoc exits with %d for a definition that it has accepted before", rc); return; }
    count("probe:refused");
    auto left = [&](const Str &p, const Str &was, const Str &full) { if (!have(p)) return; Str now = file(p); if (old && now == was) return; if (r && unlicensed(now) == full) return; violate("K02", "partial-output-left", "noise-protoc exits with %d%s and leaves %zu bytes in %s", rc, after, now.size(), p.c_str()); };
    left(n.c, oldc, ref.c); left(n.h, oldh, ref.h);
}
} // namespace
void sc_protoc() {
    B = &API[BE_PROTOC]; if (!B->protoc_main) harness_error("no noise-protoc"); g_ref.clear(); S = schema_make(pick("protoc.schema", 1u << 16)); uint64_t style = pick("style", 6);
    for (unsigned k = 0, ops = 2 + (unsigned)pick("ops", 5); k < ops && !violated(); ++k) { HEAP.owner = (int)k; once(k, style >= 2 && style != 4 && flip("disk.on", 600), style >= 4 && flip("oom", 400)); sim_time(k + 1); }
    HEAP.live.clear();
}
