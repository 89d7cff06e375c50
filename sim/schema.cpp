#include "schema.h"
const char *const PNAME[] = {"int32", "uint32", "int64", "uint64", "sint32", "sint64", "fixed32", "sfixed32", "fixed64", "sfixed64", "float", "double", "bool", "string", "bytes"};
uint64_t Rng::next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static Str word(Rng &r) {
    static const char *w[] = {"to1", "mapped", "int32s", "optional_x", "message_id", "bytes_left", "string2", "enumeration", "publicKey", "syntax_", "x", "a", "Z9", "repeatedly", "reserved_by", "boolean", "doubled", "floating", "trueish", "false1", "imported", "packaged", "option_", "fixed", "uint", "required1", "sint64_t_", "index_", "obj_", "pbuf_", "value_of", "err_no", "end_posn_", "len_"};
    Str s = w[r.below(sizeof w / sizeof *w)]; if (r.one_in(3)) s += w[r.below(sizeof w / sizeof *w)]; return s;
}
static uint32_t tag_of(Rng &r) {
    static const uint32_t edge[] = {1, 2, 15, 16, 17, 127, 128, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 536870910, 536870911};
    for (;;) { uint32_t t = r.one_in(3) ? edge[r.below(17)] : r.one_in(4) ? 1 + (uint32_t)r.below(536870911) : 1 + (uint32_t)r.below(40); if (t < 19000 || t > 19999) return t; }
}
Schema schema_make(uint64_t seed) {
    Schema s; Rng r{seed * 0x1000193 + 77}; char pk[40]; snprintf(pk, sizeof pk, "P%llu", (unsigned long long)seed);
    s.package = pk; if (seed && r.one_in(3)) s.package += "." + Str("sub") + std::to_string(r.below(9));
    auto add = [&](const Str &simple, int parent) { PMsg m; m.simple = simple; m.parent = parent; m.full = (parent >= 0 ? s.m[parent].full : s.package) + "." + simple; m.cname = m.full; std::replace(m.cname.begin(), m.cname.end(), '.', '_'); s.m.push_back(m); return (int)s.m.size() - 1; };
    if (!seed) {
        static const char *n[] = {"Single", "Needed", "Packed", "Lists"}; for (int l = 0; l < 4; ++l) add(n[l], -1);
        int ob = add("Obj", -1); s.m[ob].f.push_back({1, "x", P_INT32, L_OPTIONAL, -1}); s.m[ob].f.push_back({2, "kids", P_MSG, L_LIST, ob}); s.m[ob].f.push_back({3, "next", P_MSG, L_OPTIONAL, ob});
        for (int l = 0; l < 4; ++l) for (int t = 0; t <= P_MSG; ++t) { static const int lab[] = {L_OPTIONAL, L_REQUIRED, L_PACKED, L_LIST}; int lb = lab[l]; if (lb == L_PACKED && t >= P_STRING) lb = L_LIST; s.m[l].f.push_back({(uint32_t)(t + 1), Str("f_") + (t < P_MSG ? PNAME[t] : "obj"), t, lb, t == P_MSG ? ob : -1}); }
    } else {
        size_t nm = 2 + r.below(5);
        for (size_t i = 0; i < nm; ++i) {
            int parent = i && r.one_in(3) ? (int)r.below(i) : -1; if (parent >= 0 && s.m[parent].parent >= 0 && s.m[s.m[parent].parent].parent >= 0) parent = -1;
            char nn[40]; snprintf(nn, sizeof nn, "M%zu%s", i, r.one_in(2) ? word(r).c_str() : ""); Str simple = nn;
            if (i && r.one_in(6)) { simple = s.m[r.below(i)].simple; bool clash = false; for (auto &m : s.m) if (m.simple == simple && m.parent == parent) clash = true; if (clash) simple = nn; }   // the same name in another scope
            add(simple, parent);
        }
        for (size_t i = 0; i < nm; ++i) {
            size_t nf = 1 + r.below(r.one_in(8) ? 30 : 7); std::set<uint32_t> tags; std::set<Str> names;
            for (size_t k = 0; k < nf; ++k) {
                PField f; do f.tag = tag_of(r); while (!tags.insert(f.tag).second);
                f.name = word(r); if (!names.insert(f.name).second || f.name.back() == '_' || f.name.size() < 3) { f.name += std::to_string(k); names.insert(f.name); }
                f.type = r.one_in(4) ? P_MSG : (int)r.below(P_MSG); f.msg = f.type == P_MSG ? (int)r.below(nm) : -1;
                switch (r.below(5)) { case 0: case 1: f.label = L_OPTIONAL; break; case 2: f.label = L_REQUIRED; break; case 3: f.label = L_LIST; break; default: f.label = p_num(f.type) ? L_PACKED : L_LIST; }
                s.m[i].f.push_back(f);
            }
            std::sort(s.m[i].f.begin(), s.m[i].f.end(), [](const PField &a, const PField &b) { return a.tag < b.tag; });
        }
    }
    size_t ne = r.below(3);
    for (size_t i = 0; i < ne; ++i) { PEnum e; e.simple = "En" + std::to_string(i); e.parent = r.one_in(2) ? -1 : (int)r.below(s.m.size()); e.cname = (e.parent >= 0 ? s.m[e.parent].full : s.package) + "." + e.simple; std::replace(e.cname.begin(), e.cname.end(), '.', '_'); size_t nv = 1 + r.below(4); for (size_t k = 0; k < nv; ++k) e.v.push_back({"V" + std::to_string(k) + word(r), k == 0 ? 0 : r.one_in(3) ? 2147483647 : r.below(1000)}); s.e.push_back(e); }
    return s;
}
// what a name means inside a message: the innermost scope that has it
static int resolve(const Schema &s, int from, const Str &name) {
    Str scope = s.m[from].full;
    for (;;) { Str t = scope.empty() ? name : scope + "." + name; for (size_t i = 0; i < s.m.size(); ++i) if (s.m[i].full == t) return (int)i; for (auto &e : s.e) if ((e.parent >= 0 ? s.m[e.parent].full : s.package) + "." + e.simple == t) return -1; if (scope.empty()) return -1; size_t p = scope.rfind('.'); scope = p == Str::npos ? "" : scope.substr(0, p); }
}
std::vector<Tok> schema_tokens(const Schema &s, Rng &r, bool shuffle) {
    std::vector<Tok> o; auto put = [&](const Str &t, int k = TK_PLAIN, int m = -1, int f = -1) { o.push_back({t, k, m, f}); };
    auto name = [&](const Str &n) { size_t p = 0; for (;;) { size_t q = n.find('.', p); put(n.substr(p, q == Str::npos ? q : q - p)); if (q == Str::npos) break; put("."); p = q + 1; } };
    auto option = [&] { put("option"); put("java_package_" + std::to_string(r.below(9))); put("=", TK_EQ); switch (r.below(4)) { case 0: put("\"com.example // not a comment\""); break; case 1: put("true"); break; case 2: put("12345"); break; default: put("SPEED"); } put(";", TK_SEMI); };
    put("syntax"); put("=", TK_EQ); put("\"proto3\"", TK_SYNTAX); put(";", TK_SEMI);
    if (shuffle && r.one_in(8)) { put("import"); if (r.one_in(2)) put("public"); put("\"other.proto\""); put(";", TK_SEMI); }
    put("package"); name(s.package); put(";", TK_SEMI);
    std::function<void(int)> message; std::function<void(int)> enums = [&](int parent) { for (auto &e : s.e) if (e.parent == parent) { put("enum"); put(e.simple, TK_MSGNAME); put("{", TK_OPEN); for (auto &v : e.v) { put(v.first, TK_ENUMVAL); put("=", TK_EQ); put(std::to_string(v.second)); put(";", TK_SEMI); if (shuffle && r.one_in(9)) option(); } put("}", TK_CLOSE); } };
    // the order of messages is part of the output, so it stays; a message comes before those nested in it
    message = [&](int i) {
        const PMsg &m = s.m[i]; put("message"); put(m.simple, TK_MSGNAME, i); put("{", TK_OPEN, i);
        std::vector<size_t> ord; for (size_t k = 0; k < m.f.size(); ++k) ord.push_back(k); if (shuffle) for (size_t k = ord.size(); k > 1; --k) std::swap(ord[k - 1], ord[r.below(k)]);
        std::vector<int> kids; for (size_t k = 0; k < s.m.size(); ++k) if (s.m[k].parent == i) kids.push_back((int)k);
        size_t kid = 0; enums(i);   // enumerations come out in the order of their appearance
        for (size_t k = 0; k < ord.size(); ++k) {
            const PField &f = m.f[ord[k]];
            if (shuffle && r.one_in(6)) { put("reserved"); if (r.one_in(2)) { put("7"); put(","); put("9"); put("to"); put("11"); } else { put("\"foo\""); put(","); put("\"bar\""); } put(";", TK_SEMI); }
            if (shuffle && r.one_in(12)) option();
            if (kid < kids.size() && r.one_in(2)) message(kids[kid++]);
            bool num = p_num(f.type);
            if (f.label == L_REQUIRED) put("required", TK_LABEL, i, (int)ord[k]); else if (f.label == L_PACKED || f.label == L_LIST) put("repeated", TK_LABEL, i, (int)ord[k]); else if (r.one_in(2)) put("optional", TK_LABEL, i, (int)ord[k]);
            if (f.type != P_MSG) put(PNAME[f.type], TK_TYPE, i, (int)ord[k]);
            else { std::vector<Str> ways; Str full = s.m[f.msg].full; for (size_t p = 0; p != Str::npos; p = full.find('.', p + 1)) { Str w = full.substr(p ? p + 1 : 0); if (resolve(s, i, w) == f.msg) ways.push_back(w); } name(ways[shuffle ? r.below(ways.size()) : 0]); }
            put(f.name, TK_FIELD, i, (int)ord[k]); put("=", TK_EQ); put((shuffle && r.one_in(10) ? "00" : "") + std::to_string(f.tag), TK_TAG, i, (int)ord[k]);
            if (f.label == L_LIST && num) { put("["); put("packed"); put("=", TK_EQ); put("false"); put("]"); }
            else if (f.label == L_PACKED && r.one_in(2)) { put("["); put("packed"); put("=", TK_EQ); put("true"); put("]"); }
            else if (shuffle && r.one_in(9)) { put("["); put("deprecated"); put("=", TK_EQ); put(r.one_in(2) ? "true" : "\"x\""); put("]"); }
            put(";", TK_SEMI, i);
        }
        while (kid < kids.size()) message(kids[kid++]);
        put("}", TK_CLOSE, i);
    };
    for (size_t i = 0; i < s.m.size(); ++i) if (s.m[i].parent < 0) message((int)i);
    enums(-1);
    return o;
}
Str tokens_text(const std::vector<Tok> &t, Rng &r, std::vector<size_t> *starts) {
    Str o; int style = (int)r.below(4);
    for (size_t i = 0; i < t.size(); ++i) {
        bool w = i && (isalnum((unsigned char)t[i - 1].t.back()) || t[i - 1].t.back() == '_') && isalnum((unsigned char)t[i].t[0]);
        if (style == 0) o += w ? " " : "";
        else if (style == 1) o += i && (t[i - 1].kind == TK_SEMI || t[i - 1].kind == TK_OPEN || t[i - 1].kind == TK_CLOSE) ? "\n    " : " ";
        else { if (w || r.one_in(2)) o += r.one_in(3) ? "\n" : r.one_in(3) ? "\t" : r.one_in(9) ? " \r\v " : " "; if (r.one_in(style == 2 ? 40 : 8)) { static const char *c[] = {"// a comment\n", "//\n", "// message X { int32 y = 1; }\n", "// \"quoted\n", "//// *** \xC3\xA9 \n"}; o += c[r.below(5)]; } }
        if (starts) starts->push_back(o.size());
        o += t[i].t;
    }
    if (style && r.one_in(2)) o += "\n";
    return o;
}
