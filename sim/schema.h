// Random protobuf definitions in the subset that noise-protoc supports, and what they mean.
#pragma once
#include "sim.h"
enum PType { P_INT32, P_UINT32, P_INT64, P_UINT64, P_SINT32, P_SINT64, P_FIXED32, P_SFIXED32, P_FIXED64, P_SFIXED64, P_FLOAT, P_DOUBLE, P_BOOL, P_STRING, P_BYTES, P_MSG };
enum PLabel { L_OPTIONAL, L_REQUIRED, L_PACKED, L_LIST };   // L_LIST: repeated, every element with its own tag
extern const char *const PNAME[];
inline bool p_num(int t) { return t < P_STRING; }
struct PField { uint32_t tag; Str name; int type, label; int msg; };
struct PMsg { Str simple, full, cname; int parent; std::vector<PField> f; const PField *by_tag(uint32_t t) const { for (auto &x : f) if (x.tag == t) return &x; return nullptr; } };
struct PEnum { Str simple, cname; int parent; std::vector<std::pair<Str, uint64_t>> v; };
struct Schema { Str package; std::vector<PMsg> m; std::vector<PEnum> e; };
struct Rng { uint64_t s; uint64_t next(); uint64_t below(uint64_t n) { return next() % n; } bool one_in(uint64_t n) { return below(n) == 0; } };
Schema schema_make(uint64_t seed);                    // 0: one of everything
// One of the many ways to write the definition down: layout, comments, order of fields, ways to refer to types.
struct Tok { Str t; int kind; int msg; int field; };    // kind: what a damage may be aimed at
enum { TK_PLAIN, TK_TAG, TK_FIELD, TK_TYPE, TK_SEMI, TK_OPEN, TK_CLOSE, TK_EQ, TK_MSGNAME, TK_SYNTAX, TK_ENUMVAL, TK_LABEL };
std::vector<Tok> schema_tokens(const Schema &s, Rng &r, bool shuffle);
Str tokens_text(const std::vector<Tok> &t, Rng &r, std::vector<size_t> *starts = nullptr);
