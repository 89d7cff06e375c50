// Records of the certificate / key file format: schema from doc/noise-certificate.proto, an independent encoder and
// parser, and a bridge to the library's objects.
#pragma once
#include "party.h"
enum FType { F_U32, F_STR, F_BYTES, F_MSG };
enum { R_CERT, R_CHAIN, R_SUBJECT, R_PUBKEY, R_META, R_SIG, R_EXTRA, R_ENC, R_PRIV, R_PRIVINFO, R_COUNT };
struct FDef { int tag; const char *name; FType type; bool rep; int msg; };
struct MDef { const char *name; std::vector<FDef> f; };
extern const MDef SCHEMA[R_COUNT];
struct Rec;
struct Val { uint32_t u = 0; Bytes b; std::shared_ptr<Rec> m; bool operator==(const Val &o) const; };
struct Rec {
    int def; std::map<int, std::vector<Val>> f;
    explicit Rec(int d) : def(d) {}
    bool operator==(const Rec &o) const { return def == o.def && f == o.f; }
    Str show() const;
    size_t weight() const;
};
Bytes rec_encode(const Rec &r);
// What the bytes mean.  ok: they are a well-formed message of this type; may_reject: a reader may still refuse them
// (constructs the format leaves to the reader).  alts: records that a reader may return.
struct Parsed { bool ok = false, may_reject = false; std::vector<Rec> alts; };
Parsed rec_parse(int def, const Bytes &b);
bool utf8_ok(const Bytes &b);
void *lib_sym(const Api *be, const Str &name);
int lib_build(const Api *be, const Rec &r, void **obj);          // 0 and an object, or the first error (object freed)
Rec lib_extract(const Api *be, int def, void *obj);
void lib_free(const Api *be, int def, void *obj);
int lib_write(const Api *be, int def, void *obj, Bytes &out, size_t cap);
int lib_read(const Api *be, int def, const Bytes &in, void **obj);
// calling the generated functions by name
Str fn(int def, const char *verb, const char *f);
#define LCALL(be, T, nm, ...) ([&]() { Str n__ = (nm); auto p__ = (T)lib_sym(be, n__); SutScope sc__(be, n__.c_str()); return p__(__VA_ARGS__); }())
typedef int (*fnew)(void **); typedef int (*ffree)(void *); typedef int (*fset32)(void *, uint32_t); typedef int (*fsetb)(void *, const void *, size_t);
typedef int (*fadd)(void *, void **); typedef int (*fins)(void *, size_t, void *); typedef uint32_t (*fget32)(const void *); typedef const void *(*fgetb)(const void *); typedef size_t (*fsz)(const void *); typedef void *(*fat)(const void *, size_t); typedef int (*fhas)(const void *);
// random generation
Val gen_val(const FDef &d, const char *stream, unsigned level);
Rec gen_rec(int def, const char *stream, unsigned level);
Rec gen_privkey(const char *stream, bool real_keys);
// model of the encrypted key container
bool enc_open(const Bytes &file, const Bytes &pass, Rec &key, bool *huge, Parsed *outer);
Bytes enc_seal(const Rec &key, const Bytes &pass, const Str &alg, uint32_t iter, const Bytes &salt);
bool alg_parse(const Bytes &name, int &cipher, int &hash);
// What loading a file of the given kind must do
struct Exp { bool must_ok = false, must_fail = false, skip = false; std::vector<Rec> alts; };
Exp expect_load(int kind, const Bytes &b, const Bytes &pass);
Bytes rec_encode_odd(const Rec &r, bool top);
