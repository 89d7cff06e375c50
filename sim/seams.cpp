// The seams: everything nondeterministic or fallible that the code under test reaches is decided here.
// The libraries under test are linked with -Wl,--wrap=NAME, so their calls of NAME arrive at __wrap_NAME.
#include "sim.h"
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <time.h>
#include <sys/time.h>
#include <sodium.h>
#include <openssl/evp.h>
#include <getopt.h>

Entropy ENT; Heap HEAP; Disk DISK; Str CAP_OUT; int sut_depth; ProcHooks *g_proc;
static const Api *g_be;

SutScope::SutScope(const Api *a, const char *fn) : saved(sut_depth), savedapi(0) {
    sut_depth++; g_be = a;
    snprintf(SH->curapi, sizeof SH->curapi, "%s", fn);
}
SutScope::~SutScope() { sut_depth--; }

// ------------------------------------------------------------------ entropy
static std::map<int, std::pair<Data *, uint64_t>> g_ent;   // party -> generator, byte position
static std::map<int, Bytes> g_entbuf;
static void ent_deliver(uint8_t *buf, size_t n, bool partial = false) {
    ENT.chunks.push_back({ENT.log.size(), n, partial});
    if (ENT.use_feed && ENT.feed.size() >= n) { memcpy(buf, ENT.feed.data(), n); ENT.feed.erase(ENT.feed.begin(), ENT.feed.begin() + n); ENT.log.insert(ENT.log.end(), buf, buf + n); ENT.total += n; return; }
    if (ENT.use_feed) { ENT.feed_dry = true; count("probe:feed-ran-dry"); }
    auto &g = g_ent[ENT.party];
    if (!g.first) g.first = new Data("entropy", ENT.party);
    Bytes &b = g_entbuf[ENT.party];
    while (b.size() < n) { uint64_t v = g.first->next(); for (int i = 0; i < 8; ++i) b.push_back((uint8_t)(v >> (8 * i))); }
    memcpy(buf, b.data(), n); b.erase(b.begin(), b.begin() + n);
    ENT.log.insert(ENT.log.end(), buf, buf + n); ENT.total += n;
}
void entropy_party(int p) { ENT.party = p; }
void entropy_restart() { g_ent.clear(); g_entbuf.clear(); ENT.log.clear(); ENT.chunks.clear(); ENT.limit_calls = 0; }
void entropy_mark() { ENT.log.clear(); ENT.chunks.clear(); ENT.any_hard = false; ENT.limit_calls = 0; }
static bool ent_fault(const char *name, unsigned pm) {
    if (!pm || ENT.faults >= ENT.max_faults) return false;
    if (!flip("entropy.fault", pm)) return false;
    ENT.faults++; count(Str("fault:entropy-") + name); lg("entropy fault %s", name);
    return true;
}
static void ent_budget() {
    ENT.calls++;
    if (++ENT.limit_calls > 200000) violate("*", (Str("hang-entropy@") + SH->curapi).c_str(), "the random source is asked for bytes without end in %s", SH->curapi);
    if (ENT.limit_calls > 200001) throw SutExit{98};
}
// one read(2) on the random device: returns what the system would return
static ssize_t ent_read(uint8_t *buf, size_t n) {
    ent_budget();
    if (ent_fault("eintr", ENT.pm_eintr)) { errno = EINTR; return -1; }
    if (ent_fault("error", ENT.pm_err)) { errno = EIO; ENT.any_hard = true; return -1; }
    if (ent_fault("eof", ENT.pm_eof)) { ENT.any_hard = true; return 0; }
    if (n > 1 && ent_fault("short", ENT.pm_short)) { size_t k = 1 + pick("entropy.shortlen", n - 1); ent_deliver(buf, k, true); ENT.any_hard = true; return k; }
    ent_deliver(buf, n);
    return n;
}
static const char *rb_name() { return "noisesim"; }
static uint32_t rb_random() { uint32_t v; ent_deliver((uint8_t *)&v, 4); return v; }
static void rb_buf(void *const b, const size_t n) { ENT.calls++; ent_deliver((uint8_t *)b, n); }
static int rb_close() { return 0; }
static void rb_stir() {}
static randombytes_implementation g_rb;
void seams_init() {
    g_rb.implementation_name = rb_name; g_rb.random = rb_random; g_rb.stir = rb_stir; g_rb.uniform = 0; g_rb.buf = rb_buf; g_rb.close = rb_close;
    randombytes_set_implementation(&g_rb);
    if (sodium_init() < 0) { fprintf(stderr, "sodium_init failed\n"); exit(3); }
}

// ------------------------------------------------------------------ file descriptors and disk
struct SimFd { int kind; Str path; uint64_t pos; bool app; };   // kind 1 entropy, 2 file
static std::map<int, SimFd> g_fds; static int g_nextfd = 100000;
struct SimStream { Str path; uint64_t pos; bool wr, app, entropy; int fd; };
static std::map<FILE *, SimStream *> g_streams;

void disk_mark() { DISK.io_failed = DISK.read_failed = DISK.write_failed = false; DISK.faults = 0; }
static bool disk_fault(const char *name, unsigned pm) {
    if (!pm || DISK.faults >= DISK.max_faults) return false;
    if (!flip("disk.fault", pm)) return false;
    DISK.faults++; DISK.io_failed = true; count(Str("fault:disk-") + name); lg("disk fault %s", name);
    return true;
}
static uint64_t disk_used() { uint64_t t = 0; for (auto &f : DISK.files) t += f.second.data.size(); return t; }
static bool is_random(const char *p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }

// offsets at which a prefix of the file is a sequence of whole fields
static std::vector<size_t> field_ends(const Bytes &b) {
    std::vector<size_t> o; size_t p = 0;
    while (p < b.size() && o.size() < 200) {
        auto vint = [&] { uint64_t v = 0; for (int s = 0; p < b.size() && s < 63; s += 7) { uint8_t c = b[p++]; v |= (uint64_t)(c & 127) << s; if (!(c & 128)) break; } return v; };
        uint64_t t = vint() & 7, l = t == 0 ? (vint(), 0) : t == 1 ? 8 : t == 5 ? 4 : t == 2 ? vint() : ~0ULL;
        if (l > b.size() - p) break;
        p += l; o.push_back(p);
    }
    return o;
}
static ssize_t file_read(const Str &path, uint64_t &pos, char *buf, size_t n) {
    DISK.reads++;
    auto it = DISK.files.find(path);
    if (it == DISK.files.end()) { errno = EIO; return -1; }
    if (DISK.sticky && DISK.read_failed) { errno = EIO; return -1; }
    if (disk_fault("read-eio", DISK.pm_readerr)) { DISK.read_failed = true; errno = EIO; return -1; }
    size_t avail = it->second.data.size() > pos ? it->second.data.size() - pos : 0;
    if (n > avail) n = avail;
    if (n > 1 && DISK.pm_readshort && flip("disk.short", DISK.pm_readshort)) { count("fault:disk-read-short"); n = 1 + pick("disk.shortlen", n - 1);
        if (pick("disk.shortwhere", 3) == 0) { std::vector<size_t> cut; for (size_t x : field_ends(it->second.data)) if (x > pos && x < pos + n) cut.push_back(x); if (!cut.empty()) n = cut[pick("disk.shortcut", cut.size())] - pos; } }
    memcpy(buf, it->second.data.data() + pos, n); pos += n;
    return n;
}
static ssize_t file_write(const Str &path, uint64_t &pos, bool app, const char *buf, size_t n, bool stream = false) {   // a stream cookie must report what was written, never -1
    DISK.writes++;
    if (DISK.frozen) return n;
    if (DISK.crash_at_write && DISK.writes == DISK.crash_at_write) {
        size_t k = pick("disk.crashlen", n + 1); count("fault:crash-in-write"); lg("crash in write, %zu of %zu bytes kept", k, n);
        Bytes &d = DISK.files[path].data; if (app) pos = d.size();
        if (d.size() < pos + k) d.resize(pos + k);
        memcpy(d.data() + pos, buf, k); DISK.frozen = true; return n;
    }
    size_t ok = n; int er = 0;
    uint64_t used = disk_used();
    if (DISK.sticky && DISK.write_failed) { ok = 0; er = EIO; }
    else if (disk_fault("write-eio", DISK.pm_writeerr)) { ok = pick("disk.partial", n + 1); er = EIO; }
    else if (used + n > DISK.capacity) { ok = DISK.capacity > used ? DISK.capacity - used : 0; er = ENOSPC; count("fault:disk-full"); lg("disk full"); DISK.io_failed = true; }
    Bytes &d = DISK.files[path].data; if (app) pos = d.size();
    if (d.size() < pos + ok) d.resize(pos + ok);
    if (ok) memcpy(d.data() + pos, buf, ok);
    pos += ok;
    if (er) { DISK.write_failed = true; errno = er; return stream ? (ssize_t)ok : -1; }
    return n;
}
static bool disk_open(const char *path, bool rd, bool wr, bool creat, bool trunc) {
    DISK.opens++;
    if (disk_fault("open", DISK.pm_openfail)) { static const int e[] = {EACCES, EMFILE, EIO, ENOENT}; errno = e[pick("disk.openerr", 4)]; if (wr) DISK.write_failed = true; else DISK.read_failed = true; return false; }
    bool exists = DISK.files.count(path);
    if (!exists && !creat) { errno = ENOENT; return false; }
    if (wr && !DISK.frozen) { if (trunc || !exists) { DISK.files[path].data.clear(); } }
    return true;
}
static ssize_t ck_read(void *c, char *b, size_t n) { SimStream *s = (SimStream *)c; if (s->entropy) return ent_read((uint8_t *)b, n); return file_read(s->path, s->pos, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { SimStream *s = (SimStream *)c; return file_write(s->path, s->pos, s->app, b, n, true); }
static int ck_seek(void *c, off64_t *off, int whence) {
    SimStream *s = (SimStream *)c;
    auto it = DISK.files.find(s->path);
    if (s->entropy || it == DISK.files.end() || !it->second.seekable || disk_fault("seek", DISK.pm_seekfail)) { errno = ESPIPE; return -1; }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)s->pos : (int64_t)it->second.data.size();
    if (base + *off < 0) { errno = EINVAL; return -1; }
    s->pos = base + *off; *off = s->pos; return 0;
}
static int ck_close(void *c) {
    SimStream *s = (SimStream *)c; int r = 0;
    if (s->wr && disk_fault("close-eio", DISK.pm_closeerr)) {
        // write-back error reported at close: the tail of the data did not reach the disk
        Bytes &d = DISK.files[s->path].data; if (!d.empty() && !DISK.frozen) d.resize(pick("disk.closekeep", d.size()));
        DISK.write_failed = true; errno = EIO; r = -1;
    }
    DISK.open_streams--; for (auto it = g_streams.begin(); it != g_streams.end(); ++it) if (it->second == s) { g_streams.erase(it); break; }
    delete s; return r;
}
static FILE *sim_fopen(const char *path0, const char *mode) {
    Str mapped = g_proc ? g_proc->path(path0) : Str(path0); const char *path = mapped.c_str();
    bool ent = is_random(path), wr = strpbrk(mode, "wa+") != 0, app = mode[0] == 'a';
    if (ent) { if (ent_fault("open", ENT.pm_openfail)) { ENT.any_hard = true; errno = EMFILE; return 0; } }
    else if (!disk_open(path, mode[0] == 'r', wr, mode[0] != 'r', mode[0] == 'w')) return 0;
    SimStream *s = new SimStream{path, 0, wr, app, ent, -1};
    cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
    FILE *fp = fopencookie(s, mode, f);
    static const size_t sz[] = {0, 16, 64, 512, 65536};
    if (ent) setvbuf(fp, 0, _IONBF, 0); else if (DISK.bufmode > 0) setvbuf(fp, new char[sz[DISK.bufmode % 5]], _IOFBF, sz[DISK.bufmode % 5]);   // glibc ignores the size without a buffer
    DISK.open_streams++; g_streams[fp] = s;
    return fp;
}
static int sim_open(const char *path0, int flags) {
    Str mapped = g_proc ? g_proc->path(path0) : Str(path0); const char *path = mapped.c_str();
    if (is_random(path)) {
        ent_budget();
        if (ent_fault("open", ENT.pm_openfail)) { static const int e[] = {EMFILE, ENOENT, EACCES, ENFILE}; errno = e[pick("entropy.openerr", 4)]; ENT.any_hard = true; return -1; }
        g_fds[g_nextfd] = SimFd{1, path, 0, false}; ENT.openfds++; return g_nextfd++;
    }
    int acc = flags & O_ACCMODE;
    if (!disk_open(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC)) return -1;
    g_fds[g_nextfd] = SimFd{2, path, 0, (flags & O_APPEND) != 0}; return g_nextfd++;
}

static void secret_hit(const void *p, size_t n, const char *where) {
    Str what;
    if (HEAP.scan && secret_scan(p, n, &what))
        violate("M02", ("secret-in-freed-memory:" + what + "@" + SH->curapi).c_str(), "memory given back to the allocator (%s, %zu bytes) during %s still contains %s", where, n, SH->curapi, what.c_str());
}
static bool heap_should_fail() {
    uint64_t i = ++HEAP.allocs; HEAP.total++;
    if (g_proc && g_proc->heap_fail()) { errno = ENOMEM; return true; }
    if (HEAP.fail_at.count(i) || (HEAP.fail_from && i >= HEAP.fail_from)) {
        HEAP.failed++; count("fault:oom"); lg("allocation %llu fails", (unsigned long long)i);
        if (HEAP.failed > 100000) { violate("*", (Str("hang-oom@") + SH->curapi).c_str(), "endless failing allocations in %s", SH->curapi); throw SutExit{97}; }
        errno = ENOMEM; return true;
    }
    if (i > 20000000) { violate("*", (Str("hang-alloc@") + SH->curapi).c_str(), "endless allocations in %s", SH->curapi); throw SutExit{97}; }
    return false;
}
static void *sim_alloc(size_t n, bool zero) {
    if (heap_should_fail()) return 0;
    if (n > (1u << 28)) { errno = ENOMEM; return 0; }
    void *p = malloc(n ? n : 1);
    if (!p) harness_error("real malloc failed");
    memset(p, zero ? 0 : 0xA7, n);
    HEAP.live[p] = HeapBlock{n, ++HEAP.seq, HEAP.owner};
    if (g_proc) g_proc->heap_new(p);
    return p;
}

std::vector<std::pair<bool, Str>> GETPASS; size_t GETPASS_I;
KdfSeam KDF;
extern "C" {
void *__wrap_malloc(size_t n) { return sim_alloc(n, false); }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return 0; } return sim_alloc(a * b, true); }
void __wrap_free(void *p) {
    if (!p) return;
    if (g_proc && g_proc->heap_free(p)) return;
    auto it = HEAP.live.find(p);
    if (it != HEAP.live.end()) { secret_hit(p, it->second.size, "free"); HEAP.live.erase(it); }
    free(p);
}
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return sim_alloc(n, false);
    auto it = HEAP.live.find(p);
    if (it == HEAP.live.end()) return realloc(p, n);
    size_t old = it->second.size;
    if (n == 0) { __wrap_free(p); return 0; }
    void *q = sim_alloc(n, false); if (!q) return 0;
    memcpy(q, p, old < n ? old : n);
    __wrap_free(p);
    return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_alloc(n, false); if (p) memcpy(p, s, n); return p; }

int __wrap_open(const char *p, int fl, ...) { return sim_open(p, fl); }
int __wrap_open64(const char *p, int fl, ...) { return sim_open(p, fl); }
int __wrap_openat(int, const char *p, int fl, ...) { return sim_open(p, fl); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (g_proc && g_proc->owns_fd(fd)) return g_proc->read(fd, b, n);
    auto it = g_fds.find(fd);
    if (it == g_fds.end()) { errno = EBADF; return -1; }
    if (it->second.kind == 1) return ent_read((uint8_t *)b, n);
    return file_read(it->second.path, it->second.pos, (char *)b, n);
}
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t) { return __wrap_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (g_proc && g_proc->owns_fd(fd)) return g_proc->write(fd, b, n);
    if (fd == 1) { CAP_OUT.append((const char *)b, n); return n; }
    if (fd == 2) return n;
    auto it = g_fds.find(fd);
    if (it == g_fds.end() || it->second.kind != 2) { errno = EBADF; return -1; }
    return file_write(it->second.path, it->second.pos, it->second.app, (const char *)b, n);
}
int __wrap_close(int fd) {
    if (g_proc && (g_proc->owns_fd(fd) || fd < 100000)) return g_proc->close(fd);
    auto it = g_fds.find(fd);
    if (it == g_fds.end()) { errno = EBADF; return -1; }
    if (it->second.kind == 1) ENT.openfds--;
    g_fds.erase(it); return 0;
}
ssize_t __wrap_getrandom(void *b, size_t n, unsigned) { return ent_read((uint8_t *)b, n); }
int __wrap_getentropy(void *b, size_t n) { ent_budget(); if (ent_fault("error", ENT.pm_err)) { ENT.any_hard = true; errno = EIO; return -1; } ent_deliver((uint8_t *)b, n); return 0; }
FILE *__wrap_fopen(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) {
    auto it = g_fds.find(fd);
    if (it == g_fds.end()) { errno = EBADF; return 0; }
    Str p = it->second.path; return sim_fopen(p.c_str(), m);
}
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { fclose(f); return sim_fopen(p, m); }
int __wrap_fileno(FILE *f) {
    if (f == stdin) return 0;
    if (f == stdout) return 1;
    if (f == stderr) return 2;
    auto it = g_streams.find(f);
    if (it == g_streams.end()) { errno = EBADF; return -1; }
    int fd = g_nextfd++; g_fds[fd] = SimFd{2, it->second->path, 0, false}; return fd;
}
static int sync_fd() { if (disk_fault("fsync-eio", DISK.pm_closeerr)) { DISK.write_failed = true; errno = EIO; return -1; } return 0; }
int __wrap_fsync(int) { return sync_fd(); }
int __wrap_fdatasync(int) { return sync_fd(); }
int __wrap_unlink(const char *p) { if (DISK.frozen) return 0; if (!DISK.files.erase(p)) { errno = ENOENT; return -1; } return 0; }
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
int __wrap_rename(const char *a, const char *b) {
    if (DISK.frozen) return 0;
    auto it = DISK.files.find(a); if (it == DISK.files.end()) { errno = ENOENT; return -1; }
    SimFile f = it->second; DISK.files.erase(it); DISK.files[b] = f; return 0;
}
static int sim_stat(const Str &p, struct stat *st) {
    auto it = DISK.files.find(p); if (it == DISK.files.end()) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0600; st->st_size = it->second.data.size(); st->st_nlink = 1; return 0;
}
int __wrap_stat(const char *p, struct stat *st) { return sim_stat(p, st); }
int __wrap_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int __wrap_fstat(int fd, struct stat *st) { auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; } return sim_stat(it->second.path, st); }
int __wrap_access(const char *p, int) { if (!DISK.files.count(p)) { errno = ENOENT; return -1; } return 0; }
int __wrap_chmod(const char *, mode_t) { return 0; }
int __wrap_fchmod(int, mode_t) { return 0; }
mode_t __wrap_umask(mode_t) { return 022; }
int __wrap_ftruncate(int fd, off_t n) { auto it = g_fds.find(fd); if (it == g_fds.end()) { errno = EBADF; return -1; } if (!DISK.frozen) DISK.files[it->second.path].data.resize(n); return 0; }
int __wrap_mkstemp(char *t) { static int k; size_t l = strlen(t); snprintf(t + l - 6, 7, "%06d", ++k); return sim_open(t, O_RDWR | O_CREAT | O_TRUNC); }
char *__wrap_getpass(const char *) {
    static char b[2048]; if (GETPASS.empty()) { strcpy(b, "correct horse"); return b; }
    if (GETPASS_I >= GETPASS.size() || !GETPASS[GETPASS_I].first) { GETPASS_I++; errno = ENXIO; return 0; }
    snprintf(b, sizeof b, "%s", GETPASS[GETPASS_I++].second.c_str()); return b;
}
int __wrap_noise_hashstate_pbkdf2(void *state, const uint8_t *pass, size_t passlen, const uint8_t *salt, size_t saltlen, size_t iter, uint8_t *out, size_t outlen) {
    typedef int (*Fn)(void *, const uint8_t *, size_t, const uint8_t *, size_t, size_t, uint8_t *, size_t);
    static std::unordered_map<void *, Fn> real; Dl_info di; if (!dladdr(__builtin_return_address(0), &di)) abort();   // the build that asks
    Fn &f = real[di.dli_fbase]; if (!f) { void *h = dlopen(di.dli_fname, RTLD_NOW | RTLD_NOLOAD); f = h ? (Fn)dlsym(h, "noise_hashstate_pbkdf2") : 0; if (!f) abort(); }
    if (KDF.cap) return f(state, pass, passlen, salt, saltlen, iter > KDF.cap ? KDF.cap : iter, out, outlen);
    int r = f(state, pass, passlen, salt, saltlen, iter, out, outlen);
    if (!r && outlen == 40 && salt) { Bytes s(salt, salt + saltlen); bool again = KDF.salts.count(s);
        if (again && ++KDF.repeats > 20) { violate("S03", "save-never-ends", "the key derivation yields the reserved nonce and is repeated with the same salt for ever in %s", SH->curapi); throw SutExit{97}; }
        if (again || KDF.reserved > 0) { if (!again) { KDF.reserved--; KDF.salts.insert(s); count("fault:reserved-nonce-derived"); } memset(out + 32, 0xff, 8); } }
    return r;
}
int __wrap_isatty(int) { return 0; }
void __wrap_exit(int c) { if (g_proc) g_proc->exit(c); throw SutExit{c}; }
void __wrap__exit(int c) { if (g_proc) g_proc->exit(c); throw SutExit{c}; }
void __wrap_abort(void) { if (g_proc) g_proc->exit(-6); throw SutExit{134}; }
void __wrap_perror(const char *) {}
EVP_CIPHER_CTX *__wrap_EVP_CIPHER_CTX_new(void) { if (heap_should_fail()) return 0; EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); HEAP.live[c] = HeapBlock{0, ++HEAP.seq, HEAP.owner}; return c; }
void __wrap_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { if (c) HEAP.live.erase(c); EVP_CIPHER_CTX_free(c); }
static bool evp_fail() { return heap_should_fail(); }
int __wrap_EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv) { if (evp_fail()) return 0; return EVP_EncryptInit_ex(c, t, e, k, iv); }
int __wrap_EVP_DecryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv) { if (evp_fail()) return 0; return EVP_DecryptInit_ex(c, t, e, k, iv); }
int __wrap_EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *l, const unsigned char *i, int n) { if (evp_fail()) return 0; return EVP_EncryptUpdate(c, o, l, i, n); }
int __wrap_EVP_DecryptUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *l, const unsigned char *i, int n) { if (evp_fail()) return 0; return EVP_DecryptUpdate(c, o, l, i, n); }
int __wrap_EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX *c, int t, int a, void *p) { if (evp_fail()) return 0; return EVP_CIPHER_CTX_ctrl(c, t, a, p); }
time_t __wrap_time(time_t *t) { time_t v = 1500000000 + (g_proc ? g_proc->now_ms() / 1000 : 0); if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *) { uint64_t m = g_proc ? g_proc->now_ms() : 0; tv->tv_sec = 1500000000 + m / 1000; tv->tv_usec = m % 1000 * 1000; return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec *ts) { uint64_t m = g_proc ? g_proc->now_ms() : 0; ts->tv_sec = 1500000000 + m / 1000; ts->tv_nsec = m % 1000 * 1000000; return 0; }
}

// ------------------------------------------------------------------ heap helpers
void heap_mark() { HEAP.allocs = 0; HEAP.failed = 0; }
void heap_faults_off() { HEAP.fail_at.clear(); HEAP.fail_from = 0; }
static uint64_t w8(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static int distinct(const uint8_t *p) { int d = 0; for (int i = 0; i < 8; ++i) { bool s = false; for (int j = 0; j < i; ++j) if (p[j] == p[i]) s = true; if (!s) d++; } return d; }
void secret_add(const char *label, const uint8_t *p, size_t n) {
    int id = -1;
    for (size_t i = 0; i < HEAP.labels.size(); ++i) if (HEAP.labels[i] == label) id = (int)i;
    if (id < 0) { id = (int)HEAP.labels.size(); HEAP.labels.push_back(label); }
    for (size_t i = 0; i + 8 <= n; ++i) {
        if (distinct(p + i) < 5) continue;
        uint64_t v = w8(p + i); HEAP.secret_windows.emplace(v, id);
        HEAP.secret_windows.emplace(v ^ 0x3636363636363636ULL, id);
        HEAP.secret_windows.emplace(v ^ 0x5c5c5c5c5c5c5c5cULL, id);
        HEAP.secret_windows.emplace(((v & 0xff000000ff000000ULL) >> 24) | ((v & 0x00ff000000ff0000ULL) >> 8) | ((v & 0x0000ff000000ff00ULL) << 8) | ((v & 0x000000ff000000ffULL) << 24), id);
        HEAP.secret_windows.emplace(__builtin_bswap64(v), id);
    }
}
void secret_clear() { HEAP.secret_windows.clear(); HEAP.labels.clear(); }
bool secret_scan(const void *p, size_t n, Str *what) {
    if (HEAP.secret_windows.empty()) return false;
    const uint8_t *b = (const uint8_t *)p; HEAP.scanned += n; HEAP.scanned_blocks++; asserted("M02");
    for (size_t i = 0; i + 8 <= n; ++i) {
        auto it = HEAP.secret_windows.find(w8(b + i));
        if (it != HEAP.secret_windows.end()) { if (what) *what = HEAP.labels[it->second]; return true; }
    }
    return false;
}
size_t heap_live_count(int owner, size_t *bytes) { size_t c = 0, t = 0; for (auto &b : HEAP.live) if (b.second.owner == owner) { c++; t += b.second.size; } if (bytes) *bytes = t; return c; }
// register everything in a live block that looks like key material (not pointers, counters or padding)
void heap_snapshot_secret(const char *label, void *obj, int) {
    auto it = HEAP.live.find(obj); if (it == HEAP.live.end()) return;
    const uint8_t *p = (const uint8_t *)obj; size_t n = it->second.size;
    int id = -1;
    for (size_t i = 0; i < HEAP.labels.size(); ++i) if (HEAP.labels[i] == label) id = (int)i;
    if (id < 0) { id = (int)HEAP.labels.size(); HEAP.labels.push_back(label); }
    std::vector<bool> ptr(n, false);
    for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = w8(p + i); if ((v >> 48) == 0 && v > 0x10000) for (int j = 0; j < 8; ++j) ptr[i + j] = true; }
    for (size_t i = 0; i + 8 <= n; ++i) {
        if (distinct(p + i) < 7) continue;
        bool bad = false; int zeros = 0; for (int j = 0; j < 8; ++j) { if (ptr[i + j]) bad = true; if (!p[i + j]) zeros++; }
        if (bad || zeros > 1) continue;
        if (memmem("expand 32-byte k", 16, p + i, 8) || memmem("expand 16-byte k", 16, p + i, 8)) continue;
        HEAP.secret_windows.emplace(w8(p + i), id);
    }
}

// ------------------------------------------------------------------ running tools
static FILE *g_save_out, *g_save_err;
static ssize_t cap_write(void *c, const char *b, size_t n) { if (c) ((Str *)c)->append(b, n); return n; }
static Str g_cap_err;
void capture_begin() {
    CAP_OUT.clear(); g_cap_err.clear();
    cookie_io_functions_t f = {0, cap_write, 0, 0};
    fflush(stdout); g_save_out = stdout; g_save_err = stderr;
    stdout = fopencookie(&CAP_OUT, "w", f); stderr = fopencookie(&g_cap_err, "w", f);
}
void capture_end() {
    fflush(stdout); fflush(stderr); FILE *a = stdout, *b = stderr; stdout = g_save_out; stderr = g_save_err; fclose(a); fclose(b);
}
void sut_reset_getopt() { optind = 0; opterr = 1; optopt = 0; optarg = 0; }
int run_tool(const Api *be, int (*mainfn)(int, char **), const std::vector<Str> &args) {
    sut_globals_restore(be->id);
    std::vector<char *> av; std::vector<Str> copy = args;
    for (auto &a : copy) av.push_back((char *)a.c_str());
    av.push_back(0);
    sut_reset_getopt(); capture_begin();
    int rc;
    try { SutScope sc(be, args[0].c_str()); rc = mainfn((int)args.size(), av.data()); }
    catch (SutExit &e) { rc = e.code; }
    // returning from main flushes and closes what is still open, as exit() would
    std::vector<FILE *> open; for (auto &s : g_streams) open.push_back(s.first);
    for (FILE *f : open) fclose(f);
    capture_end();
    return rc & 0xff;
}
void sut_fd_check() {
    asserted("M01,R01");
    if (ENT.openfds) violate("M01,R01", "leaked-descriptor", "%u descriptors of the random device are left open", ENT.openfds);
}
