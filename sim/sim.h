// Deterministic simulator for noise-c: core interfaces.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <memory>
#include <algorithm>
extern "C" {
#include <noise/protocol.h>
#include <noise/keys.h>
#include <noise/protobufs.h>
}
typedef std::vector<uint8_t> Bytes;
typedef std::string Str;

// ---- shared result area of one run (child process writes, worker reads) ----
struct Shared {
    volatile uint32_t status;       // 0 running, 1 held, 2 violation, 3 hang
    uint32_t asserts;
    uint64_t seed, loghash, events, simtime, steps;
    char cls[200];
    char desc[2000];
    char asan[3000];
    char curapi[96];
    uint32_t nstreams, ntape, nctr, nstates;
    char streams[200][40];
    struct { uint32_t stream, idx; uint64_t val; } tape[60000];
    struct { char name[56]; uint64_t n; } ctr[400];
    uint64_t states[20000];
    char sample[3000];
};
extern Shared *SH;

struct SutExit { int code; };

// ---- run parameters ----
extern Str g_prop;          // property being checked
extern Str g_backends;      // restriction, normally empty
extern Str g_extra_props;   // every violation of this run also counts against these
extern bool g_verbose;
bool prop_is(const char *list);

// ---- choices: every one is decided by (seed, stream, index) and recorded ----
void sim_begin(uint64_t seed);
void replay_set(const Str &stream, uint32_t idx, uint64_t val);
void replay_on();
uint64_t pick(const char *stream, uint64_t n);                   // uniform in [0,n)
uint64_t choose(const char *stream, uint64_t n, unsigned pm);    // nonzero with probability pm/1000
bool flip(const char *stream, unsigned pm);
uint64_t H64(uint64_t a, uint64_t b);
uint64_t hstr(const char *s);
struct Data {               // derived data (contents of keys, payloads): not part of the tape
    uint64_t s;
    Data(const char *name, uint64_t k = 0);
    uint64_t next();
    Bytes bytes(size_t n);
};
// ---- recording ----
void lg(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void lgb(const char *what, const void *p, size_t n);
void count(const Str &name, uint64_t n = 1);      // "fault:x", "probe:x", "op:x"
void state_seen(uint64_t h);
void sim_time(uint64_t t);
void asserted(const char *props);                 // an assertion deciding these properties was evaluated
bool violated();                                  // some violation (of any property) was recorded in this run
void violate(const char *props, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void run_done();
[[noreturn]] void harness_error(const char *fmt, ...);
Str hex(const void *p, size_t n, size_t max = 48);
inline Str hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }

// ---- code under test ----
enum { BE_REF = 0, BE_SODIUM = 1, BE_OPENSSL = 2, BE_COUNT = 3, BE_GEN = 3, BE_PROTOC = 4, BE_ALL = 5 };   // the last two: generated code, noise-protoc
struct Api {
#define X(n) decltype(&::n) n;
#include "api.inc"
#undef X
    int (*keytool_main)(int, char **);
    int (*echokeygen_main)(int, char **);
    int (*protoc_main)(int, char **);
    const char *name;
    int id;
    void *handle;
};
extern Api API[BE_ALL];
extern Str g_libdir;
void load_apis(const Str &dir);
void sut_globals_save(int be);
void sut_globals_restore(int be);
void sut_globals_pristine(int be);                 // as before noise_init()
bool sut_global(const void *p);                    // does this address belong to the libraries' writable data
void sut_globals_range(uintptr_t *lo, uintptr_t *hi);

// every call into the code under test goes through CALL, so the seams know who is calling
struct SutScope {
    int saved; const char *savedapi;
    SutScope(const Api *a, const char *fn);
    ~SutScope();
};
extern int sut_depth;
#define CALL(be, fn, ...) ([&]() { SutScope sc__((be), #fn); return (be)->fn(__VA_ARGS__); }())

// ---- entropy seam ----
struct Entropy {
    Bytes log;                         // bytes delivered since the last mark
    std::vector<uint64_t> pos;         // position per party in its stream
    uint64_t total = 0, calls = 0;
    int party = 0;
    // fault plan: probability per mille per system call, 0 = none
    unsigned pm_eintr = 0, pm_short = 0, pm_eof = 0, pm_err = 0, pm_openfail = 0;
    int max_faults = 1000000, faults = 0;
    bool any_hard = false;             // a fault that permits the code to give up fired since the mark
    int limit_calls = 0;               // hang budget
    unsigned openfds = 0;
    struct Chunk { size_t off, got; bool partial; };
    std::vector<Chunk> chunks;         // deliveries since the mark
    bool use_feed = false, feed_dry = false; Bytes feed; // deliver exactly these bytes (then the party's stream)
};
extern Entropy ENT;
void entropy_party(int p);
void entropy_mark();
void entropy_restart();                            // every party's stream starts again
void sut_fd_check();

// ---- heap seam ----
struct HeapBlock { size_t size; uint64_t seq; int owner; };
struct Heap {
    std::unordered_map<void *, HeapBlock> live;
    uint64_t allocs = 0;               // allocations since the mark
    uint64_t seq = 0;
    uint64_t total = 0;
    // fault plan
    std::set<uint64_t> fail_at;        // 1-based indices since the mark
    uint64_t fail_from = 0;            // persistent: every allocation with index >= fail_from fails
    uint64_t failed = 0;
    int owner = 0;
    bool scan = false;                 // look for secrets in freed blocks
    std::unordered_map<uint64_t, int> secret_windows; // 8-byte windows -> label
    std::vector<Str> labels;
    uint64_t scanned = 0, scanned_blocks = 0;
};
extern Heap HEAP;
void heap_mark();
void heap_faults_off();
void secret_add(const char *label, const uint8_t *p, size_t n);
inline void secret_add(const char *label, const Bytes &b) { secret_add(label, b.data(), b.size()); }
void secret_clear();
bool secret_scan(const void *p, size_t n, Str *what);
size_t heap_live_count(int owner, size_t *bytes = nullptr);
void heap_snapshot_secret(const char *label, void *obj, int owner_ge_seq_unused = 0);

// ---- key derivation seam: an event of probability 2^-64 that saving a key has to survive ----
struct KdfSeam { unsigned cap = 0; int reserved = 0; std::set<Bytes> salts; unsigned repeats = 0; };   // how many of the next salts derive the reserved nonce; those that did
extern KdfSeam KDF;

// ---- disk seam ----
struct SimFile { Bytes data; bool seekable = true; };
struct Disk {
    std::map<Str, SimFile> files;
    uint64_t capacity = ~0ULL;         // total bytes before ENOSPC
    unsigned pm_openfail = 0, pm_readerr = 0, pm_readshort = 0, pm_writeerr = 0, pm_closeerr = 0, pm_seekfail = 0;
    int max_faults = 1, faults = 0;
    bool io_failed = false;            // some fault has fired since the mark
    bool read_failed = false, write_failed = false;
    bool sticky = false;               // once a read (write) has failed, later ones fail as well
    int bufmode = 0;                   // stdio buffer size selector
    uint64_t reads = 0, writes = 0, opens = 0;
    uint64_t crash_at_write = 0;       // process dies at the n-th write call (0: never): nothing after it reaches the disk
    bool frozen = false;
    int open_streams = 0;
};
extern Disk DISK;
void disk_mark();
// captured standard streams while running a tool
extern Str CAP_OUT;
void capture_begin();
void capture_end();

extern std::vector<std::pair<bool, Str>> GETPASS; extern size_t GETPASS_I;   // replies to passphrase prompts; false: no terminal
int run_tool(const Api *be, int (*mainfn)(int, char **), const std::vector<Str> &args); // exit status, -2 on crash
void sut_reset_getopt();

// ---- simulated processes (sc_echo.cpp): set while one of them is the current program
struct ProcHooks {
    bool (*owns_fd)(int fd);
    long (*read)(int fd, void *b, size_t n);
    long (*write)(int fd, const void *b, size_t n);
    int (*close)(int fd);
    void (*exit)(int code);
    Str (*path)(const char *p);
    void (*heap_new)(void *p);
    bool (*heap_free)(void *p);          // true: another process still has this block
    bool (*heap_fail)();
    uint64_t (*now_ms)();
};
extern ProcHooks *g_proc;

// scenarios
void scenario_run(const Str &name);
extern const char *SCENARIOS[];
const char *errname(int e);
