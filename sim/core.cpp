// Core of the simulator: seeded choices, recording, worker and replay drivers.
#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <poll.h>
#include <dlfcn.h>
#include <link.h>
#include <sodium.h>
extern "C" void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));   // absent in the builds without AddressSanitizer

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_abort=0:print_summary=1:symbolize=0:quarantine_size_mb=8:max_redzone=64:malloc_context_size=0";
}

Shared *SH;
Str g_prop, g_backends, g_extra_props;
bool g_verbose;
static uint64_t g_seed;
static bool g_replay;
static std::map<std::pair<Str, uint32_t>, uint64_t> g_override;
static std::unordered_map<Str, std::pair<uint32_t, uint32_t>> g_streams; // name -> (id, next idx)
static std::set<Str> g_known;
static bool g_violated;

uint64_t H64(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ULL + b + 0xD1B54A32D192ED03ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    z ^= z >> 31;
    z = (z + b * 0xA24BAED4963EE407ULL);
    z = (z ^ (z >> 33)) * 0xFF51AFD7ED558CCDULL;
    return z ^ (z >> 33);
}
uint64_t hstr(const char *s) { uint64_t h = 1469598103934665603ULL; for (; *s; ++s) h = (h ^ (uint8_t)*s) * 1099511628211ULL; return h; }

Data::Data(const char *name, uint64_t k) { s = H64(H64(g_seed, hstr(name)), k); }
uint64_t Data::next() { s += 0x9E3779B97F4A7C15ULL; return H64(s, 0x5bd1e995); }
Bytes Data::bytes(size_t n) {
    Bytes b(n);
    for (size_t i = 0; i < n; i += 8) { uint64_t v = next(); for (size_t j = 0; j < 8 && i + j < n; ++j) b[i + j] = (uint8_t)(v >> (8 * j)); }
    return b;
}

bool prop_is(const char *list) {
    if (g_prop == "ANY") return true;   // development: judge by every property at once
    size_t n = g_prop.size();
    for (const char *p = list; *p;) {
        const char *e = strchr(p, ',');
        size_t l = e ? (size_t)(e - p) : strlen(p);
        if ((l == n && !memcmp(p, g_prop.data(), n)) || (l == 1 && *p == '*')) return true;
        if (!e) break;
        p = e + 1;
    }
    return false;
}

void sim_begin(uint64_t seed) { g_seed = seed; }
void replay_on() { g_replay = true; }
void replay_set(const Str &s, uint32_t i, uint64_t v) { g_override[{s, i}] = v; }

static uint64_t raw_choice(const char *stream, uint64_t n, int pm) {
    if (n <= 1) return 0;
    auto it = g_streams.find(stream);
    if (it == g_streams.end()) {
        uint32_t id = SH->nstreams;
        if (id >= 200) harness_error("too many choice streams");
        snprintf(SH->streams[id], 40, "%s", stream);
        SH->nstreams++;
        it = g_streams.emplace(stream, std::make_pair(id, 0u)).first;
    }
    uint32_t idx = it->second.second++;
    uint64_t v = 0;
    if (g_replay) {
        auto o = g_override.find({stream, idx});
        if (o != g_override.end()) v = o->second % n;
    } else {
        uint64_t r = H64(H64(g_seed, hstr(stream) ^ 0x1234567), idx);
        if (pm < 0) v = r % n;
        else if ((int)(r % 1000) < pm) v = 1 + (H64(r, 77) % (n - 1));
    }
    if (v) {
        if (SH->ntape < 60000) {
            auto &t = SH->tape[SH->ntape];
            t.stream = it->second.first; t.idx = idx; t.val = v; SH->ntape++;
        } else harness_error("tape overflow");
    }
    if (++SH->steps > 2000000) harness_error("too many choices in one run");
    return v;
}
uint64_t pick(const char *s, uint64_t n) { return raw_choice(s, n, -1); }
uint64_t choose(const char *s, uint64_t n, unsigned pm) { return raw_choice(s, n, (int)pm); }
bool flip(const char *s, unsigned pm) { return raw_choice(s, 2, (int)pm) != 0; }

Str hex(const void *p, size_t n, size_t max) {
    static const char d[] = "0123456789abcdef";
    const uint8_t *b = (const uint8_t *)p; Str r;
    for (size_t i = 0; i < n && i < max; ++i) { r += d[b[i] >> 4]; r += d[b[i] & 15]; }
    if (n > max) r += "..";
    return r;
}
void lg(const char *fmt, ...) {
    char buf[1024];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    uint64_t h = SH->loghash;
    for (int i = 0; i < n; ++i) h = (h ^ (uint8_t)buf[i]) * 1099511628211ULL;
    SH->loghash = (h ^ '\n') * 1099511628211ULL;
    SH->events++;
    size_t l = strlen(SH->sample);
    if (l + n + 2 < sizeof SH->sample) { memcpy(SH->sample + l, buf, n); SH->sample[l + n] = '\n'; SH->sample[l + n + 1] = 0; }
    if (g_verbose) { static FILE *o = stdout; fwrite(buf, 1, n, o); fputc('\n', o); fflush(o); }   // stdout may later belong to a program under test
}
void lgb(const char *what, const void *p, size_t n) {
    uint64_t h = 1469598103934665603ULL; const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
    lg("%s len=%zu h=%016llx %s", what, n, (unsigned long long)h, hex(p, n, 8).c_str());
}
void count(const Str &name, uint64_t n) {
    for (uint32_t i = 0; i < SH->nctr; ++i) if (name == SH->ctr[i].name) { SH->ctr[i].n += n; return; }
    if (SH->nctr < 400) { snprintf(SH->ctr[SH->nctr].name, 56, "%s", name.c_str()); SH->ctr[SH->nctr].n = n; SH->nctr++; }
}
void state_seen(uint64_t h) { if (SH->nstates < 20000) SH->states[SH->nstates++] = h; }
void sim_time(uint64_t t) { if (t > SH->simtime) SH->simtime = t; }
void asserted(const char *props) { if (prop_is(props)) SH->asserts++; }
bool violated() { return g_violated; }

void violate(const char *props, const char *cls, const char *fmt, ...) {
    char buf[1900];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    lg("VIOLATED [%s] %s: %s", props, cls, buf);
    if (g_known.count(cls)) { g_violated = true; count(Str("known:") + cls); return; }
    if (!prop_is(props) && (g_extra_props.empty() || !prop_is(g_extra_props.c_str()))) {
        // another property's violation must not hide this one's: the run goes on, but not for ever
        static int foreign = 0;
        if (++foreign >= 48) g_violated = true;
        count(Str("foreign:") + cls); return;
    }
    snprintf(SH->cls, sizeof SH->cls, "%s", cls);
    snprintf(SH->desc, sizeof SH->desc, "%s", buf);
    SH->status = 2;
    _exit(0);
}
void run_done() { SH->status = 1; _exit(0); }
void harness_error(const char *fmt, ...) {
    char buf[1000];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    snprintf(SH->desc, sizeof SH->desc, "harness: %s", buf);
    SH->status = 9;
    _exit(0);
}
const char *errname(int e) {
    static const char *n[] = {"", "NO_MEMORY", "UNKNOWN_ID", "UNKNOWN_NAME", "MAC_FAILURE", "NOT_APPLICABLE", "SYSTEM",
        "REMOTE_KEY_REQUIRED", "LOCAL_KEY_REQUIRED", "PSK_REQUIRED", "INVALID_LENGTH", "INVALID_PARAM", "INVALID_STATE",
        "INVALID_NONCE", "INVALID_PRIVATE_KEY", "INVALID_PUBLIC_KEY", "INVALID_FORMAT", "INVALID_SIGNATURE"};
    if (e == 0) return "OK";
    int k = e - NOISE_ID('E', 0);
    return k > 0 && k < 18 ? n[k] : "?";
}

// ------------------------------------------------------------------ libraries
Api API[BE_ALL]; Str g_libdir;
static const char *BENAME[] = {"ref", "sodium", "openssl", "gen", "protoc"};
struct Seg { char *addr; size_t len; Bytes saved, pristine; };
static std::vector<Seg> g_segs[BE_ALL];
static int find_segs(struct dl_phdr_info *info, size_t, void *data) {
    int be = *(int *)data;
    Str want = Str("libnoise_") + BENAME[be] + ".so";
    if (!info->dlpi_name || !strstr(info->dlpi_name, want.c_str())) return 0;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        auto &p = info->dlpi_phdr[i];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
            Seg s; s.addr = (char *)info->dlpi_addr + p.p_vaddr; s.len = p.p_memsz; g_segs[be].push_back(s);
        }
    }
    return 1;
}
__attribute__((no_sanitize("address"))) static void raw_copy(char *d, const char *s, size_t n) {
    volatile char *vd = d; const volatile char *vs = s;
    for (size_t i = 0; i < n; ++i) if (vd[i] != vs[i]) vd[i] = vs[i];
}
void sut_globals_save(int be) { for (auto &s : g_segs[be]) { s.saved.resize(s.len); raw_copy((char *)s.saved.data(), s.addr, s.len); } }
void sut_globals_restore(int be) { for (auto &s : g_segs[be]) if (!s.saved.empty()) raw_copy(s.addr, (char *)s.saved.data(), s.len); }

void sut_globals_pristine(int be) { for (auto &s : g_segs[be]) if (!s.pristine.empty()) raw_copy(s.addr, (char *)s.pristine.data(), s.len); }
bool sut_global(const void *p) { for (auto &v : g_segs) for (auto &s : v) if ((char *)p >= s.addr && (char *)p < s.addr + s.len) return true; return false; }
void sut_globals_range(uintptr_t *lo, uintptr_t *hi) { for (auto &v : g_segs) for (auto &s : v) { *lo = std::min(*lo, (uintptr_t)s.addr); *hi = std::max(*hi, (uintptr_t)s.addr + s.len); } }

void load_apis(const Str &dir) {
    g_libdir = dir;
    for (int b = 0; b < BE_ALL; ++b) {
        Str p = dir + "/libnoise_" + BENAME[b] + ".so";
        if (b >= BE_COUNT) { p = dir + "/gen/libnoise_" + BENAME[b] + ".so"; if (!getenv("NOISE_GEN") || access(p.c_str(), R_OK)) continue; }
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror()); exit(3); }
        Api &a = API[b];
        a.name = BENAME[b]; a.id = b; a.handle = h;
#define X(n) a.n = (decltype(a.n))dlsym(h, #n);
#include "api.inc"
#undef X
        a.keytool_main = (int (*)(int, char **))dlsym(h, "sut_keytool_main");
        a.echokeygen_main = (int (*)(int, char **))dlsym(h, "sut_echokeygen_main");
        a.protoc_main = (int (*)(int, char **))dlsym(h, "sut_protoc_main");
        dl_iterate_phdr(find_segs, &b);
        if (b < BE_COUNT) if (!a.noise_handshakestate_write_message || !a.noise_dhstate_new_by_id) { fprintf(stderr, "missing API in %s\n", p.c_str()); exit(3); }
    }
    for (auto &v : g_segs) for (auto &s : v) { s.pristine.resize(s.len); raw_copy((char *)s.pristine.data(), s.addr, s.len); }   // before initialisation
    for (int b = 0; b < BE_ALL; ++b) if (API[b].noise_init) API[b].noise_init();
}

// ------------------------------------------------------------------ child process of one run
static void on_prof(int) {
    if (SH->status == 0) { SH->status = 3; snprintf(SH->cls, sizeof SH->cls, "hang@%s", SH->curapi); snprintf(SH->desc, sizeof SH->desc, "no progress within the CPU budget of one run, in %s", SH->curapi); }
    _exit(0);
}
static void asan_cb(const char *rep) {
    size_t n = strlen(rep); if (n > sizeof SH->asan - 1) n = sizeof SH->asan - 1;
    memcpy(SH->asan, rep, n); SH->asan[n] = 0;
}
static int g_cpu_limit = 20;
struct Outcome { int status; Str cls, desc; uint64_t loghash; };
static Outcome run_child(const Str &scenario, uint64_t seed) {
    Shared *s = SH;
    s->status = 0; s->asserts = 0; s->seed = seed; s->loghash = 1469598103934665603ULL; s->events = s->simtime = s->steps = 0;
    s->cls[0] = s->desc[0] = s->asan[0] = s->curapi[0] = s->sample[0] = 0;
    s->nstreams = s->ntape = s->nctr = s->nstates = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        if (!g_verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); close(fd); }
        signal(SIGPROF, on_prof);
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = g_cpu_limit; setitimer(ITIMER_PROF, &it, 0);
        if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_cb);
        sim_begin(seed);
        lg("seed %llu scenario %s", (unsigned long long)seed, scenario.c_str());
        try { scenario_run(scenario); }
        catch (SutExit &e) { violate("*", "unexpected-exit", "the code under test called exit(%d) outside a guarded call (%s)", e.code, SH->curapi); }
        run_done();
    }
    int st = 0; 
    for (int waited = 0;;) {
        pid_t r = waitpid(pid, &st, waited ? 0 : 0);
        if (r == pid) break;
        (void)waited;
    }
    Outcome o; o.loghash = s->loghash;
    if (s->status == 0) {
        // died without finishing
        Str kind;
        if (s->asan[0]) {
            const char *p = strstr(s->asan, "AddressSanitizer: ");
            Str k = p ? p + 18 : "error";
            size_t e = k.find_first_of(" \n:("); kind = "asan:" + k.substr(0, e);
        } else if (WIFSIGNALED(st)) kind = "signal:" + std::to_string(WTERMSIG(st));
        else kind = "exit:" + std::to_string(WEXITSTATUS(st));
        o.status = 2; o.cls = kind + "@" + s->curapi;
        o.desc = Str("the process died in or after ") + s->curapi + "; " + Str(s->asan).substr(0, 700);
        if (g_known.count(o.cls)) o.status = 1;
        snprintf(s->cls, sizeof s->cls, "%s", o.cls.c_str());
    } else if (s->status == 3) {
        o.status = 2; o.cls = s->cls; o.desc = s->desc;
        if (g_known.count(o.cls)) o.status = 1;
    } else { o.status = s->status; o.cls = s->cls; o.desc = s->desc; }
    return o;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Tape { Str prop, scenario, cls; uint64_t seed = 0, loghash = 0; std::vector<std::pair<std::pair<Str, uint32_t>, uint64_t>> ch; Str desc; };
static void tape_from_shared(Tape &t) {
    t.ch.clear();
    for (uint32_t i = 0; i < SH->ntape; ++i) t.ch.push_back({{SH->streams[SH->tape[i].stream], SH->tape[i].idx}, SH->tape[i].val});
}
static void tape_write(const Tape &t, const Str &file) {
    FILE *f = fopen(file.c_str(), "w");
    if (!f) { perror(file.c_str()); exit(3); }
    fprintf(f, "property %s\nscenario %s\nseed %llu\nclass %s\nloghash %016llx\n", t.prop.c_str(), t.scenario.c_str(), (unsigned long long)t.seed, t.cls.c_str(), (unsigned long long)t.loghash);
    Str d = t.desc; for (auto &c : d) if (c == '\n' || c == '\r') c = ' ';
    fprintf(f, "# %s\n", d.substr(0, 1500).c_str());
    for (auto &c : t.ch) fprintf(f, "choice %s %u %llu\n", c.first.first.c_str(), c.first.second, (unsigned long long)c.second);
    fclose(f);
}
static bool tape_read(Tape &t, const Str &file) {
    FILE *f = fopen(file.c_str(), "r"); if (!f) return false;
    char line[2048], a[200]; unsigned i; unsigned long long v;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') { t.desc = line + 1; continue; }
        line[strcspn(line, "\n")] = 0;
        if (sscanf(line, "choice %199s %u %llu", a, &i, &v) == 3) t.ch.push_back({{a, i}, v});
        else if (!strncmp(line, "property ", 9)) t.prop = line + 9;
        else if (!strncmp(line, "scenario ", 9)) t.scenario = line + 9;
        else if (!strncmp(line, "seed ", 5)) t.seed = strtoull(line + 5, 0, 10);
        else if (!strncmp(line, "class ", 6)) t.cls = line + 6;
        else if (!strncmp(line, "loghash ", 8)) t.loghash = strtoull(line + 8, 0, 16);
    }
    fclose(f);
    return !t.scenario.empty();
}
static Outcome run_tape(const Tape &t) {
    g_override.clear();
    for (auto &c : t.ch) g_override[c.first] = c.second;
    g_replay = true;
    g_prop = t.prop;
    return run_child(t.scenario, t.seed);
}

static Str jesc(const Str &s) {
    Str r; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

static int cmd_run(std::map<Str, Str> &o) {
    uint64_t seed = strtoull(o["seed"].c_str(), 0, 10), start = strtoull(o["start"].c_str(), 0, 10), stride = strtoull(o["stride"].c_str(), 0, 10), cnt = strtoull(o["count"].c_str(), 0, 10);
    double budget = atof(o["budget"].c_str());
    g_prop = o["prop"];
    // scenarios: name:weight,name:weight
    std::vector<std::pair<Str, int>> sc; int tot = 0;
    { Str s = o["scenarios"]; size_t p = 0; while (p < s.size()) { size_t e = s.find(',', p); if (e == Str::npos) e = s.size(); Str x = s.substr(p, e - p); size_t c = x.find(':'); int w = c == Str::npos ? 1 : atoi(x.c_str() + c + 1); sc.push_back({x.substr(0, c), w}); tot += w; p = e + 1; } }
    std::map<Str, uint64_t> ctr; std::unordered_set<uint64_t> states, logs;
    uint64_t runs = 0, nontriv = 0, events = 0, simtime = 0, detcheck = 0, asserts = 0; std::vector<Str> samples;
    std::map<Str, uint64_t> scruns;
    double t0 = now(); int rc = 0; Tape vt; uint64_t vidx = 0; Str err; bool capped = false;
    Str stopf = o["stop"]; uint64_t next_stop_check = 0;
    for (uint64_t i = start; i < cnt; i += stride) {
        if (now() - t0 > budget) { capped = true; break; }
        if (!stopf.empty() && runs >= next_stop_check) {
            next_stop_check = runs + 8;
            FILE *f = fopen(stopf.c_str(), "r");
            if (f) { unsigned long long lim = 0; if (fscanf(f, "%llu", &lim) == 1 && i > lim) { fclose(f); break; } fclose(f); }
        }
        uint64_t rs = H64(seed, i) >> 1;
        int w = (int)(H64(rs, 4242) % tot); Str name;
        for (auto &x : sc) { if (w < x.second) { name = x.first; break; } w -= x.second; }
        g_replay = false;
        Outcome out = run_child(name, rs);
        runs++; scruns[name]++;
        events += SH->events; simtime += SH->simtime; asserts += SH->asserts;
        for (uint32_t k = 0; k < SH->nctr; ++k) ctr[SH->ctr[k].name] += SH->ctr[k].n;
        if (states.size() < 3000000) for (uint32_t k = 0; k < SH->nstates; ++k) states.insert(SH->states[k]);
        if (SH->asserts && logs.insert(SH->loghash).second) nontriv++;
        if (samples.size() < 2 && SH->asserts) samples.push_back(SH->sample);
        if (out.status == 9) { err = "scenario " + name + " seed " + std::to_string(rs) + ": " + out.desc; rc = 3; break; }
        if (out.status == 2) {
            vt.prop = g_prop; vt.scenario = name; vt.seed = rs; vt.cls = out.cls; vt.loghash = out.loghash; vt.desc = out.desc;
            tape_from_shared(vt); vidx = i; rc = 1; break;
        }
        if (runs % 64 == 1) {
            uint64_t h = SH->loghash; Outcome again = run_child(name, rs); detcheck++;
            if (again.loghash != h || again.status != out.status) { err = "nondeterminism: scenario " + name + " seed " + std::to_string(rs); rc = 3; break; }
        }
    }
    if (rc == 1) {
        // gate 1: the same seed again must give the same log
        g_replay = false;
        Outcome again = run_child(vt.scenario, vt.seed);
        if (again.status != 2 || again.cls != vt.cls || again.loghash != vt.loghash) { err = "violation " + vt.cls + " did not repeat for seed " + std::to_string(vt.seed) + " (" + again.cls + ")"; rc = 3; }
        else tape_write(vt, o["out"] + ".tape");
    }
    FILE *f = fopen(o["out"].c_str(), "w");
    fprintf(f, "{\"rc\":%d,\"runs\":%llu,\"nontrivial\":%llu,\"events\":%llu,\"simtime\":%llu,\"asserts\":%llu,\"detchecks\":%llu,\"capped\":%s,\"wall\":%.3f,\"error\":\"%s\"", rc,
            (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)events, (unsigned long long)simtime, (unsigned long long)asserts, (unsigned long long)detcheck, capped ? "true" : "false", now() - t0, jesc(err).c_str());
    if (rc == 1) fprintf(f, ",\"violation\":{\"idx\":%llu,\"class\":\"%s\",\"desc\":\"%s\",\"scenario\":\"%s\",\"seed\":%llu}", (unsigned long long)vidx, jesc(vt.cls).c_str(), jesc(vt.desc).c_str(), vt.scenario.c_str(), (unsigned long long)vt.seed);
    fprintf(f, ",\"scenarios\":{"); bool first = true;
    for (auto &x : scruns) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", x.first.c_str(), (unsigned long long)x.second); first = false; }
    fprintf(f, "},\"counters\":{"); first = true;
    for (auto &x : ctr) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto &x : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    f = fopen((o["out"] + ".states").c_str(), "wb"); for (uint64_t s : states) fwrite(&s, 8, 1, f); fclose(f);
    return rc;
}

static int cmd_replay(std::map<Str, Str> &o) {
    Tape t; if (!tape_read(t, o["file"])) { fprintf(stderr, "cannot read %s\n", o["file"].c_str()); return 3; }
    Outcome out = run_tape(t);
    printf("REPLAY status=%d class=%s loghash=%016llx\n", out.status, out.cls.c_str(), (unsigned long long)out.loghash);
    if (out.status == 2) printf("  %s\n", out.desc.c_str());
    return out.status == 2 && out.cls == t.cls ? 1 : out.status == 9 ? 3 : 0;
}

// delta-debugging over the recorded choices; a dropped choice takes its benign default
static int cmd_minimise(std::map<Str, Str> &o) {
    Tape t; if (!tape_read(t, o["file"])) return 3;
    double t0 = now(), budget = atof(o["budget"].c_str());
    Tape best = t;
    Outcome out = run_tape(best);
    if (out.status != 2 || out.cls != t.cls) { fprintf(stderr, "the recorded choices do not reproduce %s (got %s)\n", t.cls.c_str(), out.cls.c_str()); return 3; }
    auto accept = [&](const Tape &c) {
        Outcome r = run_tape(c);
        if (r.status == 2 && r.cls == t.cls) { best = c; best.loghash = r.loghash; best.desc = r.desc; std::vector<std::pair<std::pair<Str, uint32_t>, uint64_t>> used; tape_from_shared(best); return true; }
        return false;
    };
    best.loghash = out.loghash; best.desc = out.desc;
    int tries = 0;
    // 1. drop whole streams
    std::set<Str> streams; for (auto &c : best.ch) streams.insert(c.first.first);
    for (auto &s : streams) {
        if (now() - t0 > budget) break;
        Tape c = best; c.ch.clear(); for (auto &x : best.ch) if (x.first.first != s) c.ch.push_back(x);
        if (c.ch.size() < best.ch.size()) { tries++; accept(c); }
    }
    // 2. drop chunks
    for (size_t chunk = best.ch.size() / 2; chunk >= 1 && now() - t0 < budget; chunk = chunk / 2) {
        bool progress = true;
        while (progress && now() - t0 < budget) {
            progress = false;
            for (size_t i = 0; i < best.ch.size() && now() - t0 < budget;) {
                Tape c = best; size_t e = std::min(best.ch.size(), i + chunk);
                c.ch.erase(c.ch.begin() + i, c.ch.begin() + e);
                tries++;
                size_t before = best.ch.size();
                if (accept(c) && best.ch.size() < before) progress = true; else i += chunk;
            }
            if (chunk > 1) break;
        }
        if (chunk == 1) break;
    }
    // 3. shrink values
    for (size_t i = 0; i < best.ch.size() && now() - t0 < budget; ++i) {
        for (uint64_t v : {(uint64_t)1, best.ch[i].second / 2, best.ch[i].second - 1}) {
            if (i >= best.ch.size() || v == 0 || v >= best.ch[i].second) continue;
            Tape c = best; c.ch[i].second = v; tries++;
            if (accept(c)) break;
        }
    }
    best.cls = t.cls;
    tape_write(best, o["out"]);
    printf("minimised %zu choices to %zu in %d runs\n", t.ch.size(), best.ch.size(), tries);
    return 1;
}

int main(int argc, char **argv) {
    if (argc < 2) return 2;
    Str cmd = argv[1]; std::map<Str, Str> o;
    for (int i = 2; i < argc; ++i) {
        Str a = argv[i];
        if (a.compare(0, 2, "--") == 0) { a = a.substr(2); if (a == "v") g_verbose = true; else if (i + 1 < argc) o[a] = argv[++i]; }
    }
    if (o.count("known")) { FILE *f = fopen(o["known"].c_str(), "r"); char l[400]; while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (l[0] && l[0] != '#') g_known.insert(l); } if (f) fclose(f); }
    if (o.count("cpu")) g_cpu_limit = atoi(o["cpu"].c_str());
    SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    extern void seams_init(); seams_init();
    char exe[1000]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
    Str dir = exe; dir = dir.substr(0, dir.rfind('/'));
    load_apis(o.count("libs") ? o["libs"] : dir);
    for (int b = 0; b < BE_ALL; ++b) sut_globals_save(b);
    extern void echo_preload(const Str &); echo_preload(o.count("libs") ? o["libs"] : dir);
    extern void model_warmup(); model_warmup();
    if (cmd == "schema") { extern Str schema_source(uint64_t); Str t = schema_source(strtoull(o["seed"].c_str(), 0, 10)); fwrite(t.data(), 1, t.size(), stdout); return 0; }
    if (cmd == "run") return cmd_run(o);
    if (cmd == "replay") return cmd_replay(o);
    if (cmd == "minimise") return cmd_minimise(o);
    if (cmd == "one") {
        g_prop = o["prop"];
        uint64_t rs = o.count("rs") ? strtoull(o["rs"].c_str(), 0, 10) : H64(strtoull(o["seed"].c_str(), 0, 10), strtoull(o["idx"].c_str(), 0, 10)) >> 1;
        Outcome out = run_child(o["scenario"], rs);
        printf("status=%d class=%s loghash=%016llx steps=%llu events=%llu asserts=%u tape=%u\n%s\n", out.status, out.cls.c_str(), (unsigned long long)out.loghash, (unsigned long long)SH->steps, (unsigned long long)SH->events, SH->asserts, SH->ntape, out.desc.c_str());
        if (g_verbose) for (uint32_t k = 0; k < SH->nctr; ++k) printf("  %s = %llu\n", SH->ctr[k].name, (unsigned long long)SH->ctr[k].n);
        return out.status == 2;
    }
    return 2;
}
