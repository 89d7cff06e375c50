#include "proc.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dlfcn.h>
#include <link.h>
#include <poll.h>
#include <netdb.h>
#include <unistd.h>
#include <getopt.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
extern "C" {
void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
void __asan_get_shadow_mapping(size_t *, size_t *) __attribute__((weak));
long echo_ctx_switch(void **save, void *to, long ret);
long echo_ctx_fork(void **save, void (*fn)(void *), void *arg);
void echo_ctx_start();
}
asm(R"(
.text
.globl echo_ctx_switch
.type echo_ctx_switch,@function
echo_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  movq %rdx,%rax
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size echo_ctx_switch,.-echo_ctx_switch
.globl echo_ctx_fork
.type echo_ctx_fork,@function
echo_ctx_fork:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  movq %rsp,(%rdi)
  movq %rdx,%rdi
  call *%rsi
  xorl %eax,%eax
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size echo_ctx_fork,.-echo_ctx_fork
)");
struct MSeg { char *addr; size_t len; Bytes pristine; };
struct Image { Str file; void *h = nullptr; int (*main)(int, char **) = nullptr; std::vector<MSeg> segs; Proc *resident = nullptr; char *stack = nullptr; size_t stacksz = 1 << 20; };
static Image g_img[2][BE_COUNT];
static const char *KIND[] = {"client", "server"}, *BEN[] = {"ref", "sodium", "openssl"};
Kernel *K;
static void *g_sched_sp, *g_sched_fake; static const void *g_main_bottom; static size_t g_main_size;
static size_t g_sh_scale, g_sh_off;

static void raw(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void rawset(void *d, int v, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }
static char *shadow(const void *p) { return (char *)(((uintptr_t)p >> g_sh_scale) + g_sh_off); }

static int segs_of(struct dl_phdr_info *info, size_t, void *data) {
    Image *im = (Image *)data;
    if (!info->dlpi_name || !strstr(info->dlpi_name, im->file.c_str())) return 0;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        auto &p = info->dlpi_phdr[i];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
            // the part made read-only after relocation never changes and cannot be written back
            uintptr_t a = info->dlpi_addr + p.p_vaddr, e = a + p.p_memsz;
            for (int j = 0; j < info->dlpi_phnum; ++j) { auto &r = info->dlpi_phdr[j]; if (r.p_type != PT_GNU_RELRO) continue; uintptr_t ra = info->dlpi_addr + r.p_vaddr, re = (ra + r.p_memsz) & ~4095UL; if (ra <= a && re > a) a = std::min(e, re); }
            im->segs.push_back({(char *)a, e - a, {}});
        }
    }
    return 1;
}
void echo_preload(const Str &dir) {
    for (int k = 0; k < 2; ++k) for (int b = 0; b < BE_COUNT; ++b) {
        Image &im = g_img[k][b]; im.file = Str("libecho_") + KIND[k] + "_" + BEN[b] + ".so";
        Str p = dir + "/" + im.file; if (access(p.c_str(), R_OK)) continue;
        im.h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!im.h) { fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror()); exit(3); }
        im.main = (int (*)(int, char **))dlsym(im.h, "sut_echo_main");
        dl_iterate_phdr(segs_of, &im);
        for (auto &s : im.segs) { s.pristine.resize(s.len); raw(s.pristine.data(), s.addr, s.len); }
        im.stack = (char *)mmap(0, im.stacksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    if (__asan_get_shadow_mapping) __asan_get_shadow_mapping(&g_sh_scale, &g_sh_off);
}
Image *image(const char *kind, int be) { Image *i = &g_img[!strcmp(kind, "server")][be]; if (!i->main) harness_error("echo %s is not built", kind); return i; }

// ------------------------------------------------------------------ memory of processes
static void swap_out(Proc *p) {
    Image *im = p->img;
    p->segs.resize(im->segs.size());
    for (size_t i = 0; i < im->segs.size(); ++i) { p->segs[i].resize(im->segs[i].len); raw(p->segs[i].data(), im->segs[i].addr, im->segs[i].len); }
    char *top = im->stack + im->stacksz; size_t n = top - (char *)p->sp;
    p->stk.resize(n); raw(p->stk.data(), p->sp, n);
    if (g_sh_off) { char *a = shadow(p->sp), *e = shadow(top); p->shadow.resize(e - a); raw(p->shadow.data(), a, e - a); }
    for (auto &h : p->heapcopy) if (HEAP.live.count(h.first)) raw(h.second.data(), h.first, h.second.size());
}
static void swap_in(Proc *p) {
    Image *im = p->img;
    for (size_t i = 0; i < im->segs.size(); ++i) raw(im->segs[i].addr, p->segs[i].data(), im->segs[i].len);
    char *top = im->stack + im->stacksz;
    if (g_sh_off) { char *a = shadow(im->stack), *b = shadow(p->sp), *e = shadow(top); rawset(a, 0, b - a); if (!p->shadow.empty()) raw(b, p->shadow.data(), e - b); else rawset(b, 0, e - b); }
    raw(p->sp, p->stk.data(), p->stk.size());
    for (auto &h : p->heapcopy) if (HEAP.live.count(h.first)) raw(h.first, h.second.data(), h.second.size());
    im->resident = p;
}
static bool heap_shared(void *b, Proc *except) { for (Proc *p : K->procs) if (p != except && p->alive() && p->heap.count(b)) return true; return false; }
static void heap_share(Proc *a, Proc *b) {              // at fork: both have the block, each with its own contents
    for (void *x : a->heap) { auto it = HEAP.live.find(x); if (it == HEAP.live.end()) continue; b->heap.insert(x); Bytes c(it->second.size); raw(c.data(), x, c.size()); a->heapcopy[x] = c; b->heapcopy[x] = c; }
}

// ------------------------------------------------------------------ streams of a process
static ssize_t in_read(void *c, char *b, size_t n);
static ssize_t out_write(void *c, const char *b, size_t n) { ((Proc *)c)->outbuf.append(b, n); return n; }
static ssize_t err_write(void *c, const char *b, size_t n) { Proc *p = (Proc *)c; if (p->errbuf.size() < 4000) p->errbuf.append(b, n); return n; }
static void open_streams(Proc *p) {
    cookie_io_functions_t i = {in_read, 0, 0, 0}, o = {0, out_write, 0, 0}, e = {0, err_write, 0, 0};
    p->in = fopencookie(p, "r", i); p->out = fopencookie(p, "w", o); p->er = fopencookie(p, "w", e);
    setvbuf(p->out, 0, _IONBF, 0); setvbuf(p->er, 0, _IONBF, 0);
}

// ------------------------------------------------------------------ hooks for calls that the other seams receive
static KFileP file_of(int fd) { if (!K || !K->cur) return nullptr; auto it = K->cur->fds.find(fd); return it == K->cur->fds.end() ? nullptr : it->second; }
static bool hk_owns(int fd) { return K->cur && K->cur->fds.count(fd); }
static long hk_read(int fd, void *b, size_t n) { return k_recv(fd, b, n, 0); }
static long hk_write(int fd, const void *b, size_t n) { return k_send(fd, b, n, 0); }
static void proc_exit(Proc *p, int status);
static void hk_exit(int code) { proc_exit(K->cur, code < 0 ? -code : (code & 255) << 8); }
static Str hk_path(const char *p) { if (p[0] == '/' || !K->cur || K->cur->cwd.empty()) return p; Str s = p; while (s.compare(0, 2, "./") == 0) s = s.substr(2); return K->cur->cwd == "." ? s : K->cur->cwd + "/" + s; }
static void hk_heap_new(void *p) { if (K->cur && K->cur->img) K->cur->heap.insert(p); }
static bool hk_heap_free(void *p) {
    if (!K->cur || !K->cur->img || !K->cur->heap.erase(p)) return false;
    K->cur->heapcopy.erase(p);
    return heap_shared(p, K->cur);
}
static bool hk_heap_fail() { Proc *p = K->cur; if (!p || !p->img || !p->pm_oom || p->ooms >= 2 || !K->net.on) return false; if (!flip("oom", p->pm_oom)) return false; p->ooms++; count("fault:oom"); lg("%s[%d] allocation fails", p->name.c_str(), p->pid); return true; }
static uint64_t hk_now() { return K->now; }
static ProcHooks g_hooks = {hk_owns, hk_read, hk_write, k_close, hk_exit, hk_path, hk_heap_new, hk_heap_free, hk_heap_fail, hk_now};

// ------------------------------------------------------------------ scheduling
static void to_sched(Proc *p) {
    p->err = errno;
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(p->alive() ? &p->fake : nullptr, g_main_bottom, g_main_size);
    echo_ctx_switch(&p->sp, g_sched_sp, 0);
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(K->cur->fake, nullptr, nullptr);
    errno = K->cur->err;
}
static void entry() {
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(nullptr, &g_main_bottom, &g_main_size);
    Proc *p = K->cur; int rc = 0;
    try {
        if (p->img) { sut_reset_getopt(); rc = p->img->main((int)p->args.size(), p->argv.data()); rc = (rc & 255) << 8; }
        else p->body();
    } catch (SutExit &e) { rc = (e.code & 255) << 8; }
    proc_exit(K->cur, rc);
}
static void make_stack(Proc *p, char *top, bool copy) {
    uint64_t w[10]; memset(w, 0, sizeof w);                 // [0] pad, [1..6] registers, [7] entry, [8] return address of entry
    w[7] = (uint64_t)(void *)entry; char *sp = top - 72;
    p->sp = sp;
    if (copy) { p->stk.resize(72); memcpy(p->stk.data(), w, 72); } else memcpy(sp, w, 72);
}
static Proc *new_proc(const Str &name, int label) {
    Proc *p = new Proc; p->pid = K->nextpid++; p->ppid = 1; p->name = name; p->label = label;
    for (int i = 0; i < 65; ++i) { p->hand[i] = SIG_DFL; p->restart[i] = true; }
    open_streams(p); K->procs.push_back(p); return p;
}
Proc *spawn(Image *im, const Str &name, const std::vector<Str> &args, int label) {
    Proc *p = new_proc(name, label); p->img = im; p->args = args;
    for (auto &a : p->args) p->argv.push_back((char *)a.c_str());
    p->argv.push_back(0);
    for (auto &s : im->segs) p->segs.push_back(s.pristine);
    make_stack(p, im->stack + im->stacksz, true);
    return p;
}
Proc *spawn_actor(const Str &name, std::function<void()> body, int label) {
    Proc *p = new_proc(name, label); p->body = body; p->stacksz = 512 << 10; p->nofile = 1000;
    p->stack = (char *)mmap(0, p->stacksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    make_stack(p, p->stack + p->stacksz, false);
    return p;
}
static FILE *g_in, *g_out, *g_err;
void kernel_begin() { K = new Kernel; for (auto &k : g_img) for (auto &i : k) i.resident = nullptr; g_in = stdin; g_out = stdout; g_err = stderr; }
void at(uint64_t t, std::function<void()> f) { K->timers.emplace(t, f); }

static void deliver(Conn &c) {
    for (int s = 0; s < 2; ++s) {
        Dir &d = c.d[s]; int rcv = 1 - s;               // d[0] carries bytes from side 0 to side 1
        while (!d.stalled && !d.flight.empty() && d.flight.front().at <= K->now) {
            Bytes b = d.flight.front().b; d.flight.pop_front(); d.inflight -= b.size();
            if (!c.open[rcv]) { if (!c.dead[s]) { c.dead[s] = true; c.err[s] = ECONNRESET; lg("conn %d: reset to side %d (data for a closed end)", c.id, s); } continue; }
            d.rb.insert(d.rb.end(), b.begin(), b.end());
        }
        if (d.fin && !d.stalled && d.flight.empty() && d.fin_at <= K->now) d.fin_seen = true;
    }
}
static void run_handlers(Proc *p) {
    while (p->pending) {
        int sig = __builtin_ctzll(p->pending); p->pending &= ~(1ULL << sig);
        void (*h)(int) = p->hand[sig]; if (h != SIG_DFL && h != SIG_IGN) h(sig);
    }
}
enum { B_OK, B_INTR, B_TIMEOUT };
// waits until cond() holds; cond may only capture values, because it is evaluated while other processes are in memory
static int block(const char *where, std::function<bool()> cond, bool interruptible, uint64_t deadline = ~0ULL, int sigrestart = 0) {
    for (;;) {
        Proc *p = K->cur;
        if (cond()) return B_OK;
        if (K->now >= deadline) return B_TIMEOUT;
        p->spin = 0;
        p->st = Proc::BLOCKED; p->cond = cond; p->interruptible = true; p->deadline = deadline; p->where = where;
        to_sched(p);
        p = K->cur;
        if (p->pending) {
            bool restart = true; for (int s = 0; s < 64; ++s) if (p->pending >> s & 1) restart = restart && p->restart[s];
            run_handlers(p);
            if (interruptible && !(restart && sigrestart)) return B_INTR;
        }
    }
}
static void sys(const char *name) {
    Proc *p = K->cur; p->where = name; p->syscalls++; p->spin++; if (strcmp(name, "waitpid")) p->reapzeros = 0;
    if (++K->steps > 60000) { violate("E02,E01", "endless-activity", "the simulated system never comes to rest (last: %s in %s[%d])", name, p->name.c_str(), p->pid); harness_error("too many simulated system calls"); }
    if (p->img && p->spin > 3000) { violate("E02", ("busy-loop@" + p->name).c_str(), "%s[%d] makes system call after system call (%s) without getting anything done", p->name.c_str(), p->pid, name); proc_exit(p, 9); }
    if (p->pending) run_handlers(p);
    if (flip("sched.yield", K->net.pm_yield)) { p->st = Proc::READY; p->cond = nullptr; to_sched(p); if (K->cur->pending) run_handlers(K->cur); }
}
static void busy(Proc *p) { p->spin = 0; }
static bool net_fault(const char *name, unsigned pm) {
    if (!pm || !K->net.on || !K->cur->img || !flip("net.fault", pm)) return false;
    if (!strcmp(name, "accept-error") || !strcmp(name, "fork-fails")) K->lastfault = name;
    count(Str("fault:") + name); lg("%s[%d] %s", K->cur->name.c_str(), K->cur->pid, name); return true;
}
static uint64_t proc_state() {
    uint64_t h = 7; for (Proc *p : K->procs) { if (p->st == Proc::DEAD) continue; h = H64(h, H64(p->st, hstr(p->where)) ^ hstr(p->name.c_str())); h = H64(h, p->fds.size()); }
    for (auto &c : K->conns) h = H64(h, (c->open[0] << 3 | c->open[1] << 2 | c->dead[0] << 1 | (int)c->dead[1]) + 16 * (!c->d[0].rb.empty() + 2 * !c->d[1].rb.empty() + 4 * !c->d[0].flight.empty() + 8 * !c->d[1].flight.empty()));
    return h;
}
void kernel_run(const std::function<bool()> &until) {
    for (;;) {
        if (until && until()) return;
        K->now++;
        while (!K->timers.empty() && K->timers.begin()->first <= K->now) { auto f = K->timers.begin()->second; K->timers.erase(K->timers.begin()); f(); }
        for (auto &c : K->conns) deliver(*c);
        std::vector<Proc *> ready;
        for (Proc *p : K->procs) {
            bool r = p->st == Proc::READY || (p->st == Proc::BLOCKED && ((p->cond && p->cond()) || (p->pending && p->interruptible) || p->deadline <= K->now));
            if (r) { if (p == K->last) ready.insert(ready.begin(), p); else ready.push_back(p); }
        }
        if (ready.empty()) {
            uint64_t next = ~0ULL;
            if (!K->timers.empty()) next = K->timers.begin()->first;
            for (auto &c : K->conns) for (auto &d : c->d) if (!d.stalled) { if (!d.flight.empty()) next = std::min(next, d.flight.front().at); else if (d.fin && !d.fin_seen) next = std::min(next, d.fin_at); }
            for (Proc *p : K->procs) if (p->st == Proc::BLOCKED) next = std::min(next, p->deadline);
            if (next == ~0ULL) { sim_time(K->now); return; }
            if (next > K->now) K->now = next - 1;
            continue;
        }
        Proc *p = ready[ready.size() > 1 ? choose("sched.next", ready.size(), K->net.pm_switch) : 0];
        if (p != K->last) K->switches++;
        K->last = p; K->cur = p; p->st = Proc::READY; p->cond = nullptr; p->deadline = ~0ULL;
        state_seen(proc_state());
        if (p->img && p->img->resident != p) { if (p->img->resident && p->img->resident->alive()) swap_out(p->img->resident); swap_in(p); }
        snprintf(SH->curapi, sizeof SH->curapi, "%s", p->name.c_str());
        entropy_party(p->pid); g_proc = &g_hooks; stdin = p->in; stdout = p->out; stderr = p->er; errno = p->err;
        ENT.limit_calls = 0;
        char *base = p->img ? p->img->stack : p->stack; size_t sz = p->img ? p->img->stacksz : p->stacksz;
        if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&g_sched_fake, base, sz);
        echo_ctx_switch(&g_sched_sp, p->sp, 1);
        if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(g_sched_fake, nullptr, nullptr);
        stdin = g_in; stdout = g_out; stderr = g_err; g_proc = nullptr; K->cur = nullptr;
        if (!p->alive() && p->img && p->img->resident == p) p->img->resident = nullptr;
    }
}

// ------------------------------------------------------------------ processes
static void file_unref(KFileP f);
static void proc_end(Proc *p, int status) {             // everything the kernel does when a process is gone
    if (!p->alive()) return;
    p->status = status; lg("%s[%d] ends, status %#x", p->name.c_str(), p->pid, status);
    std::map<int, KFileP> fds; fds.swap(p->fds); for (auto &f : fds) file_unref(f.second);
    for (void *h : p->heap) if (!heap_shared(h, p) && HEAP.live.count(h)) { HEAP.live.erase(h); free(h); }
    p->heap.clear();
    for (Proc *c : K->procs) if (c->ppid == p->pid) { c->ppid = 1; if (c->st == Proc::ZOMBIE) c->st = Proc::DEAD; }
    Proc *par = nullptr; for (Proc *q : K->procs) if (q->pid == p->ppid && q->alive()) par = q;
    if (!par || par->hand[SIGCHLD] == SIG_IGN) p->st = Proc::DEAD;
    else { p->st = Proc::ZOMBIE; if (par->hand[SIGCHLD] != SIG_DFL) par->pending |= 1ULL << SIGCHLD; }
    if (K->on_exit) K->on_exit(p);
}
static void proc_exit(Proc *p, int status) {
    proc_end(p, status);
    to_sched(p);
    harness_error("a finished process runs again");
}
void proc_kill(Proc *p, int sig) {
    if (!p->alive()) return;
    if (sig != SIGKILL && p->hand[sig] == SIG_IGN) return;
    if (sig != SIGKILL && p->hand[sig] != SIG_DFL) { p->pending |= 1ULL << sig; return; }
    p->killed = true; proc_end(p, sig); if (p->img && p->img->resident == p) p->img->resident = nullptr;
    if (K->cur == p) { to_sched(p); harness_error("a killed process runs again"); }
}
static Proc *g_forked;
static void fork_copy(void *a) {
    Proc *p = (Proc *)a, *c = g_forked;
    void *keep = p->sp; p->sp = c->sp; swap_out(p); c->segs = p->segs; c->stk = p->stk; c->shadow = p->shadow; p->sp = keep;   // c->sp was stored by echo_ctx_fork
}
static long do_fork() {                                 // only plain data on this stack frame: it is copied
    Proc *p = K->cur;
    if (!p->img) harness_error("fork in an actor");
    if (net_fault("fork-fails", K->net.pm_fork_fail)) { p->spin++; errno = EAGAIN; if (K->on_fault) for (auto &f : p->fds) if (f.second->kind == KFile::STREAM) K->on_fault(f.second->conn, "fork failed"); return -1; }
    Proc *c = new_proc(p->name + "-child", p->label);
    c->ppid = p->pid; c->img = p->img; c->cwd = p->cwd; c->args = p->args; c->fds = p->fds; c->nofile = p->nofile; c->pm_oom = p->pm_oom;
    for (auto &f : c->fds) f.second->refs++;
    for (int i = 0; i < 65; ++i) { c->hand[i] = p->hand[i]; c->restart[i] = p->restart[i]; }
    heap_share(p, c);
    g_forked = c;
    for (auto &f : c->fds) if (f.second->kind == KFile::STREAM) f.second->conn->server_pid = c->pid;
    lg("%s[%d] forks %d", p->name.c_str(), p->pid, c->pid); count("op:fork"); busy(p);
    return c->pid;
}
static long fork_point() {
    long pid = do_fork();
    if (pid < 0) return -1;
    if (echo_ctx_fork(&g_forked->sp, fork_copy, K->cur)) {
        if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
        return 0;
    }
    return pid;
}

// ------------------------------------------------------------------ sockets
uint64_t Dir::effective() const {
    size_t n = std::min<uint64_t>(consumed, wire.size());
    for (size_t i = 0; i < n; ++i) if (i >= raw.size() || raw[i] != wire[i]) return i;
    return ~0ULL;
}
static void rst(Conn &c, int side, int e) { if (c.dead[side]) return; c.dead[side] = true; c.err[side] = e; }
static void file_unref(KFileP f) {
    if (--f->refs > 0) return;
    if (f->kind == KFile::LISTEN) {
        for (auto &c : f->backlog) { c->open[1] = false; rst(*c, 0, ECONNRESET); if (K->on_fault) K->on_fault(c, "listener closed"); }
        for (size_t i = 0; i < K->listeners.size(); ++i) if (K->listeners[i] == f) { K->listeners.erase(K->listeners.begin() + i); break; }
    } else if (f->kind == KFile::STREAM) {
        Conn &c = *f->conn; int s = f->side; if (!c.open[s]) return;
        c.open[s] = false; Dir &in = c.d[1 - s], &out = c.d[s];
        if (!in.rb.empty()) { rst(c, 1 - s, ECONNRESET); lg("conn %d: side %d closes with unread data", c.id, s); }
        else if (!out.fin) { out.fin = true; out.fin_at = std::max(out.last_at, K->now + 1); lg("conn %d: side %d closes", c.id, s); }
    }
}
void link_reset(ConnP c) { rst(*c, 0, ECONNRESET); rst(*c, 1, ECONNRESET); for (auto &d : c->d) { d.flight.clear(); d.inflight = 0; d.rb.clear(); } lg("conn %d: link reset", c->id); }
static int fd_new(KFileP f) {
    Proc *p = K->cur; if ((int)p->fds.size() >= p->nofile) { errno = EMFILE; return -1; }
    int fd = 3; while (p->fds.count(fd)) fd++;
    p->fds[fd] = f; f->refs++; return fd;
}
int k_socket(int family) { sys("socket"); KFileP f = std::make_shared<KFile>(); f->family = family; return fd_new(f); }
int k_bind(int fd, int family, int port) {
    sys("bind"); KFileP f = file_of(fd); if (!f) { errno = EBADF; return -1; }
    if (K->cur->img && K->net.bind_fails.count(family)) { errno = EADDRNOTAVAIL; count("fault:bind-fails"); return -1; }
    for (auto &l : K->listeners) if (l->port == port && (l->family == family || (l->family == AF_INET6 && !l->v6only) || (family == AF_INET6 && !f->v6only))) { errno = EADDRINUSE; return -1; }
    f->bound = true; f->port = port; f->family = family; return 0;
}
int k_listen(int fd, int n) { sys("listen"); KFileP f = file_of(fd); if (!f || !f->bound) { errno = f ? EINVAL : EBADF; return -1; } f->kind = KFile::LISTEN; f->backlog_max = n < 1 ? 1 : n; K->listeners.push_back(f); busy(K->cur); lg("%s[%d] listens on port %d family %d", K->cur->name.c_str(), K->cur->pid, f->port, f->family); return 0; }
int k_connect(int fd, int family, int port) {
    sys("connect"); KFileP f = file_of(fd); if (!f) { errno = EBADF; return -1; }
    if (K->cur->img && K->net.connect_fails.count(family)) { count("fault:connect-fails"); errno = EHOSTUNREACH; return -1; }
    KFileP l; for (auto &x : K->listeners) if (x->port == port && (x->family == family || (x->family == AF_INET6 && !x->v6only))) { l = x; if (x->family == family) break; }
    if (!l) { errno = ECONNREFUSED; return -1; }
    block("connect", [l] { return (int)l->backlog.size() <= l->backlog_max || l->refs <= 0; }, false);
    if (l->refs <= 0) { errno = ECONNREFUSED; return -1; }
    f = file_of(fd); Proc *p = K->cur; busy(p);
    ConnP c = std::make_shared<Conn>(); c->id = (int)K->conns.size(); c->label = p->label; for (auto &d : c->d) d.cap = K->net.cap;
    K->conns.push_back(c); f->kind = KFile::STREAM; f->conn = c; f->side = 0; l->backlog.push_back(c);
    lg("conn %d: %s[%d] connects to port %d", c->id, p->name.c_str(), p->pid, port); count("op:connect");
    if (K->on_connect) K->on_connect(c);
    return 0;
}
int k_accept(int fd) {
    sys("accept"); KFileP l = file_of(fd); if (!l) { errno = EBADF; return -1; }
    if (l->kind != KFile::LISTEN) { errno = EINVAL; return -1; }
    if (net_fault("eintr", K->net.pm_eintr)) { errno = EINTR; return -1; }
    if (block("accept", [l] { return !l->backlog.empty(); }, true, ~0ULL, 1) == B_INTR) { errno = EINTR; return -1; }
    if (net_fault("accept-error", K->net.pm_accept_err)) {
        static const int e[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO}; int k = e[pick("net.accepterr", 6)];
        if (k == ECONNABORTED || k == EPROTO) { ConnP c = l->backlog.front(); l->backlog.pop_front(); c->open[1] = false; rst(*c, 0, ECONNRESET); if (K->on_fault) K->on_fault(c, "aborted before accept"); }
        lg("accept fails with %d", k); errno = k; return -1;
    }
    Proc *p = K->cur; if ((int)p->fds.size() >= p->nofile) { errno = EMFILE; return -1; }
    ConnP c = l->backlog.front(); l->backlog.pop_front(); c->accepted = true; busy(p);
    KFileP f = std::make_shared<KFile>(); f->kind = KFile::STREAM; f->conn = c; f->side = 1; int r = fd_new(f);
    lg("conn %d: accepted by %s[%d] as %d", c->id, p->name.c_str(), p->pid, r); count("op:accept"); return r;
}
ConnP k_conn(int fd) { KFileP f = file_of(fd); return f ? f->conn : nullptr; }
long k_recv(int fd, void *b, size_t n, int flags) {
    sys("recv"); KFileP f = file_of(fd); if (!f) { errno = EBADF; return -1; }
    if (f->kind != KFile::STREAM) { errno = ENOTCONN; return -1; }
    if (net_fault("eintr", K->net.pm_eintr)) { errno = EINTR; return -1; }
    if (n == 0) return 0;
    for (;;) {
        ConnP c = f->conn; int s = f->side; size_t want = (flags & MSG_WAITALL) ? n : 1;
        auto ok = [c, s, want] { return c->dead[s] || c->d[1 - s].rb.size() >= want || c->d[1 - s].fin_seen; };
        if (!ok() && (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        if (!f->shut_rd && block("recv", ok, true, ~0ULL, 1) == B_INTR) { errno = EINTR; return -1; }
        Dir &d = c->d[1 - s];
        if (d.rb.empty()) { if (c->dead[s] && c->err[s]) { errno = c->err[s]; c->err[s] = 0; return -1; } return 0; }   // Linux hands out what has arrived before it reports the reset
        size_t k = std::min(n, d.rb.size());
        if (k > 1 && net_fault("short-recv", K->net.pm_short_recv)) k = 1 + pick("net.shortlen", k - 1);
        std::copy(d.rb.begin(), d.rb.begin() + k, (uint8_t *)b);
        if (!(flags & MSG_PEEK)) { d.rb.erase(d.rb.begin(), d.rb.begin() + k); d.consumed += k; }
        busy(K->cur); lg("conn %d: side %d takes %zu bytes", c->id, s, k); return k;
    }
}
static Bytes tamper(ConnP c, int s, const uint8_t *b, size_t n) {
    Dir &d = c->d[s]; Bytes out; uint64_t base = d.raw.size();
    d.raw.insert(d.raw.end(), b, b + n);
    size_t skip = 0;
    for (size_t i = 0; i < n; ++i) {
        if (d.cut) break;
        uint8_t v = b[i];
        for (auto &o : d.ops) if (!o.fired && base + i >= o.at) {
            o.fired = true; const char *nm = "?";
            switch (o.kind) {
            case TK_FLIP: v ^= 1 << (o.arg & 7); nm = "tamper-flip"; break;
            case TK_DROP: skip = o.arg; nm = "tamper-drop"; break;
            case TK_DUP: { size_t k = std::min<size_t>(o.arg, d.wire.size() + out.size()); Bytes all = d.wire; all.insert(all.end(), out.begin(), out.end()); out.insert(out.end(), all.end() - k, all.end()); nm = "tamper-replay"; break; }
            case TK_INSERT: { Data r("tamper.insert", c->id * 2 + s); Bytes x = r.bytes(o.arg); out.insert(out.end(), x.begin(), x.end()); nm = "tamper-insert"; break; }
            case TK_CUT: d.cut = true; d.fin = true; nm = "link-cut"; break;
            case TK_RESET: nm = "link-reset"; break;
            }
            count(Str("fault:") + nm); lg("conn %d: %s at byte %llu of side %d", c->id, nm, (unsigned long long)(base + i), s);
            if (K->on_fault) K->on_fault(c, nm);
            if (o.kind == TK_RESET) { link_reset(c); return Bytes(); }
        }
        if (d.cut) break;
        if (skip) { skip--; continue; }
        out.push_back(v);
    }
    d.wire.insert(d.wire.end(), out.begin(), out.end());
    return out;
}
long k_send(int fd, const void *b, size_t n, int flags) {
    sys("send"); KFileP f = file_of(fd); if (!f) { errno = EBADF; return -1; }
    if (f->kind != KFile::STREAM) { errno = ENOTCONN; return -1; }
    if (net_fault("eintr", K->net.pm_eintr)) { errno = EINTR; return -1; }
    ConnP c = f->conn; int s = f->side; Dir &d = c->d[s];
    size_t k = n; if (n > 1 && net_fault("short-send", K->net.pm_short_send)) k = 1 + pick("net.shortlen", n - 1);
    size_t done = 0;
    while (done < k || k == 0) {
        if (c->dead[s] || d.fin) {
            if (d.cut && !c->dead[s]) return n;            // beyond a cut the sender notices nothing
            if (c->err[s]) { errno = c->err[s]; c->err[s] = 0; return done ? (long)done : -1; }
            if (done) return done;
            if (!(flags & MSG_NOSIGNAL) && K->cur->hand[SIGPIPE] == SIG_DFL && K->cur->img) { count("probe:sigpipe"); lg("SIGPIPE"); proc_kill(K->cur, SIGPIPE); }
            errno = EPIPE; return -1;
        }
        if (k == 0) return 0;
        size_t used = d.inflight + d.rb.size(), room = d.cap > used ? d.cap - used : 0;
        if (!room) {
            if (flags & MSG_DONTWAIT) { if (done) return done; errno = EAGAIN; return -1; }
            int r = block("send", [c, s] { Dir &d = c->d[s]; return c->dead[s] || d.inflight + d.rb.size() < d.cap || !c->open[1 - s]; }, true, ~0ULL, 1);
            if (r == B_INTR) { if (done) return done; errno = EINTR; return -1; }
            if (!c->open[1 - s] && !c->dead[s]) rst(*c, s, ECONNRESET);
            continue;
        }
        size_t m = std::min(room, k - done); Bytes w = tamper(c, s, (const uint8_t *)b + done, m); done += m; busy(K->cur);
        if (c->dead[s]) continue;
        uint64_t dl = 1 + (K->net.delay_max ? choose("net.delay", K->net.delay_max, K->net.on ? K->net.pm_delay : 0) : 0);
        // the network may split what was sent at once
        size_t pos = 0;
        while (pos < w.size()) {
            size_t part = w.size() - pos;
            if (part > 1 && K->net.on && K->net.pm_delay && flip("net.split", K->net.pm_delay)) part = 1 + pick("net.splitat", part - 1);
            d.last_at = std::max(d.last_at, K->now + dl); d.flight.push_back({d.last_at, Bytes(w.begin() + pos, w.begin() + pos + part)}); d.inflight += part; pos += part;
            if (pos < w.size()) dl += 1 + choose("net.delay", K->net.delay_max ? K->net.delay_max : 2, K->net.pm_delay);
        }
        if (d.cut) d.fin_at = d.last_at;
        lg("conn %d: side %d sends %zu bytes", c->id, s, m);
    }
    return done;
}
int k_close(int fd) {
    if (!K->cur) { errno = EBADF; return -1; }
    sys("close"); auto it = K->cur->fds.find(fd); if (it == K->cur->fds.end()) { errno = EBADF; return -1; }
    KFileP f = it->second; K->cur->fds.erase(it); file_unref(f); busy(K->cur); return 0;
}
void k_abort(int fd) { KFileP f = file_of(fd); if (f && f->conn) { f->conn->open[f->side] = false; rst(*f->conn, 1 - f->side, ECONNRESET); f->conn->d[f->side].flight.clear(); f->conn->d[f->side].inflight = 0; f->conn->d[f->side].rb.clear(); lg("conn %d: side %d resets", f->conn->id, f->side); } k_close(fd); }
int k_shutdown(int fd, int how) {
    sys("shutdown"); KFileP f = file_of(fd); if (!f || f->kind != KFile::STREAM) { errno = f ? ENOTCONN : EBADF; return -1; }
    if (how != SHUT_WR) f->shut_rd = true;
    if (how != SHUT_RD) { Dir &d = f->conn->d[f->side]; if (!d.fin) { d.fin = true; d.fin_at = std::max(d.last_at, K->now + 1); } f->shut_wr = true; }
    return 0;
}
void k_sleep(uint64_t t) { sys("sleep"); block("sleep", [] { return false; }, true, K->now + t); }
void input_put(Proc *p, const Str &s) { p->input.insert(p->input.end(), s.begin(), s.end()); }
static ssize_t in_read(void *c, char *b, size_t n) {
    Proc *p = (Proc *)c; sys("read-stdin");
    block("read-stdin", [p] { return !p->input.empty() || p->input_eof; }, false);
    size_t k = std::min(n, p->input.size());
    if (k > 1 && net_fault("short-stdin", K->net.pm_short_recv)) k = 1 + pick("net.shortlen", k - 1);
    std::copy(p->input.begin(), p->input.begin() + k, b); p->input.erase(p->input.begin(), p->input.begin() + k); busy(K->cur); return k;
}
static short poll_bits(KFileP f, short want) {
    short r = 0;
    if (f->kind == KFile::LISTEN) { if (!f->backlog.empty()) r |= POLLIN; }
    else if (f->kind == KFile::STREAM) { Conn &c = *f->conn; int s = f->side; Dir &in = c.d[1 - s], &out = c.d[s]; if (!in.rb.empty() || in.fin_seen || c.dead[s]) r |= POLLIN; if (out.inflight + out.rb.size() < out.cap || c.dead[s]) r |= POLLOUT; if (c.dead[s]) r |= POLLERR | POLLHUP; }
    else r |= POLLHUP;
    return r & (want | POLLERR | POLLHUP);
}
static int k_poll(struct pollfd *p, nfds_t n, int timeout) {
    sys("poll");
    if (net_fault("eintr", K->net.pm_eintr)) { errno = EINTR; return -1; }
    std::vector<std::pair<KFileP, short>> w; for (nfds_t i = 0; i < n; ++i) w.push_back({p[i].fd < 0 ? nullptr : file_of(p[i].fd), p[i].events});
    std::vector<bool> bad; bool anybad = false; for (nfds_t i = 0; i < n; ++i) { bool b = p[i].fd >= 0 && !w[i].first; bad.push_back(b); anybad = anybad || b; }
    int r = B_OK;
    if (!anybad) r = block("poll", [w] { for (auto &x : w) if (x.first && poll_bits(x.first, x.second)) return true; return false; }, true, timeout < 0 ? ~0ULL : K->now + timeout);
    if (r == B_INTR) { errno = EINTR; return -1; }
    int k = 0; for (nfds_t i = 0; i < n; ++i) { p[i].revents = bad[i] ? POLLNVAL : w[i].first ? poll_bits(w[i].first, w[i].second) : 0; if (p[i].revents) k++; }
    return k;
}
static int k_select(int n, fd_set *rd, fd_set *wr, fd_set *ex, long timeout) {
    std::vector<struct pollfd> p; for (int i = 0; i < n; ++i) { short e = 0; if (rd && FD_ISSET(i, rd)) e |= POLLIN; if (wr && FD_ISSET(i, wr)) e |= POLLOUT; if (e) p.push_back({i, e, 0}); }
    for (auto &x : p) if (!file_of(x.fd)) { errno = EBADF; return -1; }
    int r = k_poll(p.data(), p.size(), (int)timeout); if (r < 0) return r;
    if (rd) FD_ZERO(rd);
    if (wr) FD_ZERO(wr);
    if (ex) FD_ZERO(ex);
    int c = 0; for (auto &x : p) { if (rd && (x.events & POLLIN) && (x.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(x.fd, rd); c++; } if (wr && (x.events & POLLOUT) && (x.revents & (POLLOUT | POLLERR))) { FD_SET(x.fd, wr); c++; } }
    return c;
}
static int k_waitpid(int pid, int *st, int opt) {
    sys("waitpid");
    for (;;) {
        Proc *me = K->cur; bool any = false;
        for (Proc *c : K->procs) if (c->ppid == me->pid && (pid < 0 || pid == 0 || c->pid == pid)) {
            if (c->st == Proc::ZOMBIE) { if (st) *st = c->status; c->st = Proc::DEAD; busy(me); count("op:reap"); return c->pid; }
            if (c->alive()) any = true;
        }
        if (!any) { errno = ECHILD; return -1; }
        if (opt & WNOHANG) {
            // nothing changes for a program that only asks again and again until a child ends: skip to that point
            if (++me->reapzeros > 20) { if (!K->reapspin) lg("%s[%d] keeps calling waitpid()", me->name.c_str(), me->pid); K->reapspin = true; int mine = me->pid; block("waitpid-spin", [mine, pid] { bool live = false; for (Proc *c : K->procs) if (c->ppid == mine && (pid <= 0 || c->pid == pid)) { if (c->st == Proc::ZOMBIE) return true; live = live || c->alive(); } return !live; }, true); }
            return 0;
        }
        int mine = me->pid;
        if (block("waitpid", [mine, pid] { for (Proc *c : K->procs) if (c->ppid == mine && (pid <= 0 || c->pid == pid) && c->st == Proc::ZOMBIE) return true; return false; }, true, ~0ULL, 1) == B_INTR) { errno = EINTR; return -1; }
    }
}

static int sa_port(const struct sockaddr *a) { return a->sa_family == AF_INET6 ? ntohs(((const sockaddr_in6 *)a)->sin6_port) : ntohs(((const sockaddr_in *)a)->sin_port); }
static socklen_t sa_fill(struct sockaddr *a, socklen_t *l, int fam, int port) {
    sockaddr_storage ss; memset(&ss, 0, sizeof ss); socklen_t n;
    if (fam == AF_INET6) { auto *x = (sockaddr_in6 *)&ss; x->sin6_family = AF_INET6; x->sin6_port = htons(port); x->sin6_addr = in6addr_loopback; n = sizeof *x; }
    else { auto *x = (sockaddr_in *)&ss; x->sin_family = AF_INET; x->sin_port = htons(port); x->sin_addr.s_addr = htonl(INADDR_LOOPBACK); n = sizeof *x; }
    if (a && l) { memcpy(a, &ss, std::min(*l, n)); *l = n; }
    return n;
}
struct AI { struct addrinfo a; sockaddr_storage s; };
extern "C" {
int __wrap_socket(int d, int, int) { return k_socket(d); }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t) { return k_bind(fd, a->sa_family, sa_port(a)); }
int __wrap_listen(int fd, int n) { return k_listen(fd, n); }
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { int r = k_accept(fd); if (r >= 0 && a && l) sa_fill(a, l, file_of(fd) ? file_of(fd)->family : AF_INET, 40000 + r); return r; }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return __wrap_accept(fd, a, l); }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t) { return k_connect(fd, a->sa_family, sa_port(a)); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { return k_recv(fd, b, n, fl); }
ssize_t __wrap___recv_chk(int fd, void *b, size_t n, size_t, int fl) { return k_recv(fd, b, n, fl); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return k_recv(fd, b, n, fl); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return k_send(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return k_send(fd, b, n, fl); }
static ssize_t iov_io(int fd, const struct iovec *v, int n, int fl, bool wr) {
    Bytes all; size_t tot = 0; for (int i = 0; i < n; ++i) tot += v[i].iov_len;
    all.resize(tot); size_t p = 0;
    if (wr) for (int i = 0; i < n; ++i) { if (v[i].iov_len) memcpy(all.data() + p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
    ssize_t r = wr ? k_send(fd, all.data(), tot, fl) : k_recv(fd, all.data(), tot, fl);
    if (!wr && r > 0) { p = 0; for (int i = 0; i < n && p < (size_t)r; ++i) { size_t k = std::min(v[i].iov_len, (size_t)r - p); memcpy(v[i].iov_base, all.data() + p, k); p += k; } }
    return r;
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { return iov_io(fd, v, n, 0, false); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { return iov_io(fd, v, n, 0, true); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int fl) { return iov_io(fd, m->msg_iov, (int)m->msg_iovlen, fl, false); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) { return iov_io(fd, m->msg_iov, (int)m->msg_iovlen, fl, true); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) { return k_poll(p, n, t); }
int __wrap___poll_chk(struct pollfd *p, nfds_t n, int t, size_t) { return k_poll(p, n, t); }
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) { return k_poll(p, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return k_select(n, r, w, e, t ? t->tv_sec * 1000 + t->tv_usec / 1000 : -1); }
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *) { return k_select(n, r, w, e, t ? t->tv_sec * 1000 + t->tv_nsec / 1000000 : -1); }
int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t n) { sys("setsockopt"); KFileP f = file_of(fd); if (!f) { errno = EBADF; return -1; } if (lv == IPPROTO_IPV6 && o == IPV6_V6ONLY && n >= 4) f->v6only = *(const int *)v != 0; return 0; }
int __wrap_getsockopt(int fd, int, int, void *v, socklen_t *n) { if (!file_of(fd)) { errno = EBADF; return -1; } if (v && n) memset(v, 0, *n); return 0; }
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *l) { KFileP f = file_of(fd); if (!f) { errno = EBADF; return -1; } sa_fill(a, l, f->family, 40000); return 0; }
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *l) { KFileP f = file_of(fd); if (!f) { errno = EBADF; return -1; } sa_fill(a, l, f->family, f->port); return 0; }
int __wrap_shutdown(int fd, int how) { return k_shutdown(fd, how); }
int __wrap_fcntl(int fd, int, ...) { if (!file_of(fd)) { errno = EBADF; return -1; } return 0; }
int __wrap_fcntl64(int fd, int, ...) { if (!file_of(fd)) { errno = EBADF; return -1; } return 0; }
int __wrap_ioctl(int fd, unsigned long, ...) { if (!file_of(fd)) { errno = EBADF; return -1; } return 0; }
int __wrap_dup(int fd) { KFileP f = file_of(fd); if (!f) { errno = EBADF; return -1; } return fd_new(f); }
pid_t __wrap_fork(void) { sys("fork"); return (pid_t)fork_point(); }
pid_t __wrap_vfork(void) { sys("fork"); return (pid_t)fork_point(); }
pid_t __wrap_waitpid(pid_t p, int *s, int o) { return k_waitpid(p, s, o); }
pid_t __wrap_wait(int *s) { return k_waitpid(-1, s, 0); }
pid_t __wrap_wait3(int *s, int o, void *) { return k_waitpid(-1, s, o); }
pid_t __wrap_wait4(pid_t p, int *s, int o, void *) { return k_waitpid(p, s, o); }
void (*__wrap_signal(int sig, void (*h)(int)))(int) { if (sig < 1 || sig > 63) { errno = EINVAL; return SIG_ERR; } auto o = K->cur->hand[sig]; K->cur->hand[sig] = h; K->cur->restart[sig] = true; return o; }
int __wrap_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
    if (sig < 1 || sig > 63) { errno = EINVAL; return -1; }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = K->cur->hand[sig]; }
    if (a) { K->cur->hand[sig] = (a->sa_flags & SA_NOCLDWAIT) && sig == SIGCHLD ? SIG_IGN : a->sa_handler; K->cur->restart[sig] = (a->sa_flags & SA_RESTART) != 0; }
    return 0;
}
int __wrap_sigprocmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
int __wrap_kill(pid_t pid, int sig) { sys("kill"); for (Proc *p : K->procs) if (p->pid == pid && p->alive()) { if (sig) proc_kill(p, sig); return 0; } errno = ESRCH; return -1; }
int __wrap_raise(int sig) { proc_kill(K->cur, sig); return 0; }
pid_t __wrap_getpid(void) { return K->cur->pid; }
pid_t __wrap_getppid(void) { return K->cur->ppid; }
int __wrap_chdir(const char *d) { Str s = d; while (s.size() > 1 && s.back() == '/') s.pop_back(); bool ok = s == "."; for (auto &f : DISK.files) if (f.first.compare(0, s.size() + 1, s + "/") == 0) ok = true; if (!ok) { errno = ENOENT; return -1; } K->cur->cwd = s; return 0; }
int __wrap_getaddrinfo(const char *host, const char *service, const struct addrinfo *h, struct addrinfo **res) {
    sys("getaddrinfo"); *res = 0; struct addrinfo **tail = res; bool passive = h && (h->ai_flags & AI_PASSIVE) && !host;
    if (host && !strcmp(host, "nowhere")) return EAI_NONAME;
    for (int fam : passive ? K->net.server_families : K->net.client_families) {
        if (h && h->ai_family != AF_UNSPEC && h->ai_family != fam) continue;
        AI *x = (AI *)calloc(1, sizeof(AI)); x->a.ai_family = fam; x->a.ai_socktype = SOCK_STREAM; x->a.ai_protocol = IPPROTO_TCP;
        socklen_t l = sizeof x->s; sa_fill((sockaddr *)&x->s, &l, fam, atoi(service)); x->a.ai_addr = (sockaddr *)&x->s; x->a.ai_addrlen = l; *tail = &x->a; tail = &x->a.ai_next;
    }
    return *res ? 0 : EAI_NONAME;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; } }
unsigned __wrap_alarm(unsigned) { return 0; }
int __wrap_atexit(void (*)(void)) { return 0; }
int __wrap_pipe(int *) { errno = EMFILE; return -1; }
}
