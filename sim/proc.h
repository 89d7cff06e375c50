// Simulated processes: programs compiled from the working tree run as coroutines over a simulated kernel
// (scheduling, fork, signals, sockets, standard streams).  Every process has its own globals, stack and
// descriptors; programs of one image share an address range, and the memory of the one that runs is swapped in.
#pragma once
#include "sim.h"
#include <deque>

struct Proc;
enum TamperKind { TK_FLIP, TK_DROP, TK_DUP, TK_INSERT, TK_CUT, TK_RESET };
struct TamperOp { TamperKind kind; uint64_t at; uint64_t arg; bool fired; };
struct Dir {                                       // one direction of a connection
    struct Seg { uint64_t at; Bytes b; };
    std::deque<Seg> flight; std::deque<uint8_t> rb;
    bool fin = false, fin_seen = false; uint64_t fin_at = 0, last_at = 0;
    size_t cap = 262144, inflight = 0;
    Bytes raw, wire;                               // what was sent, and what the link made of it
    uint64_t consumed = 0;
    bool stalled = false, cut = false;
    std::vector<TamperOp> ops;
    uint64_t effective() const;                    // first offset at which the receiver took something else than was sent, or ~0
};
struct Conn { int id; Dir d[2]; bool open[2] = {true, true}; int err[2] = {0, 0}; bool dead[2] = {false, false}; int label = -1; Str disturbed; int server_pid = 0; bool accepted = false; };
typedef std::shared_ptr<Conn> ConnP;
struct KFile { enum { SOCK, LISTEN, STREAM } kind = SOCK; int refs = 0, family = 2, port = 0; bool bound = false, v6only = false; std::deque<ConnP> backlog; int backlog_max = 0; ConnP conn; int side = 0; bool shut_wr = false, shut_rd = false; };
typedef std::shared_ptr<KFile> KFileP;
struct Image;
struct Proc {
    int pid = 0, ppid = 0, label = -1; Str name; Image *img = nullptr;
    enum { READY, BLOCKED, ZOMBIE, DEAD } st = READY;
    void *sp = nullptr; std::vector<Bytes> segs; Bytes stk, shadow;
    std::function<bool()> cond; bool interruptible = false; uint64_t deadline = ~0ULL; const char *where = "";
    std::map<int, KFileP> fds; int nofile = 64;
    int err = 0; int status = 0;
    FILE *in = nullptr, *out = nullptr, *er = nullptr; Str outbuf, errbuf, cwd;
    std::deque<uint8_t> input; bool input_eof = false;
    void (*hand[65])(int); bool restart[65]; uint64_t pending = 0;
    std::function<void()> body; std::vector<Str> args; std::vector<char *> argv;
    char *stack = nullptr; size_t stacksz = 0;
    std::set<void *> heap; std::map<void *, Bytes> heapcopy;
    uint64_t spin = 0, syscalls = 0; int reapzeros = 0; unsigned pm_oom = 0; int ooms = 0;
    void *fake = nullptr; bool killed = false; bool started = false;
    bool alive() const { return st == READY || st == BLOCKED; }
};
struct Net {                                       // fault probabilities per mille; set once per run
    unsigned delay_max = 0, pm_delay = 0, pm_short_recv = 0, pm_short_send = 0, pm_eintr = 0, pm_yield = 100, pm_switch = 300;
    unsigned pm_accept_err = 0, pm_fork_fail = 0;
    size_t cap = 262144;
    std::vector<int> server_families{2}, client_families{2};
    std::set<int> bind_fails, connect_fails;       // address families
    bool on = true;                                // faults enabled
};
struct Kernel {
    uint64_t now = 0, steps = 0, switches = 0;
    std::vector<Proc *> procs; Proc *cur = nullptr, *last = nullptr;
    std::vector<ConnP> conns; std::vector<KFileP> listeners;
    std::multimap<uint64_t, std::function<void()>> timers;
    Net net; int nextpid = 100; bool reapspin = false; Str lastfault;
    std::function<void(ConnP)> on_connect; std::function<void(Proc *)> on_exit; std::function<void(ConnP, const char *)> on_fault;
};
extern Kernel *K;
void echo_preload(const Str &dir);
Image *image(const char *kind, int be);            // "client" or "server"
void kernel_begin();
Proc *spawn(Image *img, const Str &name, const std::vector<Str> &args, int label);
Proc *spawn_actor(const Str &name, std::function<void()> body, int label);
void at(uint64_t t, std::function<void()> f);
void kernel_run(const std::function<bool()> &until = nullptr);   // until nothing can happen any more
void proc_kill(Proc *p, int sig);
void input_put(Proc *p, const Str &s);
void link_reset(ConnP c);
// system calls, for actors of the simulator
int k_socket(int family); int k_connect(int fd, int family, int port); int k_bind(int fd, int family, int port); int k_listen(int fd, int n);
int k_accept(int fd); long k_recv(int fd, void *b, size_t n, int flags); long k_send(int fd, const void *b, size_t n, int flags);
int k_close(int fd); int k_shutdown(int fd, int how); void k_sleep(uint64_t ticks); ConnP k_conn(int fd); void k_abort(int fd);
