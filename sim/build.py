#!/usr/bin/env python3
"""Builds the code under test (from the current working tree of the repository) and the simulator.

Every object is cached in /verif/build under a hash of the compiler flags, the source file and every
header of the repository, so an unchanged file is not rebuilt and a changed one always is.
"""
import os, re, sys, hashlib, subprocess, fcntl, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NOISE_REPO', '/repo')
OUT = os.environ.get('NOISE_SIM_BUILD', os.path.join(VERIF, 'build'))
JOBS = os.cpu_count() or 4

WRAP = ['malloc', 'calloc', 'realloc', 'free', 'strdup',
        'open', 'open64', 'openat', 'read', '__read_chk', 'close', 'getrandom', 'getentropy',
        'fopen', 'fopen64', 'fdopen', 'freopen', 'exit', '_exit', 'abort', 'perror',
        'unlink', 'remove', 'rename', 'fsync', 'fdatasync', 'fileno', 'stat', 'fstat', 'lstat', 'access',
        'chmod', 'fchmod', 'mkstemp', 'umask', 'ftruncate', 'getpass', 'isatty',
        'EVP_CIPHER_CTX_new', 'EVP_CIPHER_CTX_free', 'EVP_EncryptInit_ex', 'EVP_DecryptInit_ex',
        'EVP_EncryptUpdate', 'EVP_DecryptUpdate', 'EVP_CIPHER_CTX_ctrl', 'write',
        'time', 'gettimeofday', 'clock_gettime',
        'noise_hashstate_pbkdf2']     # not a system call: see KdfSeam in sim.h
WRAP_ECHO = ['socket', 'bind', 'listen', 'accept', 'accept4', 'connect', 'recv', '__recv_chk', 'recvfrom', 'send', 'sendto', 'readv', 'writev',
             'recvmsg', 'sendmsg', 'poll', '__poll_chk', 'ppoll', 'select', 'pselect', 'setsockopt', 'getsockopt', 'getpeername', 'getsockname',
             'shutdown', 'fcntl', 'fcntl64', 'ioctl', 'dup', 'fork', 'vfork', 'waitpid', 'wait', 'wait3', 'wait4', 'signal', 'sigaction', 'sigprocmask',
             'kill', 'raise', 'getpid', 'getppid', 'chdir', 'getaddrinfo', 'freeaddrinfo', 'sleep', 'usleep', 'nanosleep', 'alarm', 'atexit', 'pipe']


def parse_am(path, conds, subst):
    """A small evaluator for Makefile.am: variables and if/else/endif on known conditionals."""
    vars_ = {}
    stack = []
    text = open(path).read().replace('\\\n', ' ')
    for line in text.split('\n'):
        s = line.strip()
        m = re.match(r'if\s+(!?)(\w+)', s)
        if m:
            v = bool(conds.get(m.group(2), False))
            stack.append(v != bool(m.group(1)))
            continue
        if re.match(r'else\b', s):
            if stack:
                stack[-1] = not stack[-1]
            continue
        if re.match(r'endif\b', s):
            if stack:
                stack.pop()
            continue
        if not all(stack) or line.startswith('\t'):
            continue
        m = re.match(r'([A-Za-z_0-9]+)\s*(\+?=)\s*(.*)', s)
        if m:
            n, op, val = m.groups()
            if op == '=':
                vars_[n] = val
            else:
                vars_[n] = vars_.get(n, '') + ' ' + val

    def expand(v, depth=0):
        v = re.sub(r'@(\w+)@', lambda m: subst.get(m.group(1), ''), v)
        if depth < 10:
            v = re.sub(r'\$\((\w+)\)', lambda m: expand(vars_.get(m.group(1), subst.get(m.group(1), '')), depth + 1), v)
        return v
    return {k: expand(v) for k, v in vars_.items()}


def config(backend):
    sub = {'top_srcdir': REPO, 'GOLDILOCKS_ARCH': 'arch_x86_64', 'WARNING_FLAGS': '', 'srcdir': ''}
    conds = {'USE_OPENSSL': backend == 'openssl', 'USE_LIBSODIUM': backend == 'sodium'}
    d = os.path.join(REPO, 'src/protocol')
    v = parse_am(os.path.join(d, 'Makefile.am'), conds, sub)
    srcs = []
    for s in v['libnoiseprotocol_a_SOURCES'].split():
        if s.endswith('.c'):
            p = os.path.normpath(os.path.join(d, s))
            if p not in srcs:
                srcs.append(p)
    flags = ['-I' + d] + v['AM_CPPFLAGS'].split()
    units = [(s, flags) for s in srcs]
    for sub_dir, lib in (('src/keys', 'libnoisekeys_a_SOURCES'), ('src/protobufs', 'libnoiseprotobufs_a_SOURCES')):
        d2 = os.path.join(REPO, sub_dir)
        v2 = parse_am(os.path.join(d2, 'Makefile.am'), conds, sub)
        f2 = ['-I' + d2] + v2['AM_CPPFLAGS'].split()
        for s in v2[lib].split():
            if s.endswith('.c'):
                units.append((os.path.join(d2, s), f2))
    return units


def am_program(subdir, prog, backend, extra_srcdir_sub=True):
    d = os.path.join(REPO, subdir)
    conds = {'USE_OPENSSL': backend == 'openssl', 'USE_LIBSODIUM': backend == 'sodium'}
    sub = {'top_srcdir': REPO, 'srcdir': d, 'WARNING_FLAGS': ''}
    v = parse_am(os.path.join(d, 'Makefile.am'), conds, sub)
    return [(os.path.join(d, s), ['-I' + d] + v['AM_CPPFLAGS'].split()) for s in v[prog + '_SOURCES'].split() if s.endswith('.c')]


def defs():
    """The -D flags that configure computed, fixed here so that no configure run is needed."""
    return ['-DHAVE_STDIO_H=1', '-DHAVE_STDLIB_H=1', '-DHAVE_STRING_H=1', '-DHAVE_INTTYPES_H=1', '-DHAVE_STDINT_H=1',
            '-DHAVE_STRINGS_H=1', '-DHAVE_SYS_STAT_H=1', '-DHAVE_SYS_TYPES_H=1', '-DHAVE_UNISTD_H=1',
            '-DSTDC_HEADERS=1', '-DSIZEOF_VOID_P=8', '-DHAVE_LIBRT=1', '-DHAVE_POLL=1', '-DPACKAGE="noise-c"',
            '-DVERSION="0.0.1"', '-DPACKAGE_NAME="noise-c"', '-DPACKAGE_VERSION="0.0.1"']


_hdr = {}


def header_hash(root):
    if root not in _hdr:
        h = hashlib.sha256()
        fs = []
        for dp, dn, fn in os.walk(root):
            dn[:] = [x for x in dn if x not in ('_build', '.git', 'autom4te.cache')]
            fs += [os.path.join(dp, f) for f in fn
                   if f.endswith(('.h', '.inc', '.def')) or ('/crypto/' in dp and f.endswith('.c'))]
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(f, 'rb').read())
        _hdr[root] = h.hexdigest()
    return _hdr[root]


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def compile_one(job):
    cc, src, flags, root = job
    text = open(src, 'rb').read()
    if '/examples/echo/' in src:                                 # one of these files includes another
        for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(src)), '*', '*.c'))):
            text += open(f, 'rb').read()
    key = hashlib.sha256(('\0'.join([cc, src] + flags) + header_hash(root)).encode() + text).hexdigest()[:24]
    o = os.path.join(OUT, 'obj', key + '.o')
    if not os.path.exists(o):
        tmp = '%s.%d.tmp' % (o, os.getpid())
        sh([cc] + flags + ['-c', src, '-o', tmp])
        os.rename(tmp, o)
    return o


def compile_all(jobs):
    os.makedirs(os.path.join(OUT, 'obj'), exist_ok=True)
    for r in {j[3] for j in jobs}:
        header_hash(r)
    keyed = [(j[0], j[1], tuple(j[2]), j[3]) for j in jobs]
    uniq = list(dict.fromkeys(keyed))          # the same file is often part of several libraries
    with ThreadPoolExecutor(JOBS) as ex:
        done = dict(zip(uniq, ex.map(lambda k: compile_one((k[0], k[1], list(k[2]), k[3])), uniq)))
    return [done[k] for k in keyed]


def link(cmd_objs, out, base):
    key = hashlib.sha256('\0'.join(base + cmd_objs).encode()).hexdigest()
    stamp = out + '.key'
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    tmp = '%s.%d.tmp' % (out, os.getpid())
    sh(base + cmd_objs + ['-o', tmp])
    os.rename(tmp, out)
    open(stamp, 'w').write(key)


BACKENDS = ['ref', 'sodium', 'openssl']
LIBS = {'ref': [], 'sodium': ['-lsodium'], 'openssl': ['-lcrypto']}
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
SUT_BASE = ['-O1', '-g1', '-fPIC', '-w', '-pthread']


def lib_jobs(backend, extra):
    return [('gcc', s, SUT_BASE + extra + defs() + f, REPO) for s, f in config(backend)]


def renamed_main(units, name, extra):
    return [('gcc', s, SUT_BASE + extra + defs() + f + ['-Dmain=%s' % name], REPO) for s, f in units]


def tool_jobs(backend, extra):
    j = renamed_main(am_program('tools/keytool', 'noise_keytool', backend), 'sut_keytool_main', extra)
    # the tools have their own globals; nothing clashes with echo-keygen, which is one file
    j += renamed_main(am_program('examples/echo/echo-keygen', 'echo_keygen', backend), 'sut_echokeygen_main', extra)
    return j


def wrapflags(names):
    return ['-Wl,--wrap=%s' % n for n in names]


def harness_jobs():
    cxx = ['-std=c++17', '-O2', '-g1', '-Wall', '-Wno-unused-result', '-Wno-format-truncation', '-I' + REPO + '/include',
           '-DREPO_HDR_%s' % header_hash(REPO)[:8]]       # the simulator also depends on the public headers of the repository
    return [('g++', s, cxx, VERIF + '/sim') for s in sorted(glob.glob(os.path.join(VERIF, 'sim', '*.cpp')))]


def compile_sorted(jobs):
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][1]) - (10 ** 6 if jobs[i][0] == 'g++' else 0))
    res = compile_all([jobs[i] for i in order])      # longest first
    objs = [None] * len(jobs)
    for i, o in zip(order, res):
        objs[i] = o
    return objs


def build_main():
    """The main simulator: three sanitized libraries, one executable."""
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = []
    spans = {}
    for b in BACKENDS:
        js = lib_jobs(b, ASAN) + tool_jobs(b, ASAN)
        spans[b] = (len(jobs), len(jobs) + len(js))
        jobs += js
    a = len(jobs)
    jobs += harness_jobs()
    objs = compile_sorted(jobs)
    for b in BACKENDS:
        s, e = spans[b]
        link(objs[s:e] + LIBS[b], os.path.join(OUT, 'libnoise_%s.so' % b),
             ['gcc', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,lazy'] + ASAN + wrapflags(WRAP))
    link(objs[a:] + ['-lcrypto', '-lsodium', '-ldl', '-lpthread'], os.path.join(OUT, 'noisesim'),
         ['g++', '-rdynamic'] + ASAN)
    # drop objects that have not been used for a long time
    old = sorted(glob.glob(os.path.join(OUT, 'obj', '*.o')), key=os.path.getmtime)
    if len(old) > 3000:
        for f in old[:-1500]:
            os.unlink(f)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return os.path.join(OUT, 'noisesim')


TSAN = ['-fsanitize=thread', '-fno-builtin']     # the callbacks are implemented by sim/sc_conc.cpp, not by libtsan
WRAP_CONC = ['memcpy', 'memmove', 'memset', '__memcpy_chk', '__memset_chk', 'pthread_mutex_lock', 'pthread_mutex_unlock',
             'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_spin_lock', 'pthread_once', 'sched_yield', 'usleep', 'sleep', 'nanosleep']


def build_conc():
    """The threads simulator: the libraries with a callback at every memory access, no sanitizer runtime."""
    od = os.path.join(OUT, 'conc')
    os.makedirs(od, exist_ok=True)
    lock = open(os.path.join(OUT, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs, spans = [], {}
    for b in BACKENDS:
        js = lib_jobs(b, TSAN)
        spans[b] = (len(jobs), len(jobs) + len(js))
        jobs += js
    a = len(jobs)
    jobs += harness_jobs()
    objs = compile_sorted(jobs)
    for b in BACKENDS:
        s, e = spans[b]
        link(objs[s:e] + LIBS[b], os.path.join(od, 'libnoise_%s.so' % b),
             ['gcc', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,lazy'] + wrapflags(WRAP + WRAP_CONC))
    link(objs[a:] + ['-lcrypto', '-lsodium', '-ldl', '-lpthread'], os.path.join(od, 'noisesim_conc'), ['g++', '-rdynamic'])
    fcntl.flock(lock, fcntl.LOCK_UN)
    return os.path.join(od, 'noisesim_conc')


def build_echo():
    """The echo programs as images that the process simulator loads, and the main simulator."""
    main = build_main()
    lock = open(os.path.join(OUT, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs, spans = [], {}
    for b in BACKENDS:
        for prog in ('client', 'server'):
            js = lib_jobs(b, ASAN) + renamed_main(am_program('examples/echo/echo-%s' % prog, 'echo_%s' % prog, b), 'sut_echo_main', ASAN)
            spans[b, prog] = (len(jobs), len(jobs) + len(js))
            jobs += js
    objs = compile_sorted(jobs)
    for (b, prog), (s, e) in spans.items():
        link(objs[s:e] + LIBS[b], os.path.join(OUT, 'libecho_%s_%s.so' % (prog, b)),
             ['gcc', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,lazy'] + ASAN + wrapflags(WRAP + WRAP_ECHO))
    fcntl.flock(lock, fcntl.LOCK_UN)
    return main


NSCHEMA, NSCHEMA_THOROUGH = 12, 60


def protoc_units(gd):
    """The sources of noise-protoc, with the parser and the scanner generated into gd."""
    d = os.path.join(REPO, 'tools/protoc')
    v = parse_am(os.path.join(d, 'Makefile.am'), {}, {})
    units = []
    for s in v['noise_protoc_SOURCES'].split():
        src = os.path.join(d, s)
        if s.endswith('.y'):
            dst = os.path.join(gd, s[:-2] + '.c')
            tmp = os.path.join(gd, 'y%d.c' % os.getpid())
            sh(['bison', '-y', '-d', '-o', tmp, src])
            os.rename(tmp[:-2] + '.h', dst[:-2] + '.h')
            open(dst, 'w').write(open(tmp).read().replace(os.path.basename(tmp)[:-2] + '.h', s[:-2] + '.h'))
            os.unlink(tmp)
        elif s.endswith('.l'):
            dst = os.path.join(gd, s[:-2] + '.c')
            sh(['flex', '-o', dst, src])
        elif s.endswith('.c'):
            dst = src
        else:
            continue
        units.append((dst, ['-I' + d, '-I' + gd]))
    return units


def build_gen(count=NSCHEMA):
    """noise-protoc as an image for the simulator, and the code that it generates from the definitions of schema.cpp."""
    main = build_main()
    gd = os.path.join(OUT, 'gen')
    os.makedirs(gd, exist_ok=True)
    lock = open(os.path.join(OUT, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    units = protoc_units(gd)
    hdr = hashlib.sha256(open(os.path.join(gd, 'proto3-grammar.h'), 'rb').read()).hexdigest()[:8]
    native = compile_all([('gcc', s, ['-O1', '-w', '-DGRAMMAR_' + hdr] + defs() + f, REPO) for s, f in units])
    tool = os.path.join(gd, 'noise-protoc')
    link(native, tool, ['gcc'])
    sim = compile_all(renamed_main([(s, f + ['-DGRAMMAR_' + hdr]) for s, f in units], 'sut_protoc_main', ASAN))
    shared = ['gcc', '-shared', '-Wl,-Bsymbolic', '-Wl,-z,lazy'] + ASAN + wrapflags(WRAP)
    link(sim, os.path.join(gd, 'libnoise_protoc.so'), shared)
    status, jobs = [], []

    def one(k):
        proto, c, h = (os.path.join(gd, 'def%d.%s' % (k, x)) for x in ('proto', 'c', 'h'))
        open(proto, 'w').write(sh([main, 'schema', '--seed', str(k)]))
        for f in (c, h):
            if os.path.exists(f):
                os.unlink(f)
        try:
            r = subprocess.run([tool, '-c', c, '-h', h, proto], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=30, errors='replace')
        except subprocess.TimeoutExpired:
            return k, 'noise-protoc does not end', None
        if r.returncode != 0 or not os.path.exists(c) or not os.path.exists(h):
            return k, 'noise-protoc ends with %d: %s' % (r.returncode, r.stdout[-200:].replace(gd, '').replace('\n', ' ')), None
        hh = hashlib.sha256(open(h, 'rb').read()).hexdigest()[:8]
        try:
            return k, None, compile_one(('gcc', c, SUT_BASE + ASAN + ['-std=gnu11', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-I' + gd, '-I' + os.path.join(REPO, 'include'), '-DDEF_' + hh], REPO))
        except RuntimeError as e:
            m = re.search(r'error: .*', str(e))
            return k, 'the generated code does not compile: ' + (m.group(0) if m else '?')[:200], None
    header_hash(REPO)
    with ThreadPoolExecutor(JOBS) as ex:
        for k, err, o in ex.map(one, range(count)):
            if err:
                status.append('%d %s\n' % (k, err))
            else:
                jobs.append(o)
    d2 = os.path.join(REPO, 'src/protobufs')
    v2 = parse_am(os.path.join(d2, 'Makefile.am'), {}, {'top_srcdir': REPO, 'WARNING_FLAGS': '', 'srcdir': ''})
    jobs += compile_all([('gcc', os.path.join(d2, s), SUT_BASE + ASAN + defs() + ['-I' + d2] + v2['AM_CPPFLAGS'].split(), REPO) for s in v2['libnoiseprotobufs_a_SOURCES'].split() if s.endswith('.c')])
    out = os.path.join(gd, 'libnoise_gen.so')
    for _ in range(2):
        try:
            link(jobs, out, shared)
            break
        except RuntimeError as e:                    # e.g. the same function twice
            status = ['%d the generated code does not link: %s\n' % (k, str(e)[-200:].replace('\n', ' ')) for k in range(count)]
            jobs = jobs[-1:]
    open(os.path.join(gd, 'status'), 'w').write('%d definitions\n' % count + ''.join(status))
    os.environ['NOISE_GEN'] = '1'
    fcntl.flock(lock, fcntl.LOCK_UN)
    return main


if __name__ == '__main__':
    import time
    for f in [build_main] + ([build_conc, build_echo, build_gen] if 'all' in sys.argv[1:] else []):
        t = time.time()
        print(f(), '%.1fs' % (time.time() - t))
