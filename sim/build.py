#!/usr/bin/env python3
"""Builds the simulator binary from the current tree of the repository.

Objects are cached by content in a directory git ignores; a fresh copy builds
everything.
"""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

INSTR = ['-std=c++14', '-O1', '-g1', '-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0',
         '-DNDEBUG', '-fno-stack-protector', '-Wno-tsan', '-w',
         '-I' + REPO + '/include', '-I/usr/include/eigen3', '-I' + HERE]
RT = ['-std=c++17', '-O2', '-g1', '-Wall', '-fno-rtti', '-fno-stack-protector', '-fno-tree-loop-distribute-patterns',
      '-fno-builtin', '-I' + HERE]
WRAP = '''memcpy memmove memset memcmp strlen pthread_create pthread_join pthread_detach pthread_self pthread_once
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_clocklock pthread_mutex_unlock
pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_unlock
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_thread_atexit
sem_init sem_destroy sem_wait sem_trywait sem_post pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait
clock_gettime nanosleep clock_nanosleep usleep syscall pthread_key_create pthread_key_delete pthread_getspecific
pthread_setspecific __cxa_allocate_exception __cxa_allocate_dependent_exception
_ZNSt6thread20hardware_concurrencyEv get_nprocs sysconf sched_yield'''.split()


def sources():
    lib = sorted(glob.glob(REPO + '/src/library/**/*.cpp', recursive=True))
    har = sorted(glob.glob(HERE + '/*.cpp'))
    return [(f, RT if f.endswith('/simrt.cpp') else INSTR) for f in har + lib]


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def compile_one(job, prefix=''):
    src, flags = job
    name = prefix + re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(src, '/'))
    obj = os.path.join(BUILD, name + '.o')
    dep = os.path.join(BUILD, name + '.d')
    key = os.path.join(BUILD, name + '.key')
    cmd = ['g++', *flags, '-MMD', '-MF', dep, '-c', src, '-o', obj]

    def current():
        with open(dep) as fh:
            files = fh.read().replace('\\\n', ' ').split(':', 1)[1].split()
        files = [f for f in files if f.startswith((REPO, VERIF))]
        return hashlib.sha256((' '.join(cmd) + digest(files)).encode()).hexdigest()
    try:
        with open(key) as fh:
            if os.path.exists(obj) and fh.read() == current():
                return obj, None
    except (OSError, IndexError):
        pass
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return obj, f'{src}:\n{r.stderr[-6000:]}'
    with open(key, 'w') as fh:
        fh.write(current())
    return obj, None


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = sources()
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        res = list(ex.map(compile_one, jobs))
    errs = [e for _, e in res if e]
    if errs:
        sys.stderr.write('\n'.join(errs))
        return None
    exe = os.path.join(BUILD, 'sim')
    objs = [o for o, _ in res]
    stamp = digest(objs)
    sf = exe + '.key'
    if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == stamp:
        return exe
    tmp = exe + '.new'
    cmd = ['g++', '-no-pie', '-static-libstdc++', '-static-libgcc', '-g1', *objs, '-o', tmp, '-lpthread', '-ldl'] + \
          ['-Wl,--wrap=' + w for w in WRAP]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-6000:])
        return None
    os.replace(tmp, exe)
    with open(sf, 'w') as fh:
        fh.write(stamp)
    return exe


def build_core():
    """The library of the repository with a C interface, for the Python simulator."""
    d = os.path.join(BUILD, 'py')
    os.makedirs(d, exist_ok=True)
    src = [os.path.join(VERIF, 'pysim', 'core.cpp')] + sorted(glob.glob(REPO + '/src/library/**/*.cpp', recursive=True))
    flags = ['-std=c++14', '-O1', '-DNDEBUG', '-fPIC', '-w', '-I' + REPO + '/include', '-I/usr/include/eigen3']
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        res = list(ex.map(lambda f: compile_one((f, flags), 'core_'), src))
    errs = [e for _, e in res if e]
    if errs:
        sys.stderr.write('\n'.join(errs))
        return None
    objs = [o for o, _ in res]
    so = os.path.join(d, f'core-{digest(objs)[:16]}.so')
    if not os.path.exists(so):
        tmp = f'{so}.{os.getpid()}'
        r = subprocess.run(['g++', '-shared', '-static-libstdc++', '-static-libgcc', *objs, '-o', tmp, '-lpthread'],
                           capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-6000:])
            return None
        os.replace(tmp, so)
    return so


if __name__ == '__main__':
    e, c = build(True), build_core()
    print(e, c)
    sys.exit(0 if e and c else 2)
