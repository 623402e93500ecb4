from race import Race, Locks
from cachespec import Cache as CacheSpec
from memspec import Mem as MemSpec
from c09 import Threads
from ai import *
from lin import *

witness = ['w_race.cc', 'w_cache.cc', 'w_memenv.cc']
ndebug_quick = False       # left to the thorough tier
TECH = 'happens-before race detection over all pairs of operations, with every lock acquisition as a preemption point; lock typestate and lock order'


class Cache(Race):
    inter = 'x_cache'

    def init_state(self, st):
        super().init_state(st)
        st.ghost['hashes'] = ()

    def v_hash(self, s, a, i):
        s = s.copy()
        k = bytes(self.const_bytes(s, a[0], s.norm(a[1]).c))
        s.ghost['hashes'] += ((k, s.norm(a[2])),)
        return [(s, None)]

    def on_fn(self, s, fn, args, i):
        if fn.dem.startswith('lsmdb::Hash(') and s.ghost['hashes']:
            b = self.const_bytes(s, args[0], s.norm(args[1]).c)
            return [(s, dict(s.ghost['hashes'])[bytes(b)])]
        return super().on_fn(s, fn, args, i)


class Mem(Race):
    inter = 'x_mem'


class Posix(Race):
    inter = 'x_posix'

    def on_thread(self, st, t, state):
        self.checks['thread'] = self.checks.get('thread', 0) + 1
        return [st]


class Worker(Race):
    inter = 'x_sched'
    on_thread = Threads.on_thread
    on_detach = Threads.on_detach
    run_thread = Threads.run_thread
    v_run_thread = Threads.v_run_thread
    max_threads = 2

    def on_wait(self, st, cv, m):
        # nothing happens while the worker waits unless the other thread queues an item
        n = st.ghost.get('nint', 0)
        return [t for t in super().on_wait(st, cv, m) if t.ghost.get('nint', 0) > n]


class CacheLocks(Locks, CacheSpec):
    def v_done_op(self, s, a, i):
        return super().v_done_op(s, a, i) if self.idle(s) else []


class MemLocks(Locks, MemSpec):
    pass


for _n in ('v_fs', 'v_fexists', 'v_flength', 'v_fgrow', 'v_fclose', 'v_fread'):
    def _f(self, s, a, i, _n=_n):
        return getattr(MemSpec, _n)(self, s, a, i) if self.idle(s) else []
    setattr(MemLocks, _n, _f)


class PosixLocks(Locks):
    def on_thread(self, st, t, state):
        return [st]


clients = [('r_cache', Cache, {'K': 24, 'budget': 3, 'expect': ['reach:two threads on a cache', 'lock', 'access']}),
           ('r_mem', Mem, {'K': 12, 'budget': 3, 'expect': ['reach:two threads on an in-memory environment', 'lock', 'access']}),
           ('r_posix', Posix, {'K': 8, 'budget': 3, 'expect': ['reach:two threads on the default environment', 'lock', 'access', 'thread']}),
           ('r_worker', Worker, {'K': 3, 'expect': ['lock', 'access']}),
           ('k_life', CacheLocks, {'budget': 3, 'expect': ['lock', 'operation ended', 'reach:life']}),
           ('m_life', MemLocks, {'budget': 3, 'expect': ['lock', 'operation ended']}),
           ('r_locks', PosixLocks, {'K': 8, 'budget': 3, 'expect': ['lock', 'operation ended', 'reach:operations in a row']})]
explain = ('Every ordered pair of public operations on the cache (with entries held by both threads, unheld, and about to be evicted), on the in-memory environment (with files held open by both) and on the default '
           'environment (lock files, queue, threads, open files), and the queue worker against Schedule: one thread runs its operation, the other runs its whole operation before it, after it, or at any of its lock '
           'acquisitions and atomic operations. Every access to memory outside the stacks is checked against the accesses of the other thread with vector clocks over mutexes and release/acquire atomics: two '
           'accesses to overlapping bytes, one a write and not both atomic, must be ordered. Locking a held mutex, unlocking one not held, returning with one held, waiting without it, and taking two mutexes in '
           'opposite orders are violations; the last rules are also decided over all histories of a cache and of an in-memory environment (exact states) and over sequences of lock-file and queue operations with every failing call.')
assumptions = ['two threads, one operation (sequence) each', 'an object that is being created or destroyed is not used by another thread (client obligation); one thread per file object']
