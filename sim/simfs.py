"""Simulated disk and process scheduler.

Each simulated process is a forked child running the real program.  Every file operation the
program makes below the scratch directory (open, read, write, fsync, rename, unlink, mkdir, stat,
listdir, close, sleep) stops at a gate and asks the kernel in the parent, which decides which
process goes on, and whether the operation succeeds, fails with an errno, is short/torn, or is the
point at which the process is killed or the machine loses power.  Nothing is left to the OS scheduler:
exactly one child runs at a time.

The kernel keeps its own model of the disk (inodes, directory, journal, what fsync made durable), from
which the state after a power failure is built.
"""
import builtins
import errno
import io
import os
import pickle
import random
import resource
import select
import shutil
import signal
import stat as stat_
import sys
import traceback
import uuid

from . import proc, simclock

O_ACC = os.O_WRONLY | os.O_RDWR

REAL = {n: getattr(os, n) for n in (
    'open', 'close', 'read', 'write', 'replace', 'rename', 'remove', 'unlink', 'mkdir', 'rmdir', 'listdir',
    'scandir', 'stat', 'lstat', 'fsync', 'fdatasync', 'ftruncate', 'truncate', 'link', 'access', 'getpid',
    'fstat', 'lseek', 'utime', 'chmod', 'pread', 'pwrite', 'fdopen')}
REAL_OPEN = builtins.open


class Killed(BaseException):
    pass


class Gate(object):
    """Child side of the seam."""

    def __init__(self, rfd, wfd, root, pid):
        self.rfd, self.wfd = rfd, wfd
        self.root = os.path.realpath(root)
        self.pid = pid
        self.fds = {}
        self.locks = {}
        self.quiet = 0

    def rel(self, path):
        """Path relative to the scratch directory, or None if it is not managed."""
        if self.quiet:
            return None
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode('utf8', 'replace')
        p = os.path.normpath(os.path.join(self.root, p)) if not os.path.isabs(p) else os.path.normpath(p)
        if p == self.root:
            return '.'
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        return None

    def ask(self, kind, path, **kw):
        m = {'op': kind, 'path': path}
        m.update(kw)
        proc.send_obj(self.wfd, m)
        a = proc.recv_obj(self.rfd)
        if a is None:
            os._exit(0)
        if a['a'] == 'err':
            e = a['errno']
            raise OSError(e, os.strerror(e), path)
        return a

    def done(self):
        """Tell the kernel an allowed mutating operation really happened / failed for real."""

    # ---- installed functions
    def install(self):
        g = self
        R = REAL

        def simple(name, nargs=1, mutating=True):
            def f(path, *a, **k):
                p = g.rel(path)
                if p is None:
                    return R[name](path, *a, **k)
                g.ask(name, p)
                return R[name](path, *a, **k)
            return f
        for n in ('stat', 'lstat', 'listdir', 'scandir', 'access', 'truncate', 'utime', 'chmod'):
            setattr(os, n, simple(n))

        def two(name):
            def f(src, dst, **k):
                a, b = g.rel(src), g.rel(dst)
                if a is None and b is None:
                    return R[name](src, dst, **k)
                g.ask('rename', a, dst=b, exists=os.path.lexists(src) if False else True)
                return R[name](src, dst, **k)
            return f
        os.replace, os.rename = two('replace'), two('rename')

        def unlink(path, **k):
            p = g.rel(path)
            if p is None:
                return R['unlink'](path, **k)
            g.ask('unlink', p)
            return R['unlink'](path, **k)
        os.unlink = os.remove = unlink

        def mkdir(path, *a, **k):
            p = g.rel(path)
            if p is None:
                return R['mkdir'](path, *a, **k)
            g.ask('mkdir', p)
            return R['mkdir'](path, *a, **k)
        os.mkdir = mkdir

        def rmdir(path, **k):
            p = g.rel(path)
            if p is None:
                return R['rmdir'](path, **k)
            g.ask('rmdir', p)
            return R['rmdir'](path, **k)
        os.rmdir = rmdir

        def link(src, dst, **k):
            a, b = g.rel(src), g.rel(dst)
            if a is None and b is None:
                return R['link'](src, dst, **k)
            g.ask('link', a, dst=b)
            return R['link'](src, dst, **k)
        os.link = link

        def fsync(fd):
            n = fd if isinstance(fd, int) else fd.fileno()
            p = g.fds.get(n)
            if p is None:
                return R['fsync'](fd)
            g.ask('fsync', p, fd=n)
        os.fsync = fsync
        os.fdatasync = fsync

        def sync():
            g.ask('sync', '.')
        os.sync = sync

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            p = g.rel(path) if dir_fd is None else None
            if p is None:
                return R['open'](path, flags, mode, dir_fd=dir_fd)
            return g.gated_open(path, p, flags, mode)
        os.open = os_open

        def os_close(fd):
            if fd in g.fds:
                g.ask('close', g.fds[fd], fd=fd)
                del g.fds[fd]
            return R['close'](fd)
        os.close = os_close

        def os_write(fd, data):
            if fd in g.fds:
                return g.gated_write(fd, bytes(data))
            return R['write'](fd, data)
        os.write = os_write

        def os_read(fd, n):
            if fd in g.fds:
                g.ask('read', g.fds[fd], fd=fd)
            return R['read'](fd, n)
        os.read = os_read

        def ftruncate(fd, n):
            if fd in g.fds:
                g.ask('ftruncate', g.fds[fd], fd=fd, size=n)
            return R['ftruncate'](fd, n)
        os.ftruncate = ftruncate
        os.getpid = lambda: g.pid
        os.fdopen = lambda fd, mode='r', *a, **k: sim_open(fd, mode, *a, **k)

        try:
            import fcntl
            rflock, rlockf = fcntl.flock, fcntl.lockf

            def nonblock(fn):
                def f(fd, op, *a):
                    n = fd if isinstance(fd, int) else fd.fileno()
                    if n not in g.fds:
                        return fn(fd, op, *a)
                    while True:
                        g.ask('lock', g.fds[n])
                        try:
                            return fn(n, op | fcntl.LOCK_NB if not (op & fcntl.LOCK_UN) else op, *a)
                        except BlockingIOError:
                            if op & fcntl.LOCK_NB:
                                raise
                return f
            fcntl.flock, fcntl.lockf = nonblock(rflock), nonblock(rlockf)
        except ImportError:
            pass

        def sleep(dt):
            g.ask('sleep', '.', dt=float(dt))
            if simclock.CURRENT:
                simclock.CURRENT.sleep(dt)
        import time
        time.sleep = sleep

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            p = g.rel(file)
            if p is None:
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            return g.open_stack(file, p, mode, buffering, encoding, errors, newline, opener)
        builtins.open = sim_open
        io.open = sim_open

    def gated_open(self, path, rel, flags, mode=0o666):
        self.ask('open', rel, flags=flags)
        exists = os.path.lexists if False else None
        fd = REAL['open'](path, flags | os.O_CLOEXEC, mode)
        self.fds[fd] = rel
        proc.send_obj(self.wfd, {'note': 'opened', 'path': rel, 'fd': fd, 'flags': flags})
        del exists
        return fd

    def gated_write(self, fd, data):
        a = self.ask('write', self.fds[fd], fd=fd, data=data)
        if a['a'] == 'short':
            data = data[:max(1, a['n'])] if a['n'] else data[:1]
        pos = REAL['lseek'](fd, 0, os.SEEK_CUR)
        n = REAL['write'](fd, data)
        proc.send_obj(self.wfd, {'note': 'wrote', 'path': self.fds[fd], 'fd': fd, 'n': n,
                                 'pos': pos, 'end': REAL['lseek'](fd, 0, os.SEEK_CUR)})
        return n

    def open_stack(self, file, rel, mode, buffering, encoding, errors, newline, opener):
        binary = 'b' in mode
        upd = '+' in mode
        base = [c for c in mode if c in 'rwax'][0]
        flags = {'r': 0, 'w': os.O_CREAT | os.O_TRUNC, 'a': os.O_CREAT | os.O_APPEND,
                 'x': os.O_CREAT | os.O_EXCL}[base]
        flags |= os.O_RDWR if upd else (os.O_RDONLY if base == 'r' else os.O_WRONLY)
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, flags | os.O_CLOEXEC)
            if fd not in self.fds:
                return io.FileIO(fd, 'rb')
        else:
            fd = self.gated_open(file, rel, flags)
        raw = SimRaw(self, fd, upd or base == 'r', upd or base != 'r', base)
        raw.name = file
        raw.mode = mode
        if buffering == 0:
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        if upd:
            buf = io.BufferedRandom(raw, size)
        elif base == 'r':
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))
        t.mode = mode
        return t


class SimRaw(io.RawIOBase):
    """Raw file whose every operation passes the gate (under the real io buffering layers)."""

    def __init__(self, gate, fd, r, w, base):
        self._g, self._fd, self._r, self._w = gate, fd, r, w
        if base == 'a':
            REAL['lseek'](fd, 0, os.SEEK_END)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        self._g.ask('read', self._g.fds.get(self._fd, '?'), fd=self._fd)
        d = REAL['read'](self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        return self._g.gated_write(self._fd, bytes(b))

    def seek(self, off, whence=0):
        return REAL['lseek'](self._fd, off, whence)

    def tell(self):
        return REAL['lseek'](self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            super(SimRaw, self).close()
            fd = self._fd
            if fd in self._g.fds:
                try:
                    self._g.ask('close', self._g.fds[fd], fd=fd)
                finally:
                    self._g.fds.pop(fd, None)
                    REAL['close'](fd)


# ------------------------------------------------------------------------- the disk model

class Disk(object):
    """What is durable and what is not.  Inode contents + a journal of directory operations."""

    def __init__(self, root):
        self.root = root
        self.ino = {}            # inode -> {'cur': bytes, 'dur': bytes|None, 'pend': [(pos, bytes)|('trunc', n)]}
        self.names = {}          # path -> inode or 'dir'
        self.dnames = {}         # durable directory
        self.journal = []        # directory operations since the last commit
        self.next = 1
        for d, ds, fs in os.walk(root):
            for x in ds:
                self.names[os.path.relpath(os.path.join(d, x), root)] = 'dir'
            for x in fs:
                p = os.path.join(d, x)
                with REAL_OPEN(p, 'rb') as f:
                    c = f.read()
                self.names[os.path.relpath(p, root)] = self.new(c, c)
        self.dnames = dict(self.names)
        self.open = {}           # (proc, fd) -> inode

    def new(self, cur, dur):
        i = self.next
        self.next += 1
        self.ino[i] = {'cur': cur, 'dur': dur, 'pend': []}
        return i

    def commit(self, n=None):
        """The journal up to entry n (default all) becomes durable."""
        n = len(self.journal) if n is None else n
        for op in self.journal[:n]:
            self.apply_dir(self.dnames, op)
        del self.journal[:n]

    @staticmethod
    def apply_dir(names, op):
        if op[0] == 'create':
            names[op[1]] = op[2]
        elif op[0] == 'rename':
            names[op[2]] = op[3]
            names.pop(op[1], None)
        elif op[0] == 'unlink':
            names.pop(op[1], None)
        elif op[0] == 'mkdir':
            names[op[1]] = 'dir'
        elif op[0] == 'rmdir':
            names.pop(op[1], None)
        elif op[0] == 'link':
            names[op[2]] = op[3]

    def dirop(self, op):
        self.journal.append(op)
        self.apply_dir(self.names, op)

    def opened(self, who, path, fd, flags):
        i = self.names.get(path)
        if i is None:
            i = self.new(b'', None)
            self.dirop(('create', path, i))
        elif i == 'dir':
            self.open[(who, fd)] = None
            return
        elif flags & os.O_TRUNC and (flags & O_ACC):
            n = self.ino[i]
            if n['cur']:
                n['cur'] = b''
                n['pend'].append(('trunc', 0))
        self.open[(who, fd)] = i

    def wrote(self, who, fd, pos, data):
        i = self.open.get((who, fd))
        if i is None:
            return
        n = self.ino[i]
        n['cur'] = n['cur'][:pos].ljust(pos, b'\0') + data + n['cur'][pos + len(data):]
        n['pend'].append((pos, data))

    def fsync(self, who, fd):
        i = self.open.get((who, fd))
        self.commit()
        if i is None:
            return
        n = self.ino[i]
        n['dur'], n['pend'] = n['cur'], []

    def power_loss(self, rng):
        """A state the disk may be in after power failure: a prefix of the directory journal, and for
        every file its durable content plus a prefix (possibly torn) of what was written since, or its last size
        with any part of what was written."""
        self.commit(rng.randint(0, len(self.journal)))
        out = {}
        for path in sorted(self.dnames):
            i = self.dnames[path]
            if i == 'dir':
                out[path] = None
                continue
            n = self.ino[i]
            c = n['dur'] or b''
            if n['pend'] and rng.random() < 0.35:
                # the size reached the disk, of the data only some blocks: the rest reads as zeros
                c = b'\0' * len(n['cur']) if any(q[0] == 'trunc' for q in n['pend']) else c.ljust(len(n['cur']), b'\0')
                for pos, data in n['pend']:
                    if pos != 'trunc' and rng.random() < 0.5:
                        c = c[:pos] + data + c[pos + len(data):]
                out[path] = c[:len(n['cur'])]
                continue
            k = rng.choice([0, len(n['pend']), rng.randint(0, len(n['pend']))])
            for j, (pos, data) in enumerate(n['pend'][:k]):
                if pos == 'trunc':
                    c = c[:data]
                    continue
                if j == k - 1 and rng.random() < 0.5:
                    data = data[:rng.randint(0, len(data))]
                c = c[:pos].ljust(pos, b'\0') + data + c[pos + len(data):]
            out[path] = c
        return out

    def materialise(self, state):
        for x in REAL['listdir'](self.root):
            p = os.path.join(self.root, x)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                REAL['unlink'](p)
        for path in sorted(state):
            p = os.path.join(self.root, path)
            if state[path] is None:
                os.makedirs(p, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with REAL_OPEN(p, 'wb') as f:
                    f.write(state[path])

    def snapshot(self):
        return {p: (None if i == 'dir' else self.ino[i]['cur']) for p, i in self.names.items()}


def real_snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            with REAL_OPEN(os.path.join(d, x), 'rb') as f:
                out[os.path.relpath(os.path.join(d, x), root)] = f.read()
    return out


# ------------------------------------------------------------------------- the kernel

READ_OPS = ('stat', 'lstat', 'listdir', 'scandir', 'access', 'read')
WRITE_OPS = ('write', 'fsync', 'rename', 'unlink', 'mkdir', 'rmdir', 'link', 'ftruncate')


class SimProcess(object):
    def __init__(self, name, fn, pid):
        self.name, self.fn, self.simpid = name, fn, pid
        self.pending = None
        self.status = None        # ('ok'|'quit'|'exception'|'killed'|'hang', detail)
        self.nops = 0
        self.nmut = 0
        self.trace = []


class Kernel(object):
    """Runs simulated processes in lock step."""
    MAXOPS = 6000

    def __init__(self, root, out):
        self.root = root
        self.out = out
        self.disk = Disk(root)
        self.procs = []
        self.nextpid = 1000
        self.clock = 0.0
        self.log = out.ev
        self.on_op = None          # invariant hook(kernel, proc, op) after every mutating op

    def spawn(self, name, fn, pid=None, uuid_seed=0):
        p = SimProcess(name, fn, pid if pid is not None else self.nextpid)
        self.nextpid += 1
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        cpid = os.fork()
        if cpid == 0:
            try:
                os.close(r1)
                os.close(w2)
                for q in self.procs:
                    if q.status is None:
                        for fd in (q.rfd, q.wfd):
                            try:
                                os.close(fd)
                            except OSError:
                                pass
                resource.setrlimit(resource.RLIMIT_CPU, (300, 305))
                uuid.uuid1 = proc.Uuid('u1/%s' % uuid_seed)
                uuid.uuid4 = proc.Uuid('u4/%s' % uuid_seed)
                simclock.start(1000000.0)
                os.chdir(self.root)
                gate = Gate(r2, w1, self.root, p.simpid)
                gate.install()
                gate.ask('start', '.')
                st = fn()
                # interpreter shutdown: objects still alive are finalised, open files are flushed
                import gc
                gc.collect()
                gate.ask('exit', '.')
                proc.send_obj(w1, {'exit': st})
            except BaseException:
                try:
                    proc.send_obj(w1, {'exit': ('harness', traceback.format_exc()[-2000:])})
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)
        p.rfd, p.wfd, p.cpid = r1, w2, cpid
        self.procs.append(p)
        self.advance(p)
        return p

    def recv(self, p, wall=240.0):
        r, _, _ = select.select([p.rfd], [], [], wall)
        if not r:
            return 'hang'
        return proc.recv_obj(p.rfd)

    def advance(self, p):
        """Let p run up to its next gate (it has just been answered, or started)."""
        while True:
            m = self.recv(p)
            if m == 'hang':
                self.finish(p, ('hang', 'no file operation or exit for 240 s'))
                return
            if m is None:
                self.finish(p, ('died', 'the simulated process ended without reporting'))
                return
            if 'note' in m:
                if m['note'] == 'opened':
                    self.disk.opened(p.name, m['path'], m['fd'], m['flags'])
                elif m['note'] == 'wrote':
                    self.disk.wrote(p.name, m['fd'], m['pos'], p.last_data[:m['n']])
                if self.on_op:
                    self.on_op(self, p, m)
                continue
            if 'exit' in m:
                self.finish(p, tuple(m['exit']))
                return
            p.pending = m
            return

    def finish(self, p, status):
        p.status = status
        p.pending = None
        try:
            os.kill(p.cpid, signal.SIGKILL)
        except OSError:
            pass
        os.close(p.rfd)
        os.close(p.wfd)
        os.waitpid(p.cpid, 0)
        self.log('end', p.name, status[0])

    def kill(self, p):
        self.finish(p, ('killed', ''))

    def runnable(self):
        return [p for p in self.procs if p.status is None and p.pending is not None]

    def describe(self, m):
        s = '%s %s' % (m['op'], m['path'])
        if m.get('dst'):
            s += ' -> ' + m['dst']
        if m['op'] == 'write':
            s += ' %d' % len(m['data'])
        return s

    def step(self, p, action=None):
        """Answer p's pending operation with `action` and let it run to the next gate."""
        m = p.pending
        action = action or {'a': 'go'}
        p.nops += 1
        mut = m['op'] in WRITE_OPS or (m['op'] == 'open' and m.get('flags', 0) & (O_ACC | os.O_CREAT | os.O_TRUNC))
        if mut:
            p.nmut += 1
        self.log(p.name, self.describe(m), action['a'], action.get('errno', ''))
        self.clock += m.get('dt', 0.001)
        p.trace.append((m['op'], m['path'], mut))
        if action['a'] == 'go' or action['a'] == 'short':
            if m['op'] == 'write':
                p.last_data = m['data'] if action['a'] == 'go' else m['data'][:max(1, action['n'])]
            self.predict(p, m)
        if p.nops > self.MAXOPS:
            self.finish(p, ('hang', 'more than %d file operations' % self.MAXOPS))
            return
        proc.send_obj(p.wfd, action)
        p.pending = None
        self.advance(p)
        if mut and self.on_op:
            self.on_op(self, p, m)

    def predict(self, p, m):
        d = self.disk
        op, path = m['op'], m['path']
        real = os.path.join(self.root, path)
        if op == 'rename':
            i = d.names.get(path)
            if i is not None and m.get('dst'):
                d.dirop(('rename', path, m['dst'], i))
        elif op == 'unlink':
            if d.names.get(path) not in (None, 'dir'):
                d.dirop(('unlink', path))
        elif op == 'mkdir':
            if path not in d.names:
                d.dirop(('mkdir', path))
        elif op == 'rmdir':
            if d.names.get(path) == 'dir' and not REAL['listdir'](real):
                d.dirop(('rmdir', path))
        elif op == 'link':
            i = d.names.get(path)
            if i is not None and m.get('dst') and m['dst'] not in d.names:
                d.dirop(('link', path, m['dst'], i))
        elif op == 'fsync':
            d.fsync(p.name, m['fd'])
        elif op == 'sync':
            for (who, fd) in list(d.open):
                d.fsync(who, fd)
        elif op == 'ftruncate':
            i = d.open.get((p.name, m['fd']))
            if i:
                n = d.ino[i]
                n['cur'] = n['cur'][:m['size']].ljust(m['size'], b'\0')
                n['pend'].append(('trunc', m['size']))

    def tear(self, p, frac):
        """The process dies inside its pending write: part of the data reached the file."""
        m = p.pending
        if m['op'] != 'write':
            return False
        n = int(len(m['data']) * frac)
        if n <= 0:
            return False
        i = self.disk.open.get((p.name, m['fd']))
        if i is None:
            return False
        # the kernel writes it itself, through the child's file position
        proc.send_obj(p.wfd, {'a': 'short', 'n': n})
        p.last_data = m['data'][:n]
        p.pending = None
        self.advance(p)
        self.log(p.name, 'torn write', m['path'], n)
        return True

    def resync(self):
        """After killing processes everything the OS had accepted is on the (virtual) disk."""
        self.disk.open = {k: v for k, v in self.disk.open.items()
                          if any(q.name == k[0] and q.status is None for q in self.procs)}

    def close(self):
        for p in self.procs:
            if p.status is None:
                self.finish(p, ('killed', 'end of run'))
