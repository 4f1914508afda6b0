"""Simulated processes: `subprocess.Popen` under the scheduler.

A simulated program is a generator that yields requests:

    ('line',)            receive one line of standard input (None at EOF)
    ('all',)             receive all the standard input, until EOF
    ('out', text)        write on standard output
    ('err', text)        write on standard error
    ('exit', code)       terminate

Pipes have finite capacity, as in the kernel: a program that writes on a
full pipe stops until the parent reads, and a parent that waits for such a
program waits forever (`SimHang`).
"""
import contextlib
import importlib
import os
import shutil
import signal
import subprocess
import tempfile

from . import core


CAPACITY = 65536


class Dead(Exception):
    pass


class Proc:
    """The kernel's view of a process."""

    def __init__(self, sim, argv, gen, fault):
        self.sim = sim
        self.argv = argv
        self.gen = gen
        self.fault = fault          # None | ('kill', n) | ('eof', n)
        self.stdin = bytearray()
        self.stdin_eof = False
        self.buf = dict(out=bytearray(), err=bytearray())
        self.sink = dict(out=None, err=None)   # fd, or None for a pipe
        self.merged = False
        self.code = None
        self.reaped = False
        self.pending = None         # blocked write
        self.want = None            # blocked read
        self.started = False
        self.n_out = 0
        self.pid = 4000 + len(sim.procs)

    def die(self, code):
        self.code = code
        self.pending = None
        self.want = None
        self.gen.close()

    def advance(self):
        """Run until blocked or dead; return whether anything happened."""
        moved = False
        while self.code is None:
            if self.pending is not None:
                stream, data = self.pending
                room = self._room(stream)
                if room == 0:
                    return moved
                part, rest = data[:room], data[room:]
                moved = True
                if not self._emit(stream, part):
                    return moved
                self.pending = (stream, rest) if rest else None
                continue
            value = None
            if self.want is not None:
                value, ok = self._take(self.want)
                if not ok:
                    return moved
                self.want = None
            moved = True
            try:
                if self.started:
                    req = self.gen.send(value)
                else:
                    self.started = True
                    req = next(self.gen)
            except StopIteration:
                self.die(0)
                return True
            self._request(req)
        return moved

    def _request(self, req):
        if req[0] in ('line', 'all'):
            self.want = req[0]
        elif req[0] in ('out', 'err'):
            data = req[1].encode()
            if data:
                self.pending = (
                    'out' if self.merged else req[0], data)
        elif req[0] == 'exit':
            f = self.fault
            if f is not None and (
                    f[0] == 'code' or f[0] == 'kill' and f[1] == 0):
                self.fault = None
                self.sim.fired.append(f[0])
                self.sim.ctx.fault('process-killed' if f[0] == 'kill'
                                   else 'process-failed-at-exit')
                self.die(-9 if f[0] == 'kill' else f[2])
            else:
                self.die(req[1])
        else:
            raise core.HarnessError(req)

    def _take(self, want):
        if want == 'all':
            if not self.stdin_eof:
                return None, False
            r = bytes(self.stdin)
            self.stdin.clear()
            return r.decode(), True
        i = self.stdin.find(b'\n')
        if i < 0:
            if not self.stdin_eof:
                return None, False
            if not self.stdin:
                return None, True
            i = len(self.stdin) - 1
        r = bytes(self.stdin[:i + 1])
        del self.stdin[:i + 1]
        return r.decode(), True

    def _room(self, stream):
        if self.sink[stream] is not None:
            return CAPACITY
        return self.sim.capacity - len(self.buf[stream])

    def _emit(self, stream, data):
        f = self.fault
        if f is not None and f[0] != 'code' and (
                self.n_out + len(data) >= f[1]):
            keep = max(0, f[1] - self.n_out)
            self._put(stream, data[:keep])
            self.fault = None
            self.sim.fired.append(f[0])
            self.sim.ctx.fault(
                {'kill': 'process-killed',
                 'short': 'output-cut-short'}[f[0]])
            code = -9 if f[0] == 'kill' else f[2]
            if os.path.basename(self.argv[0]) == 'gr1c' and (
                    '-t' not in self.argv):
                # its status is the answer
                code = code or 1
            self.die(code)
            return False
        self._put(stream, data)
        return True

    def _put(self, stream, data):
        self.n_out += len(data)
        sink = self.sink[stream]
        if sink is None:
            self.buf[stream] += data
        elif sink != 'null':
            os.write(sink, data)


class _Stdin:
    """The parent's end of the pipe to the standard input."""

    def __init__(self, proc, text, bufsize, encoding):
        self.proc = proc
        self.text = text
        self.encoding = encoding or 'utf-8'
        self.through = bufsize == 0
        self.by_line = bufsize == 1 and text
        self.pend = bytearray()
        self.closed = False

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if self.text != isinstance(s, str):
            raise TypeError(f'cannot write {type(s).__name__}')
        data = s.encode(self.encoding) if self.text else bytes(s)
        self.pend += data
        if self.through or len(self.pend) > 8192 or (
                self.by_line and b'\n' in data):
            self.flush()
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        p = self.proc
        while self.pend:
            p.advance()
            if p.code is not None:
                # the data stays in the buffer, as in Python's
                if self.through:
                    self.pend.clear()
                raise BrokenPipeError(32, 'Broken pipe')
            room = p.sim.capacity - len(p.stdin)
            if room <= 0:
                raise core.SimHang(
                    'parent writes on a full pipe of a process that '
                    'does not read')
            p.stdin += self.pend[:room]
            del self.pend[:room]
        p.advance()

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
        finally:
            self.closed = True
            self.proc.stdin_eof = True
            self.proc.advance()

    def fileno(self):
        raise core.HarnessError('fileno of a simulated pipe')

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class _Stdout:
    """The parent's end of a pipe from the process."""

    def __init__(self, proc, stream, text, encoding):
        self.proc = proc
        self.stream = stream
        self.text = text
        self.encoding = encoding or 'utf-8'
        self.closed = False
        self.reads_at_eof = 0

    def _fill(self, done):
        """Advance until `done(buffer)` or EOF."""
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        p = self.proc
        buf = p.buf[self.stream]
        acc = bytearray()
        while True:
            p.advance()
            i = done(buf)
            if i is not None:
                acc += buf[:i]
                del buf[:i]
                break
            acc += buf
            if p.code is not None:
                del buf[:]
                break
            if not buf:
                raise core.SimHang(
                    f'parent reads from {p.argv[0]}, which waits for '
                    'its input')
            del buf[:]
        if not acc:
            self.reads_at_eof += 1
            if self.reads_at_eof > 500:
                raise core.SimHang(
                    f'parent keeps reading the output of {p.argv[0]}, '
                    'which has terminated')
        r = bytes(acc)
        return r.decode(self.encoding) if self.text else r

    def read(self, n=-1):
        if n is None or n < 0:
            return self._fill(lambda b: None)
        return self._fill(lambda b: n if len(b) >= n else None)

    def readline(self, n=-1):
        def done(b):
            i = b.find(b'\n')
            return None if i < 0 else i + 1
        return self._fill(done)

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class SimPopen:
    sim = None

    def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None,
                 startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        sim = self.sim
        self.args = args
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        self.pid = None
        if shell or isinstance(args, (str, bytes)):
            raise core.HarnessError('shell commands are not simulated')
        argv = [os.fspath(a) for a in args]
        self.text = bool(
            text or universal_newlines or encoding or errors)
        self.text_mode = self.text
        p = sim.spawn(argv)
        self.proc = p
        self.pid = p.pid
        if stdin == subprocess.PIPE:
            self.stdin = _Stdin(p, self.text, bufsize, encoding)
        else:
            if stdin is not None and stdin != subprocess.DEVNULL:
                fd = stdin if isinstance(stdin, int) else stdin.fileno()
                while True:
                    b = os.read(fd, 65536)
                    if not b:
                        break
                    p.stdin += b
            p.stdin_eof = True
        p.merged = stderr == subprocess.STDOUT
        for stream, arg in (('out', stdout), ('err', stderr)):
            if stream == 'err' and p.merged:
                continue
            if arg == subprocess.PIPE:
                setattr(self, 'std' + stream,
                        _Stdout(p, stream, self.text, encoding))
            elif arg is None or arg == subprocess.DEVNULL:
                p.sink[stream] = 'null'
            else:
                if not isinstance(arg, int):
                    arg.flush()
                    arg = arg.fileno()
                p.sink[stream] = os.dup(arg)
                sim.fds.append(p.sink[stream])

    # -- waiting ----------------------------------------------------------
    def poll(self):
        if self.returncode is None:
            self.proc.advance()
            if self.proc.code is not None:
                self._reap()
        return self.returncode

    def _reap(self):
        self.returncode = self.proc.code
        self.proc.reaped = True

    def wait(self, timeout=None):
        p = self.proc
        if self.returncode is not None:
            return self.returncode
        p.advance()
        if p.code is None:
            if timeout is not None:
                self.sim.ctx.tick(timeout)
                raise subprocess.TimeoutExpired(self.args, timeout)
            why = ('writes on a full pipe that nobody reads'
                   if p.pending else 'waits for its input')
            raise core.SimHang(f'parent waits for {p.argv[0]}, which {why}')
        self._reap()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if self.stdin is not None and not self.stdin.closed:
            # output is drained while input is written
            p = self.proc
            data = bytearray()
            if input:
                data += input.encode() if self.text else input
            p.stdin += self.stdin.pend
            self.stdin.pend.clear()
            try:
                if p.code is None:
                    p.stdin += data
            finally:
                self.stdin.closed = True
                p.stdin_eof = True
        r = [None, None]
        p = self.proc
        acc = dict(out=bytearray(), err=bytearray())
        while True:
            moved = p.advance()
            for k in acc:
                if p.buf[k]:
                    moved = True
                acc[k] += p.buf[k]
                p.buf[k].clear()
            if p.code is not None:
                break
            if not moved:
                if timeout is not None:
                    self.sim.ctx.tick(timeout)
                    raise subprocess.TimeoutExpired(self.args, timeout)
                raise core.SimHang(f'{p.argv[0]} does not terminate')
        for i, (k, f) in enumerate(
                (('out', self.stdout), ('err', self.stderr))):
            if f is not None:
                b = bytes(acc[k])
                r[i] = b.decode() if self.text else b
                f.closed = True
        self._reap()
        return tuple(r)

    # -- signals ----------------------------------------------------------
    def send_signal(self, sig):
        self.poll()
        if self.returncode is None:
            self.proc.die(-int(sig))

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for f in (self.stdout, self.stderr):
            if f is not None:
                f.close()
        try:
            if self.stdin is not None:
                self.stdin.close()
        finally:
            self.wait()


class Sim:
    """The simulated machine: programs, processes, temporary files."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.programs = dict()
        self.procs = list()
        self.fds = list()
        self.fired = list()        # faults that did something
        self.start_fault = None    # (program, errno) or None
        self.out_fault = None      # (program, ('kill', n) ...)
        self.file_fault = None     # 'create' | 'write'
        # (a pipe has one page when the user has too many pipes)
        self.capacity = ctx.weighted([(3, CAPACITY), (1, 4096)])
        if self.capacity < CAPACITY:
            ctx.fault('small-pipes')

    def install(self, name, program):
        self.programs[name] = program

    def spawn(self, argv):
        ctx = self.ctx
        name = os.path.basename(argv[0])
        key = 'python' if name.startswith('python') else name
        ctx.log('spawn', key, *[
            '<file>' if os.sep in a else a for a in argv[1:]])
        f = self.start_fault
        if f is not None and f[0](key, argv):
            self.start_fault = None
            self.fired.append('start')
            ctx.fault('process-start-' + f[1].lower())
            import errno
            e = getattr(errno, f[1])
            raise OSError(e, os.strerror(e), argv[0])
        if key not in self.programs or (
                os.sep in argv[0] and key != 'python'
                and not os.path.exists(argv[0])):
            raise FileNotFoundError(
                2, 'No such file or directory', argv[0])
        fault = None
        if self.out_fault is not None and self.out_fault[0](key, argv):
            fault = self.out_fault[1]
            self.out_fault = None
        p = Proc(self, argv, self.programs[key](argv), fault)
        self.procs.append(p)
        return p

    def unreaped(self):
        return [p for p in self.procs if not p.reaped]

    # -- temporary files --------------------------------------------------
    def _temp(self, real):
        def make(*a, **kw):
            if self.file_fault == 'create':
                self.file_fault = None
                self.fired.append('file')
                self.ctx.fault('disk-full-on-create')
                raise OSError(28, 'No space left on device')
            f = real(*a, **kw)
            if self.file_fault == 'write' and 'delete' not in kw:
                self.file_fault = None
                return _FullFile(self, f)
            return f
        return make

    def _open(self, name, mode='r', *a, **kw):
        """Stands for `open` in the modules under test."""
        if self.file_fault == 'create' and set(mode) & set('wax+'):
            self.file_fault = None
            self.fired.append('file')
            self.ctx.fault('disk-full-on-create')
            raise OSError(28, 'No space left on device')
        f = open(name, mode, *a, **kw)
        if self.file_fault == 'write' and set(mode) & set('wax+'):
            self.file_fault = None
            return _FullFile(self, f)
        return f

    @contextlib.contextmanager
    def running(self, modules=()):
        """Replace the seams; give a scratch directory."""
        d = tempfile.mkdtemp(prefix='vsim')
        tmp = os.path.join(d, 'tmp')
        cwd = os.path.join(d, 'cwd')
        bin_ = os.path.join(d, 'bin')
        for x in (tmp, cwd, bin_):
            os.mkdir(x)
        self.root, self.tmp, self.cwd, self.bin = d, tmp, cwd, bin_
        old = dict(
            popen=subprocess.Popen, tempdir=tempfile.tempdir,
            cwd=os.getcwd(), path=os.environ.get('PATH'),
            ntf=tempfile.NamedTemporaryFile, tf=tempfile.TemporaryFile)
        cls = type('SimPopen', (SimPopen,), dict(sim=self))
        mods = list()
        for name in modules:
            mod = importlib.import_module(name)
            mods.append(mod)
            mod.open = self._open
        try:
            subprocess.Popen = cls
            tempfile.tempdir = tmp
            tempfile.NamedTemporaryFile = self._temp(old['ntf'])
            tempfile.TemporaryFile = self._temp(old['tf'])
            os.environ['PATH'] = os.pathsep.join(
                [os.path.join(d, 'nothing'), bin_])
            os.chdir(cwd)
            with core.rebound([
                    (old['popen'], cls),
                    (old['ntf'], tempfile.NamedTemporaryFile),
                    (old['tf'], tempfile.TemporaryFile)]):
                yield self
        finally:
            for mod in mods:
                del mod.open
            subprocess.Popen = old['popen']
            tempfile.tempdir = old['tempdir']
            tempfile.NamedTemporaryFile = old['ntf']
            tempfile.TemporaryFile = old['tf']
            os.environ['PATH'] = old['path']
            os.chdir(old['cwd'])
            for fd in self.fds:
                with contextlib.suppress(OSError):
                    os.close(fd)
            shutil.rmtree(d, ignore_errors=True)

    def leftovers(self):
        return sorted(os.listdir(self.tmp))


class _FullFile:
    """A file on a disk that becomes full at the first write."""

    def __init__(self, sim, f):
        self.__dict__['_sim'] = sim
        self.__dict__['_f'] = f

    def write(self, data):
        self._sim.fired.append('file')
        self._sim.ctx.fault('disk-full-on-write')
        raise OSError(28, 'No space left on device')

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *exc):
        return self._f.__exit__(*exc)

    def __iter__(self):
        return iter(self._f)
