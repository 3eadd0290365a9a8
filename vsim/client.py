"""Talks to one simulator fork server: one plan in, one result out."""
import os, shutil, subprocess, hashlib, re, select, signal, time

ENV_KEEP = ('PATH', 'HOME', 'LANG')


class Result:
    __slots__ = ('kind', 'code', 'trace', 'stdout', 'san', 'files', 'wall')

    def __init__(self, kind, code, trace):
        self.kind, self.code, self.trace = kind, code, trace
        self.stdout = b''
        self.san = ''
        self.files = {}
        self.wall = 0

    @property
    def text(self):
        return self.trace.decode('latin-1')

    def lines(self):
        return [l for l in self.text.split('\n') if l]

    def digest(self):
        h = hashlib.sha256()
        h.update(f'{self.kind} {self.code}\n'.encode())
        if self.ended() == 'hang':                # how far an endless run gets is a matter of real time
            h.update(self.trace[:4096])
            return h.hexdigest()
        h.update(self.trace)
        for k in sorted(self.files):
            h.update(k.encode())
            h.update(self.files[k] if self.files[k] is not None else b'<none>')
        return h.hexdigest()

    def ended(self):
        """'ok' for a run that reached its end, otherwise a short description of how it ended"""
        if self.kind == 2:
            return 'hang'
        if self.kind == 1:
            return f'signal {self.code}'
        if self.code == 0:
            return 'ok'
        if self.code == 77:
            return 'crashed'
        if self.code == 78:
            m = re.search(r'^!(\w+) ?(.*)$', self.text, re.M)
            return m.group(1).lower() if m else 'fatal'
        if self.code == 99:
            return 'memory error'
        return f'exit {self.code}'

    def probes(self):
        m = re.findall(r'^P (.*)$', self.text, re.M)
        out = {}
        if m:
            for kv in m[-1].split():
                k, v = kv.rsplit('=', 1)
                out[k] = int(v)
        return out

    def sched(self):
        m = re.findall(r'^D (\d+) (\w+) (-?\d+)$', self.text, re.M)
        return (int(m[-1][0]), m[-1][1], int(m[-1][2])) if m else (0, '0', 0)

    def schedule(self):
        i = self.text.rfind('\nL ')
        if i < 0:
            return ''
        return self.text[i + 3:self.text.index('\n', i + 3)]


class Server:
    def __init__(self, exe, scratch):
        self.exe, self.scratch = exe, scratch
        os.makedirs(scratch, exist_ok=True)
        self.p = None
        self.n = 0

    def start(self):
        env = {k: os.environ[k] for k in ENV_KEEP if k in os.environ}
        env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:log_path=./asan:detect_stack_use_after_return=0:'
                               'handle_abort=0:allocator_may_return_null=1:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=6:'
                               'max_allocation_size_mb=2048:hard_rss_limit_mb=2500:detect_container_overflow=1')
        env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=self.scratch)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, plan, timeout_ms=20000, want=(), keep=False):
        if self.p is None:
            self.start()
        self.n += 1
        d = os.path.join(self.scratch, 'run')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        pb = plan.encode('latin-1') if isinstance(plan, str) else plan
        db = d.encode()
        t0 = time.time()
        self.p.stdin.write(b'%012d%08d%04d' % (len(pb), timeout_ms, len(db)) + db + pb)
        self.p.stdin.flush()
        h = self.p.stdout.read(17)
        if len(h) != 17:
            self.stop()
            raise RuntimeError('simulator server died')
        kind, code, n = int(h[0:1]), int(h[1:5]), int(h[5:17])
        r = Result(kind, code, self.p.stdout.read(n))
        r.wall = time.time() - t0
        if kind or code:
            r.trace = r.trace + b''
            for f in sorted(os.listdir(d)):
                if f.startswith('asan.'):
                    r.san = open(os.path.join(d, f), errors='replace').read()
            try:
                r.stdout = open(os.path.join(d, 'stderr.txt'), 'rb').read()[-2000:]
            except OSError:
                pass
        for w in want:
            try:
                with open(os.path.join(d, w), 'rb') as f:
                    r.files[w] = f.read()
            except OSError:
                r.files[w] = None
        return r


def esc(s):
    """escape a plan token"""
    if isinstance(s, bytes):
        s = s.decode('latin-1')
    out = []
    for c in s:
        o = ord(c)
        if o <= 32 or o > 126 or c in '%#' :
            out.append('%%%02X' % o)
        else:
            out.append(c)
    return ''.join(out)
