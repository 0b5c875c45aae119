"""Client of ohsrv (the sanitized request server around the library's C API)."""
import os, struct, subprocess, tempfile

class Crash(Exception):
    """The library crashed (signal, sanitizer abort, or its CPU limit) while serving a case."""
    def __init__(self, status, log):
        self.status, self.log = status, log
        super().__init__('crash status %d: %s' % (status, summary(log)))

def summary(log):
    for l in log.splitlines():
        if l.startswith('SUMMARY') or 'ERROR: AddressSanitizer' in l: return l.strip()[:200]
    return log.strip()[:200]

def _s(x):
    if x is None: return b'\xff\xff\xff\xff'
    if isinstance(x, str): x = x.encode('utf-8', 'surrogateescape')
    return struct.pack('<I', len(x)) + x
def _i(x): return struct.pack('<I', x & 0xffffffff)

def req(op, *a):
    out = [op.encode()]
    for x in a: out.append(_i(x) if isinstance(x, int) else _s(x))
    return b''.join(out)

def new(slot, path, contents=None, disk=None, lang=None, names=None):
    r = [slot, path, contents, disk, lang, -1 if names is None else len(names)]
    if names is not None: r += list(names)
    return req('N', *r)

class Server:
    def __init__(self, exe, cwd='/'):
        self.exe, self.cwd, self.p = exe, cwd, None
    def start(self):
        self.err = tempfile.TemporaryFile()
        env = {'PATH': os.environ.get('PATH', ''), 'LANG': 'C', 'TZ': 'UTC', 'TMPDIR': os.environ.get('TMPDIR', '/tmp'),
               'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0:allocator_may_return_null=1:detect_stack_use_after_return=0'}
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=self.cwd, env=env, bufsize=0)
        import io
        self.rf = io.BufferedReader(self.p.stdout, 1 << 16)
    def close(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p.stdout.close(); self.err.close(); self.p = None
    def _frame(self):
        h = self.rf.read(4)
        if len(h) < 4: raise RuntimeError('server died')
        n = struct.unpack('<I', h)[0]
        return self.rf.read(n)
    @staticmethod
    def items(b, pos=1):
        out = []
        while pos < len(b):
            t = b[pos]; pos += 1
            if t == 105: out.append(struct.unpack_from('<q', b, pos)[0]); pos += 8
            elif t == 98:
                n = struct.unpack_from('<I', b, pos)[0]; pos += 4; out.append(b[pos:pos + n]); pos += n
            else: out.append(None)
        return out
    def run(self, reqs, partial=False):
        """Serve one case. Returns one item list per request; raises Crash."""
        if self.p is None: self.start()
        body = b''.join(struct.pack('<I', len(r)) + r for r in reqs)
        self.err.seek(0); self.err.truncate()
        data = struct.pack('<I', len(body)) + body
        # small writes cannot deadlock: the server reads the whole frame before it answers
        mv = memoryview(data)
        while mv: mv = mv[os.write(self.p.stdin.fileno(), mv):]
        out = []
        while True:
            f = self._frame()
            if f[:1] == b'A': out.append(self.items(f)); continue
            if f[:1] == b'E': return out
            st = self.items(f)[0]
            self.err.seek(0); log = self.err.read(20000).decode('latin-1')
            e = Crash(st, log); e.partial = out
            raise e

def events(it):
    return [(it[i], it[i + 1], it[i + 2], it[i + 3]) for i in range(0, len(it), 4)]
