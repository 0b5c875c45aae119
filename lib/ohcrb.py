"""Client of ohcruby.rb, the driver of the Ruby binding and the gestalt engine."""
import base64, json, os, subprocess, tempfile
import pbt

def b(x):
    if x is None: return None
    if isinstance(x, str): x = x.encode('utf-8', 'surrogateescape')
    return base64.b64encode(x).decode()
def d(x): return None if x is None else base64.b64decode(x)

class Ruby:
    def __init__(self, ctx): self.ctx, self.p = ctx, None
    def start(self):
        self.err = tempfile.TemporaryFile()
        env = {'PATH': os.environ.get('PATH', ''), 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TMPDIR': os.environ.get('TMPDIR', '/tmp')}
        self.p = subprocess.Popen(['ruby', '-I', self.ctx.rubyso, os.path.join(pbt.VERIF, 'lib', 'ohcruby.rb'), os.path.join(self.ctx.build, 'ruby')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=self.ctx.scratch, env=env)
        self.n = 0
    def close(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p.stdout.close(); self.err.close(); self.p = None
    def ask(self, q):
        if self.p is None: self.start()
        try:
            self.p.stdin.write(json.dumps(q).encode() + b'\n'); self.p.stdin.flush()
            a = self.p.stdout.readline()
        except BrokenPipeError: a = b''
        if not a:
            self.err.seek(0); log = self.err.read(3000).decode('latin-1'); self.p.stdin = self.p.stdin; 
            st = self.p.wait(); self.p.stdout.close(); self.err.close(); self.p = None
            raise pbt.Violation('ruby ended (status %s): %s' % (st, log))
        a = json.loads(a)
        self.n += 1
        if self.n > 400: self.close()      # the binding never frees its lists
        if 'r' not in a: raise pbt.Violation('ruby raised %s' % a)
        return a['r']

def ruby(ctx):
    if 'ruby' not in ctx.store: ctx.store['ruby'] = Ruby(ctx)
    return ctx.store['ruby']
