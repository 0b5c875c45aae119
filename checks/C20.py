"""C20: a list of files is reported as what its definitions' rules say of it, and nothing else."""
from _parse import *
import hypothesis.strategies as st
import gestaltmodel as gm, ohcrb, random, tempfile, shutil, subprocess

EXT = {'c': ['c', 'h'], 'cpp': ['cpp', 'cc', 'hpp'], 'java': ['java'], 'ruby': ['rb'], 'python': ['py'], 'php': ['php'], 'perl': ['pm'], 'javascript': ['js'], 'html': ['html'], 'xml': ['xml'], 'csharp': ['cs'],
       'make': ['mk'], 'assembler': ['asm', 's'], 'objective_c': ['mm'], 'actionscript': ['as'], 'mxml': ['mxml'], 'sql': ['sql'], 'visualbasic': ['vb'], 'autoconf': ['ac'], 'haskell': ['hs'], 'dmd': ['d'],
       'fortranfixed': ['f77'], 'fortranfree': ['f90'], 'shell': ['sh'], 'lua': ['lua'], 'xaml': ['xaml'], 'css': ['css'], 'tex': ['tex']}
COM = {'c': '// %s', 'cpp': '/* %s */', 'java': '// %s', 'ruby': '# %s', 'python': '# %s', 'php': '// %s', 'perl': '# %s', 'javascript': '// %s', 'html': '<!-- %s -->', 'xml': '<!-- %s -->', 'csharp': '// %s', 'make': '# %s',
       'assembler': '; %s', 'objective_c': '// %s', 'actionscript': '// %s', 'mxml': '<!-- %s -->', 'sql': '-- %s', 'visualbasic': "' %s", 'haskell': '-- %s', 'dmd': '// %s', 'fortranfree': '! %s', 'shell': '# %s', 'lua': '-- %s', 'css': '/* %s */', 'tex': '% %s'.replace('% %', '%% %')}
ALLDEFS = gm.DEFS
BYNAME = {}
for _d in ALLDEFS: BYNAME.setdefault((_d[0], _d[1]), _d)

class Gen:
    """Files made towards (and narrowly away from) the rules of chosen definitions."""
    def __init__(self, seed):
        self.r = random.Random(seed); self.files = {}; self.meta = {}; self.feat = set()
    def ch(self, xs): return self.r.choice(xs)
    def miss(self, s):
        k = self.r.randrange(7)
        if not s or k > 4: return s
        self.feat.add('near-miss')
        i = self.r.randrange(len(s))
        return [s[:i] + s[i + 1:], s.swapcase(), s + 'x', 'x' + s, s[:i] + '_' + s[i:]][k]
    def path(self, lg):
        d = self.ch(['', '', 'src/', 'a/b/', 'java/', 'struts/'])
        if lg == 'make' and self.r.random() < .5: return d + self.ch(['Makefile', 'makefile'])
        return d + self.ch(['foo', 'bar', 'main', 'x1', 'util']) + '.' + self.ch(EXT.get(lg, ['txt']))
    def line(self, lg, s, n=1):
        """n lines (of code, mostly) in a file of the language."""
        p = self.path(lg)
        f = self.files.setdefault(p, [])
        if not f and lg == 'php': f.append('<?php')
        for _ in range(n): f.append(self.ch(['', '', '  ', '\t']) + s)
        if self.r.random() < .1: f.append('')
    def code(self, lg, s):
        k = self.r.randrange(10)
        if k == 0 and lg in COM: self.line(lg, COM[lg] % s); self.feat.add('in-comment')
        elif k == 1: self.line(lg, 'foo(%s); bar(%s)' % (s, s))
        elif k == 2: self.line(lg, 'x ' + s)
        elif k == 3: self.line(self.ch(sorted(EXT)), s); self.feat.add('elsewhere')
        else: self.line(lg, s)
    def leaf(self, r, deep):
        k = r['k']; R = self.r
        if k == 'CHeaderRule':
            h = self.miss(R.choice(r['headers']).replace('\\', '').replace('.', self.ch(['.', '.', '.', 'x'])))
            inc = self.ch(['#include <%s>', '#include "%s"', '#include<%s>', '#include\t<%s>', '#  include  <%s>', '#import "%s"', '// #include <%s>', '#INCLUDE <%s>', "include '%s'", '#include <%s> // why', '#include %s', '#include <a/%s>']) % h
            self.line(self.ch(['c', 'c', 'cpp', 'cpp', 'objective_c', 'csharp']), inc, self.ch([1, 1, 1, 2]))
        elif k == 'FilenameRule' or k == 'FindFilenamesRule':
            p = gm.sample(gm.rx(r['filenames'][R.randrange(len(r['filenames']))]) if k == 'FilenameRule' else gm.rx(r['regex']), R)
            p = self.miss(p)
            n = self.ch(['', '', 'd/', 'my-', 'x', 'd/e/']) + p + self.ch(['', '', '', '', '.bak', 'x'])
            n = n.replace('//', '/').lstrip('/')
            if n and not n.endswith('/') and not any(x in ('', '.', '..') or x[0] == '.' and '/' in n and i < n.count('/') for i, x in enumerate(n.split('/'))):
                self.files.setdefault(n, []).extend(self.ch([[], ['x'], ['<a/>']]))
        elif k in ('KeywordRule', 'CKeywordRule'):
            for _ in range(self.ch([1, 1, 1, 2, 3]) if r['min_count'] == 1 else r['min_count'] - 1 + R.randrange(3)):
                s = self.miss(gm.sample(gm.rx(R.choice(r['keywords'])), R))
                lg = self.ch(['c', 'c', 'cpp']) if k == 'CKeywordRule' else r['language'] or self.ch(sorted(EXT))
                self.code(lg if lg in EXT else 'c', s)
        elif k == 'JavaImportRule':
            s = self.miss(gm.sample(gm.rx(r['regex']), R)) + self.ch(['', '.Foo', '.*', 'x', '-x'])
            self.line(self.ch(['java'] * 6 + ['python', 'javascript']), self.ch(['import %s;', 'import %s;', 'import static %s;', 'import  %s ;', '// import %s;', 'x = %s;', 'x(); import %s;', 'importx %s;', 'import com.%s;', 'import\t%s; // y']) % s)
        elif k == 'CSharpUsingRule':
            s = self.miss(gm.sample(gm.rx(r['regex']), R)) + self.ch(['', '.Foo', 'x'])
            self.line(self.ch(['csharp'] * 5 + ['cpp']), self.ch(['using %s;', 'using %s;', 'using %s ;', 'using  %s;', '// using %s;', 'using X.%s;', 'using %s', 'x(); using %s;']) % s)
        elif k == 'MavenRule': self.pom(r)
        elif k == 'CsprojRule': self.csproj(r)
        elif k == 'LanguageRule':
            lg = r['language'] if r['language'] in EXT else self.ch(sorted(EXT)); p = r['min_percent']
            if p == 0: self.line(lg, 'foo', self.ch([0, 1, 1, 5])); return
            n = self.ch([1, 2, p]); other = n * (100 - p) // p + self.ch([-1, 0, 0, 1, 2])
            self.line(lg, 'foo', n)
            o = self.ch(['c', 'ruby', 'java', 'lua', 'css', 'xml'])
            if other > 0: self.line(o, 'bar' if o != 'xml' else '<b/>', min(other, 130))
        elif k == 'GestaltRule':
            d = self.defs.get((r['type'], r['name']))
            if d and deep < 5 and R.random() < .9: self.toward(d[2], deep + 1)
    def toward(self, r, deep=0):
        if r['k'] in ('OrRule', 'NotRule'):
            for x in r['rules'][:]:
                if self.r.random() < (1.2 / len(r['rules'])): self.toward(x, deep)
        elif r['k'] == 'AndRule':
            for x in r['rules']:
                if self.r.random() < .93: self.toward(x, deep)
        else: self.leaf(r, deep)
    def xmlfile(self, name, lines, **facts):
        d = self.ch(['', 'sub/', 'sub2/', 'm/n/']); p = d + name
        if p in self.files: return
        self.files[p] = lines; self.meta[p] = facts
    def pom(self, r):
        R = self.r; t = []; facts = []
        def ids(g, a):
            x = ['<groupId>%s%s%s</groupId>' % (self.ch(['', ' ']), g, self.ch(['', ' '])), '<artifactId>%s</artifactId>' % a]
            if R.random() < .2: x.reverse()
            if R.random() < .3: x.append('<version>1.0</version>')
            if R.random() < .15: x.insert(0, '<!-- <groupId>org.jboss</groupId> -->')
            return x
        def name(key): 
            if r[key].get('re') == '.*': return self.ch(['core', 'x-y', 'jasper', 'weblogic'])
            return self.miss(gm.sample(gm.rx(r[key]), R)) + self.ch(['', '.core', 'x'])
        def dep():
            ty = r['type'] if R.random() < .8 else self.ch(['dependency', 'plugin', 'extension'])
            g, a = name('group'), name('artifact')
            if R.random() < .25: g, a = 'org.other', 'thing'
            x = ['<%s>' % ty] + ids(g, a)
            fs = [(ty, g, a)] if ty in ('dependency', 'plugin') else []
            if R.random() < .25:
                x += ['<exclusions>', '<exclusion>'] + ids(name('group'), name('artifact')) + ['</exclusion>', '</exclusions>']; self.feat.add('exclusion')
            if ty == 'plugin' and R.random() < .4:
                g2, a2 = name('group'), name('artifact'); self.feat.add('nested')
                x += ['<dependencies>', '<dependency>'] + ids(g2, a2) + ['</dependency>', '</dependencies>']; fs.insert(0, ('dependency', g2, a2))
            if R.random() < .08: x = [y for y in x if 'artifactId' not in y]; fs = [f for f in fs if 0] ; self.feat.add('incomplete')
            return x + ['</%s>' % ty], fs
        for _ in range(self.ch([1, 1, 2, 3])):
            x, fs = dep()
            if R.random() < .12: t += ['<!--'] + [y for y in x if '<!--' not in y] + ['-->']; self.feat.add('commented')
            else: t += x; facts += fs
        root, ns = self.ch(['project'] * 6 + ['proj', 'Project']), self.ch(['', '', ' xmlns="http://maven.apache.org/POM/4.0.0"', ' xmlns="http://other.org/POM"'])
        if root != 'project' or 'other' in ns: facts = []
        t = ['<%s%s>' % (root, ns)] + t
        if R.random() < .15: t.append('</wrong>'); self.feat.add('malformed')     # what came before counts
        t.append('</%s>' % root)
        if R.random() < .3: t.insert(0, '<?xml version="1.0"?>')
        j = self.ch(['\n', '\n', '\n  '])
        if not any('<!--' in x for x in t) and R.random() < .3: t = [''.join(t)]
        fn = self.ch(['pom.xml'] * 6 + ['my-pom.xml', 'mypom.xml', 'other.xml'])
        if fn in ('mypom.xml', 'other.xml'): facts = []
        self.xmlfile(fn, j.join(t).split('\n'), maven=facts)
    def csproj(self, r):
        R = self.r; t = []; facts = []
        for _ in range(self.ch([1, 1, 2])):
            s = self.ch(['$(X)\\', '', 'a.']) + self.miss(gm.sample(gm.rx(r['import']), R)) + self.ch(['', '.targets', 'x'])
            el, at = self.ch(['Import', 'Import', 'Import', 'import', 'Using']), self.ch(['Project', 'Project', 'Project', 'Name'])
            l = '<%s %s="%s" />' % (el, at, s)
            if R.random() < .15: t.append('<!-- %s -->' % l)
            else:
                t.append(l)
                if el == 'Import' and at == 'Project': facts.append(s)
        root, ns = self.ch(['Project'] * 5 + ['project']), self.ch(['', ' xmlns="http://schemas.microsoft.com/developer/msbuild/2003"', ' xmlns="http://x.org/"'])
        if root == 'project' or 'x.org' in ns: facts = []
        fn = self.ch(['a.csproj', 'b.csproj', 'a.csproj.xml', 'c.csproj2'])
        if not fn.endswith('.csproj'): facts = []
        self.xmlfile(fn, ['<%s%s>' % (root, ns)] + t + ['</%s>' % root], csproj=facts)
    def done(self):
        out = []
        ks = list(self.files); self.r.shuffle(ks)
        for p in ks:
            m = self.meta.get(p, {})
            ls = self.files[p]
            out.append([p, '\n'.join(ls) + ('\n' if ls and self.r.random() < .9 else ''), [list(x) for x in m.get('maven', [])], list(m.get('csproj', []))])
        return out

def clash(files):
    """Two entries, one a file and one a directory of the same name."""
    fs = {f[0] for f in files}
    return any(p.rsplit('/', i + 1)[0] in fs for p in fs for i in range(p.count('/')))

def builtin(d):
    seed, targets, noise = d
    g = Gen(seed); g.defs = BYNAME
    for t in targets: g.toward(ALLDEFS[t % len(ALLDEFS)][2])
    for _ in range(noise): g.line(g.ch(sorted(EXT)), g.ch(['foo', 'x = 1', 'bar()']), g.ch([1, 2, 9]))
    return {'files': g.done(), 'feat': sorted(g.feat), 'how': g.ch(['paths', 'paths', 'add', 'add_files', 'files', 'each', 'each', 'each-reversed', 'one']), 'ask': g.ch(['gestalts', 'gestalts', 'all', 'sorted', 'find'])}

def world(ctx, files, prefix, mem):
    reqs = []
    for p, c, m, cs in files: reqs += [ohc.new(0, prefix + p, c if mem else None), ohc.req('L', 0), ohc.req('K', 0)]
    r = ctx.run(reqs) if reqs else []
    out = []
    for i, (p, c, m, cs) in enumerate(files):
        lg, k = r[3 * i + 1][0], r[3 * i + 2]
        code = {k[j].decode(): k[j + 1] or b'' for j in range(0, len(k), 6)}
        counts = {k[j].decode(): k[j + 3] for j in range(0, len(k), 6)}
        if 'xml' not in code: m, cs = [], []
        out.append(gm.File((prefix + p).encode(), lg and lg.decode(), code, counts, [(t, a.encode(), b.encode()) for t, a, b in m], [x.encode() for x in cs]))
    return gm.World(out)

def ask(ctx, case, d, defs=None):
    rb = ohcrb.ruby(ctx); files = case['files']; how = case['how']
    q = {'op': 'g', 'ask': case['ask'], 'how': how}
    if defs: q['defs'] = defs
    if how.startswith('each'):
        fs = files[::-1] if 'rev' in how else files
        q['how'] = 'each'; q['mem'] = [[ohcrb.b(p), ohcrb.b(c)] for p, c, _, _ in fs]
        return rb.ask(q), world(ctx, fs, '', True)
    if how == 'one':
        fs = sorted(files, key=lambda f: len(f[1]))[-1:]
        if not fs: raise Skip
        q['mem'] = [[ohcrb.b(fs[0][0]), ohcrb.b(fs[0][1])]]
        return rb.ask(q), world(ctx, fs, '', True)
    for p, c, _, _ in files:
        f = os.path.join(d, p); os.makedirs(os.path.dirname(f), exist_ok=True); open(f, 'w').write(c)
    if how in ('files', 'add_files'): q['files'] = [ohcrb.b(d + '/' + p) for p, c, _, _ in files]
    else: q['paths'] = [ohcrb.b(d)]
    vis = files if 'files' in q else [f for f in files if not any(x.startswith('.') for x in f[0].split('/')[:-1])]
    return rb.ask(q), world(ctx, vis, d + '/', False)

def judge(case, got, w, defs):
    want = w.gestalts(defs)
    g = sorted([(t, n) for t, n, c in got], key=repr)
    check(all(c == 1 for _, _, c in got), 'counts: %r', got)
    miss = [x for x in want if x not in g]; extra = [x for x in g if x not in want]
    check(g == want, 'not reported: %r; reported without reason: %r; reported %r', miss, extra, g)
    if case['ask'] == 'sorted' and not case['how'].startswith('each') and case['how'] != 'one':
        s = [(t, n) for t, n, c in got]; check(s == sorted(s), 'not in order: %r', s)
    return want

def gestalts(ctx, case, text=None, defs=None):
    if clash(case['files']): raise Skip
    d = tempfile.mkdtemp(prefix='g', dir=ctx.scratch)
    try:
        got, w = ask(ctx, case, d, text)
        want = judge(case, got, w, defs or ALLDEFS)
    finally: shutil.rmtree(d, ignore_errors=True)
    return ['nontrivial'] * (len(want) > 0) + case['feat'] + [case['how']] + ['def:' + str(n) for t, n in want if (t, n) in BYNAME] + (['several'] if len(want) > 2 else [])

def script(ctx, case):
    """gestalt.rb as a program: the files and directories given, or the one it is run in."""
    files = [f for f in case['files'] if not f[0].split('/')[-1].startswith('-')]
    if clash(files): raise Skip
    d = tempfile.mkdtemp(prefix='g', dir=ctx.scratch)
    try:
        for p, c, _, _ in files:
            f = os.path.join(d, p); os.makedirs(os.path.dirname(f), exist_ok=True); open(f, 'w').write(c)
        tops = sorted({f[0].split('/')[0] for f in files}); args = []; prefix = ''
        if case['how'] in ('paths', 'add'): prefix = './'
        elif case['how'] == 'each': args = ['.']; prefix = './'
        else: args = tops
        if not args and not prefix: prefix = './'
        vis = [f for f in files if not any(x.startswith('.') for x in f[0].split('/')[:-1])] if prefix else [f for f in files if not any(x.startswith('.') for x in f[0].split('/')[1:-1])]
        w = world(ctx, [[p, c, m, cs] for p, c, m, cs in vis], prefix, True)
        env = {'PATH': os.environ.get('PATH', ''), 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TMPDIR': d}
        r = subprocess.run(['ruby', '-W0', '-I', ctx.rubyso, os.path.join(ctx.build, 'ruby', 'gestalt.rb')] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        check(r.returncode == 0, 'gestalt.rb %r ended with %d: %s', args, r.returncode, r.stderr[-800:])
        want = w.gestalts(ALLDEFS)
        text = 'Examining %d file(s) for gestalts.\n' % len(vis) + ''.join('%s\t%s\t%s\n' % (t, '1'.rjust(8), n) for t, n in sorted(want))
        check(r.stdout.decode() == text, 'gestalt.rb %r printed\n%s\nshould be\n%s', args, r.stdout.decode(), text)
        return ['nontrivial'] if len(want) > 1 else []
    finally: shutil.rmtree(d, ignore_errors=True)

# ---- definitions of one's own ----
WORDS = ['alpha', 'Beta_1', 'gam ma', 'delta.x', 'Kappa::Z', 'Q']
def ruby_str(s): return "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"
def ruby_rx(p): return '/%s/%s' % (p['re'].replace('/', '\\/'), 'i' if p['i'] else '')
def tree(r, depth, names, neg=False):
    """A random rule tree: (ruby lines, model rule)."""
    k = r.randrange(13) if depth else r.randrange(4, 13)
    m = r.choice([1, 1, 1, 2, 3]); opt = ', :min => %d' % m if m > 1 or r.random() < .2 else ''
    rx = lambda: {'re': r.choice([r'\balpha', r'^org\.x\b', r'b.ta', r'gamma$', r'net\.(a|b)']), 'i': r.random() < .3}
    kw = lambda: r.sample([{'re': r'al[a-p]ha', 'i': True}, 'Beta_\\d'] + WORDS[:3] + WORDS[4:], r.randrange(1, 3))
    show = lambda ws: ', '.join(ruby_rx(w) if isinstance(w, dict) else ruby_str(w) for w in ws)
    if k < 2:
        kids = [tree(r, depth - 1, names, neg) for _ in range(r.randrange(1, 4))]; w = r.choice(['_or', '_and', '_and'])
        return '%s do\n%s\nend' % (w, '\n'.join(x[0] for x in kids)), {'k': {'_or': 'OrRule', '_and': 'AndRule'}[w], 'rules': [x[1] for x in kids]}
    if k == 2:
        x = tree(r, depth - 1, names, True)
        return '_not { %s }' % x[0], {'k': 'NotRule', 'rules': [x[1]]}
    if k == 3 or k == 4 and not neg:
        if not neg and names:
            n = r.choice(names)
            return 'gestalt(:%s, %s)' % (n[0], ruby_str(n[1])), {'k': 'GestaltRule', 'type': n[0], 'name': n[1]}
    if k <= 5:
        l = r.choice(['ruby', 'c', 'java', 'python', 'html', 'lua']); p = r.choice([0, 1, 25, 50, 100])
        return 'language :%s%s' % (l, ', :min_percent => %d' % p if p else ''), {'k': 'LanguageRule', 'language': l, 'min_percent': p}
    if k == 6:
        h = r.sample(['alpha.h', 'sys/b.h', 'Gamma.hpp'], r.randrange(1, 3))
        return 'c_headers %s%s' % (show(h), opt), {'k': 'CHeaderRule', 'headers': h, 'min_count': m}
    if k == 7:
        ws = kw(); l = r.choice(['ruby', 'c', 'java', 'php', 'html', None, 'objective_c'])
        if l == 'c': return 'c_keywords %s%s' % (show(ws), opt), {'k': 'CKeywordRule', 'keywords': ws, 'min_count': m}
        return '%s %s%s' % (l + '_keywords' if l else 'keywords', show(ws), opt), {'k': 'KeywordRule', 'language': l, 'keywords': ws, 'min_count': m}
    if k == 8:
        f = r.sample([r'\balpha\.c$', r'\.jar$', r'lib/[a-z]+\.so', 'README'], r.randrange(1, 3))
        return 'filenames %s%s' % (show(f), opt), {'k': 'FilenameRule', 'filenames': f, 'min_count': m}
    if k == 9: x = rx(); return 'java_import %s%s' % (ruby_rx(x), opt), {'k': 'JavaImportRule', 'regex': x, 'min_count': m}
    if k == 10: x = rx(); return 'csharp_using %s%s' % (ruby_rx(x), opt), {'k': 'CSharpUsingRule', 'regex': x, 'min_count': m}
    if k == 11:
        x = rx(); y = rx() if r.random() < .4 else None; t = r.choice(['dependency', 'plugin'])
        return 'maven_%s %s%s%s' % (t, ruby_rx(x), ', ' + ruby_rx(y) if y else '', opt), {'k': 'MavenRule', 'type': t, 'group': x, 'artifact': y or {'re': '.*', 'i': False}, 'min_count': m}
    x = rx()
    return 'csproj_import %s%s' % (ruby_rx(x), opt), {'k': 'CsprojRule', 'import': x, 'min_count': m}

def custom(d):
    seed, n, noise = d
    r = random.Random(seed)
    names = [(r.choice(['thing', 'tool', 'my_kind']), 'd%d' % i) for i in range(n)]
    code, defs = [], []
    for t, nm in names:
        if r.random() < .12:
            p = {'re': r.choice([r'([^/]*)\.jar$', r'^(lib)(\w+)\.so$']), 'i': False}; grp = r.choice([0, 1])
            code.append('define_%s do\nfind_filenames %s%s\nend' % (t, ruby_rx(p), ', :name_from_match => 1' if grp else ''))
            defs.append([t, None, {'k': 'OrRule', 'rules': [{'k': 'FindFilenamesRule', 'regex': p, 'name_from_match': grp}]}])
            continue
        kids = [tree(r, 3, names) for _ in range(r.choice([1, 1, 1, 2]))]
        code.append('define_%s %s do\n%s\nend' % (t, ruby_str(nm), '\n'.join(x[0] for x in kids)))
        defs.append([t, nm, {'k': 'OrRule', 'rules': [x[1] for x in kids]}])
    g = Gen(seed ^ 0x5bd1); g.defs = {(x[0], x[1]): x for x in defs}
    for x in defs:
        if r.random() < .8: g.toward(x[2])
    for _ in range(noise):
        if r.random() < .3: g.files.setdefault(r.choice(['lib/', 'a/', '']) + r.choice(['x.jar', 'y.jar', 'libz.so', 'alpha.c', 'README']), []).append('x')
        else: g.line(g.ch(['ruby', 'c', 'java', 'python', 'html', 'lua', 'php']), g.ch(['foo', 'alpha', 'Beta_1', 'Kappa::Z']), g.ch([1, 2, 5]))
    return {'files': g.done(), 'feat': sorted(g.feat), 'how': g.ch(['each', 'each', 'each-reversed', 'paths']), 'ask': g.ch(['gestalts', 'find']), 'code': code, 'defs': defs}

def owndefs(ctx, case):
    lab = gestalts(ctx, case, '\n'.join(case['code']), ALLDEFS + case['defs'])
    return [l for l in lab if not l.startswith('def:')]

# ---- project files that are no XML ----
SOUP = ['<project>', '</project>', '<Project>', '<dependency>', '</dependency>', '<groupId>', '</groupId>', '<groupId/>', '<artifactId>', '</artifactId>', 'org.jboss', '<plugin>', '</plugin>', '<!--', '-->', '<![CDATA[', ']]>', '&amp;', '&#99999999999;', '&#x;', '&', '&x;',
        "<?xml version='1.0' encoding='UTF-16'?>", "<?xml version='1.0' encoding='x-no'?>", '<?xml', '<?x ?>', '<!DOCTYPE x [', '<!ENTITY a "b">', '<!ENTITY % c "&a;">', '%c;', ']>', '>', '<', '=', '"', "'", '<Import Project="Silverlight"/>', '<a:b c:d="">', '</', '\n', '\n', ' ',
        '\ufeff', '\x01', '\u00e9']
def broken(ctx, case):
    rb = ohcrb.ruby(ctx); text = b''.join(case['text']).replace(b'\0', b'')
    files = [(case['name'].encode(), text), (b'A.java', b'class A {\n}\n'), (b'b.php', b'<?php\nmysql_connect();\n')]
    got = rb.ask({'op': 'g', 'how': 'each', 'mem': [[ohcrb.b(p), ohcrb.b(c)] for p, c in files]})
    names = {n for _, n, _ in got}
    check({'java', 'mysql', 'php'} <= names, 'a project file of no use hides others: %r', sorted(names))
    return ['nontrivial'] if len(text) > 20 else []

if __name__ == '__main__':
    S = st.integers(0, 2 ** 40)
    sys.exit(pbt.main('C20', [
        Test('builtin', st.tuples(S, st.lists(st.integers(0, len(ALLDEFS) - 1), min_size=1, max_size=4), st.integers(0, 2)).map(builtin), gestalts, 14000),
        Test('script', st.tuples(S, st.lists(st.integers(0, len(ALLDEFS) - 1), min_size=1, max_size=4), st.integers(0, 2)).map(builtin), script, 240),
        Test('own', st.tuples(S, st.integers(1, 5), st.integers(0, 3)).map(custom), owndefs, 5000),
        Test('broken', st.fixed_dictionaries({'name': st.sampled_from(['pom.xml', 'a.csproj']), 'text': st.lists(st.one_of(st.sampled_from([s.encode() for s in SOUP]), st.sampled_from([s.encode() for s in SOUP]), st.binary(max_size=4)), max_size=14)}), broken, 2500),
    ], targets=('srv', 'ruby'), rule='Lists of files made towards chosen built-in definitions (their keywords, headers, imports, names, shares and dependencies, and near misses of all of them), the same for random rule trees '
        'defined through the DSL, and malformed project files; non-trivial: at least one gestalt is due (malformed: more than 20 bytes)'))
