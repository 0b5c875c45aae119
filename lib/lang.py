"""Hand-written table of the lexical conventions of every language ohcount counts, and a generator of well-formed
documents whose line classification is known by construction.

Nothing here is derived from running ohcount: a document is assembled token by token, each character being code, comment or
white space, and a physical line is code if it holds any code, else comment if it holds any comment, else blank.
"""
import hypothesis.strategies as st

class S:
    """A string-like literal. ml: None single-line; 'nl' may hold newlines; 'esc' may hold backslash-newline."""
    def __init__(self, o, c=None, esc=True, ml=None, q=False, first=None, nest=None, tail=True):
        self.o, self.c, self.esc, self.ml, self.q, self.first, self.nest, self.tail = o, c or o, esc, ml, q, first, nest, tail

class B:
    """A block comment."""
    def __init__(self, o, c, nest=False, ml=True):
        self.o, self.c, self.nest, self.ml = o, c, nest, ml

class L:
    def __init__(self, key, line=(), cont=False, block=(), strs=(), code=None, comment=None, regex=False, bad=(), lead=None,
                 bare=False, col0=(), tail_comment=True, name=None, start=None, stray=(), no_str_line_start=False, more=()):
        self.key = key
        self.line, self.cont = list(line), cont
        self.block = [b if isinstance(b, B) else B(*b) for b in block]
        self.strs = list(strs)
        self.regex = regex
        self.bad = list(bad)
        self.lead = lead            # text every code/comment line starts with (line numbers)
        self.bare = bare            # words that are neither operators nor marked count as comment
        self.col0 = list(col0)      # block comments whose delimiters stand at the start of a line
        self.tail_comment = tail_comment
        self.stray = list(stray)
        self.no_str_line_start = no_str_line_start
        marks = self.line + [b.o for b in self.block] + [b.c for b in self.block] + [s.o for s in self.strs] + self.bad
        if regex: marks.append('/')
        low = [m.lower() for m in marks]
        self.marks = low
        base = code or ['x', 'foo', 'bar1', 'y2', '(a)', '[b]', 'a+b', 'k=1', 'z;', 'p,q', 'v.w', '{t}', 'n<m', 'u:v', '12', '3.5',
                        'a*b', 'a-b', 'i--', 'a/b', 'Begin', 'end', '$v', 'a&b', '@t']
        self.code = [a for a in base if not any(m in a.lower() for m in low)] if not code else base
        self.code += list(more)
        self.words = comment or ['note', 'todo', 'it', 'works', 'a1', 'x=1;', '(see)', '"q', "don't", '//', '/*', '#', '--', '%', '{',
                                 '}', '*', "'", '"', '<!--', '<b>', 'end', 'caf\u00e9', '[', ']', '(', ')', '`', 'function(x)', '=', ';', '&&', '?', 't[x]=1', ']=', 'a]']

ESC2 = [S('"', ml='esc'), S("'", ml='esc')]
ESC1 = [S('"'), S("'")]
NL2 = [S('"', ml='nl'), S("'", ml='nl')]
NLQ = [S('"', ml='nl', q=True), S("'", ml='nl', q=True)]
CBLK = [('/*', '*/')]
PNEST = [('(*', '*)', True)]
XMLC = [('<!--', '-->')]
CDATA = S('<![CDATA[', ']]>', esc=False, ml='nl')

def table():
    t = []
    def a(*p, **k): t.append(L(*p, **k))
    for n in ('c', 'cpp', 'csharp', 'vala', 'genie', 'cuda', 'ec', 'glsl', 'golang', 'groovy'):
        a(n, ['//'], True, CBLK, ESC2)
    a('actionscript', ['//'], False, CBLK, ESC1 + [CDATA])
    a('ada', ['--'], strs=[S('"', esc=False)])
    a('ampl', ['#'], block=CBLK)
    a('assembler', ['//', ';', '!'], block=CBLK, strs=[S('"')])
    a('augeas', block=PNEST, strs=[S('"')])
    a('autoconf', ['dnl '], strs=[S('[', ']', esc=False, ml='nl', nest=True)])
    for n in ('automake', 'ebuild', 'exheres', 'make', 'r'): a(n, ['#'], strs=ESC1)
    a('awk', ['#'], strs=[S('"')], regex=True)
    a('bat', ['rem ', 'REM ', '@rem ', '@REM ', '::'], more=['Remove(x)', 'remark', 'theorem', 'x_rem', 'remy', 'rem1'])
    ops = ['+', '-', '<', '>', '.', ',', '[', ']']
    plain = ['note', 'todo', 'it', 'works', 'a1', '(see)', '{x}', 'q*r']
    a('brainfuck', code=ops, comment=plain, bare=True)
    a('bfpp', ['='], code=ops + ['%', '!', '#', '^', ':', ';', '@include(x)'], comment=plain, bare=True)
    a('blitzmax', ["'"], block=[B('rem', 'end rem'), B('Rem', 'EndRem')], strs=[S('"')], more=['Remove(x)', 'remark', 'theorem', 'x_rem', 'remy', 'rem1'])
    a('boo', ['#', '//'], block=[('/*', '*/', True), ('"""', '"""')], strs=[S('"')], regex=True, bad=["'"])
    a('chaiscript', ['//'], block=CBLK, strs=ESC2, regex=True)
    a('classic_basic', ["'", 'rem ', 'REM '], strs=[S('"')], lead='10 ', tail_comment=False)
    a('clearsilver', ['#'], strs=[S('"')])
    a('cmake', ['#'], strs=[S('"', ml='nl', q=True)], stray=['"'])
    a('coffeescript', ['#'], block=[('###', '###')], strs=NLQ + [S('"""', esc=False, ml='nl'), S("'''", esc=False, ml='nl')], bad=['`'])
    a('coq', block=PNEST, strs=[S('"', esc=False, ml='nl')])
    rq = [S('"', ml='nl', q=True), S('`', ml='nl', q=True), S('%(', ')', ml='nl', q=True, nest='any'), S('%q[', ']', ml='nl', q=True, nest='any'),
          S('%w{', '}', ml='nl', q=True, nest='any')]
    a('crystal', ['#'], block=[('=begin', '=end')], strs=rq, regex=True, bad=['%', "'"], stray=['"', '`'])
    a('ruby', ['#'], block=[('=begin', '=end')], strs=rq + [S("'", ml='nl', q=True)], regex=True, bad=['%'], stray=['"', '`', "'"])
    a('css', block=CBLK, strs=NL2)
    a('dmd', ['//'], True, [('/*', '*/'), ('/+', '+/', True)], ESC2 + [S('`', ml='esc')])
    a('dart', ['//'], True, CBLK, bad=['"', "'"])
    a('swift', ['//'], True, CBLK, bad=['"', "'"])
    a('dcl', ['!'], strs=[S('"')], lead='$ ')
    a('dylan', ['//'], block=CBLK, strs=[S('"')], bad=["'"])
    a('eiffel', ['--'], strs=[S('"', esc=False)])
    for n in ('elm', 'haskell'): a(n, ['--'], block=[('{-', '-}', True)], strs=[S('"', ml='esc')], bad=["'", '{t}'])
    a('erlang', ['%', '%%', '%%%'], strs=ESC1)
    a('factor', ['!'], strs=[S('"', ml='nl')])
    a('forth', ['\\'], block=[('(', ')')], strs=[S('"', esc=False)])
    a('fortranfixed', ['C', 'c', '*', '!'], strs=[S('"', esc=False), S("'", esc=False)], tail_comment=False,
      code=['x', 'IF CALL FOO', 'a+b', 'k=1', 'y*2', 'DO 10', 'write (1)', 'INC', 'bar', '(a)'])
    a('fortranfree', ['!'], strs=[S('"', esc=False, ml='nl'), S("'", esc=False, ml='nl')])
    a('fsharp', ['//'], True, [('(*', '*)')], ESC2)
    a('grace', ['//'], strs=[S('"', esc=False, ml='nl', q=True)], stray=['"'])
    a('haxe', ['//'], True, CBLK, ESC1)
    a('xml', block=XMLC, strs=[S('"', esc=False), S("'", esc=False), CDATA], bad=['<'])
    a('xaml', block=XMLC, strs=[S('"', esc=False), S("'", esc=False), CDATA], bad=['<'])
    a('xslt', block=XMLC, strs=ESC1 + [CDATA], bad=['<'])
    a('xmlschema', block=XMLC, strs=ESC1 + [CDATA], bad=['<'])
    a('html', block=XMLC, strs=ESC1, bad=['<'])
    a('idl_pvwave', [';'])
    a('jam', ['#'], strs=NLQ, stray=['"', "'"])
    a('java', ['//'], block=CBLK, strs=ESC1)
    for n in ('javascript', 'typescript', 'qml'): a(n, ['//'], block=CBLK, strs=ESC2, regex=True)
    a('julia', ['#'], block=[('#=', '=#'), ('"""', '"""'), ("'''", "'''")], strs=ESC1)
    a('kotlin', ['//'], block=[('/*', '*/', True)], strs=[S('"'), S('"""', esc=False, ml='nl')])
    a('limbo', ['#'], strs=ESC1)
    for n in ('lisp', 'emacslisp', 'scheme', 'clojure', 'racket'):
        a(n, [';', ';;'], block=[('"""', '"""')], strs=[S('"', ml='nl')])
    a('livecode', ['--', '#', '//'], block=CBLK, strs=[S('"')])
    a('logtalk', ['%'], block=CBLK, strs=ESC1)
    a('prolog', ['%'], block=CBLK, strs=ESC1)
    a('lua', ['--'], block=[('--[[', ']]'), ('--[=[', ']=]'), ('--[==[', ']==]')], strs=NL2 + [S('[[', ']]', esc=False, ml='nl', q=True), S('[=[', ']=]', esc=False, ml='nl', q=True)])
    a('mathematica', block=PNEST, strs=[S('"')])
    a('matlab', ['%', '...'], block=[('%{', '%}')], strs=ESC1)
    a('octave', ['%', '...', '#'], block=[('%{', '%}')], strs=ESC1)
    a('metafont', ['%'], strs=[S('"')])
    a('metapost', ['%'], strs=[S('"')])
    a('metapost_with_tex', ['%'], strs=[S('"')], bad=['tex'])
    a('modelica', ['//'], block=CBLK, strs=[S('"', ml='nl')])
    a('modula2', block=PNEST, strs=[S('"', esc=False), S("'", esc=False)])
    a('oberon', block=PNEST, strs=[S('"', esc=False), S("'", esc=False)])
    a('modula3', block=PNEST, strs=ESC2)
    a('mxml', block=XMLC, strs=NL2, bad=['<'])
    a('nix', ['#'], block=CBLK, bad=['"', "'"])
    a('nsis', ['#', ';'], block=CBLK, strs=ESC1 + [S('`')])
    a('objective_c', ['//'], True, CBLK, ESC1)
    a('objective_j', ['//'], True, CBLK, ESC1)
    a('ocaml', block=PNEST, strs=[S('"')])
    a('pascal', ['//'], block=[('(*', '*)'), ('{', '}')], strs=[S("'", ml='nl')])
    a('perl', ['#'], strs=NLQ + [S('`', ml='nl', q=True)], regex=True, col0=[('=pod', '=cut'), ('=head1 x', '=cut')], stray=['"', "'", '`'])
    a('pike', ['//'], block=CBLK, strs=ESC1)
    a('scala', ['//'], block=CBLK, strs=ESC1)
    a('umple', ['//'], block=CBLK, strs=ESC1)
    a('postscript', ['%'], bad=['('])
    a('powershell', ['#'], block=[('<#', '#>')], strs=NLQ, stray=['"', "'"])
    a('puppet', ['#'], block=CBLK, strs=[S("'", ml='nl')], bad=['"'])
    a('python', ['#', '//'], block=CBLK + [('"""', '"""'), ("'''", "'''")], strs=ESC1)
    a('rebol', [';'], strs=[S('"', esc=False), S('{', '}', esc=False, ml='nl', nest=True)])
    a('rexx', block=[('/*', '*/', True)], strs=ESC1)
    a('rust', ['//'], True, CBLK, [S('"', ml='esc')], bad=["'"])
    a('scilab', ['//'], strs=ESC1)
    a('shell', ['#'], strs=NLQ, stray=['"', "'"], bad=['$v'])
    a('smalltalk', block=[('"', '"')], strs=[S("'", esc=False)])
    a('sql', ['--', '#', '//'], block=[('/*', '*/'), ('{', '}')], strs=ESC1)
    a('stratego', ['//'], True, CBLK, [S('"', ml='esc')], bad=["'"])
    a('structured_basic', ["'", 'rem ', 'Rem '], strs=[S('"')], more=['Remove(x)', 'remark', 'theorem', 'x_rem', 'remy', 'rem1'])
    a('visualbasic', ["'", 'rem ', 'Rem '], strs=[S('"')], more=['Remove(x)', 'remark', 'theorem', 'x_rem', 'remy', 'rem1'])
    a('tcl', ['#'], True, strs=[S('"', ml='esc')])
    a('tex', ['%'])
    a('tex_dtx', ['%%'])
    a('unrealscript', ['//'], block=CBLK, strs=ESC2)
    a('vhdl', ['--'], strs=[S('"', esc=False)], bad=["'"])
    a('vim', ['"'], strs=[S("'"), S('"')], bad=[], tail_comment=False, no_str_line_start=True)
    return {l.key: l for l in t}

TABLE = table()

class Choice:
    """Decisions read off a byte string (so that Hypothesis generates and shrinks one flat value); 0 is the simplest."""
    def __init__(self, b): self.b, self.i = b, 0
    def n(self, k):
        if self.i >= len(self.b): return 0
        v = self.b[self.i]; self.i += 1
        return v % k
    def of(self, l): return l[self.n(len(l))]
    def more(self): return self.i < len(self.b)

class Emit:
    def __init__(self, eol='\n'):
        self.eol, self.out, self.cls, self.code, self.com, self.cur = eol, [], [], False, False, ''
        self.comments = []   # (start, end) byte offsets of comment constructs
        self.feat = set()
        self.blen = 0
    def _add(self, s):
        self.out.append(s); self.blen += len(s.encode('utf-8'))
    def put(self, s, k):
        parts = s.split('\n')
        for j, p in enumerate(parts):
            if j:
                self._add(self.eol); self._end()
            if p:
                self._add(p); self.cur += p
                if p.strip(' \t'):
                    if k == 'c': self.code = True
                    elif k == 'm': self.com = True
        return self
    def _end(self):
        self.cls.append('c' if self.code else 'm' if self.com else 'b')
        self.code = self.com = False; self.cur = ''
    def nl(self): self.put('\n', ' ')
    def mark(self): return self.blen
    def finish(self, drop_eol):
        """(bytes, classes); an unterminated last line counts only when it is not white space."""
        if self.cur:
            if drop_eol and (self.code or self.com): self._end()
            else: self.nl()
        return ''.join(self.out).encode('utf-8'), ''.join(self.cls)

INDENT = ['', '  ', '\t', ' \t ', '        ']

class Gen:
    # dense: few constructs, each of them as awkward as it may be
    def __init__(self, l, ch, em, dense=False): self.l, self.ch, self.em, self.banned, self.dense = l, ch, em, set(), dense
    def ok(self, w, forb): return not any(f in w for f in forb) and not any(b in w for b in self.banned)
    def pick(self, l): return [w for w in l if not any(m in w.lower() for m in self.l.marks)] or ['']
    def text(self, forb, lo=1, hi=5, plainfirst=False):
        l, ch = self.l, self.ch
        ws = [w for w in l.words if self.ok(w, forb)]
        plain = [w for w in ws if w.isalnum()]
        n = lo + ch.n(hi - lo + 1)
        out = []
        if self.dense:
            hot = [w for w in ws if not w.isalnum()] or ws; n = min(n, lo + 1)
        for i in range(n):
            if self.dense: out.append(ch.of(plain if (i == 0 and plainfirst) or ch.n(4) == 0 else hot))
            else: out.append(ch.of(plain if (i == 0 and plainfirst) or ch.n(2) == 0 else ws))
            out.append(ch.of([' ', ' ', ' ', '  ', '\t']))
        s = ''.join(out[:-1])
        if any(f in s for f in forb): s = ' '.join(w for w in out[:-1:2] if w.isalnum()) or 'note'
        if any(f in s for f in forb): s = 'note'
        return s
    def code(self, lo=1, hi=4):
        ch = self.ch; atoms = [a for a in self.l.code if self.ok(a, ())]
        return ch.of([' ', ' ', '\t']).join(ch.of(atoms) for _ in range(lo + ch.n(hi)))
    def strbody(self, s):
        l, ch = self.l, self.ch
        forb = {s.o[0], s.c[0], s.c}
        if s.nest: forb |= set('()[]{}<>')
        if s.o == '<![CDATA[': forb = {']'}
        if s.o in ('[[', '[=['): forb = {s.c}
        if '\\' not in forb: forb.add('\\')
        forb |= {'^'}
        if s.o in ('"""', "'''"): forb |= {'"', "'"}
        first = s.first or ''
        if s.o == '/': forb.add('*')
        lines = []
        nl = ch.n(4) if s.ml and (self.dense or ch.n(3) == 2) else 0
        for i in range(nl + 1):
            if i and s.ml == 'nl' and i < nl and ch.n(3) == 2: lines.append(ch.of(['', '  '])); continue
            t = self.text(forb, 1, 4, plainfirst=(s.o in ('/', '{')))
            if s.esc and ch.n(2 if self.dense else 3) > (0 if self.dense else 1): t += ' \\' + ch.of([s.c[0], '\\', 'n']) + ' ' + self.text(forb, 1, 2)
            if s.esc and i == nl and ch.n(6) == 5: t += ' \\\\'; self.em.feat.add('escape-at-end')
            if self.dense and i and ch.n(2):      # were the string over, this would be a comment
                m = ch.of(l.line + [b.o for b in l.block])
                if self.ok(m, forb): t = m + ' ' + t
            if i == 0: t = first + t
            else: t = ch.of(['', '  ']) + t
            lines.append(t)
        if nl: self.em.feat.add('mlstring')
        sep = '\n' if s.ml != 'esc' else '\\\n'
        r = sep.join(lines)
        if len(s.c) > 1 and (r + s.c).find(s.c) < len(r): r += ' '
        if s.ml and s.tail and ch.n(8) == 7: r += sep; self.em.feat.add('lone-close')
        return r
    def avail_strs(self): return [s for s in self.l.strs if self.ok(s.o + s.c, ())]
    def string(self):
        ss = self.avail_strs()
        if not ss: return None
        s = self.ch.of(ss)
        return s.o + self.strbody(s) + s.c
    def linecomment(self):
        l, ch, em = self.l, self.ch, self.em
        m = ch.of([x for x in l.line if self.ok(x, ())])
        st0 = em.mark()
        if m.endswith(' '): em.put(m + self.text((), 1, 5, plainfirst=True), 'm')
        elif ch.n(4) == 3: em.put(m + self.text((), 1, 5, plainfirst=True), 'm')
        else: em.put(m + ' ' + self.text((), 0 if l.key not in ('erlang',) else 1, 5), 'm')
        if l.cont and ch.n(6) == 5:
            em.feat.add('cont'); em.put(' \\\n' + ch.of(['', '  ']) + self.text((), 1, 3), 'm')
        em.comments.append((st0, em.mark()))
    def blockcomment(self, b=None):
        l, ch, em = self.l, self.ch, self.em
        bs = [x for x in l.block if self.ok(x.o + x.c, ())]
        if not bs: return False
        b = b or ch.of(bs)
        forb = {b.c, b.o} | {b.c[:1]} if len(b.c) == 1 else {b.c, b.o}
        if b.nest: forb |= {b.o[0], b.c[0], b.c[-1], b.o[-1]}
        if b.c == 'end rem' or b.c == 'EndRem': forb |= {'end', 'rem'}
        if b.c in ('=end', '=cut'): forb |= {'='}
        if b.o[0] in '"\'#': forb |= {b.o[0]}
        n = ch.n(5) if self.dense or ch.n(2) else 0
        st0 = em.mark()
        if not b.nest and not b.o[0].isalnum() and b.o != b.c and len(b.c) > 1 and b.o[0] != '=' and ch.n(8) == 7:
            x = ch.of(['', b.c[0], b.c[-1] + ' ', b.c[:-1] + ' ', ' ' + b.c[0], b.o + ' ', b.c[0] + '\n' + b.c[0]])
            if b.c not in x and not (x + b.c)[:-1].endswith(b.c):
                em.put(b.o + x + b.c, 'm'); em.comments.append((st0, em.mark())); em.feat.add('odd-comment'); return True
        s = b.o + ch.of([' ', ' ', '\n'] if n else [' '])
        depth = 0
        for i in range(n + 1):
            if i: s += '\n' + ch.of(INDENT)
            if i and ch.n(4) == 3: em.feat.add('blank-in-comment'); continue
            t = self.text(forb, 1, 5)
            if b.nest and ch.n(3) == 2:
                t += ch.of([' ', '']) + b.o + ch.of([' ', ' ', '', b.c[-1] + ' ' if b.o[-1] == b.c[0] else '']) + self.text(forb, 1, 2)
                if ch.n(2): t += '\n' + self.text(forb, 1, 2) + ch.of([' ', '']) + b.c
                else: t += ' ' + b.c
                em.feat.add('nested')
            s += t
        s += ch.of([' ', '', '\n', '\n  ']) if n else ' '
        if not b.nest and (s + b.c).find(b.c, len(b.o)) < len(s): s += ' '     # the last word would begin the end of the comment
        s += b.c
        if '\n' in s: em.feat.add('mlcomment')
        em.put(s, 'm')
        em.comments.append((st0, em.mark()))
        return True
    def lead(self, k):
        if self.l.lead: self.em.put(self.l.lead, k)
    def codeline(self, trailing=True):
        l, ch, em = self.l, self.ch, self.em
        em.put(ch.of(INDENT), ' ')
        self.lead('c')
        k = ch.n(4)
        s = self.string() if k >= 2 else None
        if s is None: em.put(self.code(), 'c')
        elif s[0] in '"\'' and '(a)' in l.code and ch.n(4) == 3: em.put(ch.of(self.pick(['foo(', 'x = (', '(', 'y=[('])) + s + ch.of(self.pick([')', ');', ',x)', '+y'])), 'c'); em.feat.add('string-adjacent')
        elif k == 2 or l.no_str_line_start: em.put(self.code(1, 2) + ' ' + s, 'c')
        else: em.put(s, 'c')
        if s is not None and ch.n(2): em.put(' ' + self.code(1, 2), 'c')
        if s is not None: em.feat.add('string')
        if l.bare and ch.n(2): em.put(' ' + self.text((), 1, 2), 'm')
        if trailing and l.tail_comment and ch.n(3) == 2:
            inl = [b for b in l.block if not b.o[0].isalnum() and self.ok(b.o + b.c, ())]
            if inl and ch.n(4) == 3:      # a comment within the line, or beginning on one code line and ending on another
                em.put(ch.of(['', ' ']), ' '); self.blockcomment(ch.of(inl))
                em.put(ch.of(['', ' ']) + self.code(1, 2), 'c'); em.feat.add('inner-comment')
                em.nl(); return
            em.put(' ', ' ')
            if l.line and (not l.block or ch.n(2) == 0): self.linecomment()
            elif l.block: self.blockcomment()
            em.feat.add('trailing')
        em.nl()
    def commentline(self):
        l, ch, em = self.l, self.ch, self.em
        if l.line and (not l.block or ch.n(2) == 0) and any(self.ok(x, ()) for x in l.line):
            em.put(ch.of(INDENT) if l.key not in ('fortranfixed',) else '', ' ')
            self.lead(' ')
            self.linecomment(); em.nl(); return
        if l.bare:
            em.put(ch.of(INDENT) + self.text((), 1, 5), 'm'); em.nl(); return
        if l.block:
            em.put(ch.of(INDENT), ' ')
            if not self.blockcomment(): em.nl(); return
            if ch.n(5) == 4: em.put(' ' + self.code(), 'c'); em.feat.add('code-after-block')
            elif ch.n(6) == 5: em.put(' ', ' '); self.blockcomment()
            em.nl(); return
        em.nl()
    def col0(self):
        ch, em = self.ch, self.em
        b = ch.of(self.l.col0)
        st0 = em.mark()
        em.put(b.o if isinstance(b, B) else b[0], 'm'); em.nl()
        for _ in range(ch.n(4)):
            if ch.n(3) == 2: em.nl()
            else: em.put(ch.of(INDENT) + self.text({'='}, 1, 4), 'm'); em.nl()
        em.put(b.c if isinstance(b, B) else b[1], 'm'); em.comments.append((st0, em.mark())); em.nl()
        em.feat.add('mlcomment')
    def stray(self):
        ch, em = self.ch, self.em
        d = ch.of([x for x in self.l.stray if x not in self.banned])
        if d in ''.join(em.out): return
        self.banned.add(d)
        em.put(ch.of(INDENT) + 'x' + d + 'y', 'c'); em.nl(); em.feat.add('stray')
    def doc(self, maxlines=0):
        maxlines = maxlines or (120 if self.dense else 14)
        l, ch, em = self.l, self.ch, self.em
        while ch.more() and len(em.cls) < maxlines:
            k = ch.n(16)
            if k < 2: em.put(ch.of(['', '', '  ', '\t', '  \t ']), ' '); em.nl()
            elif k < 8: self.codeline()
            elif k < 14: self.commentline()
            elif k == 14 and l.col0: self.col0()
            elif k == 15 and set(l.stray) - self.banned: self.stray()
            else: self.codeline()

def build(key, data, eols=('\n',), dense=False):
    """A document of language key decided by data: (bytes, classes, comment spans, features)."""
    ch = Choice(data)
    eol = eols[ch.n(len(eols))]
    drop = ch.n(4) == 3
    em = Emit(eol)
    g = Gen(TABLE[key], ch, em, dense)
    g.doc()
    if not em.cls: em.put('x' if not TABLE[key].bare else '+', 'c')
    if drop and em.out and em.out[-1] == eol and em.cls and em.cls[-1] != 'b':
        em.out.pop(); em.blen -= len(eol)
        text = ''.join(em.out).encode('utf-8'); em.feat.add('no-final-newline')
        return text, ''.join(em.cls), em.comments, em.feat
    text, cls = em.finish(drop)
    return text, cls, em.comments, em.feat

def docs(keys=None, eols=('\n',), lo=20, hi=260, dense=False):
    keys = sorted(keys or TABLE)
    return st.tuples(st.sampled_from(keys), st.binary(min_size=lo, max_size=hi)).map(lambda kd: _case(kd, eols, dense))

REPORTED = {'metapost_with_tex': 'metapost'}   # its MetaPost lines are reported as MetaPost

def _case(kd, eols, dense=False):
    text, cls, com, feat = build(kd[0], kd[1], eols, dense)
    return {'lang': kd[0], 'text': text, 'cls': cls, 'comments': [list(c) for c in com], 'feat': sorted(feat)}
