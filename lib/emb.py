"""Generator of files that hold several languages; each line's language and kind are known by construction.

A line that only opens or closes an embedded section belongs to the host (PHP's tags to PHP); a line that opens a section and goes
on with embedded code belongs to the embedded language; a line on which a section with code ends belongs to the embedded language
in the template languages and to the host in the others (SHARED_HOST); every other line belongs to the host.
"""
import hypothesis.strategies as st
import lang
from lang import Choice, Emit, Gen, TABLE, INDENT

CSS = ('css', ['<style type="text/css">', '<STYLE TYPE="x" media=\'all\' rel="text/css" >', '<style id=a type=\'text/css\' media="print">'], ['</style>', '</STYLE>', '</style >'], ['</style', '</STYLE'])
JS = ('javascript', ['<script type="text/javascript">', '<SCRIPT language="JavaScript" type="text/javascript" >', '<script type=\'text/javascript\' src="a.js">'], ['</script>', '</SCRIPT>'], ['</script', '</SCRIPT'])
ASP = ['<%', '<%=', '<%']
def aspx(child): return (child, ASP + ['<script runat="server">', '<SCRIPT language="C#" runat="server" >'], None, ['%>', '</script', '</SCRIPT'])
HOSTS = {
    'html': ('html', 'html', [CSS, JS]),
    'php': ('html', 'html', [CSS, JS, ('php', ['<?php', '<?'], ['?>'], ['?>'])]),
    'rhtml': ('html', 'html', [CSS, JS, ('ruby', ['<%', '<%='], ['%>'], ['%>'])]),
    'jsp': ('html', 'html', [CSS, JS, ('java', ['<%', '<%='], ['%>'], ['%>'])]),
    'cs_aspx': ('html', 'html', [CSS, JS, aspx('csharp')]),
    'vb_aspx': ('html', 'html', [CSS, JS, aspx('visualbasic')]),
    'clearsilver_template': ('html', 'html', [CSS, JS, ('clearsilver', ['<?cs'], ['?>'], ['?>'])]),
    'mxml': ('mxml', 'mxml', [('css', ['<mx:Style>'], ['</mx:Style>'], ['</mx:Style']), ('actionscript', ['<mx:Script>'], ['</mx:Script>'], ['</mx:Script'])]),
    'nix': ('nix', 'nix', [('shell', ["''"], ["''"], ["'"]), ('shell', ['"'], ['"'], ['"'])]),
    'metapost_with_tex': ('metapost_with_tex', 'metapost', [('tex', ['btex', 'verbatimtex'], ['etex'], ['etex'])]),
    'coffeescript': ('coffeescript', 'coffeescript', [('javascript', ['`'], ['`'], ['`'])]),
}
PHP = lang.L('php', ['//', '#'], block=[('/*', '*/')], strs=[lang.S('"', ml='nl', q=True), lang.S("'", ml='nl', q=True)], bad=['?>'])
MARKUP = ['<b>', '<p class="x">', '<br/>', "<a href='y'>", '</p>', '<script src="a.js"></script>', '<style>', '<h1 id="a b">', 'text', 'more text', '&amp;', '<!DOCTYPE html>', '<div style="width: 1px">']
SHARED_HOST = {'html', 'mxml', 'nix', 'metapost_with_tex', 'coffeescript'}
LINECOM = {'php': {'php': ['//', '#', '# //']}, 'rhtml': {'ruby': ['#', '# /']}, 'jsp': {'java': ['//', '// #']}, 'cs_aspx': {'csharp': ['//']}, 'vb_aspx': {'visualbasic': ["'", 'REM ']}}
SPECIAL = {'php', 'rhtml', 'jsp', 'cs_aspx', 'vb_aspx', 'clearsilver_template'}

class EGen:
    def __init__(self, key, ch, eol):
        self.key, self.ch, self.eol = key, ch, eol
        self.tab, self.host, self.kids = HOSTS[key]
        self.out, self.rows, self.feat = [], [], set()
    def line(self, s, lg, k):
        self.out.append(s + self.eol); self.rows.append((lg, k))
    def sub(self, tab, ban, fn):
        """Text and classes of a few lines generated by fn(Gen)."""
        em = Emit(self.eol)
        g = Gen(tab, self.ch, em); g.banned |= set(ban)
        fn(g)
        text, cls = em.finish(False)
        self.feat |= em.feat
        return text.decode('utf-8'), cls
    def hostlines(self):
        ch = self.ch
        k = ch.n(6)
        if self.host == 'html' and k < 3:
            self.line(ch.of(INDENT) + ' '.join(ch.of(MARKUP) for _ in range(1 + ch.n(3))), 'html', 'c'); return
        def fn(g):
            if k == 5: g.em.put(ch.of(['', '  ']), ' '); g.em.nl()
            elif k == 4 or k == 3: g.commentline()
            else: g.codeline()
        ban = set()
        if self.key in SPECIAL: ban = {'<%', '<?'}           # these hosts look for sections in comments as well
        t = TABLE[self.tab]
        if self.key in SPECIAL: t = HTMLPLAIN
        text, cls = self.sub(t, ban | {'`'} if self.key == 'coffeescript' else ban, fn)
        self.out.append(text); self.rows += [(self.host, c) for c in cls]
    def childlines(self, child, ban):
        tab = PHP if child == 'php' else TABLE[child]
        n = self.ch.n(4)
        def fn(g):
            for _ in range(n):
                k = self.ch.n(8)
                if k == 0: g.em.put(self.ch.of(['', '  ', '\t']), ' '); g.em.nl()
                elif k < 5: g.codeline()
                else: g.commentline()
        text, cls = self.sub(tab, ban, fn)
        if cls:
            self.out.append(text); self.rows += [(child, c) for c in cls]
    def childcode(self, child, ban):
        tab = PHP if child == 'php' else TABLE[child]
        em = Emit(self.eol); g = Gen(tab, self.ch, em); g.banned |= set(ban)
        s = g.code(1, 3)
        if self.ch.n(3) == 2:
            ss = [x for x in g.avail_strs()]
            if ss:
                x = self.ch.of(ss)
                s += ' ' + x.o + g.text({x.o[0], x.c[0], x.c, '\\', '^', '(', ')', '[', ']', '{', '}', '<', '>', "'", '"'}, 1, 2) + x.c
        return s
    def spread(self, op):
        """An opening tag over several lines; all but the last are the host's."""
        parts = op.split(' ')
        if op[:2] not in ('<s', '<S') or self.ch.n(4) != 3: return op
        cut = sorted({1 + self.ch.n(len(parts) - 1) for _ in range(1 + self.ch.n(2))}); at = 0
        for i in cut:
            self.lines_before.append((' '.join(parts[at:i]) + self.ch.of(['', ' ']), 'c')); at = i
            if self.ch.n(4) == 3: self.lines_before.append((self.ch.of(['', ' \t']), 'b'))
        self.feat.add('spread-tag')
        return self.ch.of(['', '  ']) + ' '.join(parts[at:])
    def section(self):
        ch = self.ch
        self.lines_before = []
        child, opens, closes, ban = ch.of(self.kids)
        op = ch.of(opens)
        if closes is None: closes = ['</script>', '</SCRIPT>'] if op.lower().startswith('<script') else ['%>']
        cl = ch.of(closes)
        ind = ch.of(INDENT)
        before = ''
        if self.host == 'html' and ch.n(3) == 2: before = ch.of(['<b> ', 'text ', '<p class="x"> '])
        if self.key == 'nix' and ch.n(2): before = 'x = '
        form = ch.n(5)
        if form != 1:
            op = self.spread(op)
            for s, k in self.lines_before: self.line(ind + before + s if s.strip() else s, self.host, k); ind = before = ''
        shared = self.host if self.key in SHARED_HOST else child
        if form == 0:                       # all on one line
            after = ch.of(['', ' <b>', ' text']) if self.host == 'html' else ''
            s = ind + before + op + ' ' + self.childcode(child, ban) + ' ' + cl + after
            if self.host == 'html' and not self.lines_before and ch.n(3) == 2: s += ' ' + op + ' ' + self.childcode(child, ban) + ' ' + cl; self.feat.add('two-sections')
            self.line(s, shared, 'c'); self.feat.add('inline'); return
        if form == 1 and self.host == 'html' and op[:2] in ('<%', '<?') and op != '<?':
            # inside an attribute or a comment of the host
            o = {'<?php': '<?php', '<?cs': '<?cs'}.get(op, '<%')
            code = ' ' + ch.of(['x', 'foo', 'bar1', 'y2']) + ' '
            pre, post = ch.of(['', '', 'x ', 'a<b ', '- ', '< ']), ch.of(['', '', ' y', ' - z', '<', ' >'])
            if ch.n(2):
                q = ch.of(['"', "'"]); self.feat.add('in-attribute')
                pre, post = pre + ch.of(['', "'" if q == '"' else '"']), post + ch.of(['', "it's" if q == '"' else '"'])
                a, b = '<a href=' + q, q + '>'
                k = 'c'
            else:
                self.feat.add('in-comment')
                pre, post = pre + ch.of(['', "it's ", '"', '-- ']), post + ch.of(['', " don't", ' "x'])
                a, b = '<!-- ', ' -->'
                k = 'm'
            if ch.n(3) == 2:
                self.line(ind + a + ch.of(['', 'x y', 'u<v'] + ['x\\', ' \\'] * (k == 'c')), 'html', k); self.feat.add('multi-line-around')
                if ch.n(2): self.line(ch.of(['', ' ']), 'html', 'b')
                a = ch.of(['', '  '])
            if ch.n(4) == 3: post += o + code + cl + ch.of(['', ' w', '-'])
            if ch.n(3) == 2:
                self.line(a + pre + o + code + cl + post, child, 'c')
                if ch.n(2): self.line(ch.of(['x', '  a<b', '- y', '<b>']), 'html', k)
                self.line(ch.of(['', 'z']) + b.strip(), 'html', k)
                self.feat.add('multi-line-around'); return
            s = ind + a + pre + o + code + cl + post + b
            self.line(s, child, 'c'); return
        if form == 1 and self.key in LINECOM and child in LINECOM[self.key] and op[:2] in ('<%', '<?'):
            # a line comment ends where its section does
            com = ch.of(LINECOM[self.key][child]) + ch.of(['', ' ']) + ' '.join(ch.of(['note', "don't", 'a - b', '50%', 'why?', '"q', '/* x', '< b', 'x > y', '??', '%']) for _ in range(ch.n(3)))
            if ch.n(2): com = self.childcode(child, ban) + ' ' + com
            self.line(ind + before + op.replace('=', '') + ' ' + com + ' ' + cl + ch.of(['', ' <b>', ' text']), child, 'c')
            self.feat.add('comment-to-close'); return
        if form == 2: self.line(ind + before + op + ' ' + self.childcode(child, ban), child, 'c'); self.feat.add('open-with-code')
        else:
            blankrest = ch.of(['', ' ', '\t'])
            if op in ('<%=',): op = '<%'
            self.line(ind + before + op + blankrest, 'php' if child == 'php' else self.host, 'c')
        self.childlines(child, ban)
        if ch.n(4) == 3: self.line(ch.of(INDENT) + self.childcode(child, ban) + ' ' + cl, shared, 'c'); self.feat.add('close-with-code')
        else:
            after = ch.of(['', '', ' <b>', ' text']) if self.host == 'html' else ch.of(['', ';']) if self.key == 'nix' else ''
            if cl[:3] in ('</s', '</S') and ch.n(3) == 2:       # a closing tag over several lines
                self.line(ch.of(INDENT) + cl[:-1] + ch.of(['', ' ']), self.host, 'c'); cl = '>'; self.feat.add('spread-close')
                for _ in range(ch.n(3)): self.line(ch.of(['', '', ' \t']), self.host, 'b')
            self.line(ch.of(INDENT) + cl + after, 'php' if child == 'php' else self.host, 'c')
        self.feat.add('section:' + child)
    def doc(self, maxlines=24):
        while self.ch.more() and len(self.rows) < maxlines:
            if self.ch.n(3): self.section()
            else: self.hostlines()
        if not self.rows: self.line('x', self.host, 'c')
        final, inside = self.last.n(4) == 3, self.last.n(8)
        if inside >= 6 and self.host in ('html', 'mxml'):
            self.ch = self.last
            child, opens, closes, ban = self.ch.of(self.kids)
            self.line(self.ch.of(INDENT) + self.ch.of(opens).replace('<%=', '<%') + self.ch.of(['', ' ']), 'php' if child == 'php' else self.host, 'c'); self.feat.add('ends-open')
            # the file may end within the section, as pages in PHP often do
            if self.ch.n(3): self.childlines(child, ban); self.feat.add('ends-inside')
        if final and self.rows[-1][1] != 'b' and self.out[-1].endswith(self.eol):
            self.out[-1] = self.out[-1][:-len(self.eol)]; self.feat.add('no-final-newline')

HTMLPLAIN = lang.L('html', block=[('<!--', '-->')], bad=['<%', '<?'],
                   comment=['-', 'a - b', '--x', "don't", '"q', '<b>', '<', 'a<b', '< c', '\\', 'note', 'todo', 'it', 'works', 'a1', 'x=1;', '(see)', '//', '/*', '#', '%', '{', '}', '*', 'caf\u00e9', '[', ']', '`', '=', ';', '&&', '?'])

def build(key, data, eols=('\n', '\n', '\r\n')):
    # the first bytes decide how the file ends: the rest may be used up by then
    ch = Choice(data[16:])
    g = EGen(key, ch, eols[ch.n(len(eols))])
    g.last = Choice(data[:16])
    g.doc()
    return ''.join(g.out).encode('utf-8'), g.rows, g.feat

def haml(data, eols):
    last = Choice(data[:2]); ch = Choice(data[2:]); eol = ch.of(eols)
    out, rows, feat = [], [], set()
    def line(s, lg, k): out.append(s + eol); rows.append((lg, k))
    depth = 0; cap = 9
    tags = ['%p', '%p.cls', '#box', '.cls', '%h1#t.big', '%br']
    txt = ['hello world', 'text', 'a1 b2', 'note it', "it's", 'x > y']
    rb = ['foo', 'bar(1)', '"s t"', "'q'", 'x + y', '[1, 2]', '"# no"', 'puts "a" + b', 'each { |x| y }']
    while ch.more() and len(rows) < 20:
        depth = ch.n(min(depth + 1, 4, cap) + 1)
        ind = '  ' * depth
        k = ch.n(9)
        if k: cap = 9
        if k == 0: line('', 'haml', 'b')
        elif k <= 2: line(ind + ch.of(tags), 'haml', 'c')
        elif k == 3: line(ind + ch.of(tags) + ' ' + ch.of(txt), 'haml', 'c')
        elif k == 4: line(ind + ch.of(txt), 'haml', 'c')
        elif k == 5: line(ind + ch.of(['= ', '- ', '~ ', '== ', '!= ', '&= ']) + ch.of(rb), 'ruby', 'c'); feat.add('section:ruby')
        elif k == 6: line(ind + ch.of(['%p', '%h1.x']) + ch.of(['= ']) + ch.of(rb), 'ruby', 'c'); feat.add('inline')
        else:
            line(ind + ch.of(['-# ', '/ ']) + ch.of(['note it', 'todo', "don't", 'a "q']), 'haml', 'm'); feat.add('comment')
            for _ in range(ch.n(3)):
                line(ind + '  ' + '  ' * ch.n(2) + ch.of(['note', 'x y', '%p', '= foo', "isn't"]), 'haml', 'm'); feat.add('comment-block')
            cap = depth
    if not rows: line('%p', 'haml', 'c')
    if last.n(4) == 3 and rows[-1][1] != 'b': out[-1] = out[-1][:-len(eol)]; feat.add('no-final-newline')
    return ''.join(out).encode('utf-8'), rows, feat

def _case(d, eols):
    key, data = d
    text, rows, feat = haml(data, eols) if key == 'haml' else build(key, data, eols)
    return {'lang': key, 'text': text, 'rows': [list(r) for r in rows], 'feat': sorted(feat)}
def docs(keys=None, eols=('\n', '\n', '\r\n'), lo=20, hi=236):
    return st.tuples(st.sampled_from(sorted(keys or list(HOSTS) + ['haml'])), st.binary(min_size=lo, max_size=hi)).map(lambda d: _case(d, eols))
