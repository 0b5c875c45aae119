"""C01: every physical line of a file is reported exactly once, in order."""
from _parse import *
import hypothesis.strategies as st
import emb, odd

# Known finding: a PHP closing tag at the very start of a line is reported from its second character.
def php_close(before, rest): return before == b'?' and rest.startswith(b'>')
def php_known(ctx):
    t = b'<?php\nx;\n?>\n'
    r = ctx.run(parse_reqs(0, 'php', t))
    return any(e[2:] == (10, 12) for e in ohc.events(r[1]))

def coverage(ctx, case, tail=False):
    text, key = case['text'], case['lang']
    r = ctx.run(parse_reqs(0, key, text) + [ohc.new(1, 'f', text, None, key), ohc.req('O', 1)])
    evs = ohc.events(r[1])
    ls = lines_of(text); end = ls[-1][1] if ls else 0
    extra = tail and evs and evs[-1][2] >= end and not text[end:].strip(b' \t\v')     # white space after the last line end may be taken for a line when a construct is open
    ls = check_coverage(text, evs[:-1] if extra else evs, listed=php_close if key == 'php' else None)
    locs = [r[3][i:i + 5] for i in range(0, len(r[3]), 5)]
    tot = sum(l[1] + l[2] + l[3] for l in locs)
    check(tot == len(ls) + bool(extra), 'the file has %d physical lines, its totals add up to %d (%r)', len(ls), tot, locs)
    lab = ['lines>2'] if len(ls) > 2 else []
    lab += case.get('feat', [])
    if len(ls) > 2 and len({e[1] for e in ohc.events(r[1])}) > 1: lab.append('nontrivial')
    return lab

# Arbitrary text, balanced or not, in which only the openers of multi-line constructs are missing.
PIECES = ['x', ' ', '  ', '\t', '"', "'", '`', '\\', '/', '//', '#', '%', '--', ';', '!', '{', '}', '(', ')', '[', ']', '<', '>', '*', '=', '+', '-', '.', ',', ':', '@', '$', '^',
          '&', '|', '?', '~', '_', '0', '12', 'rem ', 'dnl ', 'C ', 'note', 'end', 'begin', '<b>', '</b>', '""', "''", '\\"', "\\'", "don't", '5"', 'q"', 'caf\u00e9', '\x01', '\x7f', '\u00ff', '\x0b', '\x0b', '\udc80', '\udcff', '\x1b', '<%', '%>', '?>', '=>']
def openers(l):
    o = [b.o for b in l.block] + [s.o for s in l.strs if s.ml] + [b.o if isinstance(b, lang.B) else b[0] for b in l.col0]
    return o
EXTRA = {'xml': ['<'], 'html': ['<'], 'mxml': ['<'], 'xaml': ['<'], 'xslt': ['<'], 'xmlschema': ['<']}
# constructs beyond the table that may hold line ends (documented in the language's own manual)
MORE = {'coffeescript': ['"', "'", '`'], 'haxe': [], 'crystal': ['%', '"', "'", '`', '='], 'ruby': ['%', '"', "'", '`', '=', '<<'], 'perl': ['=', '"', "'", '`', 'q'], 'shell': ['"', "'"],
        'metapost_with_tex': ['tex'], 'postscript': ['('], 'nix': ['"', "'"], 'puppet': ['"'], 'kotlin': ['"'], 'dart': ['"', "'"], 'swift': ['"'], 'augeas': [],
        'python': ['"', "'"], 'julia': ['"', "'", '#='], 'boo': ['"', '#'], 'lisp': ['"'], 'emacslisp': ['"'], 'scheme': ['"'], 'clojure': ['"'], 'racket': ['"'],
        'autoconf': ['['], 'forth': ['('], 'cmake': ['"'], 'lua': ['[', '"', "'"], 'tcl': ['"'], 'rebol': ['{', '"'], 'sql': ['{'], 'limbo': ['"', "'"], 'bfpp': ['('],
        'chaiscript': [], 'matlab': ['%{'], 'octave': ['%{'], 'actionscript': ['<'], 'smalltalk': ['"'], 'blitzmax': ['rem']}
def soup(d):
    key, rows, fin = d
    l = lang.TABLE[key]
    bad = [x.lower() for x in openers(l) + EXTRA.get(key, []) + MORE.get(key, [])]
    out = []
    for row, eol in rows:
        s = ''.join(row)
        while s and any(b in s.lower() for b in bad):
            for b in bad:
                i = s.lower().find(b)
                if i >= 0: s = s[:i] + ' ' + s[i + len(b):]
        out.append(s + (eol if len(out) < len(rows) - 1 else fin))
    text = ''.join(out).encode('utf-8', 'surrogateescape')
    if text.endswith(b'\r'): text += b'\n'     # a lone CR at the very end is no line end
    if key == 'dcl': text = text.replace(b'$', b'')   # a command marker, neither code nor white space
    return {'lang': key, 'text': text}
def soups(keys):
    row = st.tuples(st.lists(st.sampled_from(PIECES), max_size=7), st.sampled_from(['\n', '\n', '\n', '\r\n', '\r\n', '\r', '\f']))
    return st.tuples(st.sampled_from(keys), st.lists(row, min_size=1, max_size=8), st.sampled_from(['\n', '\n', '', '', '\r\n', '\f'])).map(soup)

def big(d):
    key, seed, n, w = d
    parts = []; feat = set()
    for i in range(n):
        t, c, _, f = lang.build(key, bytes((seed[(i * 31 + j * 7) % len(seed)] + i * 13 + j) % 256 for j in range(40 + i % 30)))
        if f & {'stray'}: continue
        if not t.endswith(b'\n'): t += b'\n'
        if w and i % 5 == 0: t = t + b' ' * w + b'\n'
        parts.append(t)
    return {'lang': key, 'text': b''.join(parts), 'feat': ['big']}
bigs = st.tuples(st.sampled_from(sorted(lang.TABLE)), st.binary(min_size=3, max_size=20), st.integers(50, 400), st.sampled_from([0, 10, 5000])).map(big)

# Any text: constructs left open, or closed early
def any_text(ctx, case):
    t = odd.tidy(case['lang'], case['text'])
    return coverage(ctx, dict(case, text=t), tail=True)

HOSTED = ['<script type="text/javascript">', '</script>', '<style type="text/css">', '</style>', '<%=', '<%', '%>', '<%--', '--%>', '<?', '<?php', '<?cs ', '?>', '<script runat="server">', '<script language="C#">',
          '/*', '*/', '//', '<!--', '-->', '<![CDATA[', ']]>', '- ', '= ', '%p', '|', '\n', 'btex ', 'etex', '\n  ', '```', '"""', '###', '${', '#{', '{*', '*}', '\n=begin', '\n=end', '<a b="', '"<?', '<mx:Script>', '</mx:Script>',
          '</style\n>', '</script \n\n>', 'x', 'y=1;', '\\\n', '\\']
# lines of pieces as above, with the openers and closers of the language's own constructs among them
def tangle(d):
    key, rows, fin = d
    l = lang.TABLE.get(key)
    more = HOSTED if not l else sorted({x for b in list(l.block) + [b for b in l.col0] for x in ((b.o, b.c) if isinstance(b, lang.B) else b[:2])} | {x for z in l.strs for x in (z.o, z.c)}) + [x for x in MORE.get(key, [])]
    out = []
    for i, (row, eol) in enumerate(rows):
        s = ''.join(PIECES[p % len(PIECES)] if not more or p % 3 else more[p // 3 % len(more)] for p in row)
        out.append(s + (eol if i < len(rows) - 1 else fin))
    text = ''.join(out).encode('utf-8', 'surrogateescape')
    return {'lang': key, 'text': text + (b'\n' if text.endswith(b'\r') else b'')}
def tangles(keys):
    row = st.tuples(st.lists(st.integers(0, 300), max_size=6), st.sampled_from(['\n', '\n', '\n', '\r\n', '\r', '\f']))
    return st.tuples(st.sampled_from(keys), st.lists(row, min_size=1, max_size=8), st.sampled_from(['\n', '\n', '', '\r\n', '\f'])).map(tangle)

if __name__ == '__main__':
    sys.exit(pbt.main('C01', known=[('the line of a PHP closing tag in the first column is reported from its second character (pinned by test/expected_dir/php1.php)', php_known)], tests=[
        Test('wellformed', lang.docs(eols=('\n', '\n', '\r\n')), coverage, 16000),
        Test('embedded', emb.docs(eols=('\n', '\n', '\r\n')), coverage, 9000),
        Test('dense', lang.docs(lo=60, hi=900, dense=True), coverage, 5000),
        Test('soup', soups(sorted(lang.TABLE)), coverage, 12000),
        Test('open', odd.texts(), any_text, 16000),
        Test('tangle', tangles(sorted(lang.TABLE) + 4 * (sorted(emb.HOSTS) + ['haml'])), any_text, 14000),
        Test('big', bigs, coverage, 160),
    ], rule='Documents assembled token by token in each of the 110 plain languages (code, strings, nested and multi-line comments, stray quotes, LF and CRLF), composed files of the hosting languages, random line soups with unbalanced '
            'single-line quotes, texts of any kind with constructs left open, and large files; non-trivial: more than two physical lines of at least two kinds'))
