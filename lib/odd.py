"""Any text at all: documents in which marks, white space and line ends have been put, or pieces taken out, anywhere,
so that constructs stay open, close early or change kind."""
import re
import hypothesis.strategies as st
import lang, emb

MARKS = ['\f', '\v', '\t', '\r', '  ', ' \t\v', ' \f', '"', "'", '/*', '*/', '#', '\\', '<%', '%>', '<!--', '-->', '\u00a0', '\n', '\r\n\r\n', '\v\n', 'x', '//', '--', '{', '(*', '=begin\n', '\x7f',
         '`', '}', '<?php ', '?>', '"""', "'''", '<script>', '</script>', '</style\n>', '<#', '#>', '\\\n', '\n=', '{-', '-}', '[[', ']]', '<<EOT', '%{', '|#', '#|', '*)', '<![CDATA[', ']]>', '/']

def spoil(d, marks):
    ls = d['text'].splitlines(True) or [b'']
    for i, where, j in marks:
        i %= len(ls); m = MARKS[j % len(MARKS)].encode()
        body = len(ls[i].rstrip(b'\r\n'))
        x = 0 if where == 0 else body if where == 1 else where % (len(ls[i]) + 1)
        if j >= 80: ls[i] = ls[i][:x] + ls[i][x + 1 + j % 3:]      # take out
        elif j >= 75: ls[i] = ls[i][:x]                             # cut short, line end included
        else: ls[i] = ls[i][:x] + m + ls[i][x:]
    t = b''.join(ls)
    if t.endswith(b'\r'): t += b'\n'     # a lone CR at the very end is no line end
    return {'lang': d['lang'], 'text': t}

def texts(most=6):
    mark = st.tuples(st.integers(0, 30), st.one_of(st.sampled_from([0, 0, 1]), st.integers(2, 40)), st.integers(0, 90))
    return st.tuples(st.one_of(lang.docs(eols=('\n', '\r\n')), emb.docs()), st.lists(mark, min_size=1, max_size=most)).map(lambda t: spoil(*t))

def tidy(key, t):
    """Without what the languages leave out of their lines: DCL's command marker, a lone mark in Haml."""
    if key == 'dcl': t = t.replace(b'$', b'')
    if key == 'haml': t = re.sub(rb'([=~-])[ \t\v]+(?=[\r\n\f]|$)', rb'\1', t)
    return t
