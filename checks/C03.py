"""C03: in a file of several languages every line goes to the right one."""
from _parse import *
import hypothesis.strategies as st
import emb

def attribution(ctx, case):
    text, key, rows = case['text'], case['lang'], [tuple(r) for r in case['rows']]
    r = ctx.run(parse_reqs(0, key, text) + [ohc.new(1, 'f', text, None, key), ohc.req('O', 1)])
    ev = ohc.events(r[1])
    got = [(e[0].decode(), RENT.get(e[1], '?')) for e in ev]
    ls = text.replace(b'\r\n', b'\n').split(b'\n')
    for i in range(max(len(rows), len(got))):
        w, g = rows[i] if i < len(rows) else None, got[i] if i < len(got) else None
        check(w == g, '%s line %d %r should count as %r, counted as %r\nexpected %r\ngot      %r', key, i + 1, ls[i] if i < len(ls) else None, w, g, rows, got)
    check_coverage(text, ev, key + ': ', b' \t\r\n\f' + (b'?' if key == 'php' else b''))
    want = {}
    for lg, k in rows:
        d = want.setdefault(lg, {'c': 0, 'm': 0, 'b': 0}); d[k] += 1
    locs = {r[3][i].decode(): {'c': r[3][i + 1], 'm': r[3][i + 2], 'b': r[3][i + 3]} for i in range(0, len(r[3]), 5)}
    check(locs == want, 'totals %r, expected %r', locs, want)
    check(len(r[3]) // 5 == len(locs), 'a language listed twice: %r', r[3])
    lab = list(case['feat']) + [key]
    if len({a for a, _ in rows}) > 1 and len(rows) > 2: lab.append('nontrivial')
    return lab

def cs_known(ctx):
    # Known finding: the generator composes no line comments in ClearSilver sections for this reason.
    t = b'<p>\n<?cs # x ?>\n<b>\n'
    r = ctx.run(parse_reqs(0, 'clearsilver_template', t))
    return ohc.events(r[1])[-1][0] == b'clearsilver'

if __name__ == '__main__':
    sys.exit(pbt.main('C03', known=[('a line comment in a ClearSilver section swallows the closing tag, as in "<?cs # x ?>" (pinned by test/expected_dir/clearsilver_template1.cs)', cs_known)], tests=[
        Test('embedded', emb.docs(), attribution, 24000),
    ], rule='Files of the 12 hosting languages composed of host lines and embedded sections (opened and closed on lines of their own, on lines shared with embedded code, on one line, inside attributes and '
            'comments), whose line attribution is known by construction; non-trivial: more than two lines in at least two languages'))
