"""C04: classification does not depend on line ends, a final newline, trailing white space, indentation or what surrounds a file."""
from _parse import *
import hypothesis.strategies as st
import emb, glob, odd

COLUMN = {'fortranfixed', 'perl', 'haml', 'ruby', 'crystal'}      # languages in which the first column or the depth means something
REPO = os.environ.get('OHC_REPO', '/repo')
def corpus():
    out = []
    for f in sorted(glob.glob(REPO + '/test/src_dir/*')):
        b = open(f, 'rb').read()
        if b and b'\0' not in b and len(b) < 60000: out.append((os.path.basename(f), b))
    return out
CORPUS = corpus()

def kinds(ctx, docs, path='f'):
    reqs = []
    for i, (k, t) in enumerate(docs): reqs += parse_reqs(i, k, t, path)
    r = ctx.run(reqs)
    return [ohc.events(r[2 * i + 1]) for i in range(len(docs))]
def lk(ev): return [(e[0], e[1]) for e in ev]

def differ(a, b):
    for i in range(max(len(a), len(b))):
        x, y = a[i] if i < len(a) else None, b[i] if i < len(b) else None
        if x != y: return 'line %d: %r, after the change %r' % (i + 1, x, y)
def same(what, key, a, b, t1, t2):
    d = differ(a, b)
    if d: raise Violation('%s (%s): %s\nbefore %r\nafter  %r' % (what, key, d, t1[:3000], t2[:3000]))

def respace(text, key, how, n):
    """Append or (where it means nothing) prepend white space to chosen lines."""
    L = text.split(b'\n'); out = []
    for i, l in enumerate(L):
        last = i == len(L) - 1
        cr = l.endswith(b'\r'); body = l[:-1] if cr else l
        if how == 'tail' and not last and not body.endswith(b'\\') and (n >> (i % 8)) & 1: body += b' \t'[:1 + (n % 2)]
        if how == 'lead' and not (last and not body) and body.strip() and (n >> (i % 8)) & 1: body = b'  ' + body
        out.append(body + (b'\r' if cr else b''))
    return b'\n'.join(out)

def meta(ctx, case):
    key, text, how, n = case['lang'], case['text'], case['how'], case['n']
    feat = case['feat']
    if how == 'crlf': t2 = text.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')
    elif how == 'final':
        t2 = text[:-2] if text.endswith(b'\r\n') else text[:-1] if text.endswith(b'\n') else text + b'\n'
        if not t2.strip() or not lines_of(text) or len(lines_of(t2)) != len(lines_of(text)): raise Skip
    elif how in ('tail', 'lead'):
        if how == 'lead' and (key in COLUMN or key in emb.HOSTS and key == 'haml'): raise Skip
        if 'stray' in feat and how == 'lead': pass
        t2 = respace(text, key, how, n)
    if t2 == text: raise Skip
    e1, e2 = kinds(ctx, [(key, text), (key, t2)])
    same({'crlf': 'LF to CRLF', 'final': 'final newline', 'tail': 'trailing white space', 'lead': 'indentation'}[how], key, lk(e1), lk(e2), text, t2)
    if how == 'crlf' or how == 'tail' or how == 'lead':
        check_coverage(t2, e2, key + ': ', b' \t\r\n\f\v' + {'php': b'?', 'dcl': b'$'}.get(key, b''))
    return [how] + (['nontrivial'] if len({e[1] for e in e1}) > 1 else [])

def concat(ctx, case):
    key, docs = case['lang'], case['docs']
    ds = []
    for d in docs:
        if not d.endswith(b'\n'): d += b'\n'
        ds.append(d)
    whole = b''.join(ds)
    r = kinds(ctx, [(key, d) for d in ds] + [(key, whole)])
    want = []; off = 0
    for d, e in zip(ds, r):
        want += [(x[0], x[1], x[2] + off, x[3] + off) for x in e]; off += len(d)
    same('concatenation', key, want, r[-1], b'', whole)
    return ['concat%d' % len(ds)] + (['nontrivial'] if len({x[1] for x in r[-1]}) > 1 else [])

# Some real sources depend on what is checked here: none of them is listed unless a reason is given.
def corpus_case(ctx, case):
    name, text = CORPUS[case['i'] % len(CORPUS)]
    L = text.split(b'\n')
    r = ctx.run([ohc.new(0, name, text, None), ohc.req('L', 0)])
    lg = r[1][0]
    if not lg: raise Skip
    key = lg.decode()
    a, b = sorted((case['a'] % (len(L) + 1), case['b'] % (len(L) + 1)))
    t = text if case['whole'] else text
    if case['how'] == 'final' and (not t.rstrip(b'\r\n') or key == 'dcl' and t.endswith(b'\n$\n')): raise Skip     # a lone DCL prompt is white space, and trailing white space is no line
    try: return ['corpus'] + meta(ctx, {'lang': key, 'text': t, 'how': case['how'], 'n': case['n'], 'feat': []})
    except Violation as e: raise Violation('%s: %s' % (name, e))

HOW = ['crlf', 'final', 'tail', 'lead']
def mk(d):
    c, how, n = d
    return {'lang': c['lang'], 'text': c['text'], 'feat': c['feat'], 'how': how, 'n': n}
def cat(d):
    key, bs = d
    out = []
    for i, b in enumerate(bs):
        if key in lang.TABLE and key not in ('coffeescript', 'nix', 'metapost_with_tex'): t, _, _, f = lang.build(key, b)
        else:
            if key == 'haml': t, _, f = emb.haml(b, ('\n',))
            else: t, _, f = emb.build(key, b, ('\n',))
        if 'stray' in f or i < len(bs) - 1 and f & {'ends-open', 'ends-inside'}: continue
        out.append(t)
    return {'lang': key, 'docs': out or [b'x\n', b'y\n']}
def loose(d):
    c, how = d
    t = c['text'].replace(b'\r\n', b'\n').replace(b'\r', b'\n').replace(b'\f', b'\n').rstrip(b'\v')
    t = odd.tidy(c['lang'], t)
    return {'lang': c['lang'], 'text': t, 'feat': [], 'how': how, 'n': 1}
ANY = st.one_of(lang.docs(eols=('\n',)), lang.docs(eols=('\n',)), emb.docs(eols=('\n',)))
KEYS = sorted((set(lang.TABLE) | set(emb.HOSTS)) )

if __name__ == '__main__':
    sys.exit(pbt.main('C04', [
        Test('respace', st.tuples(ANY, st.sampled_from(HOW), st.integers(1, 255)).map(mk), meta, 20000),
        Test('concat', st.tuples(st.sampled_from(KEYS), st.lists(st.binary(min_size=5, max_size=90), min_size=2, max_size=4)).map(cat), concat, 8000),
        Test('odd', st.tuples(odd.texts(), st.sampled_from(['crlf', 'final'])).map(loose), meta, 8000),
        Test('corpus', st.fixed_dictionaries({'i': st.integers(0, 10**6), 'a': st.integers(0, 999), 'b': st.integers(0, 999), 'whole': st.booleans(), 'how': st.sampled_from(HOW), 'n': st.integers(1, 255)}), corpus_case, 3000),
    ], rule='Generated files of all languages, and the real sources under test/src_dir, before and after a change that means nothing (LF to CRLF, final newline, trailing or leading white space) and as '
            'parts of a concatenation; non-trivial: lines of at least two kinds'))
