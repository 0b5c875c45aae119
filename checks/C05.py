"""C05: what is reported for a file depends on that file alone: not on files analysed before or in between, nor on repeating it."""
from _parse import *
import hypothesis.strategies as st
import emb

ANY = st.one_of(lang.docs(eols=('\n', '\r\n')), emb.docs())
PIECES = [b'/*', b'*/', b'"', b"'", b'<?php', b'?>', b'<script type="text/javascript">', b'<style type="text/css">', b'</script>', b'<!--', b'(*', b'{-', b'#|', b'=begin', b'"""', b"''", b'<%', b'${', b'`',
          b'\n', b'\n', b' ', b'x', b'//', b'#', b'--', b'verbatimtex', b'REM', b'%{', b'[[', b'R"x(', b'\\', b'\r\n', b'\0', b'\xff']
OPEN = st.tuples(st.sampled_from(sorted(set(lang.TABLE) | set(emb.HOSTS))), st.lists(st.sampled_from(PIECES), min_size=1, max_size=10)).map(
    lambda d: {'lang': d[0], 'text': b''.join(d[1]).replace(b'\0', b'')})
OPS = ['lines', 'entities', 'loc', 'pieces', 'license', 'lines']

def ask(op, i):
    return {'lines': ohc.req('P', i, 1), 'entities': ohc.req('P', i, 0), 'loc': ohc.req('O', i), 'pieces': ohc.req('K', i), 'license': ohc.req('I', i)}[op]

def history(ctx, case):
    docs, plan = case['docs'], case['plan']
    plan = [(d % len(docs), o) for d, o in plan]
    key = [ohc.new(i, 'f', d['text'], None, d['lang']) for i, d in enumerate(docs)]
    reqs = list(key); at = []; parsed = set()
    for d, o in plan:
        # contents given in memory are let go once the lines are counted, as documented: hand them over again
        if o in ('lines', 'entities') and d in parsed: reqs.append(ohc.req('E', d, docs[d]['text']))
        at.append(len(reqs)); reqs.append(ask(o, d))
        if o in ('loc', 'pieces', 'license'): parsed.add(d)
    got = [ctx.run(reqs)[i] for i in at] if False else None
    r = ctx.run(reqs); got = [r[i] for i in at]
    alone = {}
    for (d, o), g in zip(plan, got):
        if (d, o) not in alone: alone[d, o] = ctx.run([ohc.new(0, 'f', docs[d]['text'], None, docs[d]['lang']), ask(o, 0)])[1]
        check(g == alone[d, o], 'step %s of file %d (%s) reported %r; alone, the file gives %r\nfile %r\nplan %r', o, d, docs[d]['lang'], g[:40], alone[d, o][:40], docs[d]['text'][:600], plan)
    return ['files%d' % len(docs)] + (['nontrivial'] if len({d for d, _ in plan}) > 1 and any(len(g) > 4 for g in got) else [])

def isolated(ctx, case):
    """Two files of which one begins where the other ended, in one process: equal to two processes."""
    a, b, k = case['a'], case['b'], case['k']
    reqs = []
    for i in range(k): reqs += [ohc.new(1, 'f', a['text'], None, a['lang']), ohc.req('P', 1, case['mode'])]
    reqs += [ohc.new(0, 'f', b['text'], None, b['lang']), ohc.req('P', 0, 1), ohc.req('P', 0, 0), ohc.req('P', 0, 1), ohc.req('K', 0)]
    got = ctx.run(reqs)[2 * k + 1:]
    want = ctx.run(reqs[2 * k:])[1:]
    check(got == want, 'after %d times %s %r, the file %r (%s) gives\n%r\nalone it gives\n%r', k, a['lang'], a['text'][:300], b['text'][:600], b['lang'], got, want)
    check(got[0] == got[2], 'the same file analysed twice gives %r, then %r', got[0][:60], got[2][:60])
    return ['nontrivial'] if len(got[0]) > 8 and a['lang'] != b['lang'] else []

def spec(d): return {'lang': d['lang'], 'text': d['text']}
DOC = st.one_of(ANY.map(spec), ANY.map(spec), OPEN)
if __name__ == '__main__':
    sys.exit(pbt.main('C05', [
        Test('history', st.fixed_dictionaries({'docs': st.lists(DOC, min_size=2, max_size=4), 'plan': st.lists(st.tuples(st.integers(0, 3), st.sampled_from(OPS)), min_size=3, max_size=10)}), history, 3500),
        Test('isolated', st.fixed_dictionaries({'a': DOC, 'b': ANY.map(spec), 'k': st.integers(1, 3), 'mode': st.integers(0, 1)}), isolated, 8000),
    ], rule='Sequences of analyses of two to four files (plain, embedded, or with constructs left open) in one process against each analysis in a process of its own; non-trivial: at least two different files or '
            'languages are involved and something is reported'))
