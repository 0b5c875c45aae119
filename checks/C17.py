"""C17: the reports of the command line tool agree with one another and with the library, whatever the paths given."""
from _parse import *
import hypothesis.strategies as st
import tree, tempfile, shutil, subprocess, ctypes

HEAD_I = ('Examining %d file(s)\n                              Ohloh Line Count                              \n'
          'Language               Code    Comment  Comment %%      Blank      Total  File\n'
          '----------------  ---------  ---------  ---------  ---------  ---------  -----------------------------------------------\n')
RULE = '----------------  -----  ---------  ---------  ---------  ---------  ---------\n'
HEAD_S = ('Examining %d file(s)\n\n                          Ohloh Line Count Summary                          \n\n'
          'Language          Files       Code    Comment  Comment %%      Blank      Total\n' + RULE)

def f32(x): return ctypes.c_float(x).value
def pct(code, com):
    return '%9.1f%%' % f32(f32(f32(com) / f32(com + code)) * 100) if com + code > 0 else None

SHARE = re.compile(rb'( +(\d+) +(\d+))( +\d+\.\d)%')
def shares(out):
    """Comment shares rounded another way at a tie are as good."""
    def f(m):
        p = pct(int(m.group(2)), int(m.group(3)))
        return m.group(1) + b' ' + p.encode() if p and abs(float(p[:-1]) - float(m.group(4))) < .11 else m.group(0)
    return SHARE.sub(f, out)

def cli(ctx, cwd, *args):
    r = subprocess.run([ctx.cli, *args], cwd=cwd, env={'PATH': os.environ['PATH'], 'LC_ALL': 'C', 'TMPDIR': cwd}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    check(r.returncode == 0, 'ohcount %r ended with status %d: %s', args, r.returncode, r.stderr[-500:])
    check(not r.stderr, 'ohcount %r wrote to standard error: %s', args, r.stderr[-500:])
    return shares(r.stdout) if args[:1] not in (('-a',), ('--annotate',)) else r.stdout

def reports(ctx, case):
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        files = tree.make(top, case['tree'])
        args = []; bad = []; order = []   # order: list of groups of paths, each group in any order
        for kind, j in case['args']:
            f = files[j % len(files)] if files else None
            dirs = sorted({os.path.dirname(x[0]) for x in files} - {''})
            if kind == 'file' and f: args.append(f[0]); order.append([f])
            elif kind == 'dir' and dirs:
                d = dirs[j % len(dirs)]
                args.append(d); order.append([x for x in files if x[0].startswith(d + '/') and not any(p.startswith('.') for p in x[0][len(d) + 1:].split('/')[:-1])])
            elif kind == 'all': args.append('.'); order.append([('./' + x[0],) + x[1:] for x in files])
            elif kind == 'bad': args.append('no such %d' % j); bad.append(args[-1])
        # an argument that reads like an option is one only in first place
        if args and args[0].startswith('-'): raise Skip
        if not args: order = [[('./' + x[0],) + x[1:] for x in files]]
        n = sum(map(len, order))
        reqs = []; flat = [f for g in order for f in g]
        for f in flat:
            p = os.path.join(top, f[0])
            reqs += [ohc.new(0, p), ohc.req('L', 0), ohc.req('P', 0, 1), ohc.req('P', 0, 0), ohc.req('O', 0), ohc.req('I', 0)]
        r = ctx.run(reqs); info = {}
        for i, f in enumerate(flat):
            lg, ev, en, loc, li = r[6 * i + 1:6 * i + 6]
            info[f[0]] = {'lang': lg[0], 'ev': ohc.events(ev), 'en': ohc.events(en), 'loc': [loc[k:k + 4] for k in range(0, len(loc), 5)], 'lic': li, 'text': f[2]}
        badtxt = ''.join('Bad argument: %s\n' % b for b in bad).encode()
        def blocks(flag, head, per, sort=None):
            """Every group's files may come in any order, but each whole."""
            out = cli(ctx, top, *( [flag] if flag else []), *args)
            check(out.startswith(badtxt + head), 'ohcount %s %r printed\n%r\nwhich should begin\n%r', flag, args, out[:300], badtxt + head)
            rest = out[len(badtxt + head):]
            for g in order:
                todo = [per(f[0], info[f[0]]) for f in g]
                todo = sorted((t for t in todo if t), key=len, reverse=True)
                size = sum(map(len, todo)); part, rest = rest[:size], rest[size:]
                check(place(part, todo), 'ohcount %s %r printed\n%s\nwhich is not made of\n%s', flag, args, part.decode('utf-8', 'replace')[:1500], b'--\n'.join(todo).decode('utf-8', 'replace')[:1500])
            return out, rest
        b = lambda p: p.encode('utf-8', 'surrogateescape')
        def row(loc): return ('%-16s' % loc[0].decode() + ' %10d %10d' % (loc[1], loc[2]) + (' ' + pct(loc[1], loc[2]) if pct(loc[1], loc[2]) else ' ' * 11) + ' %10d %10d' % (loc[3], sum(loc[1:4]))).encode()
        for short, long, head, per in (
            ('-d', '--detect', b'', lambda p, i: i['lang'] + b'\t' + b(p) + b'\n' if i['lang'] else b''),
            ('-a', '--annotate', b'', lambda p, i: b''.join(l + b'\t' + e + b'\t' + i['text'][s:t] for l, e, s, t in i['ev'])),
            ('-re', None, b'', lambda p, i: b''.join(b'%s\t%s\t%d\t%d\n' % x for x in i['en'])),
            ('-i', '--individual', (HEAD_I % n).encode(), lambda p, i: b''.join(row(l) + b'  ' + b(p) + b'\n' for l in sorted(i['loc'])))):
            out, rest = blocks(short, head, per)
            check(not rest, 'ohcount %s %r printed %r too much', short, args, rest[:300])
            if long: check(cli(ctx, top, long, *args) == out, 'ohcount %s and %s differ', short, long)
        # help: nothing but its text, whatever paths are given
        usage = cli(ctx, top, '-h')
        check(usage.startswith(b'Usage: ohcount [option] [paths...]\n') and all(b'\n%s ' % o in usage or b'\n%s\n' % o in usage for o in (b'-a, --annotate', b'-d, --detect', b'-h, --help', b'-i, --individual', b'-l, --license', b'-s, --summary', b'-re')), 'ohcount -h printed %r', usage)
        for flag in ('-h', '--help'): check(cli(ctx, top, flag, *args) == badtxt + usage, 'ohcount %s %r printed %r', flag, args, cli(ctx, top, flag, *args)[-600:])
        # a first argument that is no option is a path
        if args:
            odd = case['odd']
            check(cli(ctx, top, odd, *args) == b'Bad argument: %s\n' % odd.encode() + cli(ctx, top, *args), 'ohcount %s %r differs from ohcount %r after the bad argument', odd, args, args)
            check(cli(ctx, top, '-s', '-d', *args) == b'Bad argument: -d\n' + cli(ctx, top, *args), 'ohcount -s -d %r', args)
        # licences: every pair of a licence and a file name
        out = cli(ctx, top, '-l', *args)
        check(out == cli(ctx, top, '--license', *args) and out.startswith(badtxt), 'ohcount -l and --license differ, or begin wrongly: %r', out[:300])
        got = sorted(tuple(l.split(b' ', 1)) for l in out[len(badtxt):].splitlines())
        want = sorted((x + (b',' if k + 1 < len(info[f[0]]['lic']) else b''), b(os.path.basename(f[0]).split('\\')[-1])) for f in flat for k, x in enumerate(info[f[0]]['lic']))
        check(got == want, 'ohcount -l %r: %r, should be %r', args, got, want)
        # summary
        sums = {}
        for f in flat:
            for l in info[f[0]]['loc']:
                v = sums.setdefault(l[0], [0] * 4); v[:] = [v[0] + 1] + [x + y for x, y in zip(v[1:], l[1:])]
        out = cli(ctx, top, *args)
        for flag in ('-s', '--summary'): check(sorted(cli(ctx, top, flag, *args).splitlines()) == sorted(out.splitlines()), 'ohcount %s differs from ohcount alone', flag)
        head = badtxt + (HEAD_S % n).encode()
        check(out.startswith(head), 'summary begins %r, should begin %r', out[:400], head)
        def srow(name, v):
            p = pct(v[1], v[2])
            return ('%-16s' % name + ' %6d %10d %10d' % tuple(v[:3]) + (' ' + p if p else '       0.0%') + ' %10d %10d\n' % (v[3], sum(v[1:4]))).encode()
        body = out[len(head):]; want = sorted(srow(k.decode(), v) for k, v in sums.items())
        tot = [sum(v[i] for v in sums.values()) for i in range(4)]
        tail = RULE.encode() + srow('Total', tot)
        check(body.endswith(tail), 'summary ends\n%s\nshould end\n%s', body[-300:].decode(), tail.decode())
        lines = body[:-len(tail)].splitlines(True)
        check(sorted(lines) == want, 'summary of %r\n%s\nshould hold\n%s', args, b''.join(lines).decode(), b''.join(want).decode())
        codes = [sums[l[:16].strip() if l[:16].strip() in sums else l.split()[0]][1] for l in lines]
        check(codes == sorted(codes, reverse=True), 'summary is not sorted by code: %r', codes)
        return ['args%d' % min(len(args), 3)] + (['bad argument'] if bad else []) + (['nontrivial'] if len(sums) > 1 and n > 1 else [])
    finally: shutil.rmtree(top, ignore_errors=True)

def place(part, todo):
    """part is a concatenation of todo in some order (identical starts tried in turn)."""
    if not todo: return not part
    for i in range(len(todo)):
        if i and todo[i] == todo[i - 1]: continue
        if part.startswith(todo[i]) and place(part[len(todo[i]):], todo[:i] + todo[i + 1:]): return True
    return False

# Counts of any size
SIMPLE = {'c': ('c', 'x;', '// y'), 'java': ('java', 'x;', '// y'), 'python': ('py', 'x = 1', '# y'), 'ruby': ('rb', 'x', '# y'), 'sql': ('sql', 'x', '-- y'), 'haskell': ('hs', 'x = 1', '-- y')}
def many(ctx, case):
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        want = {}; names = []
        for i, (lg, code, com, blank) in enumerate(case['files']):
            ext, x, y = SIMPLE[lg]; names.append('f%d.%s' % (i, ext))
            with open(os.path.join(top, names[-1]), 'w') as f: f.write((x + '\n') * code + (y + '\n') * com + '\n' * blank)
            if code + com + blank:
                w = want.setdefault(lg, [0, 0, 0, 0]); want[lg] = [w[0] + 1, w[1] + code, w[2] + com, w[3] + blank]
        line = lambda n, w: (n, w[0], w[1], w[2], '%s' % (pct(w[1], w[2]) or '0.0%').strip(), w[3], sum(w[1:]))
        def rows(out):
            ls = out.decode().splitlines(); at = [i for i, l in enumerate(ls) if l.startswith('-----')]
            return [l.split() for l in ls[at[0] + 1:] if l and not l.startswith('-----')]
        got = [tuple(int(c) if c.isdigit() else c for c in l) for l in rows(cli(ctx, top, *names))]
        tot = [sum(w[k] for w in want.values()) for k in range(4)]
        check(got[-1] == line('Total', tot), 'the total is shown as %r, not as %r', got[-1], line('Total', tot))
        check(sorted(got[:-1]) == sorted(line(n, w) for n, w in want.items()), 'the languages are shown as %r, not as %r', got[:-1], want)
        check(all(a[2] >= b[2] for a, b in zip(got[:-1], got[1:-1])), 'the languages are not in the order of their code: %r', got[:-1])
        each = sorted((lg, c, m, (pct(c, m) or '').strip(), b, c + m + b, n) for n, (lg, c, m, b) in zip(names, case['files']) if c + m + b)
        got = sorted((l[0], int(l[1]), int(l[2]), l[3] if len(l) == 7 else '', int(l[-3]), int(l[-2]), l[-1]) for l in rows(cli(ctx, top, '-i', *names)))
        check(got == each, 'the files are shown as %r, not as %r', got, each)
        return ['many'] + (['nontrivial'] if len(want) > 1 and max(w[1] for w in want.values()) > 1000 else [])
    finally: shutil.rmtree(top, ignore_errors=True)
COUNT = st.one_of(st.integers(0, 3), st.integers(0, 300), st.sampled_from([99, 100, 999, 1000, 32767, 32768, 40000, 65535, 65536, 70000, 99999, 100000, 131073]))

ARG = st.tuples(st.sampled_from(['file', 'file', 'dir', 'all', 'bad']), st.integers(0, 20))
if __name__ == '__main__':
    sys.exit(pbt.main('C17', [Test('reports', st.fixed_dictionaries({'tree': tree.TREE, 'args': st.lists(ARG, max_size=4), 'odd': st.sampled_from(['-x', '-S', '--Summary', '-', '--', '-sd', '--summary=', '--detec', '-r', '-ree', '-D', '--helpx', '-is', '-?', '--individua', 'summary'])}), reports, 1600),
        Test('many', st.fixed_dictionaries({'files': st.lists(st.tuples(st.sampled_from(sorted(SIMPLE)), COUNT, COUNT, COUNT), min_size=1, max_size=5)}), many, 300)],
        targets=('srv', 'cli'), rule='Generated trees and argument lists (files, directories, the current directory, nothing, paths that do not exist) through every option, each report compared with the others and with the library; files of up to hundreds of thousands of lines against their known counts; '
             'non-trivial: several files in several languages'))
