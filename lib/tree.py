"""Generated directory trees."""
import os
import hypothesis.strategies as st
import lang, emb

# extension for generated documents whose language it settles by itself
EXT = {'ada': 'ada', 'c': 'c', 'cpp': 'cpp', 'css': 'css', 'java': 'java', 'javascript': 'js', 'python': 'py', 'ruby': 'rb', 'lua': 'lua', 'haskell': 'hs', 'erlang': 'erl', 'scala': 'scala', 'golang': 'go', 'shell': 'sh', 'eiffel': 'e',
       'sql': 'sql', 'tcl': 'tcl', 'vhdl': 'vhd', 'ocaml': 'ml', 'scheme': 'scm', 'lisp': 'lisp', 'awk': 'awk', 'xml': 'xml', 'd': 'd', 'fortranfree': 'f90', 'kotlin': 'kt', 'perl': 'perl', 'php': 'php', 'html': 'html', 'jsp': 'jsp', 'rhtml': 'rhtml', 'mxml': 'mxml', 'nix': 'nix'}
EXT = {k: v for k, v in EXT.items() if k in lang.TABLE or k in emb.HOSTS}
LICS = ['MIT License', 'GNU General Public License', 'Eclipse Public License']
DOC = st.one_of(lang.docs(keys=sorted(k for k in EXT if k in lang.TABLE), eols=('\n', '\n', '\r\n')), emb.docs()).filter(lambda d: d['lang'] in EXT).map(lambda d: (d['lang'], EXT[d['lang']], d['text']))
NOTCODE = st.tuples(st.none(), st.sampled_from(['jpg', 'zip', 'xyzzy', 'PNG', 'o', 'txt', 'bak']), st.sampled_from([b'', b'plain words here\n', b'\x89PNG\r\n\x1a\n\x01\x02', b'a\n\n\nb']))
EMPTY = st.tuples(st.sampled_from(['c', 'java', 'python']), st.none(), st.just(b'')).map(lambda t: (t[0], EXT[t[0]], b''))
NAME = st.sampled_from(['a', 'b', 'main', 'x.y', 'a b', '.hid', 'Weird-Name', 'caf\u00e9', "q'uote", 'z' * 60, '-dash', '%d', 'src', 'back\\slash'])
KINDS = ['file'] * 8 + ['hard'] * 2 + ['dir'] * 3 + ['link', 'dirlink', 'dangling', 'fifo']

# pages in four languages, in any order (two of them alike in their first letters)
SECTIONS = {'jsp': ('jsp', ['<p>\n', '<script type="text/javascript">\nvar a;\n// note\n</script>\n', '<style type="text/css">\np { margin: 0 }\n</style>\n', '<%\nint b;\n\n%>\n']),
            'cs_aspx': ('aspx', ['<b>\n', '<script type="text/javascript">\nvar a;\n</script>\n', '<style type="text/css">\n/* note */\np { margin: 0 }\n</style>\n', '<%\nint b;\nb++;\n%>\n'])}
PAGE = st.sampled_from(sorted(SECTIONS)).flatmap(lambda k: st.permutations(SECTIONS[k][1]).map(lambda l: (k, SECTIONS[k][0], ''.join(l).encode())))
FILES = st.one_of(DOC, DOC, DOC, DOC, PAGE, NOTCODE, EMPTY)
DIRS = st.lists(st.sampled_from(['d', 'e', 'sub', '.git', 'a.c', 'x y', 'deep', '..dots', '...']), min_size=0, max_size=4)
ENTRY = st.tuples(DIRS, NAME, st.sampled_from(KINDS), FILES)
TREE = st.one_of(st.lists(ENTRY, max_size=10), st.lists(ENTRY, min_size=5, max_size=12))

def make(root, entries):
    """Create the tree; returns [(relative path, language key or None, bytes)] of the regular files a walk should find."""
    out = []; seen = set()
    for dirs, name, kind, (lg, ext, text) in entries:
        try:
            d = os.path.join(root, *dirs); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, name + ('.' + ext if kind == 'file' and ext else ''))
            if os.path.lexists(p): continue
            if kind == 'file':
                with open(p, 'wb') as f: f.write(text)
                if not any(x.startswith('.') for x in dirs): out.append((os.path.relpath(p, root), lg, text))
            elif kind == 'hard':        # one more name of a file there is, in its own right
                if not out or os.path.basename(out[0][0]) == '.target.c': continue
                rel, lg0, text0 = out[0]; p += os.path.splitext(rel)[1] if not os.path.basename(rel).startswith('.') or '.' in os.path.basename(rel)[1:] else ''
                if os.path.lexists(p): continue
                os.link(os.path.join(root, rel), p)
                if not any(x.startswith('.') for x in dirs): out.append((os.path.relpath(p, root), lg0, text0))
            elif kind == 'dir': os.mkdir(p)
            elif kind == 'link':
                with open(os.path.join(root, '.target.c'), 'wb') as f: f.write(b'int x;\n')
                os.symlink(os.path.join(root, '.target.c'), p)
                out.append(('.target.c', 'c', b'int x;\n'))
            elif kind == 'dirlink': os.symlink(root, p)
            elif kind == 'dangling': os.symlink('nowhere', p)
            else: os.mkfifo(p)
        except (FileExistsError, NotADirectoryError): continue
    r = []
    for x in out:
        if x[0] not in seen: seen.add(x[0]); r.append(x)
    return r
