"""The documented tables of detection: extensions, file names and language names (frozen copy, not read from the code under test).
A value ?x is an extension several languages share, ! a binary format."""
EXT = {
    '4th': 'forth', 'C': 'cpp', 'H': 'cpp', 'ada': 'ada', 'adb': 'ada', 'ads': 'ada', 'aiff': '!', 'as': 'actionscript',
    'as8': 'assembler', 'ascx': '?aspx', 'asm': 'assembler', 'aspx': '?aspx', 'asx': '?asx', 'au': '!', 'aug': 'augeas', 'avi': '!',
    'awk': 'awk', 'b': '?b', 'bas': '?basic', 'bat': 'bat', 'bf': 'brainfuck', 'bfpp': 'bfpp', 'bi': '?basic', 'bmp': '!',
    'bmx': 'blitzmax', 'boo': 'boo', 'c': 'c', 'c++': 'cpp', 'cache': '!', 'cc': 'cpp', 'chai': 'chaiscript', 'clj': 'clojure',
    'cls': 'tex', 'cmake': 'cmake', 'coffee': 'coffeescript', 'com': 'dcl', 'cpp': 'cpp', 'cr': 'crystal', 'cs': '?cs', 'csproj': 'xml',
    'css': 'css', 'ctp': 'php', 'cu': 'cuda', 'cxx': 'cpp', 'd': 'dmd', 'dart': 'dart', 'dat': '?dat', 'def': '?def',
    'di': 'dmd', 'doc': '!', 'dtx': 'tex_dtx', 'dylan': 'dylan', 'e': 'eiffel', 'ebuild': 'ebuild', 'ec': 'ec', 'eclass': 'ebuild',
    'eh': 'ec', 'el': 'emacslisp', 'elm': 'elm', 'erl': 'erlang', 'exheres-0': 'exheres', 'exlib': 'exheres', 'f': '?fortran', 'f03': '?fortran',
    'f08': '?fortran', 'f77': '?fortran', 'f90': '?fortran', 'f95': '?fortran', 'factor': 'factor', 'fr': 'forth', 'frag': 'glsl', 'frt': 'forth',
    'for': '?fortran', 'forth': 'forth', 'fpp': '?fortran', 'frm': 'visualbasic', 'frx': 'visualbasic', 'fs': '?fs', 'fth': 'forth', 'ftn': '?fortran',
    'gemspec': 'ruby', 'gif': '!', 'glsl': 'glsl', 'go': 'golang', 'groovy': 'groovy', 'grace': 'grace', 'grc': 'grace', 'gs': 'genie',
    'gz': '!', 'h': '?h', 'h++': 'cpp', 'haml': 'haml', 'hh': 'cpp', 'hpp': 'cpp', 'hrl': 'erlang', 'hs': 'haskell',
    'htm': 'html', 'html': 'html', 'hx': 'haxe', 'hxx': 'cpp', 'i3': 'modula3', 'icns': '!', 'in': '?in', 'inc': '?inc',
    'j': 'objective_j', 'jar': '!', 'java': 'java', 'jpeg': '!', 'jpg': '!', 'js': 'javascript', 'jl': 'julia', 'jsp': 'jsp',
    'kdebuild-1': 'ebuild', 'kt': 'kotlin', 'lc': 'livecode', 'latex': 'tex', 'lisp': 'lisp', 'lsp': 'lisp', 'ltx': 'tex', 'lgt': 'logtalk',
    'lua': 'lua', 'm': '?m', 'm3': 'modula3', 'm4': 'autoconf', 'm4a': '!', 'mf': 'metafont', 'mk': 'make', 'ml': 'ocaml',
    'ml4': 'ocaml', 'mli': 'ocaml', 'mm': 'objective_c', 'mo': 'modelica', 'mod': '?mod', 'mov': '!', 'mp': 'metapost_with_tex', 'mp3': '!',
    'mpg': '!', 'mt': 'mathematica', 'mustache': 'html', 'mxml': 'mxml', 'nix': 'nix', 'nse': 'lua', 'nsi': 'nsis', 'nsh': 'nsis',
    'ob2': 'oberon', 'obn': 'oberon', 'ogg': '!', 'p6': 'perl', 'p8': 'lua', 'pas': 'pascal', 'perl': 'perl', 'pdf': '!',
    'ph': 'perl', 'php': 'php', 'php3': 'php', 'php4': 'php', 'php5': 'php', 'pike': 'pike', 'pl': '?pl', 'pm': 'perl',
    'pmc': 'c', 'pmod': 'pike', 'png': '!', 'pnt': '!', 'pod': 'perl', 'pp': '?pp', 'ppt': '!', 'pro': '?pro',
    'ps': 'postscript', 'ps1': 'powershell', 'py': 'python', 'qml': 'qml', 'qt': '!', 'r': '?r', 'r3': 'rebol', 'ra': '!',
    'rb': 'ruby', 'rbw': 'ruby', 'reb': 'rebol', 'rebol': 'rebol', 'rex': 'rexx', 'rexx': 'rexx', 'rhtml': 'rhtml', 'rkt': 'racket',
    'rktd': 'racket', 'rktl': 'racket', 'rs': '?rs', 'ru': 'ruby', 'run': 'ampl', 's': 'assembler', 'sc': 'scheme', 'scala': 'scala',
    'sce': 'scilab', 'sci': 'scilab', 'scm': 'scheme', 'sh': 'shell', 'sld': 'scheme', 'sls': 'scheme', 'sps': 'scheme', 'sql': 'sql',
    'ss': 'scheme', 'st': '?st', 'str': 'stratego', 'sty': 'tex', 'svg': '!', 'svgz': '!', 'svn': '!', 'swf': '!',
    'swift': 'swift', 't': 'perl', 'tac': 'python', 'tap': 'python', 'tar': '!', 'tcl': 'tcl', 'tex': 'tex', 'tgz': '!',
    'tif': '!', 'tiff': '!', 'tpl': 'html', 'uc': 'unrealscript', 'umple': 'umple', 'ts': 'typescript', 'tsx': 'typescript', 'vala': 'vala',
    'vapi': 'vala', 'v': 'coq', 'vb': 'visualbasic', 'vba': 'visualbasic', 'vbs': 'visualbasic', 'vert': 'glsl', 'vhd': 'vhdl', 'vhdl': 'vhdl',
    'vim': 'vim', 'wav': '!', 'wl': 'mathematica', 'wlt': 'mathematica', 'xaml': 'xaml', 'xhtml': 'html', 'xls': '!', 'xlw': '!',
    'xml': 'xml', 'xs': 'c', 'xsd': 'xmlschema', 'xsl': 'xslt', 'z80': 'assembler', 'zip': '!', 'zpt': 'html',
}
FILENAMES = {
    'CMakeLists.txt': 'cmake', 'Jamfile': 'jam', 'Jamrules': 'jam', 'GNUmakefile': 'make', 'Makefile': 'make', 'Makefile.am': 'automake', 'configure': 'autoconf', 'configure.ac': 'autoconf',
    'configure.in': 'autoconf', 'init.pp': 'puppet', 'makefile': 'make', 'Rakefile': 'ruby', 'rakefile': 'ruby', 'Gemfile': 'ruby', 'Vagrantfile': 'ruby', 'PKGBUILD': 'shell',
    'script.utf8': 'livecode',
}
NAMES = {
    'actionscript': 'actionscript', 'ada': 'ada', 'ampl': 'ampl', 'assembler': 'assembler', 'augeas': 'augeas', 'autoconf': 'autoconf', 'automake': 'automake', 'awk': 'awk',
    'bat': 'bat', 'bash': 'shell', 'blitzmax': 'blitzmax', 'boo': 'boo', 'brainfuck': 'brainfuck', 'bfpp': 'bfpp', 'c': 'c', 'chaiscript': 'chaiscript',
    'classic_basic': 'classic_basic', 'clearsilver': 'clearsilver', 'clearsilver_template': 'clearsilver_template', 'clojure': 'clojure', 'cmake': 'cmake', 'coffeescript': 'coffeescript', 'coq': 'coq', 'cpp': 'cpp',
    'crystal': 'crystal', 'cs_aspx': 'cs_aspx', 'csharp': 'csharp', 'css': 'css', 'cuda': 'cuda', 'dart': 'dart', 'dcl': 'dcl', 'dmd': 'dmd',
    'dylan': 'dylan', 'ebuild': 'ebuild', 'ec': 'ec', 'eiffel': 'eiffel', 'elm': 'elm', 'emacslisp': 'emacslisp', 'erlang': 'erlang', 'exheres': 'exheres',
    'factor': 'factor', 'forth': 'forth', 'fortranfixed': 'fortranfixed', 'fortranfree': 'fortranfree', 'fsharp': 'fsharp', 'genie': 'genie', 'glsl': 'glsl', 'golang': 'golang',
    'grace': 'grace', 'groovy': 'groovy', 'haml': 'haml', 'haskell': 'haskell', 'haxe': 'haxe', 'html': 'html', 'idl_pvwave': 'idl_pvwave', 'jam': 'jam',
    'java': 'java', 'javascript': 'javascript', 'julia': 'julia', 'jsp': 'jsp', 'kotlin': 'kotlin', 'limbo': 'limbo', 'lisp': 'lisp', 'livecode': 'livecode',
    'logtalk': 'logtalk', 'lua': 'lua', 'make': 'make', 'mathematica': 'mathematica', 'matlab': 'matlab', 'metafont': 'metafont', 'metapost': 'metapost', 'metapost_with_tex': 'metapost_with_tex',
    'modelica': 'modelica', 'modula2': 'modula2', 'modula3': 'modula3', 'mxml': 'mxml', 'nix': 'nix', 'nsis': 'nsis', 'oberon': 'oberon', 'objective_c': 'objective_c',
    'objective_j': 'objective_j', 'ocaml': 'ocaml', 'octave': 'octave', 'pascal': 'pascal', 'perl': 'perl', 'php': 'php', 'pike': 'pike', 'postscript': 'postscript',
    'powershell': 'powershell', 'prolog': 'prolog', 'puppet': 'puppet', 'python': 'python', 'qml': 'qml', 'r': 'r', 'racket': 'racket', 'rebol': 'rebol',
    'rexx': 'rexx', 'rhtml': 'rhtml', 'ruby': 'ruby', 'rust': 'rust', 'scala': 'scala', 'scheme': 'scheme', 'scilab': 'scilab', 'shell': 'shell',
    'smalltalk': 'smalltalk', 'stratego': 'stratego', 'structured_basic': 'structured_basic', 'sql': 'sql', 'swift': 'swift', 'tcl': 'tcl', 'tex': 'tex', 'tex_dtx': 'tex_dtx',
    'umple': 'umple', 'unrealscript': 'unrealscript', 'typescript': 'typescript', 'vala': 'vala', 'vb_aspx': 'vb_aspx', 'vhdl': 'vhdl', 'vim': 'vim', 'visualbasic': 'visualbasic',
    'xaml': 'xaml', 'xml': 'xml', 'xslt': 'xslt', 'xmlschema': 'xmlschema',
}
META = {
    'actionscript': ('ActionScript', 0), 'ada': ('Ada', 0), 'ampl': ('AMPL', 0), 'assembler': ('Assembler', 0), 'augeas': ('Augeas', 0), 'autoconf': ('Autoconf', 2), 'automake': ('Automake', 2), 'awk': ('AWK', 0),
    'bat': ('DOS batch script', 0), 'bash': ('shell script', 0), 'blitzmax': ('BlitzMax', 0), 'boo': ('Boo', 0), 'brainfuck': ('Brainfuck', 0), 'bfpp': ('Brainfuck++', 0), 'c': ('C', 0), 'chaiscript': ('ChaiScript', 0),
    'classic_basic': ('Classic Basic', 0), 'clearsilver': ('ClearSilver', 0), 'clearsilver_template': ('ClearSilver', 0), 'clojure': ('Clojure', 0), 'cmake': ('Cmake script', 2), 'coffeescript': ('CoffeeScript', 0), 'coq': ('Coq', 0), 'cpp': ('C++', 0),
    'crystal': ('Crystal', 0), 'cs_aspx': ('', 0), 'csharp': ('C#', 0), 'css': ('CSS', 1), 'cuda': ('CUDA', 0), 'dart': ('Dart', 0), 'dcl': ('DCL', 0), 'dmd': ('D', 0),
    'dylan': ('Dylan', 0), 'ebuild': ('Ebuild', 0), 'ec': ('eC', 0), 'eiffel': ('Eiffel', 0), 'elm': ('Elm', 0), 'emacslisp': ('Emacs lisp', 0), 'erlang': ('Erlang', 0), 'exheres': ('Exheres', 0),
    'factor': ('Factor', 0), 'forth': ('Forth', 0), 'fortranfixed': ('Fortan (Fixed-format)', 0), 'fortranfree': ('Fortan (Free-format)', 0), 'fsharp': ('F#', 0), 'genie': ('Genie', 0), 'glsl': ('OpenGL Shading Language', 0), 'golang': ('Golang', 0),
    'grace': ('Grace', 0), 'groovy': ('Groovy', 0), 'haml': ('Haml', 1), 'haskell': ('Haskell', 0), 'haxe': ('HaXe', 0), 'html': ('HTML', 1), 'idl_pvwave': ('IDL/PV-WAVE/GDL', 0), 'jam': ('Jam', 2),
    'java': ('Java', 0), 'javascript': ('JavaScript', 0), 'julia': ('Julia', 0), 'jsp': ('', 0), 'kotlin': ('Kotlin', 0), 'limbo': ('Limbo', 0), 'lisp': ('Lisp', 0), 'livecode': ('LiveCode', 0),
    'logtalk': ('Logtalk', 0), 'lua': ('Lua', 0), 'make': ('Make', 2), 'mathematica': ('Mathematica', 0), 'matlab': ('Matlab', 0), 'metafont': ('MetaFont', 1), 'metapost': ('MetaPost', 1), 'metapost_with_tex': ('', 0),
    'modelica': ('Modelica', 0), 'modula2': ('Modula-2', 0), 'modula3': ('Modula-3', 0), 'mxml': ('MXML', 1), 'nix': ('Nix', 0), 'nsis': ('NSIS', 0), 'oberon': ('Oberon', 0), 'objective_c': ('Objective-C', 0),
    'objective_j': ('Objective-J', 0), 'ocaml': ('Objective Caml', 0), 'octave': ('', 0), 'pascal': ('Pascal', 0), 'perl': ('Perl', 0), 'php': ('PHP', 0), 'pike': ('Pike', 0), 'postscript': ('PostScript', 1),
    'powershell': ('PowerShell', 0), 'prolog': ('Prolog', 0), 'puppet': ('Puppet', 0), 'python': ('Python', 0), 'qml': ('QML', 1), 'r': ('R', 0), 'racket': ('Racket', 0), 'rebol': ('REBOL', 0),
    'rexx': ('rexx', 0), 'rhtml': ('', 0), 'ruby': ('Ruby', 0), 'rust': ('Rust', 0), 'scala': ('Scala', 0), 'scheme': ('Scheme', 0), 'scilab': ('Scilab', 0), 'shell': ('shell script', 0),
    'smalltalk': ('Smalltalk', 0), 'stratego': ('Stratego', 0), 'structured_basic': ('Structured Basic', 0), 'sql': ('SQL', 0), 'swift': ('Swift', 0), 'tcl': ('TCL', 0), 'tex': ('TeX/LaTeX', 1), 'tex_dtx': ('DTX for TeX/LaTeX', 1),
    'umple': ('Umple', 0), 'unrealscript': ('UnrealScript', 0), 'typescript': ('TypeScript', 0), 'vala': ('Vala', 0), 'vb_aspx': ('', 0), 'vhdl': ('VHDL', 0), 'vim': ('Vim script', 0), 'visualbasic': ('Visual Basic', 0),
    'xaml': ('XAML', 1), 'xml': ('XML', 1), 'xslt': ('XSL Transformation', 0), 'xmlschema': ('XML Schema', 1),
}
CPPHEADERS = (
    'algorithm', 'array', 'bitset', 'cassert', 'ccomplex', 'cctype', 'cerrno', 'cfenv', 'cfloat', 'cinttypes', 'ciso646', 'climits',
    'clocale', 'cmath', 'csetjmp', 'csignal', 'cstdarg', 'cstdbool', 'cstddef', 'cstdint', 'cstdio', 'cstdlib', 'cstring', 'ctgmath',
    'ctime', 'cwchar', 'cwctype', 'deque', 'exception', 'fstream', 'functional', 'iomanip', 'ios', 'iosfwd', 'iostream', 'istream',
    'iterator', 'limits', 'list', 'locale', 'map', 'memory', 'new', 'numeric', 'ostream', 'queue', 'random', 'regex',
    'set', 'sstream', 'stack', 'stdexcept', 'streambuf', 'string', 'system_error', 'tuple', 'type_traits', 'typeinfo', 'unordered_map', 'unordered_set',
    'utility', 'valarray', 'vector', 'tr1/array', 'tr1/ccomplex', 'tr1/cctype', 'tr1/cfenv', 'tr1/cfloat', 'tr1/cinttypes', 'tr1/climits', 'tr1/cmath', 'tr1/complex',
    'tr1/cstdarg', 'tr1/cstdbool', 'tr1/cstdint', 'tr1/cstdio', 'tr1/cstdlib', 'tr1/ctgmath', 'tr1/ctime', 'tr1/cwchar', 'tr1/cwctype', 'tr1/memory', 'tr1/random', 'tr1/regex',
    'tr1/tuple', 'tr1/type_traits', 'tr1/unordered_map', 'tr1/unordered_set', 'tr1/utility',
)
