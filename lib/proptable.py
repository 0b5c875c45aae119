RL = ['src/parsers/*.rl', 'src/parsers/common.rl', 'src/parser_macros.h', 'src/parser.c']
prop('C01', 'Every physical line of a file is counted exactly once, in order',
 'For any file of a supported language, whether or not its multi-line constructs are closed, the parser reports each physical line (ended by LF or CRLF, or the unterminated last line when it is not only white space) exactly once, in file order, '
 'each report ending where that line ends and leaving out nothing but leading white space. The code, comment and blank totals of the file therefore add up to its number of physical lines, whatever the file holds: unbalanced quotes, constructs left open or closed early, '
 'mixed line ends, bytes outside ASCII, very long lines or thousands of lines.',
 ['inputs'], 'every text, in each of the 110 plain and 12 hosting languages',
 'Unit tests parse one or two fixed snippets per language and compare the first entity; they never count lines of an arbitrary text.',
 RL + ['src/sourcefile.c'], [('std_newline / std_internal_newline / process_last_line', 'src/parser_macros.h'), ('newline and string/comment patterns', 'src/parsers/*.rl')],
 'property-based testing (line-coverage invariant over generated files)',
 'Random search: structured documents, the same spoilt at random, unbalanced line soups and large files; trusts the splitting of a text into physical lines.')
prop('C02', 'Lines are classified code, comment or blank by the language\'s own rules',
 'In a well-formed file of any supported single language, a line counts as code when any of it is code (string contents included), otherwise as comment when any of it lies in a comment, otherwise as blank, following that language\'s '
 'comment markers, comment nesting, string delimiters, escapes and multi-line constructs. Comment markers inside strings and quotes inside comments have no effect, and every line is attributed to that language.',
 ['inputs', 'programs'], 'every well-formed document built from the language\'s code, strings and comments',
 'Tests hold one or two snippets per language; combinations of quotes in comments, markers in strings, nesting, escapes and multi-line constructs are unbounded.',
 RL, [('one scanner per language', 'src/parsers/*.rl'), ('line state macros', 'src/parser_macros.h')],
 'property-based testing (documents with classification known by construction)',
 'Random search against a hand-written lexical table of the languages; constructs the table leaves out (regular expressions with comment markers, here documents and the like) are not judged.')
prop('C03', 'Every line of a file of several languages goes to the right language',
 'In a file that hosts other languages (PHP, HTML, XML-based pages, templates with Ruby, C#, Java, Visual Basic or ClearSilver, HAML, CoffeeScript, Nix, MetaPost with TeX) each line is counted once, for the language it belongs to: '
 'lines inside an embedded section for the embedded language and by its rules, all others for the host. A line shared by two languages goes to the one that has code on it, and returning from a section resumes the host exactly where it was left, '
 'however many sections there are and whether they stand on lines of their own, within one line, in an attribute or in a comment.',
 ['inputs', 'programs'], 'every composition of host lines and closed embedded sections in each of the hosting languages',
 'Tests check one or two fixed documents per host; the transitions (same line, nested, repeated, inside comments and attributes) are combinatorial.',
 RL, [('embedding transitions (emb_internal_newline, CHECK_BLANK_ENTRY, *_inside_*_line)', 'src/parser_macros.h'), ('hosting grammars', 'src/parsers/{html,php,rhtml,jsp,xml,mxml,aspx,...}.rl')],
 'property-based testing (composed documents with line attribution known by construction)',
 'Random search over composed documents; line comments in ClearSilver sections are outside the domain (known finding).')
prop('C04', 'Layout that means nothing does not change any line\'s classification',
 'Rewriting LF line ends as CRLF, adding or dropping the final newline, adding white space at the end of lines, and (where the language gives columns no meaning) indenting lines leave every line\'s language and kind as they were. '
 'A text made by joining complete files of one language is classified as the files are one by one.',
 ['inputs', 'programs'], 'every file of every language, and every sequence of such files, under each of the listed changes',
 'Tests have one layout per snippet; only a few hold CRLF or lack the final newline.',
 RL, [('newline patterns and line state', 'src/parser_macros.h'), ('common newline machine', 'src/parsers/common.rl')],
 'metamorphic property-based testing (layout changes and concatenation)', 'Random search over generated documents and the real sources of the test suite.')
prop('C05', 'What is reported for a file depends on that file alone',
 'Line reports, entities, totals, breakdowns and licences of a file are the same in every process and after every history of other analyses, including files whose comments, strings or embedded sections were left open; asking twice gives the same answer twice.',
 ['histories'], 'every sequence of analyses of any files in one process',
 'Unit tests run each snippet once in a fixed order; state left over in static parser variables shows only in particular successions.',
 RL + ['src/sourcefile.c', 'src/licenses.c'], [('static scanner state (cs, p, whole_line_comment, nest counts)', 'src/parser_macros.h'), ('init in every scanner', 'src/parsers/*.rl')],
 'stateful property-based testing (histories against a fresh process)', 'Random histories of up to ten analyses.')
prop('C06', 'No input makes the analyses crash, hang or touch memory out of bounds',
 'Detection, line and entity reporting, totals, differences, licences and the command line program end normally, without any memory or arithmetic error, on every sequence of bytes under every path name, and every reported range lies within the file.',
 ['inputs', 'fault_sequences'], 'every byte string (also empty, very long lines, NUL bytes, unterminated constructs), path and set of unreadable or vanished files',
 'Tests hold well-formed snippets only and run without sanitizers.',
 RL + ['src/detector.c', 'src/sourcefile.c', 'src/diff.c', 'src/licenses.c', 'src/ohcount.c'], [('fixed line buffers', 'src/detector.c'), ('end of buffer handling in scanners', 'src/parser_macros.h')],
 'fuzzing (structured generation and coverage-guided libFuzzer under AddressSanitizer and UBSan)',
 'Bounded executions; inputs with unterminated constructs are kept under 30 kB because scanning them again takes quadratic time.')
prop('C07', 'Raw entities lie in the file, in order and apart, and comments are found',
 'Asked for entities instead of lines, the scanner reports non-empty ranges inside the file, in file order and without overlap, each of a known kind and of a language of the file; ranges called white space hold only white space. '
 'In a well-formed file of a language with a complete scanner every comment is reported as a comment with its exact extent, no other text is, and where the scanner covers every byte the entities tile the file.',
 ['inputs'], 'every byte string for the structure; every well-formed document for the comments',
 'Tests check entity names of a few tokens only.',
 RL, [('*_entity machines', 'src/parsers/*.rl')], 'property-based testing (structural invariant and comment extents known by construction)',
 'Languages whose entity scanner is unfinished are judged on structure only.')
prop('C08', 'The breakdown of a file is made of exactly its reported lines',
 'For every file, the code and comment text kept for a language is the concatenation, in order, of the reported code and comment lines of that language without their indentation, its blank count is the number of its blank lines, '
 'languages appear once each, and the totals and annotated output derive from the same lines.',
 ['inputs'], 'every file of every language and every hosting file', 'Tests check totals of a few files, never the text kept.',
 ['src/sourcefile.c', 'src/parsed_language.c', 'src/parser.c'], [('ParsedLanguageList / callback accumulation', 'src/sourcefile.c'), ('ohcount_parsed_language_add_code', 'src/parsed_language.c')],
 'property-based testing (reference accumulation from the reported lines)', 'Random search.')
prop('C09', 'Language is decided by extension, mode line, name, then contents',
 'A file\'s language is that of its extension (any letter case; a compound ".in" is looked through), else, for a name that says nothing, of an Emacs mode line or #! line in its first lines, else of its file name, else of what its contents look like; '
 'an extension known to be no source (images, archives and the like) and binary contents give no language at all. An Emacs mode line names languages by their own name or an extension of theirs; detection never depends on which other files were asked before.',
 ['inputs'], 'every path name and contents',
 'Tests detect about 60 fixed files with ordinary names.',
 ['src/detector.c', 'src/hash/extensions.gperf', 'src/hash/filenames.gperf', 'src/hash/languages.gperf'],
 [('ohcount_detect_language', 'src/detector.c'), ('detect by Emacs mode line and #! line', 'src/detector.c'), ('extension and name tables', 'src/hash/*.gperf')],
 'property-based testing (independent detection model with its own copy of the tables)',
 'Answers of libmagic are trusted: contents are drawn where its answer is known or not needed.')
prop('C10', 'Languages sharing an extension are told apart by the contents',
 'For each extension claimed by several languages (.aspx, .asx, .b, .bas, .cs, .dat, .def, .f, .fs, .h, .inc, .m, .mod, .pl, .pp, .pro, .r, .rs, .st) the language is the one whose documented marks stand anywhere in the file or, where the neighbourhood decides, whose files stand beside it; '
 'the marks are found wherever they are in the text, whatever the line lengths, line ends and letter case allowed.',
 ['inputs', 'configurations'], 'every contents and set of neighbouring files for each ambiguous extension',
 'Tests hold one or two files per ambiguous extension.',
 ['src/detector.c'], [('disambiguate_* functions', 'src/detector.c')],
 'property-based testing (reference model of each disambiguation over generated lines and neighbours)',
 'The model follows the rules documented in the source comments; libmagic is not consulted here.')
prop('C11', 'Every language that can be named or detected is known and counted',
 'The language table has exactly its documented names, each with a readable name and category; looking up any other text finds nothing. Every language a file can be detected as has metadata and a scanner: such a file\'s lines are all counted, for that language or ones it may embed, and words that are code count as code.',
 ['inputs', 'configurations'], 'every language, every text as a name, and every detectable file',
 'Tests look up a few names; a language missing from one of the five tables that must agree shows only for that language.',
 ['src/hash/languages.gperf', 'src/hash/parsers.gperf', 'src/hash/extensions.gperf', 'src/hash/filenames.gperf', 'src/parser.c'],
 [('perfect hash tables', 'src/hash/*.gperf'), ('ohcount_parse dispatch', 'src/parser.c')],
 'property-based testing (frozen tables as oracle; near-miss names; every detectable path parsed)', 'Names up to 40 bytes; every table key is visited.')
prop('C12', 'Licences are reported exactly when their notices stand in comments',
 'Every supported licence whose notice stands in a file\'s comments is reported once, in any language, letter case, wrapping over lines and comment decoration; a licence is not reported for text outside comments, for an interrupted notice, or when a more specific licence explains the notice.',
 ['inputs'], 'every placement, wrapping and combination of notices in every language with punctuation comment markers, and in files of several languages',
 'Tests have about 100 fixed files, one layout each, mostly C.',
 ['src/licenses.c', 'src/sourcefile.c'], [('license regular expressions and overrides', 'src/licenses.c'), ('comment clean-up before matching', 'src/licenses.c')],
 'property-based testing (generated comments around known notices)', 'Only the first match of each licence is examined by the tool (known limits); notices of which one begins like another are not combined.')
prop('C13', 'Lines added and removed are those of a shortest edit script',
 'For any two texts the numbers of lines added and removed are those of a shortest line edit script: removed is the number of lines of the first text outside a longest common subsequence, added that of the second. '
 'A text against itself gives zero, exchanging the texts exchanges the numbers, and the size of the texts makes no difference.',
 ['inputs'], 'every pair of texts, small and large', 'Tests compare three pairs of tiny files.',
 ['src/diff.c'], [('LCS by compareseq over equivalence classes', 'src/diff.c'), ('external diff for large texts', 'src/diff.c')],
 'property-based testing (dynamic-programming longest common subsequence as oracle)', 'Texts over 100 kB are built with a known edit distance.')
prop('C14', 'The difference of two revisions is the line difference per language',
 'Comparing two revisions reports, for every language in either, the lines of a shortest edit script between its code, and between its comments, with blank lines counted by their number; languages come once each, exchanging the revisions exchanges added and removed, '
 'and for each language added minus removed equals the change of its totals.',
 ['inputs', 'histories'], 'every pair of revisions, of one or of several languages', 'Tests compare two or three fixed pairs.',
 ['src/sourcefile.c', 'src/diff.c', 'src/loc.c'], [('ohcount_sourcefile_diff', 'src/sourcefile.c'), ('LocDelta lists', 'src/loc.c')],
 'property-based testing (model: per-language LCS over the reported lines)', 'Random search; edits that leave a comment open are skipped.')
prop('C15', 'Totals and merges of counts are sums per language',
 'Adding counts or changes to lists, merging lists, compacting them and looking up a language behave as per-language sums, whatever the order of operations: an entry per language, merged lists left as they were, grand totals the sum over languages, '
 'net changes added minus removed, and compacting removes exactly the empty entries.',
 ['histories'], 'every sequence of list operations', 'Tests run a few fixed sequences.',
 ['src/loc.c', 'src/structs.h'], [('LocList', 'src/loc.c'), ('LocDeltaList', 'src/loc.c')], 'stateful property-based testing (dictionary model)', 'Random programs of up to 40 operations on three lists.')
prop('C16', 'Analysing directories counts every regular file below them once',
 'Adding a directory finds every regular file below it exactly once (also through file links, in nested directories, with any name), never enters hidden directories, follows no directory link and reports no pipe or dangling link; '
 'the totals of the list are the sums of the totals of its files.',
 ['inputs', 'configurations'], 'every directory tree and sequence of added paths', 'Tests walk one fixed directory.',
 ['src/sourcefile.c'], [('ohcount_sourcefile_list_add_directory', 'src/sourcefile.c'), ('ohcount_sourcefile_list_analyze_languages', 'src/sourcefile.c')],
 'property-based testing (generated trees)', 'Trees of up to a dozen entries.')
prop('C17', 'The command line reports agree with one another and with the library',
 'For any arguments each option of the command line tool reports every file found once, in the documented format, with the values the library gives: detected languages, annotated lines, raw entities, individual counts, licences, and a summary sorted by code whose rows and total '
 'are the sums over files; short and long options agree, and paths that do not exist are named and skipped.',
 ['inputs', 'configurations'], 'every tree, argument list and option', 'Tests never run the program.',
 ['src/ohcount.c', 'src/sourcefile.c', 'src/loc.c'], [('annotate, detect, individual, summary, licenses', 'src/ohcount.c')],
 'property-based testing (differential: program against library)', 'Random trees and arguments.')
prop('C18', 'Analysing any number of files uses nothing up',
 'Once its source files, lists and differences are freed, any sequence of detections, parses, counts, licence searches, comparisons and directory walks leaves no memory allocated, no descriptor open and no temporary file behind that it did not leave the first time: '
 'repeating it costs nothing, whether the contents come from memory, disk or another place or cannot be read.',
 ['inputs', 'histories'], 'every sequence of operations on every set of files, repeated', 'Tests run each operation a few times in a process that ends at once.',
 ['src/sourcefile.c', 'src/diff.c', 'src/detector.c', 'src/licenses.c', 'src/loc.c', 'src/parsed_language.c'], [('what is freed with a file or list', 'src/sourcefile.c'), ('temporary files of large comparisons', 'src/diff.c')],
 'stateful property-based testing (resource balance over repeated random operation sequences)', 'What the first round leaves (caches) is not judged.')
prop('C19', 'A file answers the same from disk and memory, in any order of questions',
 'Language, size, contents, lines, counts and licences of a file are the same whether its contents are read from disk, from another path or given in memory, and whatever was asked before. A language set by hand is used and an unknown one ignored; '
 'a file that cannot be read has no lines and differs from another by all of that one\'s lines; a path is split at its last separator and the last dot after it.',
 ['inputs', 'histories'], 'every file, origin of contents and sequence of questions', 'Tests ask single questions of single files.',
 ['src/sourcefile.c'], [('lazy contents, language and parse', 'src/sourcefile.c'), ('path decomposition', 'src/sourcefile.c')],
 'stateful property-based testing (any order of questions against a fresh file)', 'Random sequences.')
GS = ['ruby/gestalt.rb', 'ruby/gestalt/*.rb', 'ruby/gestalt/rules/*.rb']
prop('C20', 'A list of files is reported as exactly the gestalts its rules establish',
 'The gestalts (platforms, tools, libraries) reported for a list of files are exactly those whose definition holds of it, each once, with count 1: `_or`, `_and` and `_not` are the logical connectives; keyword rules need their number of matches in the code '
 '(not comments) of files of their language, C headers their includes, imports, usings and project imports their statements, Maven rules the declared dependencies and plugins, file name rules matching paths, language rules the language and its share of the code lines; '
 'a gestalt may depend on others in any order of definition. This holds for the built-in definitions and for any defined through the DSL, for files from disk or memory, in any order, and a malformed project file never hides what the others establish.',
 ['inputs', 'configurations'], 'every list of files and every set of definitions', 'Tests hold one or two directories per definition; thresholds, near misses, negations and dependencies between definitions are unbounded.',
 GS, [('rule evaluation', 'ruby/gestalt/rules/*.rb'), ('fixed point over definitions', 'ruby/gestalt/gestalt_engine.rb'), ('built-in definitions', 'ruby/gestalt/*definitions.rb')],
 'property-based testing (reference model of the rules; files generated towards the definitions and near misses)',
 'Random search against an independent model; the built-in definitions are frozen as the model\'s table.')
prop('C21', 'The Ruby binding gives what the C library gives',
 'A source file or list of the Ruby binding answers as the C library does for the same contents, location and sibling file names: language, contents, size, line counts and their totals, breakdowns, licences, differences, list members and summed counts, '
 'in any order of questions, however the file is given; and what was asked stays valid after the file or list it came from has been garbage collected.',
 ['inputs', 'histories'], 'every file, way of giving it and sequence of questions', 'Tests ask a few methods of a few files and never collect garbage.',
 ['ruby/ohcount.rb', 'ruby/ohcount.i'], [('typemaps and extensions', 'ruby/ohcount.i'), ('list conversion and ownership', 'ruby/ohcount.rb')],
 'differential property-based testing (Ruby binding against the C library)', 'Random sequences.')
