"actionscript", "ada", "ampl", "assembler", "augeas", "autoconf", "automake", "awk", "bat", "bash", "blitzmax", "boo", "brainfuck", "bfpp", "c", "chaiscript", 
"classic_basic", "clearsilver", "clearsilver_template", "clojure", "cmake", "coffeescript", "coq", "cpp", "crystal", "cs_aspx", "csharp", "css", "cuda", 
"dart", "dcl", "dmd", "dylan", "ebuild", "ec", "eiffel", "elm", "emacslisp", "erlang", "exheres", "factor", "forth", "fortranfixed", "fortranfree", "fsharp", 
"genie", "glsl", "golang", "grace", "groovy", "haml", "haskell", "haxe", "html", "idl_pvwave", "jam", "java", "javascript", "julia", "jsp", "kotlin", "limbo", 
"lisp", "livecode", "logtalk", "lua", "make", "mathematica", "matlab", "metafont", "metapost", "metapost_with_tex", "modelica", "modula2", "modula3", "mxml", 
"nix", "nsis", "oberon", "objective_c", "objective_j", "ocaml", "octave", "pascal", "perl", "php", "pike", "postscript", "powershell", "prolog", "puppet", 
"python", "qml", "r", "racket", "rebol", "rexx", "rhtml", "ruby", "rust", "scala", "scheme", "scilab", "shell", "smalltalk", "stratego", "structured_basic", 
"sql", "swift", "tcl", "tex", "tex_dtx", "umple", "unrealscript", "typescript", "vala", "vb_aspx", "vhdl", "vim", "visualbasic", "xaml", "xml", "xslt", 
"xmlschema", 