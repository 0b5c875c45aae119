// libFuzzer target: any bytes, as a file of any language, through both scanners, the breakdown, the licences, the detector and the diff.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "detector.h"
#include "diff.h"
#include "languages.h"
#include "licenses.h"
#include "loc.h"
#include "parser.h"
#include "sourcefile.h"

static const char *LANGS[] = {
#include "fuzzlangs.inc"
};
#define NL (sizeof(LANGS) / sizeof(*LANGS))
static const char *PATHS[] = {"a.m", "a.h", "b.b", "c.bas", "d.cs", "e.dat", "f.def", "g.fs", "h.f", "i.in", "x.h.in", "j.inc", "k.mod", "l.pp", "m.pl", "n.pro", "o.r", "p.rs", "q.st", "s.asx", "t.aspx", "noext", "dir.d/Makefile", ".hidden", "u.", "v.html", "w.php"};
static size_t LEN;
static void ev(const char *lang, const char *ent, int s, int e, void *ud) {
  if (!lang || !ent || s < 0 || e < s || (size_t)e > LEN) { fprintf(stderr, "SUMMARY: entity %s/%s spans %d-%d of %zu bytes\n", lang ? lang : "?", ent ? ent : "?", s, e, LEN); abort(); }
  ++*(int *)ud;
}
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  if (n < 3) return 0;
  int lg = d[0] % NL, mode = d[1]; d += 2; n -= 2;
  char *t = malloc(n + 1); size_t k = 0;
  for (size_t i = 0; i < n; i++) if (d[i]) t[k++] = d[i];
  t[k] = 0; LEN = k; int c = 0;
  if (mode & 128) {
    SourceFile *f = ohcount_sourcefile_new(PATHS[lg % (sizeof(PATHS) / sizeof(*PATHS))]); ohcount_sourcefile_set_contents(f, t);
    char *names[] = {"a.m", "b.h", "c.cpp", "frm.frm", NULL}; if (mode & 1) f->filenames = names + (mode >> 1 & 3);
    // libmagic itself is not what is fuzzed
    const char *r = strrchr(f->filename, '.') ? ohcount_sourcefile_get_language(f) : NULL; (void)r;
    ohcount_sourcefile_free(f); free(t); return 0;
  }
  SourceFile *f = ohcount_sourcefile_new("f"); ohcount_sourcefile_set_contents(f, t); ohcount_sourcefile_set_language(f, LANGS[lg]);
  ohcount_sourcefile_parse_with_callback(f, ev, &c);
  ohcount_sourcefile_parse_entities_with_callback(f, ev, &c);
  if (mode & 1) {
    SourceFile *g = ohcount_sourcefile_new("f"); char *h = strdup(t); for (char *p = h; *p; p++) if (*p == 'x') *p = 'y';
    ohcount_sourcefile_set_contents(g, h); ohcount_sourcefile_set_language(g, LANGS[lg]);
    LocDeltaList *l = ohcount_sourcefile_diff(f, g); ohcount_loc_delta_list_free(l); ohcount_sourcefile_free(g); free(h);
  } else ohcount_sourcefile_get_loc_list(f);
  if ((mode & 6) == 6) ohcount_sourcefile_get_license_list(f);
  ohcount_sourcefile_free(f); free(t);
  return 0;
}
