// Request server around the ohcount library's public C API, used by every property check.
// Frames on stdin/stdout: u32 length, body.  Request = op byte, then fields (u32 length, bytes; 0xffffffff = absent).
// Every case runs in a fork of its own, so a crash (or a sanitizer abort) is an ordinary, attributable answer and no
// state survives from case to case.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>

#include "detector.h"
#include "diff.h"
#include "languages.h"
#include "licenses.h"
#include "loc.h"
#include "parser.h"
#include "sourcefile.h"

struct ParserMap { const char *key; void (*parser)(char *, int, int, void(*) (const char *, const char *, int, int, void *), void *); };
struct ParserMap *ohcount_hash_parser_from_language(register const char *str, register size_t len);

static int OUTFD = 1;
static uint8_t *in; static uint32_t inlen, inpos;
static uint8_t *out; static size_t outlen, outcap;

static int rd(void *p, size_t n) {
  uint8_t *b = p;
  while (n) { ssize_t k = read(0, b, n); if (k == 0) return 0; if (k < 0) { if (errno == EINTR) continue; return 0; } b += k; n -= k; }
  return 1;
}
static void wr(const void *p, size_t n) {
  const uint8_t *b = p;
  while (n) { ssize_t k = write(OUTFD, b, n); if (k < 0) { if (errno == EINTR) continue; _exit(9); } b += k; n -= k; }
}
static void need(size_t n) { if (outlen + n > outcap) { outcap = (outlen + n) * 2 + 64; out = realloc(out, outcap); } }
static void o_raw(const void *p, size_t n) { need(n); memcpy(out + outlen, p, n); outlen += n; }
static void o_i(int64_t v) { char t = 'i'; o_raw(&t, 1); o_raw(&v, 8); }
static void o_b(const void *p, size_t n) { char t = 'b'; uint32_t l = n; o_raw(&t, 1); o_raw(&l, 4); o_raw(p, n); }
static void o_s(const char *s) { if (!s) { char t = 'n'; o_raw(&t, 1); } else o_b(s, strlen(s)); }
static void send_out(void) { uint32_t l = outlen; wr(&l, 4); wr(out, outlen); outlen = 0; }

static uint32_t u32(void) { uint32_t v; if (inpos + 4 > inlen) _exit(8); memcpy(&v, in + inpos, 4); inpos += 4; return v; }
// A field, as an exactly-sized NUL-terminated heap copy (so that overreads are seen), or NULL when absent.
static char *field(uint32_t *n) {
  uint32_t l = u32(); if (n) *n = 0;
  if (l == 0xffffffffu) return NULL;
  if (inpos + l > inlen) _exit(8);
  char *s = malloc(l + 1); memcpy(s, in + inpos, l); s[l] = 0; inpos += l; if (n) *n = l; return s;
}
static int ifield(void) { return (int)u32(); }

#define NSLOT 64
static SourceFile *slot[NSLOT]; static char **fnames[NSLOT];

static void ev(const char *lang, const char *ent, int s, int e, void *ud) { ++*(int *)ud; o_s(lang); o_s(ent); o_i(s); o_i(e); }
static void o_deltas(LocDeltaList *l) {
  for (LocDeltaList *i = l->head; i; i = i->next) { LocDelta *d = i->delta; o_s(d->language);
    o_i(d->code_added); o_i(d->code_removed); o_i(d->comments_added); o_i(d->comments_removed); o_i(d->blanks_added); o_i(d->blanks_removed); }
}
static void o_locs(LocList *l) {
  for (LocList *i = l->head; i; i = i->next) { Loc *d = i->loc; o_s(d->language); o_i(d->code); o_i(d->comments); o_i(d->blanks); o_i(d->filecount); }
}
static void freeslot(int i) {
  if (slot[i]) { ohcount_sourcefile_free(slot[i]); slot[i] = NULL; }
  if (fnames[i]) { for (char **f = fnames[i]; *f; f++) free(*f); free(fnames[i]); fnames[i] = NULL; }
}
// canonical language string (library memory, as callers are told to use)
static const char *canon(char *name) {
  struct LanguageMap *m = ohcount_hash_language_from_name(name, strlen(name));
  return m ? m->name : NULL;
}
// the name, every other time at an address of its own (callers may keep names of their own as well)
static const char *varied(char *name) {
  static char *own[64]; static int n, odd;
  const char *c = canon(name);
  if (!c || (odd ^= 1)) return c;
  for (int i = 0; i < n; i++) if (strcmp(own[i], c) == 0) return own[i];
  return n < 64 ? own[n++] = strdup(c) : c;
}

// temporary files: every one made is remembered
static char *temps[256]; static int ntemps;
int __real_mkstemp(char *t);
int __wrap_mkstemp(char *t) { int fd = __real_mkstemp(t); if (fd >= 0 && ntemps < 256) temps[ntemps++] = strdup(t); return fd; }
size_t __sanitizer_get_current_allocated_bytes(void);
static void usage(void) {
  int left = 0, fds = 0;
  for (int i = 0; i < ntemps; i++) { left += access(temps[i], F_OK) == 0; free(temps[i]); }
  ntemps = 0;
  DIR *d = opendir("/proc/self/fd"); if (d) { while (readdir(d)) fds++; closedir(d); }
  size_t n = __sanitizer_get_current_allocated_bytes() - outcap;
  o_i(fds); o_i(left); o_i(n);
}
static void countev(const char *lang, const char *ent, int s, int e, void *ud) { ++*(int *)ud; }

static int handle(void) {
  char op = in[0]; inpos = 1; uint32_t n;
  switch (op) {
  case 'N': { // slot, path, contents?, diskpath?, language?, nfilenames|-1, filenames...
    int i = ifield(); freeslot(i);
    char *path = field(NULL), *c = field(NULL), *dp = field(NULL), *lg = field(NULL); int k = ifield();
    slot[i] = ohcount_sourcefile_new(path); free(path);
    if (c) { ohcount_sourcefile_set_contents(slot[i], c); free(c); }
    if (dp) { ohcount_sourcefile_set_diskpath(slot[i], dp); free(dp); }
    if (lg) { ohcount_sourcefile_set_language(slot[i], lg); free(lg); }
    if (k >= 0) { fnames[i] = calloc(k + 1, sizeof(char *)); for (int j = 0; j < k; j++) fnames[i][j] = field(NULL); slot[i]->filenames = fnames[i]; }
    break; }
  case 'E': { int i = ifield(); char *c = field(NULL); ohcount_sourcefile_set_contents(slot[i], c); free(c); break; }
  case 'H': { int i = ifield(); char *c = field(NULL); ohcount_sourcefile_set_language(slot[i], c); free(c); break; }
  case 'h': { int i = ifield(); char *c = field(NULL); ohcount_sourcefile_set_diskpath(slot[i], c); free(c); break; }
  case 'R': freeslot(ifield()); break;
  case 'A': { SourceFile *s = slot[ifield()]; o_s(s->filepath); o_s(s->filename); o_s(s->ext); o_i(s->dirpath); o_i(s->filename - s->filepath); o_i(s->ext - s->filepath); break; }
  case 'L': o_s(ohcount_sourcefile_get_language(slot[ifield()])); break;
  case 'C': { SourceFile *s = slot[ifield()]; char *c = ohcount_sourcefile_get_contents(s); int z = ohcount_sourcefile_get_contents_size(s);
    o_i(z); if (c && z >= 0) o_b(c, z); else o_s(NULL); break; }
  case 'Z': { o_i(ohcount_sourcefile_get_contents_size(slot[ifield()])); break; }
  case 'p': ohcount_sourcefile_parse(slot[ifield()]); break;
  case 'P': { int i = ifield(), count = ifield(); int c = 0;
    if (count) ohcount_sourcefile_parse_with_callback(slot[i], ev, &c); else ohcount_sourcefile_parse_entities_with_callback(slot[i], ev, &c); break; }
  case 'K': { ParsedLanguageList *l = ohcount_sourcefile_get_parsed_language_list(slot[ifield()]);
    for (l = l->head; l; l = l->next) { ParsedLanguage *p = l->pl; o_s(p->name); o_s(p->code); o_s(p->comments); o_i(p->code_count); o_i(p->comments_count); o_i(p->blanks_count); } break; }
  case 'O': { SourceFile *s = slot[ifield()]; LocList *l = ohcount_sourcefile_get_loc_list(s); o_locs(l); break; }
  case 'I': { LicenseList *l = ohcount_sourcefile_get_license_list(slot[ifield()]); for (l = l->head; l; l = l->next) o_s(l->lic->name); break; }
  case 'D': { int a = ifield(), b = ifield(); LocDeltaList *l = ohcount_sourcefile_diff(slot[a], slot[b]); o_deltas(l); ohcount_loc_delta_list_free(l); break; }
  case 'd': { int a = ifield(), b = ifield(); char *lg = field(NULL); const char *cl = canon(lg); free(lg);
    LocDelta *d = ohcount_sourcefile_calc_loc_delta(slot[a], cl, slot[b]);
    o_s(d->language); o_i(d->code_added); o_i(d->code_removed); o_i(d->comments_added); o_i(d->comments_removed); o_i(d->blanks_added); o_i(d->blanks_removed);
    ohcount_loc_delta_free(d); break; }
  case 'c': { char *a = field(NULL), *b = field(NULL); int ad = -1, rm = -1; ohcount_calc_diff(a, b, &ad, &rm); o_i(ad); o_i(rm); free(a); free(b); break; }
  case 'B': { char *a = field(NULL); o_i(ohcount_is_binary_filename(a)); free(a); break; }
  case 'W': { // n, then (kind 0 file / 1 dir, path)*; then want: 0 paths, 1 paths + loc list
    SourceFileList *l = ohcount_sourcefile_list_new(); int k = ifield();
    for (int j = 0; j < k; j++) { int kind = ifield(); char *p = field(NULL);
      if (kind) ohcount_sourcefile_list_add_directory(l, p); else ohcount_sourcefile_list_add_file(l, p); free(p); }
    int want = ifield(); int c = 0;
    for (SourceFileList *i = l->head; i; i = i->next) c++;
    o_i(c);
    for (SourceFileList *i = l->head; i; i = i->next) o_s(i->sf->filepath);
    if (want) { LocList *ll = ohcount_sourcefile_list_analyze_languages(l); o_locs(ll); ohcount_loc_list_free(ll); }
    ohcount_sourcefile_list_free(l); break; }
  case 'M': { // loc list program: nlists lists; ops
    int k = ifield(); LocList *L[8] = {0}; for (int j = 0; j < 8; j++) L[j] = ohcount_loc_list_new();
    for (int j = 0; j < k; j++) { char o = ifield();
      if (o == 'a') { int i = ifield(); char *lg = field(NULL); const char *c = varied(lg); free(lg); int a = ifield(), b = ifield(), d = ifield(), f = ifield();
        Loc *x = ohcount_loc_new(c, a, b, d, f); ohcount_loc_list_add_loc(L[i], x); o_i(ohcount_loc_total(x)); ohcount_loc_free(x); }
      else if (o == 'l') { int i = ifield(), q = ifield(); ohcount_loc_list_add_loc_list(L[i], L[q]); }
      else if (o == 'c') { int i = ifield(), q = ifield(); LocList *x = ohcount_loc_list_new_compact(L[q]); ohcount_loc_list_free(L[i]); L[i] = x; }
      else if (o == 'g') { int i = ifield(); char *lg = field(NULL); Loc *x = ohcount_loc_list_get_loc(L[i], lg); free(lg);
        if (x) { o_s(x->language); o_i(x->code); o_i(x->comments); o_i(x->blanks); o_i(x->filecount); o_i(ohcount_loc_total(x)); } else o_s(NULL); }
      else if (o == 's') { int i = ifield(); o_i(ohcount_loc_list_code(L[i])); o_i(ohcount_loc_list_comments(L[i])); o_i(ohcount_loc_list_blanks(L[i])); o_i(ohcount_loc_list_total(L[i])); o_i(ohcount_loc_list_filecount(L[i])); }
      else if (o == 'd') { int i = ifield(); int c = 0; for (LocList *x = L[i]->head; x; x = x->next) c++; o_i(c); o_locs(L[i]); }
      else if (o == 'e') { char *l1 = field(NULL), *l2 = field(NULL); int v[8]; for (int q = 0; q < 8; q++) v[q] = ifield();
        Loc *x = ohcount_loc_new(varied(l1), v[0], v[1], v[2], v[3]), *y = ohcount_loc_new(varied(l2), v[4], v[5], v[6], v[7]);
        o_i(!!ohcount_loc_is_equal(x, y)); ohcount_loc_add_loc(x, y); o_i(x->code); o_i(x->comments); o_i(x->blanks); o_i(x->filecount);
        ohcount_loc_free(x); ohcount_loc_free(y); free(l1); free(l2); }
    }
    for (int j = 0; j < 8; j++) ohcount_loc_list_free(L[j]); break; }
  case 'm': { // loc delta list program
    int k = ifield(); LocDeltaList *L[8] = {0}; for (int j = 0; j < 8; j++) L[j] = ohcount_loc_delta_list_new();
    for (int j = 0; j < k; j++) { char o = ifield();
      if (o == 'a') { int i = ifield(); char *lg = field(NULL); const char *c = varied(lg); free(lg); int v[6]; for (int q = 0; q < 6; q++) v[q] = ifield();
        LocDelta *x = ohcount_loc_delta_new(c, v[0], v[1], v[2], v[3], v[4], v[5]); ohcount_loc_delta_list_add_loc_delta(L[i], x);
        o_i(ohcount_loc_delta_net_code(x)); o_i(ohcount_loc_delta_net_comments(x)); o_i(ohcount_loc_delta_net_blanks(x)); o_i(ohcount_loc_delta_net_total(x)); o_i(!!ohcount_loc_delta_is_changed(x));
        ohcount_loc_delta_free(x); }
      else if (o == 'l') { int i = ifield(), q = ifield(); ohcount_loc_delta_list_add_loc_delta_list(L[i], L[q]); }
      else if (o == 'c') { int i = ifield(), q = ifield(); LocDeltaList *x = ohcount_loc_delta_list_new_compact(L[q]); ohcount_loc_delta_list_free(L[i]); L[i] = x; }
      else if (o == 'g') { int i = ifield(); char *lg = field(NULL); LocDelta *x = ohcount_loc_delta_list_get_loc_delta(L[i], lg); free(lg);
        if (x) { o_s(x->language); o_i(x->code_added); o_i(x->code_removed); o_i(x->comments_added); o_i(x->comments_removed); o_i(x->blanks_added); o_i(x->blanks_removed); } else o_s(NULL); }
      else if (o == 's') { LocDeltaList *l = L[ifield()]; o_i(ohcount_loc_delta_list_code_added(l)); o_i(ohcount_loc_delta_list_code_removed(l)); o_i(ohcount_loc_delta_list_comments_added(l)); o_i(ohcount_loc_delta_list_comments_removed(l));
        o_i(ohcount_loc_delta_list_blanks_added(l)); o_i(ohcount_loc_delta_list_blanks_removed(l)); o_i(ohcount_loc_delta_list_net_code(l)); o_i(ohcount_loc_delta_list_net_comments(l)); o_i(ohcount_loc_delta_list_net_blanks(l)); o_i(ohcount_loc_delta_list_net_total(l)); }
      else if (o == 'd') { int i = ifield(); int c = 0; for (LocDeltaList *x = L[i]->head; x; x = x->next) c++; o_i(c); o_deltas(L[i]); }
      else if (o == 'e') { char *l1 = field(NULL), *l2 = field(NULL); int v[12]; for (int q = 0; q < 12; q++) v[q] = ifield();
        LocDelta *x = ohcount_loc_delta_new(varied(l1), v[0], v[1], v[2], v[3], v[4], v[5]), *y = ohcount_loc_delta_new(varied(l2), v[6], v[7], v[8], v[9], v[10], v[11]);
        o_i(!!ohcount_loc_delta_is_equal(x, y)); ohcount_loc_delta_add_loc_delta(x, y);
        o_i(x->code_added); o_i(x->code_removed); o_i(x->comments_added); o_i(x->comments_removed); o_i(x->blanks_added); o_i(x->blanks_removed);
        ohcount_loc_delta_free(x); ohcount_loc_delta_free(y); free(l1); free(l2); }
    }
    for (int j = 0; j < 8; j++) ohcount_loc_delta_list_free(L[j]); break; }
  case 'G': { char *a = field(&n); struct LanguageMap *m = ohcount_hash_language_from_name(a, n);
    if (m) { o_s(m->key); o_s(m->name); o_s(m->nice_name); o_i(m->category); } else o_s(NULL);
    o_i(ohcount_hash_parser_from_language(a, n) != NULL); free(a); break; }
  case 'V': usage(); break;
  case 'j': { int i = ifield(), count = ifield(), cb = ifield(), c = 0; o_i(ohcount_parse(slot[i], count, cb ? countev : NULL, &c)); o_i(c); break; }
  case 'i': { LicenseList *l = ohcount_sourcefile_get_license_list(slot[ifield()]); for (l = l->head; l; l = l->next) { o_s(l->lic->name); o_s(l->lic->nice_name); o_s(l->lic->url); } break; }
  case 'q': break;
  default: _exit(7);
  }
  return 1;
}

// A frame is one case: a sequence of (u32 length, request).  A forked child serves them, one reply frame each;
// then the parent sends 'E' (clean end) or 'C' (crash; exit status, or minus the signal).
int main(void) {
  OUTFD = dup(1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); // library prints cannot disturb the protocol
  signal(SIGPIPE, SIG_IGN);
  for (;;) {
    uint32_t l; if (!rd(&l, 4)) _exit(0);
    uint8_t *buf = malloc(l + 1); if (!rd(buf, l)) _exit(0);
    pid_t p = fork();
    if (p == 0) {
      struct rlimit r = {20, 25}; setrlimit(RLIMIT_CPU, &r);
      for (uint32_t pos = 0; pos + 4 <= l; ) {
        memcpy(&inlen, buf + pos, 4); in = buf + pos + 4; pos += 4 + inlen; if (pos > l) _exit(8);
        char t = 'A'; o_raw(&t, 1); handle(); send_out();
      }
      for (int i = 0; i < NSLOT; i++) freeslot(i);
      _exit(0);
    }
    free(buf);
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    char t = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 'E' : 'C'; o_raw(&t, 1);
    o_i(WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st)); send_out();
  }
}
