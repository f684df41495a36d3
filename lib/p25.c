/* P25 driver: threads run seeded programs of calls into the library on their own data, first
   concurrently, then once more one at a time; the digests of everything the calls returned must agree.
   Built with ThreadSanitizer, which reports data races on stderr.
   usage: p25 SEED THREADS OPS ROUNDS INIT FAMILIES */
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <errno.h>
#include "utils/err.h"
#include "utils/rng.h"
#include "utils/uuid.h"
#include "utils/uuid4.h"
#include "utils/sha1.h"
#include "utils/md5.h"
#include "utils/sha3.h"
#include "utils/jsmnx.h"
#include "utils/jstore.h"
#include "utils/strutils.h"
#include "utils/strtob.h"
#include "utils/urlsplit.h"
#include "utils/uri_encode.h"
#include "utils/globmatch.h"
#include "utils/infixcalc.h"
#include "utils/tgen.h"
#include "utils/fileutils.h"
#include "utils/bson.h"
#include "dlite.h"
#include "dlite-macros.h"
#include "dlite-behavior.h"

#define MAXT 16
#define MAXU 4096
enum { F_ERR, F_RNG, F_UUID4, F_UUID, F_SHA1, F_MD5, F_SHA3, F_JSMN, F_JSTORE, F_QUOTE, F_STRLST, F_URL, F_PCT, F_GLOB, F_CALC, F_TGEN,
       F_PATH, F_BSON, F_TYPE, F_DURL, F_META, F_OPT, F_NOISE, F_HEX, NFAM };
static const char *famname[] = {"err", "rng", "uuid4", "uuid", "sha1", "md5", "sha3", "jsmn", "jstore", "quote", "strlst", "url", "pct", "glob",
  "calc", "tgen", "path", "bson", "type", "durl", "meta", "opt", "modes", "hex"};

typedef struct {
  int id;
  uint64_t seed, rs;            /* seed and state of the program generator */
  uint64_t ds;                  /* state of the delay generator */
  int ops, conc;
  uint64_t digest, perop[4096];
  long events, handled;
  int nu;
  char u[MAXU][37];
  char bad[200];
} T;

static int running[MAXT];       /* family each thread is in; relaxed atomics (no ordering, hides no race) */
static unsigned char pairs[NFAM][NFAM];
static unsigned fams;
static __thread T *me;
static pthread_barrier_t barrier;

static uint64_t mix(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static uint64_t R(void) { return mix(&me->rs); }
static int N(int n) { return (int)(R() % (uint64_t)n); }
static void out(const void *p, size_t n) { const unsigned char *b = p; size_t i; uint64_t h = me->digest; for (i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL; me->digest = h; me->events++; }
static void outs(const char *s) { if (s) out(s, strlen(s) + 1); else out("\1", 1); }
static void outi(long v) { out(&v, sizeof v); }
static void bad(const char *what, long a, long b) { if (!*me->bad) snprintf(me->bad, sizeof me->bad, "%s: %ld, expected %ld", what, a, b); }
static void nap(void)
{
  if (!me->conc) return;
  uint64_t r = mix(&me->ds);
  if (r % 8 == 0) sched_yield();
  else if (r % 64 == 1) { struct timespec ts = {0, (long)(r >> 32) % 50000}; nanosleep(&ts, NULL); }
}
static char *text(char *buf, int max)
{
  static const char chars[] = "abcdefghijABCDEFGH0123456789 \"\\/\n\t:;=&?#%[]{},.*-_+";
  int i, n = N(max);
  for (i = 0; i < n; i++) buf[i] = chars[N(sizeof(chars) - 1)];
  buf[n] = 0;
  return buf;
}
static char *word(char *buf, int max)
{
  int i, n = 1 + N(max - 1);
  for (i = 0; i < n; i++) buf[i] = (i ? "abcdefghijklmnopqrstuvwxyz0123456789_" : "abcdefghijklmnopqrstuvwxyz")[N(i ? 37 : 26)];
  buf[n] = 0;
  return buf;
}

/* the handler is shared, the records are not */
static void handler(const ErrRecord *r)
{
  char tag[32];
  snprintf(tag, sizeof tag, "<%016llx>", (unsigned long long)me->seed);
  me->handled++;
  if (strncmp(r->msg, "tagged", 6) == 0 && !strstr(r->msg, tag)) bad("handler got the message of another thread", r->eval, 0);
  outi(r->level); outi(r->eval); outs(r->msg);
}

static int raise_err(int depth)
{
  int e = -1 - N(40);
  errno = 0;
  switch (N(5)) {
  case 0: errx(e, "tagged <%016llx> %d", (unsigned long long)me->seed, depth); break;
  case 1: err(e, "tagged <%016llx> %d", (unsigned long long)me->seed, depth); break;
  case 2: warnx("tagged <%016llx> %d", (unsigned long long)me->seed, depth); break;
  case 3: errno = EIO; err(e, "tagged <%016llx> errno", (unsigned long long)me->seed); errno = 0; break;
  case 4: errx(e, "tagged <%016llx> %0*d", (unsigned long long)me->seed, 1 + N(1200), depth); break;
  }
  nap();
  return e;
}

static void tryblock(int depth)
{
  volatile int c1 = -1 - N(40), rr = N(6);
  ErrTry:
    if (N(3)) raise_err(depth);
    if (depth < 3 && N(2)) tryblock(depth + 1);
    if (N(4) == 0) err_raisex(c1, "tagged <%016llx> raised", (unsigned long long)me->seed);
    nap();
    outi(err_geteval());
    break;
  ErrCatch(c1):
    outi(err_geteval()); outs(err_getmsg());
    nap();
    if (rr == 0 && depth > 0) err_reraise();
    break;
  ErrOther:
    outi(err_geteval()); outs(err_getmsg());
    nap();
    if (rr == 1 && depth > 0) err_reraise();
    break;
  ErrElse:
    outi(depth);
    break;
  ErrFinally:
    outi(100 + depth);
  ErrEnd;
}

static int tfun(TGenBuf *s, const char *template, int len, TGenSubs *subs, void *context)
{
  int i, n = *(int *)context;
  char b[20];
  for (i = 0; i < n; i++) {
    snprintf(b, sizeof b, "%d", i);
    if (tgen_subs_set(subs, "i", b, NULL)) return 1;
    if (tgen_append(s, template, len, subs, context)) return 1;
    nap();
  }
  return 0;
}

static void op(int f)
{
  char a[300], b[300], cc[300], d[2000];
  int i, n;
  switch (f) {
  case F_ERR:
    err_clear();
    switch (N(4)) {
    case 0: n = raise_err(0); outi(n); outi(err_geteval()); outs(err_getmsg()); nap(); outi(err_getlevel()); break;
    default: tryblock(0); outi(err_geteval()); outs(err_getmsg());
    }
    if (*err_getmsg()) {
      snprintf(a, sizeof a, "<%016llx>", (unsigned long long)me->seed);
      if (!strstr(err_getmsg(), a)) bad("message of another thread", err_geteval(), 0);
    }
    err_clear();
    if (err_geteval() || *err_getmsg()) bad("not cleared", err_geteval(), 0);
    break;
  case F_NOISE: {               /* modes are per thread */
    int l = N(5), w = N(3), o = N(5), g = N(3);
    err_set_level(l); err_set_warn_mode(w); err_set_override_mode(o); err_set_debug_mode(0);
    err_set_color_mode(0);
    nap();
    if (err_get_warn_mode() != w) bad("warn mode", err_get_warn_mode(), w);
    if (err_get_override_mode() != o) bad("override mode", err_get_override_mode(), o);
    if ((int)err_get_level() != (l ? l : errLevelWarn)) bad("level", err_get_level(), l);
    (void)g;
    if (o == errOverrideWarnOld || o == errOverrideWarnNew) err_set_override_mode(0);
    break; }
  case F_RNG: {
    MWCState m; MSWS32State s; MSWS64State q;
    srand_mwc_r(&m, 1 + N(1000000)); srand_msws32_r(&s, 1 + N(1000000)); srand_msws64_r(&q, 1 + N(1000000));
    nap();
    for (i = 0; i < 10; i++) { outi(rand_mwc_r(&m)); outi(rand_msws32_r(&s)); outi((long)rand_msws64_r(&q)); double x = drand_msws64_r(&q); out(&x, 8); x = drand_msws32_r(&s); out(&x, 8); }
    { unsigned char x[40]; int z = 0; if (random_seed(x, sizeof x)) bad("random_seed", 1, 0); for (i = 0; i < 40; i++) z |= x[i]; if (!z) bad("random_seed gave zeros", 0, 1); }
    break; }
  case F_UUID4:
    for (i = 0; i < 5; i++) if (me->nu < MAXU) {
      char *u = me->u[me->nu++];
      if (N(2)) { if (uuid4_generate(u)) bad("uuid4", 1, 0); }
      else if (dlite_get_uuid(u, NULL) < 0) bad("dlite_get_uuid", 1, 0);
      if (strlen(u) != 36 || u[14] != '4' || !strchr("89ab", u[19])) bad("malformed uuid4", (long)strlen(u), 36);
      outi(36);
    }
    break;
  case F_UUID: {
    uuid_s u, v;
    n = 1 + N(60);
    text(a, 100);
    uuid_create_sha1_from_name(&u, NameSpace_DNS, a, (int)strlen(a)); nap(); uuid_as_string(&u, b); outs(b);
    outi(uuid_from_string(&v, b, 36)); outi(uuid_compare(&u, &v));
    uuid_create_md5_from_name(&v, NameSpace_URL, a, (int)strlen(a)); uuid_as_string(&v, b); outs(b);
    outi(uuid_compare(&u, &v) != 0);
    outi(isuuid(b));
    word(a, 60);
    outi(dlite_get_uuid(b, a)); outs(b);
    break; }
  case F_SHA1: { SHA1_CTX x; unsigned char g[20]; SHA1Init(&x); for (i = N(8); i >= 0; i--) { text(a, 150); SHA1Update(&x, (unsigned char *)a, strlen(a)); nap(); } SHA1Final(g, &x); out(g, 20); SHA1(b, a, (int)strlen(a)); out(b, 20); break; }
  case F_MD5: { MD5_CTX x; unsigned char g[16]; MD5Init(&x); for (i = N(8); i >= 0; i--) { text(a, 150); MD5Update(&x, a, strlen(a)); nap(); } MD5Final(g, &x); out(g, 16); break; }
  case F_SHA3: { sha3_context x; n = (int[]){256, 384, 512}[N(3)]; sha3_Init(&x, n); if (N(2)) sha3_SetFlags(&x, SHA3_FLAGS_KECCAK); for (i = N(8); i >= 0; i--) { text(a, 150); sha3_Update(&x, a, strlen(a)); nap(); } out(sha3_Finalize(&x), n / 8); break; }
  case F_JSMN: {
    jsmn_parser p; jsmntok_t *tok = NULL; unsigned nt = 0; int r;
    n = 0;
    n += snprintf(d + n, sizeof d - n, "{");
    for (i = N(6); i >= 0; i--) n += snprintf(d + n, sizeof d - n, "\"k%d_%s\": [%d, {\"a\": %d.5, \"b\": [true, null]}]%s", i, word(a, 12), N(1000), N(1000), i ? "," : "");
    n += snprintf(d + n, sizeof d - n, "}");
    if (N(8) == 0) d[N(n)] = "{}[],:\"x"[N(8)];
    jsmn_init(&p);
    r = jsmn_parse_alloc(&p, d, n, &tok, &nt);
    outi(r);
    nap();
    if (r > 0) { for (i = 0; i < r; i++) { outi(tok[i].type); outi(tok[i].start); outi(tok[i].end); outi(tok[i].size); }
      const jsmntok_t *it = jsmn_item(d, tok, "k0_x"); outi(it != NULL); outi(jsmn_count(tok)); } else outs(jsmn_strerror(r));
    free(tok);
    outi(jsmn_required_tokens(d, n));
    err_clear();
    break; }
  case F_JSTORE: {
    JStore *js = jstore_open(); JStoreIter it; const char *k; char *s; long sum = 0;
    for (i = N(10); i >= 0; i--) { snprintf(b, sizeof b, "{\"%s\": %d}", word(cc, 10), N(1000)); jstore_add(js, word(a, 6), b); nap(); }
    if (N(2)) jstore_remove(js, a);
    outi(jstore_count(js));
    jstore_iter_init(js, &it);
    while ((k = jstore_iter_next(&it))) { for (; *k; k++) sum += *k * 31; sum += strlen(jstore_get(js, k) ? "" : ""); }
    jstore_iter_deinit(&it);
    outi(sum);
    if ((s = jstore_to_string(js))) { JStore *j2 = jstore_open(); outi((long)strlen(s)); outi(jstore_update_from_string(j2, s, (int)strlen(s))); outi(jstore_count(j2)); jstore_close(j2); free(s); }
    if (N(4) == 0) outi(jstore_update_from_string(js, "{\"a\": [1,", 9));
    jstore_close(js);
    err_clear();
    break; }
  case F_QUOTE:
    text(a, 120); outi(strquote(d, sizeof d, a)); outs(d); nap(); outi(strunquote(b, sizeof b, d, &n, 0)); outs(b); outi(n); outi(strcmp(a, b));
    outi(strcatspn(a, strcatUpper)); outi(strcatcspn(a, strcatLower)); outi(strchk_semver("1.2.3-rc1")); outi(strcmp_semver("1.2.3", N(2) ? "1.10.0" : "1.2.2"));
    { char *q = aprintf("%s|%d|%s", a, N(100), b); outs(q); free(q); }
    { char *e; outi(strtob((const char *[]){"yes", "no", "true", "off", "maybe"}[N(5)], &e)); }
    break;
  case F_HEX: { n = N(60); for (i = 0; i < n; i++) a[i] = N(256); outi(strhex_encode(d, sizeof d, (unsigned char *)a, n)); outs(d); nap(); outi(strhex_decode((unsigned char *)b, sizeof b, d, 2 * n)); out(b, n); break; }
  case F_STRLST: { char **l = NULL; size_t ln = 0; for (i = N(8); i >= 0; i--) l = strlst_insert(l, &ln, word(a, 10), N(5)); nap(); outi((long)strlst_count(l)); for (i = 0; i < (int)strlst_count(l); i++) outs(strlst_get(l, i)); strlst_remove(l, 0); { char *s = strlst_pop(l, 0); outs(s); free(s); } strlst_free(l); break; }
  case F_URL: {
    UrlComponents u;
    snprintf(a, sizeof a, "%s://%s.%s:%d/%s/%s?%s=%d#%s", "https", word(b, 8), "com", N(9999), "p", word(cc, 9), "q", N(99), "frag");
    outi(isurl(a)); outi(urlsplit(a, &u)); nap(); outi(u.scheme_len); outi(u.authority_len); outi(u.path_len); out(u.path, u.path_len); outi(u.query_len); outi(urljoin(d, sizeof d, &u)); outs(d);
    break; }
  case F_PCT: text(a, 90); outi(pct_encode(d, sizeof d, a)); outs(d); nap(); outi(pct_decode(b, sizeof b, d)); outs(b);
    n = (int)uri_encode(a, strlen(a), d); out(d, n); nap(); n = (int)uri_decode(d, n, b); out(b, n); break;
  case F_GLOB: word(a, 12); for (i = 0; a[i]; i++) b[i] = N(4) ? a[i] : "?*"[N(2)]; b[i] = 0; outi(globmatch(b, a)); outi(globmatch("[a-m]*", a)); outi(globmatch("*.json", a)); break;
  case F_CALC: {
    InfixCalcVariable v[] = {{"n", N(100)}, {"m", N(100)}, {"abc", N(9)}};
    n = 0; n += snprintf(d, sizeof d, "n");
    for (i = N(6); i > 0; i--) n += snprintf(d + n, sizeof d - n, "%c%s%d%s", "+-*"[N(3)], N(2) ? "(m+" : "(abc-", N(50), ")");
    if (N(8) == 0) snprintf(d + n, sizeof d - n, "+)");
    *b = 0;
    outi(infixcalc(d, v, 3, b, sizeof b)); outs(b); nap(); outi(infixcalc_depend(d, "m"));
    break; }
  case F_TGEN: {
    TGenSubs s; int ctx = N(5); char *r;
    tgen_subs_init(&s);
    tgen_subs_set(&s, "name", word(a, 10), NULL); tgen_subs_set_fmt(&s, "num", NULL, "%d", N(1000)); tgen_subs_set(&s, "loop", "", tfun);
    nap();
    r = tgen((const char *[]){"Hello {name}, {num%6d}! {loop:<{i}:{name}>}\n", "{name}{name%T}{@10}x {@if:{num}>500}big{@else}small{@endif}\n", "{loop:{i%.2} }{unknown}", "{@if:1}unbalanced"}[N(4)], &s, &ctx);
    outs(r); free(r);
    tgen_subs_deinit(&s);
    outi(err_geteval()); outs(err_getmsg());
    err_clear();
    break; }
  case F_PATH: {
    FUPaths p; char *s; const char *q; char *end = NULL;
    outs((s = fu_join("a", word(a, 8), word(b, 8), NULL))); outs(fu_fileext(s)); { char *z = fu_dirname(s); outs(z); free(z); z = fu_basename(s); outs(z); free(z); z = fu_stem(s); outs(z); free(z); } free(s);
    fu_paths_init(&p, NULL);
    for (i = N(6); i >= 0; i--) fu_paths_insert(&p, word(a, 8), N(2) ? 0 : -1);
    nap();
    outs((s = fu_paths_string(&p))); free(s);
    outi(fu_paths_index(&p, a));
    fu_paths_deinit(&p);
    snprintf(d, sizeof d, "/x/%s|y/%s;z", a, b);
    for (i = 0; (q = fu_nextpath(d, &end, "|;")) && i < 9; i++) out(q, end - q);
    s = fu_unixpath("C:\\tmp\\a", NULL, 0, NULL); outs(s); free(s);
    err_clear();
    break; }
  case F_BSON: {
    unsigned char *doc = (unsigned char *)d; int sz; double x = N(1000) / 8.0; int64_t v64 = (int64_t)R(); char *k; void *data; int end = 0; BsonType ty;
    sz = bson_init_document(doc, sizeof d); outi(sz);
    for (i = N(6); i >= 0; i--) { word(a, 10); switch (N(4)) { case 0: n = bson_append(doc, sizeof d - sz, bsonDouble, a, 8, &x); break; case 1: n = bson_append(doc, sizeof d - sz, bsonInt64, a, 8, &v64); break; case 2: n = bson_append(doc, sizeof d - sz, bsonString, a, -1, word(b, 30)); break; default: { unsigned char t = N(2); n = bson_append(doc, sizeof d - sz, bsonBool, a, 1, &t); } } outi(n); sz += n; nap(); }
    sz = bson_docsize(doc); out(doc, sz);
    { unsigned char *e = NULL; int m; for (i = 0; i < 10 && (m = bson_parse(doc, &k, &data, &sz, &e)) > 0; i++) { outi(m); outs(k); outi(sz); } }
    (void)end; (void)ty;
    err_clear();
    break; }
  case F_TYPE: {
    DLiteType ty = 0; size_t sz = 0; static const char *names[] = {"int8", "uint16", "int32", "uint64", "float32", "float64", "bool", "string10", "string", "blob7", "nosuch", "int7"};
    double x = N(100000) / 16.0; int32_t v = (int32_t)R(), w = 0;
    outi(dlite_type_set_dtype_and_size(names[N(12)], &ty, &sz)); outi(ty); outi((long)sz); outi(err_geteval()); outs(err_getmsg()); err_clear();
    nap();
    outi(dlite_type_set_typename(dliteFloat, 8, a, sizeof a)); outs(a);
    outi(dlite_type_print(a, sizeof a, &x, dliteFloat, 8, 0, -3, 0)); outs(a); { double y = 0; outi(dlite_type_scan(a, -1, &y, dliteFloat, 8, 0)); if (y != x) bad("float scanned", (long)y, (long)x); }
    outi(dlite_type_print(a, sizeof a, &v, dliteInt, 4, 0, -2, 0)); outs(a); outi(dlite_type_scan(a, -1, &w, dliteInt, 4, 0)); if (w != v) bad("int scanned", w, v);
    outi(dlite_type_scan("x", -1, &w, dliteInt, 4, 0)); outi(err_geteval()); outs(err_getmsg()); err_clear();
    outs(dlite_errname(-1 - N(30))); outi(dlite_errcode("DLiteIOError"));
    break; }
  case F_DURL: {
    char *p0, *p1, *p2, *p3, *s;
    snprintf(a, sizeof a, "json://%s/%s.json?mode=r;x=%d#%s", word(b, 8), "f", N(100), word(cc, 9));
    s = strdup(a); outi(dlite_split_url(s, &p0, &p1, &p2, &p3)); outs(p0); outs(p1); outs(p2); outs(p3); nap();
    { char *j = dlite_join_url(p0, p1, p2, p3); outs(j); if (j && strcmp(j, a)) bad("joined url differs", 0, 0); free(j); }
    free(s);
    err_clear();
    break; }
  case F_META: {
    char *p0 = NULL, *p1 = NULL, *p2 = NULL, *u;
    u = dlite_join_meta_uri(word(a, 9), "0.1", "http://onto-ns.com/meta"); outs(u); nap();
    outi(dlite_split_meta_uri(u, &p0, &p1, &p2)); outs(p0); outs(p1); outs(p2); free(p0); free(p1); free(p2); free(u);
    p0 = p1 = p2 = NULL;
    if (N(3) == 0) { snprintf(b, sizeof b, "x%016llx", (unsigned long long)me->seed); outi(dlite_split_meta_uri(b, &p0, &p1, &p2)); outi(err_geteval()); if (err_geteval() && !strstr(err_getmsg(), b)) bad("error of another thread", err_geteval(), 0); err_clear(); }
    break; }
  case F_OPT: {
    DLiteOpt o[] = {{'m', "mode", "append", "d"}, {'k', "key", "none", "d"}, {0, NULL, NULL, NULL}};
    snprintf(a, sizeof a, "mode=%s;key=%s%%20x%s", word(b, 8), word(cc, 8), N(5) ? "" : ";bad=1");
    outi(dlite_option_parse(a, o, dliteOptStrict)); outs(o[0].value); outs(o[1].value); nap(); outi(err_geteval()); err_clear();
    break; }
  }
}

static void *run(void *arg)
{
  int i, j, f;
  me = arg;
  me->rs = me->seed;
  me->ds = me->seed ^ (me->conc ? 0xabcdef : 0);
  me->digest = 14695981039346656037ULL;
  if (me->conc) pthread_barrier_wait(&barrier);
  for (i = 0; i < me->ops && i < 4096; i++) {
    do f = N(NFAM); while (!((fams >> f) & 1));
    if (me->conc) {
      __atomic_store_n(&running[me->id], f + 1, __ATOMIC_RELAXED);
      for (j = 0; j < MAXT; j++) {
        int g = j == me->id ? 0 : __atomic_load_n(&running[j], __ATOMIC_RELAXED);
        if (g) __atomic_store_n(&pairs[f][g-1], 1, __ATOMIC_RELAXED);
      }
    }
    op(f);
    me->perop[i] = me->digest;
    nap();
  }
  if (me->conc) __atomic_store_n(&running[me->id], 0, __ATOMIC_RELAXED);
  return NULL;
}

static int cmp(const void *a, const void *b) { return strcmp(a, b); }

int main(int argc, char **argv)
{
  uint64_t seed = strtoull(argv[1], NULL, 0);
  int nt = atoi(argv[2]), ops = atoi(argv[3]), rounds = atoi(argv[4]), init = atoi(argv[5]), r, i, j;
  long events = 0, handled = 0, np = 0, nuuid = 0;
  fams = (unsigned)strtoul(argv[6], NULL, 0);
  if (argc < 7 || nt > MAXT) return 2;
  if (init) dlite_init();
  err_set_stream(NULL);
  err_set_handler(handler);
  /* process-wide configuration is set before threads are started */
  dlite_behavior_set("namespacedID", 0);
  dlite_behavior_set("storageQuery", 0);
  dlite_behavior_set("singleInterpreter", 0);
  for (r = 0; r < rounds; r++) {
    static T c[MAXT], s[MAXT];
    pthread_t th[MAXT];
    pthread_barrier_init(&barrier, NULL, nt);
    for (i = 0; i < nt; i++) {
      memset(&c[i], 0, sizeof(T)); memset(&s[i], 0, sizeof(T));
      c[i].id = s[i].id = i; c[i].ops = s[i].ops = ops; c[i].conc = 1;
      c[i].seed = s[i].seed = (seed + r * 1000 + i) * 0x9e3779b97f4a7c15ULL;
      pthread_create(&th[i], NULL, run, &c[i]);
    }
    for (i = 0; i < nt; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&barrier);
    for (i = 0; i < nt; i++) { pthread_create(&th[i], NULL, run, &s[i]); pthread_join(th[i], NULL); }
    for (i = 0; i < nt; i++) {
      events += c[i].events; handled += c[i].handled;
      if (*c[i].bad) printf("BAD round %d thread %d: %s\n", r, i, c[i].bad);
      if (*s[i].bad) printf("BAD round %d alone %d: %s\n", r, i, s[i].bad);
      if (c[i].digest != s[i].digest) {
        uint64_t rs = c[i].seed;
        (void)rs;
        for (j = 0; j < ops && c[i].perop[j] == s[i].perop[j]; j++) ;
        printf("DIFF round %d thread %d operation %d\n", r, i, j);
      }
    }
    { static char all[2 * MAXT * MAXU][37]; long n = 0;
      for (i = 0; i < nt; i++) { for (j = 0; j < c[i].nu; j++) memcpy(all[n++], c[i].u[j], 37); for (j = 0; j < s[i].nu; j++) memcpy(all[n++], s[i].u[j], 37); }
      qsort(all, n, 37, cmp);
      for (i = 1; i < n; i++) if (strcmp(all[i-1], all[i]) == 0) printf("DUP uuid %s\n", all[i]);
      nuuid += n; }
  }
  for (i = 0; i < NFAM; i++) for (j = 0; j < NFAM; j++) np += pairs[i][j];
  printf("DONE events=%ld handled=%ld pairs=%ld uuids=%ld\n", events, handled, np, nuuid);
  for (i = 0; i < NFAM; i++) for (j = i; j < NFAM; j++) if (pairs[i][j]) printf("PAIR %s %s\n", famname[i], famname[j]);
  fflush(stdout);
  _exit(0);
}
