/* Struct/macro access to DLite for the monitors (compiled against /repo's headers). */
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include "dlite.h"
#include "dlite-macros.h"
#include "dlite-collection.h"
#include "dlite-mapping.h"
#include "utils/err.h"
#include "utils/fileutils.h"
#include "utils/tgen.h"
#include "dlite-codegen.h"
#include "dlite-store.h"
#include "dlite-storage-plugins.h"

typedef DLiteInstance I;

int s_refcount(I *i) { return i->_refcount; }
const char *s_uuid(I *i) { return i->uuid; }
const char *s_uri(I *i) { return i->uri; }
const void *s_meta(I *i) { return i->meta; }
int s_flags(I *i) { return i->_flags; }
const void *s_parent(I *i) { return i->_parent ? i->_parent->parent : NULL; }
const char *s_parent_uuid(I *i) { return i->_parent ? i->_parent->uuid : NULL; }
const void *s_parent_hash(I *i) { return i->_parent ? i->_parent->hash : NULL; }
int s_hash_size(void) { return DLITE_HASH_SIZE; }
size_t s_instance_size(I *inst) { return DLITE_INSTANCE_SIZE(inst); }
size_t s_ndim(I *i) { return DLITE_NDIM(i); }
size_t s_nprop(I *i) { return DLITE_NPROP(i); }
size_t s_dim(I *i, size_t n) { return DLITE_DIM(i, n); }
void *s_dimptr(I *i) { return DLITE_DIMS(i); }
void *s_prop(I *i, size_t n) { return DLITE_PROP(i, n); }
int s_prop_ndim(I *i, size_t n) { return DLITE_PROP_NDIM(i, n); }
size_t s_prop_dim(I *i, size_t n, size_t m) { return DLITE_PROP_DIM(i, n, m); }
size_t s_prop_dimptr(I *i, size_t n) { return (size_t)DLITE_PROP_DIMS(i, n); }
void *s_rels(I *i) { return DLITE_RELS(i); }
const DLiteProperty *s_descr(I *i, size_t n) { return DLITE_PROP_DESCR(i, n); }
const DLiteDimension *s_dimdescr(I *i, size_t n) { return DLITE_DIM_DESCR(i, n); }
const char *p_name(DLiteProperty *p) { return p->name; }
int p_type(DLiteProperty *p) { return p->type; }
size_t p_size(DLiteProperty *p) { return p->size; }
const char *p_ref(DLiteProperty *p) { return p->ref; }
int p_set_ref(DLiteProperty *p, const char *s) { free(p->ref); return (p->ref = strdup(s)) == NULL; }
int p_ndims(DLiteProperty *p) { return p->ndims; }
const char *p_shape(DLiteProperty *p, int j) { return p->shape ? p->shape[j] : NULL; }
const char *p_unit(DLiteProperty *p) { return p->unit; }
const char *p_descr(DLiteProperty *p) { return p->description; }
const char *d_name(DLiteDimension *d) { return d->name; }
const char *d_descr(DLiteDimension *d) { return d->description; }
size_t m_ndim(DLiteMeta *m) { return m->_ndimensions; }
size_t m_nprop(DLiteMeta *m) { return m->_nproperties; }
size_t m_nrel(DLiteMeta *m) { return m->_nrelations; }
const DLiteProperty *m_prop(DLiteMeta *m, size_t n) { return m->_properties + n; }
const DLiteDimension *m_dim(DLiteMeta *m, size_t n) { return m->_dimensions + n; }
const DLiteRelation *m_rel(DLiteMeta *m, size_t n) { return m->_relations + n; }
size_t m_headersize(DLiteMeta *m) { return m->_headersize; }
size_t m_dimoffset(DLiteMeta *m) { return m->_dimoffset; }
size_t m_propoffset(DLiteMeta *m, size_t n) { return m->_propoffsets[n]; }
size_t m_reloffset(DLiteMeta *m) { return m->_reloffset; }
size_t m_propdimsoffset(DLiteMeta *m) { return m->_propdimsoffset; }
size_t m_propdimindsoffset(DLiteMeta *m) { return m->_propdimindsoffset; }
size_t m_npropdims(DLiteMeta *m) { return m->_npropdims; }
size_t m_propdimind(DLiteMeta *m, size_t n) { return m->_propdiminds[n]; }
int s_sizeof(const char *t) {
  if (!strcmp(t, "instance")) return sizeof(DLiteInstance);
  if (!strcmp(t, "meta")) return sizeof(DLiteMeta);
  if (!strcmp(t, "collection")) return sizeof(DLiteCollection);
  if (!strcmp(t, "dimension")) return sizeof(DLiteDimension);
  if (!strcmp(t, "property")) return sizeof(DLiteProperty);
  if (!strcmp(t, "relation")) return sizeof(DLiteRelation);
  if (!strcmp(t, "ptr")) return sizeof(void *);
  if (!strcmp(t, "longdouble")) return sizeof(long double);
  if (!strcmp(t, "bool")) return sizeof(bool);
  if (!strcmp(t, "fstate")) return sizeof(TripleState);
  if (!strcmp(t, "arrayiter")) return sizeof(DLiteArrayIter);
  if (!strcmp(t, "map_iter")) return sizeof(map_iter_t);
  if (!strcmp(t, "session")) return 0;
  return -1;
}
void *c_rstore(DLiteCollection *c) { return c->rstore; }
size_t c_nrelations(DLiteCollection *c) { return c->nrelations; }
void *c_relations(DLiteCollection *c) { return c->relations; }

/* arrays */
void *a_data(DLiteArray *a) { return a->data; }
int a_ndims(DLiteArray *a) { return a->ndims; }
size_t a_shape(DLiteArray *a, int i) { return a->shape[i]; }
int a_stride(DLiteArray *a, int i) { return a->strides[i]; }
size_t a_size(DLiteArray *a) { return a->size; }

/* mapping */
int map_cost(DLiteMapping *m) { return m->cost; }
const char *map_name(DLiteMapping *m) { return m->name; }
const char *map_output(DLiteMapping *m) { return m->output_uri; }
int map_ninput(DLiteMapping *m) { return m->ninput; }
const DLiteMapping *map_input_map(DLiteMapping *m, int i) { return m->input_maps[i]; }
const char *map_input_uri(DLiteMapping *m, int i) { return m->input_uris[i]; }

/* long double <-> double */
double ld_get(void *p) { long double v; memcpy(&v, p, sizeof v); return (double)v; }
void ld_set(void *p, double d) { long double v = d; memset(p, 0, sizeof v); memcpy(p, &v, 10); }

/* live block accounting through the sanitizer runtime's malloc hooks */
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                              void (*)(const volatile void *)) __attribute__((weak));
#define HN (1u<<20)
static const volatile void *tab[HN];
static volatile int hook_on;
static long hook_live, hook_total;
static unsigned hsh(const volatile void *p) {
  uint64_t x = (uint64_t)(uintptr_t)p >> 4; x *= 0x9E3779B97F4A7C15ull; return (unsigned)(x >> 44) & (HN-1);
}
#define TOMB ((const volatile void *)1)
static void on_malloc(const volatile void *p, size_t n) {
  unsigned h, k;
  (void)n;
  if (!hook_on || !p) return;
  hook_total++;
  if (hook_live > (long)(HN/2)) return;
  for (h = hsh(p), k = 0; k < HN; h = (h+1) & (HN-1), k++)
    if (!tab[h] || tab[h] == TOMB) { tab[h] = p; hook_live++; return; }
}
static void on_free(const volatile void *p) {
  unsigned h, k;
  if (!hook_on || !p) return;
  for (h = hsh(p), k = 0; k < HN && tab[h]; h = (h+1) & (HN-1), k++)
    if (tab[h] == p) {
      tab[h] = TOMB; hook_live--;
      if (!tab[(h+1) & (HN-1)]) {
        while (tab[h] == TOMB) { tab[h] = NULL; h = (h-1) & (HN-1); }
      }
      return;
    }
}
int hook_install(void) {
  static int done;
  if (done) return 1;
  if (!__sanitizer_install_malloc_and_free_hooks) return 0;
  done = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) > 0;
  return done;
}
/* counting is only active between hook_begin() and hook_end(); frees of
   blocks allocated before are ignored */
void hook_begin(void) { memset((void *)tab, 0, sizeof tab); hook_live = hook_total = 0; hook_on = 1; }
void hook_pause(void) { hook_on = 0; }
void hook_resume(void) { hook_on = 1; }
long hook_end(void) { hook_on = 0; return hook_live; }
long hook_now(void) { return hook_live; }
long hook_count(void) { return hook_total; }
/* Writes the allocation stacks of (at most n of) the live blocks to `out`, one per line */
size_t __asan_get_alloc_stack(void *, void **, size_t, int *) __attribute__((weak));
void __sanitizer_symbolize_pc(void *, const char *, char *, size_t) __attribute__((weak));
int hook_stacks(char *out, size_t size, int n, int skip) {
  unsigned h; size_t pos = 0; int k = 0, i;
  out[0] = 0;
  if (!__asan_get_alloc_stack || !__sanitizer_symbolize_pc) return 0;
  for (h = 0; h < HN && n > 0; h++) {
    void *pc[12]; size_t m, j; int tid;
    if (!tab[h] || tab[h] == TOMB) continue;
    if (skip-- > 0) continue;
    n--; k++;
    m = __asan_get_alloc_stack((void *)tab[h], pc, 12, &tid);
    for (j = 1; j < m && j < 9; j++) {
      char b[256];
      __sanitizer_symbolize_pc(pc[j], "%f", b, sizeof b);
      i = snprintf(out+pos, size-pos, "%s%s", j > 1 ? " < " : "", b);
      if (i < 0 || (size_t)i >= size-pos) return k;
      pos += i;
    }
    i = snprintf(out+pos, size-pos, "\n");
    if (i < 0 || (size_t)i >= size-pos) return k;
    pos += i;
  }
  return k;
}

/* variadic helpers */
void s_err(int eval, const char *msg) { dlite_errx(eval, "%s", msg); }
void s_warn(void *msg) { dlite_warnx("%s", (const char *)msg); }

/* Collects ids in a store; returns number of ids */
int store_ids(DLiteStore *st, const char **out, int max) {
  DLiteStoreIter it = dlite_store_iter(st);
  const char *id; int n = 0;
  while ((id = dlite_store_next(st, &it))) { if (n < max) out[n] = id; n++; }
  return n;
}

/* fu_join() and fu_join_sep() with an argument vector (at most six). */
char *s_join(int sep, int n, const char **a, int explicit_sep)
{
  const char *p[7] = {0};
  for (int i = 0; i < n && i < 6; i++) p[i] = a[i];
  return explicit_sep ? fu_join_sep(sep, p[0], p[1], p[2], p[3], p[4], p[5], NULL)
    : fu_join(p[0], p[1], p[2], p[3], p[4], p[5], NULL);
}

/* Storage flags; no shipped storage declares support for transactions. */
int st_flags(DLiteStorage *s) { return s->flags; }
void st_set_transaction(DLiteStorage *s) { s->flags |= dliteTransaction; }

/* Template substitutions */
void *tg_subs(void *parent) { TGenSubs *t = malloc(sizeof(TGenSubs)); tgen_subs_init(t); t->parent = parent; return t; }
void *tg_copy(void *p) { TGenSubs *t = malloc(sizeof(TGenSubs)); if (tgen_subs_copy(t, p)) { free(t); return NULL; } t->parent = p; return t; }
void tg_free(void *p) { tgen_subs_deinit(p); free(p); }
int tg_fmt(TGenSubs *t, const char *var, int len, const char *repl) { return (len < 0) ? tgen_subs_set_fmt(t, var, NULL, "%s", repl) : tgen_subs_setn_fmt(t, var, len, NULL, "%s", repl); }
/* Appends `pre` and then `src` converted to `mode`; returns the malloc'ed text */
char *tg_case(const char *pre, const char *src, int n, int mode) {
  TGenBuf b; char *s;
  tgen_buf_init(&b);
  tgen_buf_append(&b, pre, -1);
  if (tgen_buf_append_case(&b, src, n, mode) < 0) { tgen_buf_deinit(&b); return NULL; }
  s = tgen_buf_steal(&b);
  return s;
}
