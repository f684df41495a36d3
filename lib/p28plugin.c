/* Mapping plugin library whose plugins are described by a table in the monitor (address in P28_TABLE). */
#define _GNU_SOURCE
#include "config.h"
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "dlite.h"
#include "dlite-macros.h"
#include "dlite-mapping-plugins.h"

typedef struct { const char *name, *out; int nin; const char **in; int cost, mode; const char *aux; } Row;
typedef struct { int n, calls, live; Row *rows; } Table;

/* The table of this copy (libN.so) of the library. */
static Table *table(void) {
  const char *s = getenv("P28_TABLE"), *p;
  Dl_info info;
  if (!s || !dladdr((void *)table, &info)) return NULL;
  p = strrchr(info.dli_fname, '/');
  return ((Table **)strtoull(s, NULL, 16))[atoi((p ? p + 1 : info.dli_fname) + 3)];
}

static DLiteInstance *mapper(const DLiteMappingPlugin *api, const DLiteInstance **insts, int n) {
  Table *t = table();
  Row *r = NULL;
  DLiteInstance *out;
  char *s;
  size_t len;
  int i;
  for (i=0; i < t->n; i++) if (!strcmp(t->rows[i].name, api->name)) r = t->rows + i;
  t->calls++;
  if (!r || n != api->ninput) return dlite_err(dliteMappingError, "bad call of %s", api->name), NULL;
  for (i=0, len=strlen(api->name)+3; i < n; i++) {
    if (strcmp(insts[i]->meta->uri, api->input_uris[i])) return dlite_err(dliteMappingError, "bad input to %s", api->name), NULL;
    len += strlen(*(char **)dlite_instance_get_property(insts[i], "trace")) + 1;
  }
  if (r->mode == 1) return dlite_err(dliteMappingError, "mapper %s fails", api->name), NULL;
  if (r->mode == 3) return dlite_instance_get(r->aux);      /* an already existing instance */
  out = dlite_instance_create_from_id(r->mode == 2 ? r->aux : api->output_uri, NULL, NULL);
  if (!out) return NULL;
  s = malloc(len);
  strcpy(s, api->name);
  strcat(s, "(");
  for (i=0; i < n; i++) {
    if (i) strcat(s, ",");
    strcat(s, *(char **)dlite_instance_get_property(insts[i], "trace"));
  }
  strcat(s, ")");
  dlite_instance_set_property(out, "trace", &s);
  free(s);
  return out;
}

static void freeapi(PluginAPI *p) {
  DLiteMappingPlugin *api = (DLiteMappingPlugin *)p;
  int i;
  if (table()) table()->live--;
  for (i=0; i < api->ninput; i++) free((char *)api->input_uris[i]);
  free(api->input_uris);
  free((char *)api->output_uri);
  free(api->name);
  free(api);
}

DSL_EXPORT const DLiteMappingPlugin *get_dlite_mapping_api(void *state, int *iter) {
  Table *t = table();
  DLiteMappingPlugin *api;
  Row *r;
  int i;
  dlite_globals_set(state);
  if (!t || *iter < 0 || *iter >= t->n) return NULL;
  r = t->rows + *iter;
  if (*iter < t->n - 1) (*iter)++;
  api = calloc(1, sizeof(*api));
  api->name = strdup(r->name);
  api->output_uri = strdup(r->out);
  api->ninput = r->nin;
  api->input_uris = calloc(r->nin + 1, sizeof(char *));
  for (i=0; i < r->nin; i++) api->input_uris[i] = strdup(r->in[i]);
  api->mapper = mapper;
  api->freeapi = freeapi;
  api->cost = r->cost;
  t->live++;
  return api;
}
