#include "wraps.hpp"
#include <errno.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
namespace wraps
{
int watch = 0;
int direct_allocs = 0;
int direct_frees = 0;
int fill = strstr(program_invocation_short_name, "_zero") ? 0 : strstr(program_invocation_short_name, "_ones") ? 0xFF : -1;
}

extern "C" {
void * __real_malloc(size_t);
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);
void __real_free(void *);
char * __real_strdup(const char *);
char * __real_strndup(const char *, size_t);
static void * filled(void * p, size_t n)
{
  if (p && n && wraps::fill >= 0) {memset(p, wraps::fill, n);}
  return p;
}
void * __wrap_malloc(size_t n)
{
  if (wraps::watch) {++wraps::direct_allocs;}
  return filled(__real_malloc(n), n);
}
void * __wrap_calloc(size_t a, size_t b)
{
  if (wraps::watch) {++wraps::direct_allocs;}
  return __real_calloc(a, b);
}
void * __wrap_realloc(void * p, size_t n)
{
  if (wraps::watch) {++wraps::direct_allocs;}
  size_t old = p && wraps::fill >= 0 ? malloc_usable_size(p) : 0;
  void * q = __real_realloc(p, n);
  if (q && n > old && wraps::fill >= 0) {memset((char *)q + old, wraps::fill, n - old);}
  return q;
}
void __wrap_free(void * p)
{
  if (wraps::watch && p) {++wraps::direct_frees;}
  __real_free(p);
}
char * __wrap_strdup(const char * s)
{
  if (wraps::watch) {++wraps::direct_allocs;}
  return __real_strdup(s);
}
char * __wrap_strndup(const char * s, size_t n)
{
  if (wraps::watch) {++wraps::direct_allocs;}
  return __real_strndup(s, n);
}
}
