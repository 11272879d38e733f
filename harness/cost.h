// The work done by C library functions on behalf of the library: its objects call cost_memcpy and
// so on instead (see COUNTED in check.py). Each call counts as one block and one more per four bytes.
#pragma once
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "util.h"

void steps_add(u64 n);
static inline void work(size_t n) { steps_add(1 + n / 4); }
extern "C"
{
void* cost_memcpy(void* d, const void* s, size_t n) { work(n); return memcpy(d, s, n); }
void* cost_memmove(void* d, const void* s, size_t n) { work(n); return memmove(d, s, n); }
void* cost_memset(void* d, int c, size_t n) { work(n); return memset(d, c, n); }
int cost_memcmp(const void* a, const void* b, size_t n) { int r = memcmp(a, b, n); work(r ? 0 : n); return r; }
void* cost_memchr(const void* a, int c, size_t n) { const void* p = memchr(a, c, n); work(p ? (size_t) ((const char*) p - (const char*) a) : n); return (void*) p; }
size_t cost_strlen(const char* s) { size_t n = strlen(s); work(n); return n; }
size_t cost_strnlen(const char* s, size_t m) { size_t n = strnlen(s, m); work(n); return n; }
int cost_strcmp(const char* a, const char* b) { int r = strcmp(a, b); work(r ? 0 : strlen(a)); return r; }
int cost_strncmp(const char* a, const char* b, size_t n) { int r = strncmp(a, b, n); work(r ? 0 : n); return r; }
char* cost_strchr(const char* s, int c) { char* p = (char*) strchr(s, c); work(p ? (size_t) (p - s) : strlen(s)); return p; }
char* cost_strrchr(const char* s, int c) { work(strlen(s)); return (char*) strrchr(s, c); }
char* cost_strstr(const char* s, const char* t) { char* p = (char*) strstr(s, t); work(p ? (size_t) (p - s) : strlen(s)); return p; }
char* cost_strcpy(char* d, const char* s) { work(strlen(s)); return strcpy(d, s); }
char* cost_strncpy(char* d, const char* s, size_t n) { work(n); return strncpy(d, s, n); }
char* cost_strcat(char* d, const char* s) { work(strlen(d) + strlen(s)); return strcat(d, s); }
char* cost_strncat(char* d, const char* s, size_t n) { work(strlen(d) + strnlen(s, n)); return strncat(d, s, n); }
char* cost_strdup(const char* s) { work(strlen(s)); return strdup(s); }
char* cost_strndup(const char* s, size_t n) { work(strnlen(s, n)); return strndup(s, n); }
size_t cost_fread(void* p, size_t a, size_t b, FILE* f) { size_t n = fread(p, a, b, f); work(n * a); return n; }
size_t cost_fwrite(const void* p, size_t a, size_t b, FILE* f) { size_t n = fwrite(p, a, b, f); work(n * a); return n; }
char* cost_fgets(char* s, int n, FILE* f) { char* r = fgets(s, n, f); work(r ? strlen(r) : 0); return r; }
int cost_getc(FILE* f) { work(0); return getc(f); }
int cost_fgetc(FILE* f) { work(0); return fgetc(f); }
int cost_putc(int c, FILE* f) { work(0); return putc(c, f); }
int cost_fputc(int c, FILE* f) { work(0); return fputc(c, f); }
int cost_fseek(FILE* f, long o, int w) { work(256); return fseek(f, o, w); }
int cost_fseeko(FILE* f, off_t o, int w) { work(256); return fseeko(f, o, w); }
void cost_qsort(void* b, size_t n, size_t s, int (*c)(const void*, const void*)) { work(n); qsort(b, n, s, c); }
}
