/* Small C library and in-memory file system for the symbolic run. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include "vf.h"
#define SH __attribute__((section("vfshared")))
int vsnprintf(char*, size_t, const char*, __builtin_va_list);
typedef struct VFile { struct VFile* next; unsigned char* data; size_t size, cap; int dir; char name[]; } VFile;
typedef struct _IO_FILE { VFile* f; size_t pos; int wr, eof, open; } FILE_;
static VFile* fs SH = 0;
static FILE_ out_, err_, in_;
FILE_* stdout = &out_; FILE_* stderr = &err_; FILE_* stdin = &in_;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* o = d; while ((*d++ = *s++)) ; return o; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
char* strdup(const char* s) { char* r = (char*)malloc(strlen(s) + 1); strcpy(r, s); return r; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* a, int c, size_t n) { const unsigned char* x = a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return 0; }
long strtol(const char* s, char** e, int base) { long v = 0; int neg = 0; while (*s == ' ') s++; if (*s == '-') { neg = 1; s++; } while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (e) *e = (char*)s; return neg ? -v : v; }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long __isoc23_strtol(const char* s, char** e, int base) { return strtol(s, e, base); }
long long __isoc23_strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
long atol(const char* s) { return strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; }
static unsigned rnd = 12345; int rand(void) { return (int)(vf_bits("rand", 31)); } void srand(unsigned s) { }
char* getenv(const char* n) { return 0; }
static int err_no; int* __errno_location(void) { return &err_no; }
long time(long* t) { if (t) *t = 0; return 0; }
unsigned umask_(unsigned m) { return 0; }
int stat(const char* p, void* st) { return -1; }
int usleep(unsigned u) { return 0; }
static VFile* lookup(const char* n) { for (VFile* f = fs; f; f = f->next) if (!strcmp(f->name, n)) return f; return 0; }
/* contents of the file system: outlive the handles, not counted as memory of the program */
__attribute__((noinline)) static VFile* vf_newfile(const char* n) { VFile* f = (VFile*)calloc(1, sizeof(VFile) + strlen(n) + 1); strcpy(f->name, n); f->next = fs; fs = f; return f; }
__attribute__((noinline)) static void vf_growfile(VFile* f, size_t nc) { unsigned char* d = (unsigned char*)calloc(nc, 1); if (f->size) __builtin_memcpy(d, f->data, f->size); if (f->data) free(f->data); f->data = d; f->cap = nc; }
/* a path names a place that exists: every directory of it was made, no component is too long */
static int place(const char* n) { size_t l = strlen(n), c = 0; if (!l || l > 4000 || n[0] == '/') return 0; for (size_t i = 0; i < l; i++) { if (n[i] != '/') { if (++c > 255) return 0; continue; } c = 0; char d[l + 1]; __builtin_memcpy(d, n, i); d[i] = 0; if (i == 1 && d[0] == 0x2e) continue; VFile* f = lookup(d); if (!f || !f->dir) return 0; } return 1; }
int mkdir(const char* p, unsigned m) { if (!place(p) || lookup(p)) return -1; vf_newfile(p)->dir = 1; return 0; }
static FILE_* open_(const char* n, const char* mode) { VFile* f = lookup(n); if (mode[0] == 'r' && !f) return 0; if (!place(n) || (f && f->dir)) return 0;
  if (!f) f = vf_newfile(n);
  if (mode[0] == 'w') f->size = 0;
  FILE_* h = (FILE_*)calloc(1, sizeof(FILE_)); h->f = f; h->wr = mode[0] != 'r' || strchr(mode, '+'); h->open = 1; if (mode[0] == 'a') h->pos = f->size; return h; }
FILE_* fopen(const char* n, const char* m) { return open_(n, m); }
FILE_* fopen64(const char* n, const char* m) { return open_(n, m); }
FILE_* freopen(const char* n, const char* m, FILE_* h) { return open_(n, m); }
int fclose(FILE_* h) { if (!h) vf_fail("fclose of a null file"); if (h == &out_ || h == &err_) return 0; if (!h->open) vf_fail("file closed twice"); free(h); return 0; }
size_t fwrite(const void* p, size_t s, size_t n, FILE_* h) { if (!h) vf_fail("write to a null file"); if (h == &out_ || h == &err_) return n; if (!h->wr) return 0; size_t t = s * n; VFile* f = h->f; if (h->pos + t > f->cap) vf_growfile(f, (h->pos + t) * 2 + 64);
  if (t) __builtin_memcpy(f->data + h->pos, p, t); h->pos += t; if (h->pos > f->size) f->size = h->pos; return n; }
size_t fread(void* p, size_t s, size_t n, FILE_* h) { if (!h) vf_fail("read from a null file"); size_t av = h->pos < h->f->size ? (h->f->size - h->pos) / (s ? s : 1) : 0; if (n > av) { n = av; h->eof = 1; } if (s * n) __builtin_memcpy(p, h->f->data + h->pos, s * n); h->pos += s * n; return n; }
int fseek(FILE_* h, long o, int w) { if (!h) vf_fail("seek on a null file"); long b = w == 0 ? 0 : w == 1 ? (long)h->pos : (long)h->f->size; if (b + o < 0) return -1; h->pos = b + o; h->eof = 0; return 0; }
int fseeko(FILE_* h, long o, int w) { return fseek(h, o, w); }
int fseeko64(FILE_* h, long o, int w) { return fseek(h, o, w); }
long ftell(FILE_* h) { return (long)h->pos; }
long ftello(FILE_* h) { return (long)h->pos; }
void rewind(FILE_* h) { h->pos = 0; h->eof = 0; }
int feof(FILE_* h) { return h->eof; }
int ferror(FILE_* h) { return 0; }
int fgetc(FILE_* h) { unsigned char c; if (fread(&c, 1, 1, h) != 1) return -1; return c; }
int getc(FILE_* h) { return fgetc(h); }
char* fgets(char* s, int n, FILE_* h) { int i = 0; while (i < n - 1) { int c = fgetc(h); if (c < 0) break; s[i++] = c; if (c == '\n') break; } if (!i) return 0; s[i] = 0; return s; }
int setvbuf(FILE_* h, char* b, int m, size_t s) { return 0; }
int remove(const char* n) { return 0; }
const char* engpar_version(void);
struct mallinfo_ { int a[10]; }; struct mallinfo2_ { size_t a[10]; };
struct mallinfo_ mallinfo(void) { struct mallinfo_ m = {{0}}; return m; }
struct mallinfo2_ mallinfo2(void) { struct mallinfo2_ m = {{0}}; return m; }
int backtrace(void** b, int n) { return 0; }
void backtrace_symbols_fd(void* const* b, int n, int fd) { }
void* signal(int s, void* h) { return 0; }
int access(const char* p, int m) { return -1; }
void qsort(void* b, size_t n, size_t s, int (*cmp)(const void*, const void*)) { char* a = (char*)b; char t[64]; if (s > 64) vf_fail("qsort model limit"); for (size_t i = 1; i < n; i++) { size_t j = i; __builtin_memcpy(t, a + i * s, s); while (j > 0 && cmp(a + (j - 1) * s, t) > 0) { __builtin_memcpy(a + j * s, a + (j - 1) * s, s); j--; } __builtin_memcpy(a + j * s, t, s); } }
/* text written to files (not to stdout or stderr) is kept */
__attribute__((weak)) int vfprintf(FILE_* h, const char* fmt, __builtin_va_list ap) { if (h == &out_ || h == &err_) return 0; if (!h) vf_fail("print to a null file"); char b[2048]; int n = vsnprintf(b, sizeof b, fmt, ap); if (n >= (int)sizeof b) vf_fail("printed line longer than modelled"); fwrite(b, 1, n, h); return n; }
int fprintf(FILE_* h, const char* fmt, ...) { if (h == &out_ || h == &err_) return 0; __builtin_va_list ap; __builtin_va_start(ap, fmt); int n = vfprintf(h, fmt, ap); __builtin_va_end(ap); return n; }
int fputs(const char* t, FILE_* h) { if (h == &out_ || h == &err_) return 0; return fwrite(t, 1, strlen(t), h) ? 1 : 0; }
int fputc(int c, FILE_* h) { if (h == &out_ || h == &err_) return c; unsigned char b = (unsigned char)c; fwrite(&b, 1, 1, h); return b; }
int putc(int c, FILE_* h) { return fputc(c, h); }
int __cxa_guard_acquire(char* g) { return !*g; }
void __cxa_guard_release(char* g) { *g = 1; }
void __cxa_guard_abort(char* g) { }
/* the standard streams: output goes nowhere, formatting state is plain memory behind a virtual base at offset 8 */
static long ios_vt[4] = {8, 0, 0, 0}; static char ctype_[600] = {[56] = 1, [57 + 10] = 10}; typedef struct { long* vp; void* state[80]; } Ios_;
#define STREAM {ios_vt + 3, {[30] = ctype_}}
Ios_ _ZSt4cout = STREAM, _ZSt4cerr = STREAM, _ZSt4clog = STREAM, _ZSt3cin = STREAM;
