// Counts the memory in use: replaces the allocation functions of the C library in the
// whole process (also for the C++ and Fortran run-time libraries).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <malloc.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
namespace mem {
const int MAXO = 66; // owners; 0: nobody in particular
struct Head { size_t size; uint32_t owner, magic; char* base; size_t pad; }; // 32 bytes before each block
static long live[MAXO], blocks[MAXO], peak[MAXO], g_double = 0;
static int (*owner)() = nullptr;
static void* get(size_t n, size_t al) {
  if (al < 32) al = 32;
  char* b = (char*) __libc_malloc(n + al + sizeof(Head)); if (!b) return nullptr;
  char* p = (char*) (((uintptr_t) b + sizeof(Head) + al - 1) / al * al);
  Head* h = (Head*) (p - sizeof(Head)); int o = owner ? owner() : 0;
  h->size = n; h->owner = (uint32_t) o; h->magic = 0x5ca1ab1e; h->base = b;
  live[o] += (long) n; ++blocks[o]; if (live[o] > peak[o]) peak[o] = live[o];
  return p;
}
static void put(void* p) {
  if (!p) return;
  Head* h = (Head*) ((char*) p - sizeof(Head));
  if (h->magic != 0x5ca1ab1e) { ++g_double; return; } // not a block of ours, or released before
  h->magic = 0xdeadbeef; live[h->owner] -= (long) h->size; --blocks[h->owner]; __libc_free(h->base);
}
}
extern "C" {
void* malloc(size_t n) noexcept { void* p = mem::get(n, 32); if (p) memset(p, 0xbe, n); return p; }
void free(void* p) noexcept { mem::put(p); }
void* calloc(size_t a, size_t b) noexcept { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = mem::get(n, 32); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) noexcept { if (!p) return malloc(n); if (!n) { free(p); return nullptr; } void* q = mem::get(n, 32); if (!q) return nullptr; size_t o = ((mem::Head*) ((char*) p - sizeof(mem::Head)))->size; memcpy(q, p, o < n ? o : n); mem::put(p); return q; }
void* memalign(size_t a, size_t n) noexcept { return mem::get(n, a); }
void* aligned_alloc(size_t a, size_t n) noexcept { return mem::get(n, a); }
int posix_memalign(void** r, size_t a, size_t n) noexcept { void* p = mem::get(n, a); if (!p) return ENOMEM; *r = p; return 0; }
void* valloc(size_t n) noexcept { return mem::get(n, 4096); }
size_t malloc_usable_size(void* p) noexcept { return p ? ((mem::Head*) ((char*) p - sizeof(mem::Head)))->size : 0; }
}
