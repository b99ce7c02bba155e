// Counts and guards the native allocations of the code under test (the linker sends malloc and free of every object here).
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdatomic.h>
#include <stdio.h>

extern void *__real_malloc(size_t);
extern void __real_free(void *);
extern void *__real_realloc(void *, size_t);

#define LIVE 0x5ca1ab1e0ddba11ULL
#define DEAD 0xdeadbea7ed10affULL
#define HEAD 32
#define RING 65536

typedef struct { uint64_t magic; uint64_t size; uint64_t pad[2]; } head;

static atomic_long live;
static atomic_long errors;
static _Atomic(head *) ring[RING];
static atomic_ulong pos;

void *__wrap_malloc(size_t n) {
	head *h = __real_malloc(n + HEAD + 8);
	if (!h) return NULL;
	h->magic = LIVE;
	h->size = n;
	memset((char *)h + HEAD, 0xa5, n);
	memset((char *)h + HEAD + n, 0x7e, 8);
	atomic_fetch_add(&live, 1);
	return (char *)h + HEAD;
}

void __wrap_free(void *p) {
	if (!p) return;
	head *h = (head *)((char *)p - HEAD);
	if (h->magic == DEAD) {
		atomic_fetch_add(&errors, 1);
		return;
	}
	if (h->magic != LIVE) {
		__real_free(p);
		return;
	}
	for (int i = 0; i < 8; i++)
		if (((unsigned char *)h)[HEAD + h->size + i] != 0x7e) {
			atomic_fetch_add(&errors, 1);
			break;
		}
	h->magic = DEAD;
	memset((char *)h + HEAD, 0xdd, h->size);
	atomic_fetch_add(&live, -1);
	head *old = atomic_exchange(&ring[atomic_fetch_add(&pos, 1) % RING], h);
	if (old) {
		for (uint64_t i = 0; i < old->size; i++)
			if (((unsigned char *)old)[HEAD + i] != 0xdd) {
				atomic_fetch_add(&errors, 1);
				break;
			}
		old->magic = 0;
		__real_free(old);
	}
}

void *__wrap_calloc(size_t a, size_t b) {
	void *p = __wrap_malloc(a * b);
	if (p) memset(p, 0, a * b);
	return p;
}

void *__wrap_realloc(void *p, size_t n) {
	if (!p) return __wrap_malloc(n);
	head *h = (head *)((char *)p - HEAD);
	if (h->magic != LIVE && h->magic != DEAD) return __real_realloc(p, n);
	void *q = __wrap_malloc(n);
	if (q) {
		memcpy(q, p, h->size < n ? h->size : n);
		__wrap_free(p);
	}
	return q;
}

char *__wrap_strndup(const char *s, size_t n) {
	size_t k = strnlen(s, n);
	char *p = __wrap_malloc(k + 1);
	if (p) { memcpy(p, s, k); p[k] = 0; }
	return p;
}

char *__wrap_strdup(const char *s) { return __wrap_strndup(s, strlen(s)); }

long nat_live(void) { return atomic_load(&live); }
long nat_errors(void) { return atomic_load(&errors); }

// nat_flush checks that nothing was written to freed memory
void nat_flush(void) {
	for (int i = 0; i < RING; i++) {
		head *old = atomic_exchange(&ring[i], NULL);
		if (!old) continue;
		for (uint64_t k = 0; k < old->size; k++)
			if (((unsigned char *)old)[HEAD + k] != 0xdd) {
				atomic_fetch_add(&errors, 1);
				break;
			}
		old->magic = 0;
		__real_free(old);
	}
}
