// Allocation that can be told to fail, and a count of the blocks in use.
#include "failnew.h"
#include <new>
#include <stdlib.h>
namespace failnew {
	bool armed, persistent;
	long left, made, live;
	unsigned failures;
}
using namespace failnew;
static void *get(size_t n) {
	if (armed) {
		++made;
		if (left > 0 && --left == 0) { ++failures; if (persistent) left = 1; throw std::bad_alloc(); }
	}
	void *p = n > (1ull << 30) ? 0 : malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	++live;
	return p;
}
static void *get0(size_t n) noexcept { try { return get(n); } catch (const std::bad_alloc &) { return 0; } }
static void put(void *p) { if (p) --live; free(p); }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get0(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get0(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
