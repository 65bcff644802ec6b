// Memory is finite: requests above 1 GB fail with bad_alloc, as they would on a smaller machine,
// instead of ending the sanitized process.
#include <new>
#include <stdlib.h>
static void *get(size_t n) {
	if (n > (1ull << 30)) throw std::bad_alloc();
	void *p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return n > (1ull << 30) ? 0 : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return n > (1ull << 30) ? 0 : malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
