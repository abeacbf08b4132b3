// Size-class free lists: the search copies many small vectors and never returns memory.
#include <cstdlib>
#include <new>
static void *fl[65];
static char *cur, *lim;
void *operator new(std::size_t n) {
	std::size_t c = (n + 15) >> 4; /* with a header word */
	if (c == 0) c = 1;
	if (c > 64) {
		std::size_t *p = (std::size_t *)malloc(n + 16);
		if (!p) throw std::bad_alloc();
		p[1] = 65;
		return p + 2;
	}
	void *q = fl[c];
	if (q) { fl[c] = *(void **)q; return q; }
	std::size_t sz = (c << 4) + 16;
	if ((std::size_t)(lim - cur) < sz) {
		cur = (char *)malloc(1 << 20);
		if (!cur) throw std::bad_alloc();
		lim = cur + (1 << 20);
	}
	std::size_t *p = (std::size_t *)cur;
	cur += sz;
	p[1] = c;
	return p + 2;
}
void operator delete(void *q) noexcept {
	if (!q) return;
	std::size_t *p = (std::size_t *)q - 2;
	if (p[1] == 65) { free(p); return; }
	*(void **)q = fl[p[1]];
	fl[p[1]] = q;
}
void operator delete(void *q, std::size_t) noexcept { operator delete(q); }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void *q) noexcept { operator delete(q); }
void operator delete[](void *q, std::size_t) noexcept { operator delete(q); }
