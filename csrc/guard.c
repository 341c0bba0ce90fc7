/* A guarding allocator, linked in front of the one of lib/std (ld --wrap).
Every block lives on pages of its own, its end against an inaccessible page;
freed pages become inaccessible and are never used again.  The gap before the
block holds canaries.  Sizes given to free must be those given to alloc. */
typedef unsigned long ul;
typedef unsigned char uc;
#ifndef FILL
#define FILL 0xA5
#endif
#define REGION (1ul << 40)
#define PG 4096ul
#define NPG (REGION / PG)
#define MAXLIVE 28000

static ul base, next;	/* next: index of the next free page */
static ul *meta;	/* per page of a block's start: size << 2 | state */
static volatile int lk;
static long live, livebytes, total;

static long sc(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
		: "rcx", "r11", "memory");
	return r;
}

static void say(const char *s)
{
	ul n = 0;
	while (s[n])
		n++;
	sc(1, 2, (long)s, n, 0, 0, 0);
}

static void hex(ul v)
{
	char b[19];
	int i;
	b[0] = ' ';
	for (i = 0; i < 16; i++)
		b[1 + i] = "0123456789abcdef"[(v >> (60 - 4 * i)) & 15];
	b[17] = 0;
	say(b);
}

static void bad(const char *what, ul p, ul sz, ul m)
{
	say("guard: ");
	say(what);
	say(": block, size, recorded");
	hex(p);
	hex(sz);
	hex(m);
	say("\n");
	__builtin_trap();
}

static void take(void)
{
	while (__sync_lock_test_and_set(&lk, 1))
		sc(24, 0, 0, 0, 0, 0, 0);
}

static void give(void)
{
	__sync_lock_release(&lk);
}

static void fill(uc *p, ul n, uc v)
{
	__asm__ volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory");
}

static void setup(void)
{
	long p = sc(9, 0, REGION, 0, 0x4022, -1, 0);
	long m = sc(9, 0, NPG * 8, 3, 0x4022, -1, 0);
	if (p < 0 && p > -4096 || m < 0 && m > -4096)
		bad("no address space", p, 0, m);
	base = p;
	meta = (ul *)m;
	next = 1;
}

static uc *get(ul sz, uc v)
{
	ul n, np, al, gap;
	uc *pg, *p;
	long r;

	n = sz ? sz : 1;
	al = n & -n;
	if (al > 16)
		al = 16;
	np = (n + PG - 1) / PG;
	take();
	if (!base)
		setup();
	if (next + np + 1 >= NPG)
		bad("region used up", 0, sz, 0);
	pg = (uc *)(base + next * PG);
	next += np + 1;
	/* too many maps: the guard page stays accessible */
	r = sc(10, (long)pg, (np + (live > MAXLIVE)) * PG, 3, 0, 0, 0);
	live++;
	total++;
	livebytes += sz;
	give();
	if (r < 0)
		bad("mprotect failed", (ul)pg, sz, r);
	gap = (np * PG - n) & ~(al - 1);
	p = pg + gap;
	fill(pg, gap, 0xC7);
	fill(p, n, v);
	meta[((ul)p - base) / PG] = ((ul)p & (PG - 1)) | sz << 14 | 1ul << 12;
	return p;
}

uc *__wrap_bytealloc(ul sz) __asm__("__wrap_std$bytealloc");
uc *__wrap_zbytealloc(ul sz) __asm__("__wrap_std$zbytealloc");
void __wrap_bytefree(uc *p, ul sz) __asm__("__wrap_std$bytefree");
long vfg_live(void) __asm__("vfg$live");
long vfg_total(void) __asm__("vfg$total");

uc *__wrap_bytealloc(ul sz)
{
	return get(sz, FILL);
}

uc *__wrap_zbytealloc(ul sz)
{
	return get(sz, 0);
}

void __wrap_bytefree(uc *p, ul sz)
{
	ul i, m, n, np;
	uc *q, *pg;

	if (!p)
		return;
	if (!base || (ul)p < base || (ul)p >= base + REGION)
		bad("free of something that was not allocated", (ul)p, sz, 0);
	i = ((ul)p - base) / PG;
	take();
	m = meta[i];
	if ((m & (PG - 1)) != ((ul)p & (PG - 1)) || !(m >> 12 & 3))
		bad("free of something that is no block", (ul)p, sz, m >> 14);
	if ((m >> 12 & 3) == 2)
		bad("block freed twice", (ul)p, sz, m >> 14);
	if (m >> 14 != sz)
		bad("block freed with another size", (ul)p, sz, m >> 14);
	n = sz ? sz : 1;
	np = (n + PG - 1) / PG;
	pg = (uc *)((ul)p & -PG);
	for (q = pg; q < p; q++)
		if (*q != 0xC7)
			bad("bytes before the block were overwritten", (ul)p, sz, (ul)q);
	meta[i] ^= 3ul << 12;
	live--;
	livebytes -= sz;
	give();
	sc(9, (long)pg, (np + 1) * PG, 0, 0x4032, -1, 0);
}

long vfg_live(void)
{
	return live;
}

long vfg_total(void)
{
	return total;
}
