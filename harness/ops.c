/* Driver for functions compiled by 6m from generated expressions.  Every entry names a compiled
 * function and a postfix program that says what it must compute; all argument tuples of the entry's
 * value sets are tried.  The reference uses only gcc's fixed width integer arithmetic. */
typedef unsigned long u64;
typedef long i64;
typedef unsigned int u32;
typedef unsigned char u8;

struct entry { u64 (*fn)(u64, u64, u64, u64); const u8 *prog; u8 nargs, ret, cls, ty[4]; u8 pad; };
extern const struct entry entries[];
extern const u64 nentries;
extern void __init__(void) __attribute__((weak));

char *sys$__cenvp;
u8 thread$__tls[512];

static long sc4(long n, long a, long b, long c, long d)
{
	long r;
	register long r10 __asm__("r10") = d;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
	return r;
}
static char ob[1 << 14];
static int on;
static void fl(void) { sc4(1, 1, (long)ob, on, 0); on = 0; }
static void ps(const char *s) { while (*s) { if (on > 16000) fl(); ob[on++] = *s++; } }
static void px(u64 v) { char b[20]; int i = 20; b[--i] = 0; do { b[--i] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v); ps(b + i); }
static void pd(u64 v) { char b[24]; int i = 24; b[--i] = 0; do { b[--i] = '0' + v % 10; v /= 10; } while (v); ps(b + i); }

/* types: 0-3 int8..int64, 4-7 uint8..uint64, 8 bool */
static u64 norm(u64 v, int t)
{
	switch (t) {
	case 0: return (i64)(signed char)v;
	case 1: return (i64)(short)v;
	case 2: return (i64)(int)v;
	case 4: return (u8)v;
	case 5: return (unsigned short)v;
	case 6: return (u32)v;
	case 8: return v & 0xff;
	}
	return v;
}
static const u8 bits[] = {8, 16, 32, 64, 8, 16, 32, 64, 8};

static u64 vals[9][300];
static int nvals[9][4];	/* by class: 0 small, 1 boundary, 2 full (8 bit) or boundary, 3 tiny */
static void addv(int t, u64 v)
{
	int i;
	v = norm(v, t);
	for (i = 0; i < nvals[t][1]; i++)
		if (vals[t][i] == v)
			return;
	vals[t][nvals[t][1]++] = v;
}
static void mkvals(void)
{
	int t, n;
	u64 v;
	for (t = 0; t < 8; t++) {
		n = bits[t];
		addv(t, 3);
		addv(t, -1ul);
		addv(t, 1ul << (n - 1));
		addv(t, 0);
		addv(t, 1);
		nvals[t][3] = nvals[t][1];
		addv(t, (1ul << (n - 1)) - 1);
		addv(t, -2ul);
		addv(t, 0x55aa55aa55aa55a5ul);
		nvals[t][0] = nvals[t][1];
		addv(t, 2);
		addv(t, 7);
		addv(t, n - 1);
		addv(t, (1ul << (n - 1)) + 1);
		addv(t, -7ul);
		addv(t, 0xa5a5a5a5a5a5a5a5ul);
		if (n > 8) {
			addv(t, 0x80);
			addv(t, 0x100);
			addv(t, 0xff);
		}
		if (n > 32) {
			addv(t, 0x80000000ul);
			addv(t, 0xffffffff7ffffffful);
			addv(t, 0xfffffffful);
		}
		nvals[t][2] = nvals[t][1];
		if (n == 8) {
			int sv = nvals[t][1];
			for (v = 0; v < 256; v++)
				addv(t, v);
			nvals[t][2] = nvals[t][1];
			nvals[t][1] = sv;
		}
	}
	for (n = 0; n < 4; n++)
		nvals[8][n] = 2;
	vals[8][1] = 1;
}

static int ref(const u8 *p, const u64 *a, u64 *out)
{
	u64 st[16];
	int sp = 0;
	u64 x, y;
	for (;;) {
		int op = *p++, t, n;
		if (op == 255)
			break;
		if (op < 4) {
			st[sp++] = a[op];
			continue;
		}
		if (op == 4) {
			x = 0;
			for (n = 0; n < 8; n++)
				x |= (u64)*p++ << (8 * n);
			st[sp++] = x;
			continue;
		}
		t = *p++;
		n = bits[t];
		if (op == 5) {	/* cast from t to *p */
			st[sp - 1] = norm(norm(st[sp - 1], t), *p++);
			continue;
		}
		if (op == 6) { st[sp - 1] = norm(-norm(st[sp - 1], t), t); continue; }
		if (op == 7) { st[sp - 1] = norm(~st[sp - 1], t); continue; }
		if (op == 8) { st[sp - 1] = !(st[sp - 1] & 0xff); continue; }
		y = norm(st[--sp], t);
		x = norm(st[--sp], t);
		switch (op) {
		case 16: x = x + y; break;
		case 17: x = x - y; break;
		case 18: x = x * y; break;
		case 19:
		case 20:
			if (y == 0)
				return 0;
			if (t < 4) {
				if ((i64)y == -1 && norm(x, t) == norm(1ul << (n - 1), t))
					return 0;
				x = op == 19 ? (u64)((i64)x / (i64)y) : (u64)((i64)x % (i64)y);
			} else
				x = op == 19 ? x / y : x % y;
			break;
		case 21: x &= y; break;
		case 22: x |= y; break;
		case 23: x ^= y; break;
		case 24: if (y >= (u64)n) return 0; x = x << y; break;
		case 25: if (y >= (u64)n) return 0; x = t < 4 ? (u64)((i64)x >> y) : x >> y; break;
		case 26: x = x == y; t = 8; break;
		case 27: x = x != y; t = 8; break;
		case 28: x = t < 4 ? (i64)x < (i64)y : x < y; t = 8; break;
		case 29: x = t < 4 ? (i64)x <= (i64)y : x <= y; t = 8; break;
		case 30: x = t < 4 ? (i64)x > (i64)y : x > y; t = 8; break;
		case 31: x = t < 4 ? (i64)x >= (i64)y : x >= y; t = 8; break;
		case 32: x = x && y; t = 8; break;
		case 33: x = x || y; t = 8; break;
		}
		st[sp++] = norm(x, t);
	}
	*out = st[0];
	return 1;
}

static u64 cur;
static u64 ca[4];
static void onsig(int s)
{
	ps("TRAP ");
	pd(cur);
	ps(" ");
	pd(s);
	for (s = 0; s < 4; s++) {
		ps(" ");
		px(ca[s]);
	}
	ps("\n");
	fl();
	sc4(231, 3, 0, 0, 0);
}
__asm__(".globl sig_ret\nsig_ret:\n	movl $15,%eax\n	syscall\n"
	".globl _rt$abort_oob\n.globl __rt$abort_oob\n_rt$abort_oob:\n__rt$abort_oob:\n	ud2\n"
	".globl _start\n_start:\n	movq %rsp,%rdi\n	andq $-16,%rsp\n	call cstart\n	hlt\n");
extern void sig_ret(void);
struct ksa { void *h; u64 flags; void *rest; u64 mask; };
void cstart(u64 *sp)
{
	static const int sigs[] = {11, 7, 8, 4, 5, 26};
	struct { u64 is, iu, vs, vu; } it = {0, 0, 100, 0};
	u64 n = 0, skipped = 0, i, nbad = 0;

	for (i = 0; i < 6; i++) {
		struct ksa a = {(void *)onsig, 0x04000000, (void *)sig_ret, 0};
		sc4(13, sigs[i], (long)&a, 0, 8);
	}
	sc4(38, 1, (long)&it, 0, 0);
	if (__init__)
		__init__();
	mkvals();
	for (cur = 0; cur < nentries; cur++) {
		const struct entry *e = &entries[cur];
		int ix[4] = {0, 0, 0, 0}, k, bad = 0;
		for (;;) {
			u64 w, r;
			for (k = 0; k < e->nargs; k++)
				ca[k] = vals[e->ty[k]][ix[k]];
			if (ref(e->prog, ca, &w)) {
				u64 g[4] = {0, 0, 0, 0};
				for (k = 0; k < e->nargs; k++) {
					int b = bits[e->ty[k]];
					g[k] = b == 64 ? ca[k] : (ca[k] & ((1ul << b) - 1)) | 0xdead5eedbeefa5ul << b;
				}
				r = norm(e->fn(g[0], g[1], g[2], g[3]), e->ret);
				w = norm(w, e->ret);
				n++;
				if (r != w && bad++ < 2 && nbad++ < 200) {
					ps("BAD ");
					pd(cur);
					for (k = 0; k < e->nargs; k++) {
						ps(" ");
						px(ca[k]);
					}
					ps(" got ");
					px(r);
					ps(" want ");
					px(w);
					ps("\n");
				}
			} else
				skipped++;
			for (k = 0; k < e->nargs; k++) {
				if (++ix[k] < nvals[e->ty[k]][e->cls])
					break;
				ix[k] = 0;
			}
			if (k == e->nargs)
				break;
		}
	}
	ps("DONE ");
	pd(n);
	ps(" ");
	pd(skipped);
	ps("\n");
	fl();
	sc4(231, 0, 0, 0, 0);
}
