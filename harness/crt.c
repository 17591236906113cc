/* Stand-alone run time for compiled test programs: no Myrddin library is involved.
 * Runs items[0..nitems) one by one, each guarded against traps, aborts and endless loops, with
 * poisoned registers and stack, and writes a record stream to fd 1:
 *   I <u32 idx>          item started
 *   V <u64>              value emitted by out()
 *   S <u32 len> bytes    string emitted by outs()
 *   E <u8 status>        0 returned, 1 bounds abort, 2 segv/bus, 3 fpe, 4 ill, 5 endless, 6 callee-saved
 *                        register or stack of the caller damaged
 */
typedef unsigned long u64;
typedef unsigned int u32;
typedef unsigned char u8;

extern void (*const items[])(void);
extern const u64 nitems;
/* an item with nrep > 0 is run nrep times; arg(i) gives the i-th of the run's nval values */
extern const struct { u64 nrep, nval; const u64 *val; } reps[];
static const u64 *curval;
static u64 currep;
u64 arg(u64 i) { return curval[i]; }
u64 rep(void) { return currep; }
extern void __init__(void) __attribute__((weak));
extern void __fini__(void) __attribute__((weak));

char *sys$__cenvp;
/* what initialisation functions did, before any item ran */
static u64 lg[64], nlg;
void mcv_log(u64 v) { if (nlg < 64) lg[nlg++] = v; }
u64 mcv_nlog(void) { return nlg; }
u64 mcv_logat(u64 i) { return lg[i]; }
void mcv_fini(void) { nlg = 0; if (__fini__) __fini__(); }
u8 thread$__tls[512];

static u8 obuf[1 << 16];
static u64 on;

static long sc3(long n, long a, long b, long c)
{
	long r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
	return r;
}
static long sc4(long n, long a, long b, long c, long d)
{
	long r;
	register long r10 __asm__("r10") = d;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
	return r;
}
static void oflush(void)
{
	u64 i = 0;
	while (i < on) {
		long r = sc3(1, 1, (long)(obuf + i), on - i);
		if (r <= 0)
			sc3(231, 9, 0, 0);
		i += r;
	}
	on = 0;
}
static void ob(const void *p, u64 n)
{
	const u8 *s = p;
	u64 i;
	if (on + n > sizeof obuf)
		oflush();
	for (i = 0; i < n; i++)
		obuf[on++] = s[i];
}
static u64 nout;
__attribute__((noreturn)) void guard_escape(int st);
void out(u64 v)
{
	if (++nout > 2000000)
		guard_escape(5);
	ob("V", 1);
	ob(&v, 8);
}
/* a Myrddin slice is { pointer, length }, always passed in memory */
struct sl { u8 *p; u64 n; };
void outs(u64 a, u64 b, u64 c, u64 d, u64 e, u64 f, struct sl s)
{
	u32 n = s.n > 60000 ? 60000 : s.n;
	ob("S", 1);
	ob(&n, 4);
	ob(s.p, n);
}
/* opaque values */
u64 id64(u64 v) { return v; }

/* guarded call; jb: rsp rbp rbx r12 r13 r14 r15 rip */
u64 guard_jb[8];
long guard_call(void (*f)(void));
__asm__(
".text\n.globl guard_call\nguard_call:\n"
"	leaq guard_jb(%rip),%rax\n"
"	movq %rsp,(%rax)\n	movq %rbp,8(%rax)\n	movq %rbx,16(%rax)\n	movq %r12,24(%rax)\n"
"	movq %r13,32(%rax)\n	movq %r14,40(%rax)\n	movq %r15,48(%rax)\n"
"	leaq 1f(%rip),%rcx\n	movq %rcx,56(%rax)\n"
/* poison 8k of stack below, then build canaries above the callee's frame */
"	leaq -8192(%rsp),%rdx\n	movq $0xa5a5a5a5a5a5a5a5,%rcx\n"
"2:	movq %rcx,(%rdx)\n	addq $8,%rdx\n	cmpq %rsp,%rdx\n	jb 2b\n"
"	movq %rdi,%rax\n"
"	subq $136,%rsp\n"
"	movq $0x5eed5eed5eed5eed,%rdx\n"
"	xorl %ecx,%ecx\n"
"3:	movq %rdx,(%rsp,%rcx,8)\n	incq %rcx\n	cmpq $16,%rcx\n	jb 3b\n"
"	movq $0x1111111111111111,%rbx\n	movq $0x2222222222222222,%rbp\n	movq $0x3333333333333333,%r12\n"
"	movq $0x4444444444444444,%r13\n	movq $0x5555555555555555,%r14\n	movq $0x6666666666666666,%r15\n"
"	movq $0xdeadbeefdeadbe01,%rcx\n	movq %rcx,%rsi\n	movq %rcx,%rdi\n	movq %rcx,%rdx\n"
"	movq %rcx,%r8\n	movq %rcx,%r9\n	movq %rcx,%r10\n	movq %rcx,%r11\n"
"	pcmpeqd %xmm0,%xmm0\n	movdqa %xmm0,%xmm1\n	movdqa %xmm0,%xmm2\n	movdqa %xmm0,%xmm3\n"
"	movdqa %xmm0,%xmm4\n	movdqa %xmm0,%xmm5\n	movdqa %xmm0,%xmm6\n	movdqa %xmm0,%xmm7\n"
"	movdqa %xmm0,%xmm8\n	movdqa %xmm0,%xmm9\n	movdqa %xmm0,%xmm10\n	movdqa %xmm0,%xmm11\n"
"	movdqa %xmm0,%xmm12\n	movdqa %xmm0,%xmm13\n	movdqa %xmm0,%xmm14\n	movdqa %xmm0,%xmm15\n"
"	call *%rax\n"
"	movl $6,%eax\n"
"	movq $0x1111111111111111,%rcx\n	cmpq %rcx,%rbx\n	jne 4f\n"
"	movq $0x2222222222222222,%rcx\n	cmpq %rcx,%rbp\n	jne 4f\n"
"	movq $0x3333333333333333,%rcx\n	cmpq %rcx,%r12\n	jne 4f\n"
"	movq $0x4444444444444444,%rcx\n	cmpq %rcx,%r13\n	jne 4f\n"
"	movq $0x5555555555555555,%rcx\n	cmpq %rcx,%r14\n	jne 4f\n"
"	movq $0x6666666666666666,%rcx\n	cmpq %rcx,%r15\n	jne 4f\n"
"	leaq guard_jb(%rip),%rcx\n	leaq 136(%rsp),%rdx\n	cmpq %rdx,(%rcx)\n	jne 4f\n"
"	movq $0x5eed5eed5eed5eed,%rdx\n"
"	xorl %ecx,%ecx\n"
"5:	cmpq %rdx,(%rsp,%rcx,8)\n	jne 4f\n	incq %rcx\n	cmpq $16,%rcx\n	jb 5b\n"
"	xorl %eax,%eax\n"
"4:	jmp 1f\n"
"1:	leaq guard_jb(%rip),%rcx\n"
"	movq (%rcx),%rsp\n	movq 8(%rcx),%rbp\n	movq 16(%rcx),%rbx\n	movq 24(%rcx),%r12\n"
"	movq 32(%rcx),%r13\n	movq 40(%rcx),%r14\n	movq 48(%rcx),%r15\n"
"	cld\n	ret\n"
".globl _rt$abort_oob\n.globl __rt$abort_oob\n_rt$abort_oob:\n__rt$abort_oob:\n"
"	movl $1,%edi\n	andq $-16,%rsp\n	call guard_escape\n"
".globl guard_jump\nguard_jump:\n	movl %edi,%eax\n	leaq guard_jb(%rip),%rcx\n	jmp *56(%rcx)\n"
".globl sig_ret\nsig_ret:\n	movl $15,%eax\n	syscall\n"
".globl _start\n_start:\n	movq %rsp,%rdi\n	andq $-16,%rsp\n	call cstart\n	hlt\n"
);
__attribute__((noreturn)) void guard_jump(int st);
static volatile int inside;
__attribute__((noreturn)) void guard_escape(int st)
{
	if (!inside) {
		oflush();
		sc3(231, 8, 0, 0);
	}
	guard_jump(st);
	for (;;)
		;
}
extern void sig_ret(void);
struct ksa { void *h; u64 flags; void *rest; u64 mask; };
static void onsig(int s)
{
	if (!inside) {
		oflush();
		sc3(231, 7, 0, 0);
	}
	inside = 0;
	guard_jump(s == 11 || s == 7 ? 2 : s == 8 ? 3 : s == 4 || s == 5 ? 4 : 5);
}
static u8 sstack[65536] __attribute__((aligned(16)));
void cstart(u64 *sp)
{
	static const int sigs[] = {11, 7, 8, 4, 5, 26};
	u64 i;
	struct { void *p; int f; u64 n; } ss = {sstack, 0, sizeof sstack};
	struct { u64 is, iu, vs, vu; } it, zero = {0};
	u64 from = 0, to = nitems;

	sc3(158, 0x1002, (long)thread$__tls, 0);
	sc3(131, (long)&ss, 0, 0);
	for (i = 0; i < sizeof sigs / sizeof sigs[0]; i++) {
		struct ksa a = {(void *)onsig, 0x04000000 | 0x08000000 | 0x40000000, (void *)sig_ret, 0};
		sc4(13, sigs[i], (long)&a, 0, 8);
	}
	sys$__cenvp = (char *)(sp + 2 + sp[0]);
	if (__init__)
		__init__();
	for (i = from; i < to; i++) {
		u32 k = i;
		u64 r = 0;
		u8 st;
		ob("I", 1);
		ob(&k, 4);
		nout = 0;
		it = zero;
		it.vs = 3;
		sc3(38, 1, (long)&it, 0);
		do {
			currep = r;
			curval = reps[i].val + r * reps[i].nval;
			inside = 1;
			st = guard_call(items[i]);
			inside = 0;
			if (reps[i].nrep) {
				u64 v = 0xee00000000000000 + st;
				ob("V", 1);
				ob(&v, 8);
				if (st == 5)
					break;
				st = 0;
			}
		} while (++r < reps[i].nrep);
		ob("E", 1);
		ob(&st, 1);
	}
	oflush();
	sc3(231, 0, 0, 0);
}

/* functions that leave every register the calling convention lets them change with a value of their own;
 * the results are a * 3 - b */
#define TRASH_INT "movabs $0x5a5a5a5a5a5a5a5a,%rcx; mov %rcx,%rdx; mov %rcx,%rsi; mov %rcx,%rdi; mov %rcx,%r8; mov %rcx,%r9; mov %rcx,%r10; mov %rcx,%r11;"
#define TRASH_FLT(n) "movq %rcx,%xmm" #n ";"
#define TRASH_HI TRASH_FLT(1) TRASH_FLT(2) TRASH_FLT(3) TRASH_FLT(4) TRASH_FLT(5) TRASH_FLT(6) TRASH_FLT(7) TRASH_FLT(8) TRASH_FLT(9) TRASH_FLT(10) TRASH_FLT(11) TRASH_FLT(12) TRASH_FLT(13) TRASH_FLT(14) TRASH_FLT(15)
__asm__(".text\n.globl mcv_clobi\nmcv_clobi:\n lea (%rdi,%rdi,2),%rax; sub %rsi,%rax;" TRASH_INT TRASH_FLT(0) TRASH_HI " ret\n"
        ".globl mcv_clobd\nmcv_clobd:\n movsd %xmm0,%xmm2; addsd %xmm2,%xmm0; addsd %xmm2,%xmm0; subsd %xmm1,%xmm0;" TRASH_INT " mov %rcx,%rax;" TRASH_HI " ret\n"
        ".globl mcv_clobs\nmcv_clobs:\n movss %xmm0,%xmm2; addss %xmm2,%xmm0; addss %xmm2,%xmm0; subss %xmm1,%xmm0;" TRASH_INT " mov %rcx,%rax;" TRASH_HI " ret\n"
        ".globl mcv_clobv\nmcv_clobv:\n" TRASH_INT " mov %rcx,%rax;" TRASH_FLT(0) TRASH_HI " ret\n");
