/* Stands in front of the system-call stub (ld --wrap): clamps or fails the
transfers of the driver according to a plan, and counts what it did. */
long vf_ret;
static long *plan, nplan, at;
static long armed, hits, err;

long vf_lasterr(void) __asm__("vfs$lasterr");

long vf_lasterr(void)
{
	return err;
}


void vf_arm(long *p, long n) __asm__("vfs$arm");
long vf_disarm(void) __asm__("vfs$disarm");

void vf_arm(long *p, long n)
{
	plan = p;
	nplan = n;
	at = 0;
	hits = 0;
	err = 0;
	armed = 1;
}

long vf_disarm(void)
{
	armed = 0;
	return hits;
}

/* a[0..]: the arguments of the call.  1: answer vf_ret; 0: go on */
long vf_pre(long sc, long *a)
{
	long v;

	if (!armed || at >= nplan)
		return 0;
	if (sc != 0 && sc != 1 && sc != 217 && sc != 78)
		return 0;
	if (a[2] == 0)
		return 0;
	v = plan[at++];
	if (v < 0) {
		hits++;
		err = v;
		vf_ret = v;
		return 1;
	}
	if (sc == 217 && v < 280)
		v = 280;
	if (v > 0 && v < a[2]) {
		a[2] = v;
		hits++;
	}
	return 0;
}

__asm__(
".globl __wrap_sys$syscall\n"
"__wrap_sys$syscall:\n"
"	pushq %rdi\n"
"	leaq 24(%rsp),%rsi\n"
"	call vf_pre\n"
"	popq %rdi\n"
"	testq %rax,%rax\n"
"	jne 1f\n"
"	jmp __real_sys$syscall\n"
"1:	movq vf_ret(%rip),%rax\n"
"	ret\n"
);
