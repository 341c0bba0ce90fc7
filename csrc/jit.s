/*
Schedule noise.  vf$jit is called before memory accesses and calls of
instrumented code; it preserves every register and the flags.  One call in
vf_jmask+1 (pseudo random) delays: a short spin, a longer spin, sched_yield or
a short sleep.
*/
	.data
	.globl vf_jmask
vf_jmask:	.quad 127
vf_seed:	.quad 0x2545f4914f6cdd1d
	.globl vf_njit
vf_njit:	.quad 0
	.text
	.globl vf$jit
vf$jit:
	pushfq
	pushq %rax
	pushq %rdx
	rdtsc
	shlq $32, %rdx
	orq %rdx, %rax
	xorq %rsp, %rax
	movabsq $0x9e3779b97f4a7c15, %rdx
	mulq %rdx
	xorq %rdx, %rax
	movq %rax, %rdx
	shrq $29, %rdx
	andq vf_jmask(%rip), %rax
	jnz 1f
	lock incq vf_njit(%rip)
	call vf$slow
1:	popq %rdx
	popq %rax
	popfq
	ret

/* %rdx: random */
vf$slow:
	pushq %rcx
	pushq %rsi
	pushq %rdi
	pushq %r8
	pushq %r9
	pushq %r10
	pushq %r11
	movl %edx, %ecx
	andl $15, %ecx
	shrq $4, %rdx
	cmpl $9, %ecx
	jb 2f
	cmpl $14, %ecx
	jb 4f
	/* sleep up to 64us */
	andl $0xffff, %edx
	pushq %rdx
	pushq $0
	movq %rsp, %rdi
	xorl %esi, %esi
	movl $35, %eax
	syscall
	addq $16, %rsp
	jmp 9f
2:	/* spin */
	andl $1023, %edx
	incl %edx
3:	pause
	decl %edx
	jnz 3b
	jmp 9f
4:	movl $24, %eax
	syscall
9:	popq %r11
	popq %r10
	popq %r9
	popq %r8
	popq %rdi
	popq %rsi
	popq %rcx
	ret

/* called as functions: caller saved registers may be clobbered */
	.globl vf_delay
vf_delay:
	rdtsc
	movl %eax, %edx
	imull $0x9e3779b1, %edx, %edx
	shrl $24, %edx
	incl %edx
1:	pause
	decl %edx
	jnz 1b
	ret
	.globl vf_kdelay
vf_kdelay:
	rdtsc
	movl %eax, %edx
	imull $0x9e3779b1, %edx, %edx
	shrl $16, %edx
	jmp vf$slow2
vf$slow2:
	pushq %rdi
	pushq %rsi
	pushq %rdx
	pushq $0
	movq %rsp, %rdi
	xorl %esi, %esi
	movl $35, %eax
	testl $1, %edx
	jz 1f
	movl $24, %eax
1:	syscall
	addq $16, %rsp
	popq %rsi
	popq %rdi
	ret
	.globl vf_now
vf_now:
	rdtsc
	shlq $32, %rdx
	orq %rdx, %rax
	ret
	.section .note.GNU-stack,"",@progbits
