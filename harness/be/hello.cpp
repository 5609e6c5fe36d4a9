// does this kernel run 32-bit programs?
extern "C" void _start() { __asm__ volatile("movl $1, %eax\nxorl %ebx, %ebx\nint $0x80"); for (;;) {} }
