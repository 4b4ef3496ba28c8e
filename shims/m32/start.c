/* Start-up code for 32-bit programs: the 32-bit run-time libraries are installed, their start-up objects are not. */
extern int main(int, char**, char**);
extern int __libc_start_main(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*);
__asm__(".text\n.globl _start\n_start:\n\txor %ebp,%ebp\n\tpop %esi\n\tmov %esp,%ecx\n\tand $-16,%esp\n\tpush %eax\n\tpush %esp\n\tpush %edx\n\tpush $0\n\tpush $0\n\tpush %ecx\n\tpush %esi\n\tpush $main\n\tcall __libc_start_main\n\thlt\n");
void* __dso_handle = 0;
extern int __cxa_atexit(void (*)(void*), void*, void*);
int atexit(void (*f)(void)) { return __cxa_atexit((void (*)(void*))f, 0, 0); }
void __stack_chk_fail_local(void) { __builtin_trap(); }
