/* Entry point for objects made with -c or -S of module "p": what SKULL_INIT_MODULE(p) does, and exit with its result. */
extern long module_p(void) __asm__(".p");
extern void exit(int);

__attribute__((force_align_arg_pointer, noreturn)) void _start(void) {
	exit((int)module_p());
	__builtin_unreachable();
}
