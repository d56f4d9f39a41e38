/*
Fork server around the real skull `main` (compiled with -Dmain=skull_main).

Requests arrive on fd 0, one per line:  <timeout_ms> \t <mem_mb> \t <cwd> \t <outfile> \t <errfile> \t arg0 \t arg1 ... \n
The reply on fd 1 is one line: "<kind> <code> <ms>\n", kind e = exited, s = signalled, t = timed out.
Every request runs in a forked child, so runs cannot influence each other.
A request whose arg0 is not "skull" is run with execv instead.
*/
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <llvm-c/Target.h>

int skull_main(int, char **);
int real_main(int, char **);

#if OPTIONS_SIZE
extern char BUILD_DATA[];
static char initial_options[OPTIONS_SIZE];
#endif

/*
Several runs of `main` in one process. The runs are separated by arguments "@@"; only the options are reset in between.
After each one a line "\001<exit code>" is written to both outputs.
*/
static int history(int n, char **argv) {
#if OPTIONS_SIZE
	for (int i = 1; i <= n; i++) {
		int start = i;
		while (i < n && strcmp(argv[i], "@@")) i++;
		argv[i] = NULL;
		argv[start - 1] = "skull";
		memcpy(BUILD_DATA, initial_options, OPTIONS_SIZE);
		int code = skull_main(i - start + 1, argv + start - 1);
		fflush(stdout);
		fflush(stderr);
		dprintf(1, "\001%d\n", code);
		dprintf(2, "\001%d\n", code);
	}
	return 0;
#else
	return 253;
#endif
}

static volatile sig_atomic_t timed_out;
static pid_t child;

static void on_alarm(int sig) {
	(void)sig;
	timed_out = 1;
	if (child > 0) kill(-child, SIGKILL);
}

int main(void) {
	static char line[1 << 20];

#if OPTIONS_SIZE
	memcpy(initial_options, BUILD_DATA, OPTIONS_SIZE);
#endif
	signal(SIGPIPE, SIG_IGN);
	struct sigaction sa = { .sa_handler = on_alarm };
	sigaction(SIGALRM, &sa, NULL);

	// registering the targets is slow and idempotent: do it once, before the forks
	LLVMInitializeAllTargetInfos();
	LLVMInitializeAllTargets();
	LLVMInitializeAllTargetMCs();
	LLVMInitializeAllAsmPrinters();
	LLVMInitializeAllAsmParsers();
	LLVMInitializeAllDisassemblers();

	FILE *in = fdopen(dup(0), "r");
	int replies = dup(1);
	fcntl(replies, F_SETFD, FD_CLOEXEC);
	fcntl(fileno(in), F_SETFD, FD_CLOEXEC);
	int null = open("/dev/null", O_RDWR);
	dup2(null, 0);
	close(null);

	while (fgets(line, sizeof line, in)) {
		char *argv[256];
		char *field[5];
		int n = 0;
		char *nl = strchr(line, '\n');
		if (nl) *nl = 0;
		char *p = line;
		int f = 0;
		while (p) {
			char *tab = strchr(p, '\t');
			if (tab) *tab = 0;
			if (f < 5) field[f++] = p;
			else if (n < 255) argv[n++] = p;
			p = tab ? tab + 1 : NULL;
		}
		argv[n] = NULL;

		long timeout = atol(field[0]);
		long mem = atol(field[1]);
		timed_out = 0;

		struct timespec a, b;
		clock_gettime(CLOCK_MONOTONIC, &a);

		child = fork();
		if (child == 0) {
			setpgid(0, 0);
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			signal(SIGALRM, SIG_DFL);
			signal(SIGPIPE, SIG_DFL);
			signal(SIGINT, SIG_DFL);
			if (chdir(field[2])) _exit(250);
			int o = open(field[3], O_WRONLY | O_CREAT | O_TRUNC, 0666);
			int e = strcmp(field[3], field[4]) ? open(field[4], O_WRONLY | O_CREAT | O_TRUNC, 0666) : dup(o);
			if (o < 0 || e < 0) _exit(251);
			dup2(o, 1);
			dup2(e, 2);
			close(o);
			close(e);
			close(replies);
			close(fileno(in));
			struct rlimit core = {0, 0};
			setrlimit(RLIMIT_CORE, &core);
			struct rlimit fs = {64 << 20, 64 << 20};
			setrlimit(RLIMIT_FSIZE, &fs);
			if (mem > 0) {
				struct rlimit as = {(rlim_t)mem << 20, (rlim_t)mem << 20};
				setrlimit(RLIMIT_AS, &as);
			}
			// leading "@NAME=VALUE" set the environment
			char **av = argv;
			while (n && av[0][0] == '@') {
				if (strncmp(av[0], "@RLIMIT_FSIZE=", 14) == 0) {
					// no file can be larger: a disk that fills up
					rlim_t size = (rlim_t)atol(av[0] + 14);
					struct rlimit small = {size, size};
					signal(SIGXFSZ, SIG_IGN);
					setrlimit(RLIMIT_FSIZE, &small);
				}
				else if (strncmp(av[0], "@ROOT=", 6) == 0) {
					// the work directory is the root, and the current directory is in it
					// (the C library keeps a locale that was loaded before)
					setlocale(LC_ALL, "C.UTF-8");
					setlocale(LC_ALL, "en_US.UTF-8");
					setlocale(LC_ALL, "C");
					if (unshare(CLONE_NEWUSER) || chroot(".") || chdir(av[0] + 6)) _exit(253);
				}
				else if (strncmp(av[0], "@RLIMIT_STACK=", 14) == 0) {
					rlim_t size = (rlim_t)atol(av[0] + 14);
					struct rlimit small = {size, size};
					setrlimit(RLIMIT_STACK, &small);
				}
				else putenv(av[0] + 1);
				av++;
				n--;
			}
#ifndef __SANITIZE_ADDRESS__
			// fresh memory is never zero by luck
			if (n && (strcmp(av[0], "skull") == 0 || strcmp(av[0], "history") == 0)) mallopt(M_PERTURB, 0x5a);
#endif
			if (strcmp(av[0], "skull") == 0) exit(skull_main(n, av));
			if (strcmp(av[0], "history") == 0) exit(history(n, av));
			if (strcmp(av[0], "real_main") == 0) exit(real_main(n, av));
			execv(av[0], av);
			_exit(252);
		}
		setpgid(child, child);

		struct itimerval it = { .it_value = { timeout / 1000, (timeout % 1000) * 1000 } };
		setitimer(ITIMER_REAL, &it, NULL);
		int status = 0;
		while (waitpid(child, &status, 0) < 0 && errno == EINTR) {}
		struct itimerval off = {0};
		setitimer(ITIMER_REAL, &off, NULL);
		kill(-child, SIGKILL);
		clock_gettime(CLOCK_MONOTONIC, &b);

		char reply[64];
		char kind = timed_out ? 't' : WIFSIGNALED(status) ? 's' : 'e';
		int code = WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status);
		int len = snprintf(reply, sizeof reply, "%c %d %ld\n", kind, code,
			(b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000);
		if (write(replies, reply, (size_t)len) < 0) return 1;
	}
	return 0;
}
