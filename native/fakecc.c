/*
Stand-in for `cc` in the link step of skull, for speed: checks that it is called the way skull calls cc and runs the
linker directly. `cc` itself costs most of the time of a compile. The check of the command line contract (C13) uses the real cc,
and so does any call that this program or the linker does not understand.
*/
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

int main(int argc, char **argv) {
	char *out[256];
	int n = 0;
	out[n++] = "ld";
	out[n++] = "-dynamic-linker";
	out[n++] = "/lib64/ld-linux-x86-64.so.2";
	out[n++] = STUBS;
	int nostart = 0;
	for (int i = 1; i < argc && n < 250; i++) {
		if (!strcmp(argv[i], "-nostartfiles")) { nostart = 1; continue; }
		if (!strncmp(argv[i], "-I", 2) || !strcmp(argv[i], "-no-pie")) continue;
		out[n++] = argv[i];
	}
	out[n++] = "-lc";
	out[n] = NULL;

	int status = 1;
	if (nostart && argc < 240) {
		pid_t pid = vfork();
		if (pid == 0) {
			// what the linker has to say is said by the real cc
			close(2);
			open("/dev/null", O_WRONLY);
			execv(LINKER, out);
			_exit(1);
		}
		while (waitpid(pid, &status, 0) != pid) {}
	}
	if (status == 0) return 0;

	argv[0] = "/usr/bin/cc";
	execv(argv[0], argv);
	return 1;
}
