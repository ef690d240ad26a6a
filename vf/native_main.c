/* Drives a harness natively: replay one counterexample, or look for one. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>

extern void *vf_in_ptr; extern size_t vf_in_len;
int vf_search = 0;
extern void VF_ENTRY(void);
extern void vf_set(void);
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

static void gen(unsigned char *p, size_t n) {
	static const unsigned char pool[] = " \t\n/:.-_?#@[]%=,;'\"\\aAzZbcx0123456789";
	size_t i = 0; int mode = rnd() % 4;
	while (i < n) {
		size_t run = 1 + rnd() % (mode == 0 ? 24 : 8); int k = rnd() % 6;
		unsigned char c = pool[rnd() % (sizeof pool - 1)];
		for (; run && i < n; run--, i++)
			p[i] = k == 0 ? 0 : k == 1 ? (unsigned char)rnd() : k == 2 ? pool[rnd() % (sizeof pool - 1)]
				: k == 3 ? (unsigned char)(rnd() % 4) : k == 4 ? c : (mode == 1 ? 0xff : 0);
	}
}

int main(int argc, char **argv) {
	if (argc == 3 && !strncmp(argv[1], "replay", 6)) {
		vf_search = argv[1][6] == 's';
		FILE *f = fopen(argv[2], "rb");
		if (!f) return 99;
		size_t got = fread(vf_in_ptr, 1, vf_in_len, f); fclose(f);
		if (got != vf_in_len) { fprintf(stderr, "input size %zu, want %zu\n", got, vf_in_len); return 98; }
		alarm(20);
		VF_ENTRY();
		_exit(0);
	}
	if (argc >= 5 && !strcmp(argv[1], "search")) {
		int seconds = atoi(argv[3]);
		vf_search = 1; rs = strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
		unsigned long tried = 0, legal = 0; time_t end = time(0) + seconds;
		void *shr = mmap(0, vf_in_len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		while (time(0) < end) {
			gen(vf_in_ptr, vf_in_len); tried++;
			fflush(0);
			pid_t p = fork();
			if (!p) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); alarm(10); VF_ENTRY(); _exit(0); }
			int st; waitpid(p, &st, 0);
			if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 96)) continue;
			legal++;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
			FILE *f = fopen(argv[4], "wb"); fwrite(vf_in_ptr, 1, vf_in_len, f); fclose(f);
			printf("FOUND tried=%lu legal=%lu status=%d\n", tried, legal, st); (void)shr;
			return 1;
		}
		printf("NONE tried=%lu legal=%lu\n", tried, legal);
		return 0;
	}
	if (argc == 3 && !strcmp(argv[1], "set")) {
		FILE *f = fopen(argv[2], "wb");
		vf_set();
		fwrite(vf_in_ptr, 1, vf_in_len, f); fclose(f);
		return 0;
	}
	if (argc == 2 && !strcmp(argv[1], "finding")) { alarm(20); VF_ENTRY(); _exit(0); }
	return 97;
}
