/* Drives the hashing as told on stdin.
 *   I <driver>\n     sha_kcapi_init (driver "-": NULL)       X   sha_kcapi_deinit
 *   D <len> <mis>\n<len bytes>   sha_once, on data starting mis bytes behind an aligned address
 * The steps are noted in the recording of the shim.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "utils.h"
#include "sha.h"

extern void shim_note(const char *s) __attribute__((weak));

static void note(const char *fmt, ...)
{
	char s[400];
	va_list ap;

	va_start(ap, fmt);
	vsnprintf(s, sizeof(s), fmt, ap);
	va_end(ap);
	if (shim_note)
		shim_note(s);
}

int main(void)
{
	int c;

	u_log_init();
	while ((c = getchar()) != EOF) {
		if (c == 'I') {
			char drv[300];
			if (scanf(" %299[^\n]", drv) != 1 || getchar() != '\n')
				return 3;
			note("I");
			int r = sha_kcapi_init(strcmp(drv, "-") ? drv : NULL);
			note("i %d", r);
		} else if (c == 'X') {
			sha_kcapi_deinit();
			note("x");
		} else if (c == 'D') {
			size_t n, mis;
			uint8_t md[SHA_LEN + 16];
			if (scanf("%zu %zu", &n, &mis) != 2 || getchar() != '\n')
				return 3;
			uint8_t *b = malloc(n + mis ? n + mis : 1), *x = malloc(n + 1);
			if (fread(b + mis, 1, n, stdin) != n)
				return 3;
			memcpy(x, b + mis, n);
			memset(md, 0x5a, sizeof(md));
			note("D %zu", n);
			int r = sha_once(b + mis, n, md);
			char hex[SHA_LEN * 2 + 1];
			for (int i = 0; i < SHA_LEN; i++)
				sprintf(hex + 2 * i, "%02x", md[i]);
			bool ok = !memcmp(x, b + mis, n);
			for (int i = SHA_LEN; i < SHA_LEN + 16; i++)
				ok &= md[i] == 0x5a;
			note("d %d %s %d", r, hex, ok);
			free(b);
			free(x);
		}
	}
	return 0;
}
