/* Drives the encryption as told on stdin.
 *   K <32 bytes>   new context      R <24 bytes>   restart     D N M <N bytes>   process, in place if M
 * Prints the results; processed bytes go to the file argv[1].
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "utils.h"
#include "encrypt.h"

int main(int argc, char **argv)
{
	struct encrypt_ctx ec;
	uint8_t key[32], nonce[24];
	int c;
	FILE *o = fopen(argv[1], "wb");

	(void)argc;
	u_log_init();
	while ((c = getchar()) != EOF) {
		if (c == 'K') {
			if (fread(key, 1, 32, stdin) != 32)
				return 3;
			memset(&ec, 0xa5, sizeof(ec));
			printf("K %d\n", encrypt_init(&ec, key));
		} else if (c == 'R') {
			if (fread(nonce, 1, 24, stdin) != 24)
				return 3;
			printf("R %d\n", encrypt_restart(&ec, nonce));
		} else if (c == 'D') {
			size_t n;
			int m;
			if (scanf("%zu %d", &n, &m) != 2 || getchar() != '\n')
				return 3;
			uint8_t *in = malloc(n ? n : 1), *out = m ? in : malloc(n ? n : 1);
			if (fread(in, 1, n, stdin) != n)
				return 3;
			if (!m)
				memset(out, 0x5a, n);
			printf("D %d\n", encrypt_do(&ec, out, in, n));
			fwrite(out, 1, n, o);
			if (!m)
				free(out);
			free(in);
		}
	}
	fclose(o);
	return 0;
}
