/* Drives the incremental chunker as told on stdin, prints what it returns.
 *   I MIN AVG MAX   new chunker      D N\n<N bytes>   data, cursor to its start
 *   F N             feed the next N bytes (a private copy of exactly N bytes)
 *   G               id               R   reset        C   set cursor back to where the last chunk started
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "utils.h"
#include "chunker.h"

int main(void)
{
	static struct chunker c;
	char cmd;
	uint8_t *data = NULL;
	size_t len = 0, cur = 0;

	setvbuf(stdout, NULL, _IOLBF, 0);
	u_log_init();
	while (scanf(" %c", &cmd) == 1) {
		if (cmd == 'I') {
			struct chunker_params p;
			unsigned long long a, b, d;
			if (scanf("%llu %llu %llu", &a, &b, &d) != 3)
				return 3;
			memset(&p, 0, sizeof(p));
			p.min_size = a;
			p.avg_size = b;
			p.max_size = d;
			memset(&c, 0xa5, sizeof(c));
			printf("I %d\n", chunker_init(&c, &p));
		} else if (cmd == 'D') {
			if (scanf("%zu", &len) != 1 || getchar() != '\n')
				return 3;
			free(data);
			data = malloc(len ? len : 1);
			if (fread(data, 1, len, stdin) != len)
				return 3;
			cur = 0;
		} else if (cmd == 'F') {
			size_t n, r;
			if (scanf("%zu", &n) != 1 || n > len - cur)
				return 3;
			uint8_t *b = malloc(n ? n : 1);
			memcpy(b, data + cur, n);
			r = chunker_scan(&c, b, n);
			free(b);
			if (r == (size_t)-1) {
				cur += n;
				printf("F -1\n");
			} else {
				printf("F %zu\n", r);
				if (r > n)
					return 0;
				cur += r;
			}
		} else if (cmd == 'G') {
			uint8_t id[CHUNK_ID_LEN];
			chunker_get_id(&c, id);
			printf("G ");
			for (size_t i = 0; i < sizeof(id); i++)
				printf("%02x", id[i]);
			printf("\n");
		} else if (cmd == 'R') {
			chunker_reset(&c);
			printf("R\n");
		}
	}
	return 0;
}
