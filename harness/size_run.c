/* Lines on stdin: "P text" -> the parsed size; "F number" -> the rendered size. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <apr_general.h>
#include <apr_pools.h>
#include "human_size.h"
int main(void)
{
    static char line[65536];
    apr_pool_t *pool;
    apr_initialize();
    apr_pool_create(&pool, NULL);
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        if (line[0] == 'P') printf("%lld\n", (long long) parse_human_size(line + 2));
        else printf("%s\n", format_human_size((apr_off_t) strtoll(line + 2, NULL, 10), pool));
    }
    return 0;
}
