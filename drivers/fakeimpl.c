/* A stand-in for an implementation in the interop matrix:
 *   fakeimpl LOG IMPL FAILFILE KEYS json
 * appends [impl, json, listing of KEYS] to LOG and prints a JSON reply with a
 * unique tag; fails (exit 1) when a line of FAILFILE, a list of substrings
 * separated by tabs, is contained in the JSON without spaces. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <ftw.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static FILE *buf;
static int visit(const char *p, const struct stat *s, int t, struct FTW *f) {
    fprintf(buf, "%c%s\n", t == FTW_D ? 'd' : 'f', p);
    return 0;
}
int main(int c, char **v) {
    char *mem, *q, *w, line[4096], *tok;
    size_t n, i;
    long off;
    int fail = 0, fd;
    FILE *f;
    if (c != 6) { printf("wrong number of arguments: %d", c); return 9; }
    q = strdup(v[5]);
    for (w = q, i = 0; v[5][i]; i++) if (v[5][i] != ' ') *w++ = v[5][i];
    *w = 0;
    if ((f = fopen(v[3], "r"))) {
        while (fgets(line, sizeof line, f)) {
            int all = 1, any = 0;
            line[strcspn(line, "\n")] = 0;
            for (tok = strtok(line, "\t"); tok; tok = strtok(0, "\t")) {
                any = 1;
                if (tok[0] == '@' ? strcmp(tok + 1, v[2]) != 0 : !strstr(q, tok)) all = 0;
            }
            if (any && all) fail = 1;
        }
        fclose(f);
    }
    buf = open_memstream(&mem, &n);
    fprintf(buf, "%d%c%s%c%s%c", fail, 0, v[2], 0, v[5], 0);
    nftw(v[4], visit, 8, FTW_PHYS);
    fputc(0, buf);
    fflush(buf);
    fd = open(v[1], O_WRONLY | O_APPEND | O_CREAT, 0644);
    off = lseek(fd, 0, SEEK_END);
    if (write(fd, mem, n) != (ssize_t)n) return 8;
    if (fail) { fprintf(stderr, "boom\n"); return 1; }
    printf("{\"output\": \"%ld\"}\n", off);
    return 0;
}
