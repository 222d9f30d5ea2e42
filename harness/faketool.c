/* Stand-in for the assembler and the linker: copies the markers (mk_...) of its inputs to its output
   and logs the call; fails as FAKE_DIR/fault tells.  Named "as" or "ld". */
#define _GNU_SOURCE
#include <ctype.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char *slurp(const char *p) {
  static char buf[1 << 22];
  FILE *f = fopen(p, "r");
  if (!f) return NULL;
  size_t n = fread(buf, 1, sizeof buf - 1, f);
  fclose(f);
  buf[n] = 0;
  return buf;
}

static int markers(const char *s, char *out) {   /* distinct markers in order of appearance */
  char *seen[64]; int n = 0;
  *out = 0;
  for (const char *p = s; (p = strstr(p, "mk_")); ) {
    const char *q = p + 3;
    while (isalnum((unsigned char)*q)) q++;
    char *m = strndup(p, q - p);
    int dup = 0;
    for (int i = 0; i < n; i++) dup |= !strcmp(seen[i], m);
    if (!dup && n < 64) { seen[n++] = m; if (*out) strcat(out, ","); strcat(out, m); }
    p = q;
  }
  return n;
}

int main(int argc, char **argv) {
  char *dir = getenv("FAKE_DIR"), path[4096], line[65536] = "", m[8192], *out = NULL;
  char *base = strrchr(argv[0], '/'); base = base ? base + 1 : argv[0];
  int is_ld = !strcmp(base, "ld");
  struct stat st;
  snprintf(path, sizeof path, "%s/log", dir);
  char *log = slurp(path);
  int n = 1;
  for (char *p = log; p && *p; p++) n += *p == '\n';
  strcat(line, base);
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "-o") && i + 1 < argc) { out = argv[++i]; continue; }
    if ((!strcmp(argv[i], "-dynamic-linker") || !strcmp(argv[i], "-rpath") || !strcmp(argv[i], "-L") || !strcmp(argv[i], "-m") || !strcmp(argv[i], "-z")) && i + 1 < argc) { i++; continue; }
    if (argv[i][0] == '-') {
      if (!strncmp(argv[i], "-l", 2) || !strncmp(argv[i], "--xo", 4)) {
        strcat(line, " "); strcat(line, argv[i]);
        if (!strcmp(argv[i], "-l") && i + 1 < argc) strcat(line, argv[++i]);
      }
      continue;
    }
    if (!strncmp(argv[i], "/usr/", 5) || !strncmp(argv[i], "/lib", 4)) continue;
    strcat(line, " ");
    char *s = stat(argv[i], &st) == 0 && S_ISREG(st.st_mode) ? slurp(argv[i]) : NULL;
    if (!s) { strcat(line, "?"); continue; }
    strcat(line, !strncmp(s, "OBJ ", 4) ? "OBJ:" : !strncmp(s, "EXE ", 4) ? "EXE:" : "ASM:");
    markers(s, m);
    strcat(line, m);
  }
  int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
  dprintf(fd, "%s\n", line);
  close(fd);
  snprintf(path, sizeof path, "%s/fault", dir);
  char *f = slurp(path);
  int missing = strchr(line, '?') != NULL;
  int fn = 0, how = 0;
  if (f) sscanf(f, "%d %d", &fn, &how);
  if (fn == n) {
    if (how < 0) { raise(-how); pause(); }
    return how;
  }
  if (missing) return 1;
  if (!out) out = is_ld ? "a.out" : "a.out.o";
  FILE *o = fopen(out, "w");
  if (!o) return 1;
  fprintf(o, "%s %s\n", is_ld ? "EXE" : "OBJ", strchr(line, ' ') ? strchr(line, ' ') + 1 : "");
  fclose(o);
  return 0;
}
