/* Stands in for an implementation that the interop driver calls.
 *
 * standin DIR NAME [anything...] PARAMETER
 *
 * Appends its arguments to DIR/log, and for every "--location=" and
 * "--destination=" in PARAMETER whether that is a directory and what files it
 * has.  What it prints and how it ends depend on a hash of NAME and PARAMETER
 * and on DIR/fate: "outputs create generate test", where the latter three say
 * that one in so many calls of that kind fails (0: none). */
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char *buf;
static size_t len, cap;

static void put(const char *s, size_t n) {
  if (len + n + 1 > cap) {
    cap = 2 * (len + n + 1);
    buf = realloc(buf, cap);
  }
  memcpy(buf + len, s, n);
  len += n;
}

static void field(const char *s) { put(s, strlen(s) + 1); }

static void look(const char *param, const char *flag) {
  const char *p = param;
  while ((p = strstr(p, flag))) {
    char path[4096], line[5000];
    size_t n = 0;
    p += strlen(flag);
    while (p[n] && p[n] != '"' && n < 4000) n++;
    memcpy(path, p, n);
    path[n] = 0;
    DIR *d = opendir(path);
    int files = 0;
    if (d) {
      struct dirent *e;
      while ((e = readdir(d))) {
        char q[5000];
        struct stat st;
        snprintf(q, sizeof q, "%s/%s", path, e->d_name);
        if (!stat(q, &st) && S_ISREG(st.st_mode)) files++;
      }
      closedir(d);
    }
    snprintf(line, sizeof line, "@%s%s %s %d", flag, path, d ? "dir" : "none", files);
    field(line);
  }
}

int main(int argc, char **argv) {
  char path[4096];
  if (argc < 4) return 99;
  const char *dir = argv[1], *name = argv[2], *param = argv[argc - 1];
  unsigned h = 2166136261u;
  const char *parts[3] = {name, "|", param};
  for (int i = 0; i < 3; i++)
    for (const char *p = parts[i]; *p; p++) h = (h ^ (unsigned char)*p) * 16777619u;
  h ^= h >> 15;

  unsigned outputs = 1, mod[3] = {0, 0, 0};
  snprintf(path, sizeof path, "%s/fate", dir);
  FILE *f = fopen(path, "r");
  if (!f || fscanf(f, "%u %u %u %u", &outputs, mod, mod + 1, mod + 2) != 4) return 98;
  fclose(f);

  const char *c = strstr(param, "\"command\"");
  int kind = -1;
  if (c) {
    c += 9;
    while (*c && *c != '"') c++;
    if (!strncmp(c, "\"create\"", 8)) kind = 0;
    if (!strncmp(c, "\"generate\"", 10)) kind = 1;
    if (!strncmp(c, "\"test\"", 6)) kind = 2;
  }

  for (int i = 2; i < argc; i++) field(argv[i]);
  if (kind == 0) {
    look(param, "--location=");
    look(param, "--destination=");
  }
  put("\n\n", 3);
  snprintf(path, sizeof path, "%s/log", dir);
  int fd = open(path, O_WRONLY | O_APPEND | O_CREAT, 0600);
  if (fd < 0 || write(fd, buf, len) != (ssize_t)len) return 97;
  close(fd);

  if (kind < 0) return 96;
  if (mod[kind] && h % mod[kind] == 0) {
    if (h / 5 % 2) {  // half of the failures say nothing
      printf("refused\n");
      fflush(stdout);
    }
    if (h / 7 % 5 == 0) {
      raise(SIGKILL);
    }
    return 1 + h / 3 % 200;
  }
  if (kind == 1) {
    snprintf(path, sizeof path, "%s/out.%u", dir, h % outputs);
    f = fopen(path, "r");
    if (!f) return 95;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, n, stdout);
    fclose(f);
  } else if (kind == 0) {
    printf("CREATED %s\n", name);
  } else if (h / 11 % 2) {
    printf("fine\n");
  }
  return 0;
}
