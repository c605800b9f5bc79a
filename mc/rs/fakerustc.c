/* Stands for rustc and for rustc wrappers while the build script runs. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static void put(const char *dir, const char *name) {
    char p[4096];
    snprintf(p, sizeof p, "%s/%s", dir, name);
    int fd = open(p, O_CREAT | O_WRONLY, 0444);
    if (fd >= 0) { if (write(fd, "x", 1) != 1) _exit(9); close(fd); }
}

static void note(char **argv, const char *what) {
    const char *log = getenv("MC_LOG");
    if (!log) return;
    char b[16384];
    size_t n = 0;
    const char *bs = getenv("RUSTC_BOOTSTRAP");
    n += snprintf(b + n, sizeof b - n, "%s\x1f%s", what, bs ? bs : "<unset>");
    for (; *argv; argv++) n += snprintf(b + n, sizeof b - n, "\x1f%s", *argv);
    n += snprintf(b + n, sizeof b - n, "\n");
    int fd = open(log, O_CREAT | O_WRONLY | O_APPEND, 0644);
    if (fd >= 0) { if (write(fd, b, n) != (ssize_t)n) _exit(9); close(fd); }
}

static int names(const char *list, const char *crate) {
    size_t l = strlen(crate);
    for (const char *p = list; *p;) {
        const char *q = strchrnul(p, ',');
        if ((size_t)(q - p) == l && !strncmp(p, crate, l)) return 1;
        p = *q ? q + 1 : q;
    }
    return 0;
}

int main(int argc, char **argv) {
    const char *me = strrchr(argv[0], '/');
    me = me ? me + 1 : argv[0];
    if (!strncmp(me, "wrap", 4)) {
        note(argv + 1, me);
        if (!strcmp(me, "wrapfails")) return 1;
        if (argc < 2) return 2;
        execvp(argv[1], argv + 1);
        return 127;
    }
    if (argc == 2 && !strcmp(argv[1], "--version")) {
        const char *f = getenv("MC_VERSION_FILE");
        char b[4096];
        int fd = f ? open(f, O_RDONLY) : -1;
        ssize_t n = fd < 0 ? 0 : read(fd, b, sizeof b);
        if (n > 0 && write(1, b, n) != n) return 9;
        return getenv("MC_VERSION_STATUS") ? atoi(getenv("MC_VERSION_STATUS")) : 0;
    }
    struct stat st;
    const char *lf = getenv("MC_LOG"), *kl = getenv("MC_KILL");
    int again = lf && !stat(lf, &st) && st.st_size > 0;
    note(argv + 1, "rustc");
    const char *dir = 0, *crate = "";
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--out-dir") && i + 1 < argc) dir = argv[i + 1];
        if (!strncmp(argv[i], "--crate-name=", 13)) crate = argv[i] + 13;
        if (!strcmp(argv[i], "--crate-name") && i + 1 < argc) crate = argv[i + 1];
    }
    const char *mess = getenv("MC_MESS"), *cls = getenv("MC_CLASS"), *bs = getenv("RUSTC_BOOTSTRAP");
    if (dir && mess && *mess >= '1') { put(dir, "thiserror.d"); put(dir, "libthiserror.rmeta"); }
    if (dir && mess && *mess >= '2') {
        char p[4096];
        snprintf(p, sizeof p, "%s/incremental", dir);
        mkdir(p, 0755);
        put(p, "a");
    }
    if (mess && *mess >= '1' && write(2, "error: noise\n", 13) < 0) return 9;
    /* the build script itself is interrupted here */
    if (kl && atoi(kl) == 1 + again && getppid() > 1) { kill(getppid(), SIGKILL); return 1; }
    int stable = bs && (!strcmp(bs, "1") || names(bs, crate));
    if (!strcmp(cls, "nightly")) return bs && !strcmp(bs, "-1") ? 1 : 0;
    if (!strcmp(cls, "stable")) return stable ? 0 : 1;
    if (!strcmp(cls, "old")) return 1;
    if (!strcmp(cls, "crash")) return 101;
    if (!strcmp(cls, "killed")) raise(SIGKILL);
    if (!strcmp(cls, "stablekilled")) { if (!stable) raise(SIGKILL); return 0; }
    return 1;
}
