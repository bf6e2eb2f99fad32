/* Stand-in for cargo, used as $CARGO.  Answers `locate-project` and `metadata` from prepared
 * files; every build/test/check invocation is reported to the controller over a Unix socket and
 * does what the controller says (exit, die of a signal, hang, fork a grandchild ...). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

extern char **environ;

static int cat_file(const char *path) {
    int fd = open(path, O_RDONLY);
    if (fd < 0) return -1;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) {
        char *p = buf;
        while (n > 0) { ssize_t w = write(1, p, n); if (w <= 0) return -1; p += w; n -= w; }
    }
    close(fd);
    return 0;
}

static void exec_real(char **argv) {
    const char *real = getenv("FC_REAL_CARGO");
    if (!real) { fprintf(stderr, "fakecargo: unsupported: %s\n", argv[1] ? argv[1] : ""); _exit(98); }
    argv[0] = (char *)real;
    execv(real, argv);
    _exit(97);
}

static void wr(int fd, const void *b, size_t n) {
    const char *p = b;
    while (n) { ssize_t w = write(fd, p, n); if (w <= 0) _exit(96); p += w; n -= w; }
}

static int hello(const char *kind, int argc, char **argv) {
    const char *sock = getenv("FC_SOCK");
    if (!sock) _exit(95);
    int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_un a = {.sun_family = AF_UNIX};
    strncpy(a.sun_path, sock, sizeof a.sun_path - 1);
    int tries = 0;
    while (connect(fd, (struct sockaddr *)&a, sizeof a) != 0) {
        if (++tries > 200) _exit(94);
        usleep(5000);
    }
    size_t cap = 1 << 20, len = 0;
    char *b = malloc(cap);
    #define S(str) do { const char *s_ = (str); size_t l_ = strlen(s_) + 1; \
        if (len + l_ > cap) _exit(93); memcpy(b + len, s_, l_); len += l_; } while (0)
    char t[64];
    S(kind);
    snprintf(t, sizeof t, "%d", getpid()); S(t);
    snprintf(t, sizeof t, "%d", getpgrp()); S(t);
    char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
    S(cwd);
    snprintf(t, sizeof t, "%d", argc); S(t);
    for (int i = 0; i < argc; i++) S(argv[i]);
    for (char **e = environ; *e; e++) S(*e);
    uint32_t n = len;
    wr(fd, &n, 4);
    wr(fd, b, len);
    free(b);
    return fd;
}

static int obey(int fd) {
    char line[4096]; size_t n = 0;
    for (;;) {
        char c; ssize_t r = read(fd, &c, 1);
        if (r == 0) _exit(99);
        if (r < 0) { if (errno == EINTR) continue; _exit(99); }
        if (c != '\n') { if (n < sizeof line - 1) line[n++] = c; continue; }
        line[n] = 0; n = 0;
        if (!strncmp(line, "exit ", 5)) _exit(atoi(line + 5));
        else if (!strncmp(line, "kill ", 5)) { signal(atoi(line + 5), SIG_DFL); kill(getpid(), atoi(line + 5)); for (;;) pause(); }
        else if (!strncmp(line, "out ", 4)) { dprintf(1, "%s\n", line + 4); wr(fd, "k", 1); }
        else if (!strncmp(line, "err ", 4)) { dprintf(2, "%s\n", line + 4); wr(fd, "k", 1); }
        else if (!strcmp(line, "ignterm")) { signal(SIGTERM, SIG_IGN); signal(SIGINT, SIG_IGN); wr(fd, "k", 1); }
        else if (!strcmp(line, "fork") || !strcmp(line, "forkign")) {
            pid_t p = fork();
            if (p == 0) { if (line[4]) { signal(SIGTERM, SIG_IGN); signal(SIGINT, SIG_IGN); } close(fd); char *av[] = {"grandchild", 0}; int g = hello("grandchild", 1, av); obey(g); }
            wr(fd, "k", 1);
        }
    }
}

int main(int argc, char **argv) {
    const char *dir = getenv("FC_DIR");
    if (!dir || argc < 2) exec_real(argv);
    char path[PATH_MAX];
    if (getenv("FC_REALMETA") && (!strcmp(argv[1], "locate-project") || !strcmp(argv[1], "metadata"))) exec_real(argv);
    if (!strcmp(argv[1], "locate-project")) {
        int ws = 0;
        const char *pre = "{\"root\":\"", *post = "\"}", *mp = NULL;
        for (int i = 2; i < argc; i++) {
            if (!strcmp(argv[i], "--workspace")) ws = 1;
            if (!strcmp(argv[i], "--message-format=plain") || (!strcmp(argv[i], "--message-format") && i + 1 < argc && !strcmp(argv[i + 1], "plain"))) pre = post = "";
            if (!strcmp(argv[i], "--manifest-path") && i + 1 < argc) mp = argv[i + 1];
            if (!strncmp(argv[i], "--manifest-path=", 16)) mp = argv[i] + 16;
        }
        char cwd[PATH_MAX];
        if (mp) {
            char m[PATH_MAX], *s;
            if (!realpath(mp, m) || !(s = strrchr(m, '/'))) { fprintf(stderr, "error: manifest path `%s` does not exist\n", mp); return 101; }
            *s = 0;
            if (chdir(*m ? m : "/")) return 101;
        }
        if (!getcwd(cwd, sizeof cwd)) return 101;
        const char *root = getenv("FC_ROOT");
        if (ws && root && !strncmp(cwd, root, strlen(root)) ) {
            printf("%s%s/Cargo.toml%s\n", pre, root, post);
            return 0;
        }
        if (!ws) {
            for (;;) {
                char m[PATH_MAX + 16]; struct stat st;
                snprintf(m, sizeof m, "%s/Cargo.toml", cwd);
                if (stat(m, &st) == 0) { printf("%s%s%s\n", pre, m, post); return 0; }
                char *s = strrchr(cwd, '/');
                if (!s || s == cwd) break;
                *s = 0;
            }
        }
        fprintf(stderr, "error: could not find `Cargo.toml`\n");
        return 101;
    }
    if (!strcmp(argv[1], "metadata")) {
        /* unless told not to, cargo resolves dependencies, and writes a missing lock file */
        int nodeps = 0;
        for (int i = 2; i < argc; i++) if (!strcmp(argv[i], "--no-deps") || !strcmp(argv[i], "--locked") || !strcmp(argv[i], "--frozen")) nodeps = 1;
        if (!nodeps && getenv("FC_ROOT")) {
            snprintf(path, sizeof path, "%s/Cargo.lock", getenv("FC_ROOT"));
            int lk = open(path, O_WRONLY | O_CREAT | O_EXCL, 0644);
            if (lk >= 0) { if (write(lk, "version = 4\n", 12) < 0) return 101; close(lk); }
        }
        snprintf(path, sizeof path, "%s/metadata.json", dir);
        if (cat_file(path) == 0) return 0;
        exec_real(argv);
    }
    if (!getenv("FC_SOCK")) exec_real(argv);
    if (!strcmp(argv[1], "--version") || !strcmp(argv[1], "-V")) { printf("cargo 1.99.0\n"); return 0; }
    int fd = hello("cargo", argc, argv);
    obey(fd);
    return 0;
}
