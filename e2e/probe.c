// probe: the external command used by the end-to-end suites. Every invocation can append one record to $PLOG.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
extern char **environ;
static void logrec(const char *s) {
    const char *p = getenv("PLOG");
    if (!p) return;
    int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd < 0) return;
    char b[8192];
    int n = snprintf(b, sizeof b, "%.8000s\n", s);
    if (write(fd, b, n) < 0) {}
    close(fd);
}
static void fdline(char *out, size_t sz) {
    // descriptors before anything is opened: list via fcntl
    size_t o = 0;
    for (int i = 0; i < 256; i++) {
        if (fcntl(i, F_GETFD) < 0) continue;
        char l[64], t[512];
        snprintf(l, sizeof l, "/proc/self/fd/%d", i);
        ssize_t n = readlink(l, t, sizeof t - 1);
        if (n < 0) n = 0;
        t[n] = 0;
        o += snprintf(out + o, sz - o, " %d=%s", i, t);
    }
}
static void status(const char *keys, char *out, size_t sz) {
    FILE *f = fopen("/proc/self/status", "r");
    char line[512];
    size_t o = 0;
    out[0] = 0;
    while (f && fgets(line, sizeof line, f)) {
        char *c = strchr(line, ':');
        if (!c) continue;
        *c = 0;
        if (strstr(keys, line)) {
            char *v = c + 1;
            while (*v == '\t' || *v == ' ') v++;
            v[strcspn(v, "\n")] = 0;
            o += snprintf(out + o, sz - o, " %s=%s", line, v);
        }
    }
    if (f) fclose(f);
}
int main(int argc, char **argv) {
    char b[7000];
    if (argc < 2) return 0;
    const char *op = argv[1];
    if (!strcmp(op, "st")) {            // st CODE TAG [DELAYMS]: log TAG, exit CODE
        if (argc > 4) usleep(atoi(argv[4]) * 1000);
        if (argc > 3) logrec(argv[3]);
        return atoi(argv[2]);
    }
    if (!strcmp(op, "sg")) {            // sg SIGNAL TAG: log TAG, die by SIGNAL
        if (argc > 3) logrec(argv[3]);
        signal(atoi(argv[2]), SIG_DFL);
        raise(atoi(argv[2]));
        sleep(1);
        return 0;
    }
    if (!strcmp(op, "args")) {          // args ...: print the number of arguments and each one in hex
        printf("%d", argc - 2);
        for (int i = 2; i < argc; i++) {
            printf(" x");
            for (char *c = argv[i]; *c; c++) printf("%02x", (unsigned char)*c);
        }
        printf("\n");
        return 0;
    }
    if (!strcmp(op, "fds")) { fdline(b, sizeof b); printf("fds%s\n", b); return 0; }
    if (!strcmp(op, "fdlog")) {         // fdlog TAG: log descriptors, copy stdin to stdout
        char c[7200];
        fdline(b, sizeof b);
        snprintf(c, sizeof c, "%s%s", argv[2], b);
        logrec(c);
        if (argc > 3) { char buf[65536]; ssize_t n; while ((n = read(0, buf, sizeof buf)) > 0) { ssize_t w = 0; while (w < n) { ssize_t k = write(1, buf + w, n - w); if (k <= 0) return 1; w += k; } } }
        return 0;
    }
    if (!strcmp(op, "shfds")) {         // shfds TAG: log the descriptors of the parent process
        char d[64];
        size_t o = 0;
        snprintf(d, sizeof d, "/proc/%d/fd", (int)getppid());
        b[0] = 0;
        for (int i = 0; i < 256; i++) {
            char l[128], t[512];
            snprintf(l, sizeof l, "%s/%d", d, i);
            ssize_t n = readlink(l, t, sizeof t - 1);
            if (n < 0) continue;
            t[n] = 0;
            o += snprintf(b + o, sizeof b - o, " %d=%s", i, t);
        }
        char c[7200];
        snprintf(c, sizeof c, "%s%s", argv[2], b);
        logrec(c);
        return 0;
    }
    if (!strcmp(op, "sig")) {           // sig TAG: log signal state
        char c[7200];
        status("SigBlk SigIgn SigCgt", b, sizeof b);
        snprintf(c, sizeof c, "%s%s", argv[2], b);
        logrec(c);
        return 0;
    }
    if (!strcmp(op, "shsig")) {         // shsig TAG: log signal state of the parent process
        char pth[64], line[512], c[7200];
        snprintf(pth, sizeof pth, "/proc/%d/status", (int)getppid());
        usleep(argc > 3 ? atoi(argv[3]) * 1000 : 0);
        FILE *f = fopen(pth, "r");
        size_t o = snprintf(c, sizeof c, "%s", argv[2]);
        while (f && fgets(line, sizeof line, f))
            if (!strncmp(line, "Sig", 3) && !strchr(line, '/')) {
                line[strcspn(line, "\n")] = 0;
                char *v = strchr(line, '\t');
                if (!v) continue;
                *strchr(line, ':') = 0;
                o += snprintf(c + o, sizeof c - o, " %s=%s", line, v + 1);
            }
        logrec(c);
        return 0;
    }
    if (!strcmp(op, "env")) {           // env TAG NAME...: log the values of the names
        char c[7200];
        size_t o = snprintf(c, sizeof c, "%s", argv[2]);
        for (int i = 3; i < argc; i++) {
            char *v = getenv(argv[i]);
            int cnt = 0;
            for (char **e = environ; *e; e++) { size_t l = strlen(argv[i]); if (!strncmp(*e, argv[i], l) && (*e)[l] == '=') cnt++; }
            o += snprintf(c + o, sizeof c - o, " %s:%d=%s", argv[i], cnt, v ? v : "<unset>");
        }
        logrec(c);
        return 0;
    }
    if (!strcmp(op, "envall")) {        // envall TAG: log all names sorted by the caller
        char c[7200];
        size_t o = snprintf(c, sizeof c, "%s", argv[2]);
        for (char **e = environ; *e && o < 6500; e++) o += snprintf(c + o, sizeof c - o, "\x1f%s", *e);
        logrec(c);
        return 0;
    }
    if (!strcmp(op, "pid")) {           // pid TAG: log pid, ppid, pgid
        snprintf(b, sizeof b, "%s %d %d %d", argv[2], (int)getpid(), (int)getppid(), (int)getpgrp());
        logrec(b);
        return 0;
    }
    if (!strcmp(op, "cwd")) {
        char c[4096], d[4200];
        if (!getcwd(c, sizeof c)) c[0] = 0;
        snprintf(d, sizeof d, "%s %s", argv[2], c);
        logrec(d);
        return 0;
    }
    if (!strcmp(op, "gen")) {           // gen N: N bytes of a fixed pattern
        long n = atol(argv[2]);
        char buf[4096];
        long o = 0;
        while (o < n) { long k = n - o < 4096 ? n - o : 4096; for (long i = 0; i < k; i++) buf[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(o + i) % 36]; if (write(1, buf, k) != k) return 1; o += k; }
        return 0;
    }
    if (!strcmp(op, "sum")) {           // sum TAG: log the number of bytes and a checksum of stdin
        unsigned long n = 0, h = 5381;
        unsigned char buf[65536];
        ssize_t k;
        while ((k = read(0, buf, sizeof buf)) > 0) { for (ssize_t i = 0; i < k; i++) h = h * 33 + buf[i]; n += k; }
        snprintf(b, sizeof b, "%s %lu %lu", argv[2], n, h & 0xffffffff);
        logrec(b);
        return 0;
    }
    if (!strcmp(op, "tag")) {           // tag X: copy stdin, then append "X"; logs nothing
        char buf[65536];
        ssize_t k;
        while ((k = read(0, buf, sizeof buf)) > 0) if (write(1, buf, k) != k) return 1;
        if (write(1, argv[2], strlen(argv[2])) < 0) return 1;
        return 0;
    }
    if (!strcmp(op, "tagx")) {          // tagx X CODE DELAYMS LOGTAG: copy stdin, append X, log at the end, exit CODE
        char buf[65536];
        ssize_t k;
        while ((k = read(0, buf, sizeof buf)) > 0) if (write(1, buf, k) != k) return 1;
        if (write(1, argv[2], strlen(argv[2])) < 0) return 1;
        if (argc > 4) usleep(atoi(argv[4]) * 1000);
        if (argc > 5) logrec(argv[5]);
        return argc > 3 ? atoi(argv[3]) : 0;
    }
    if (!strcmp(op, "out")) {           // out TEXT: write TEXT to stdout, ERR2 to stderr if given
        if (write(1, argv[2], strlen(argv[2])) < 0) return 1;
        if (argc > 3 && write(2, argv[3], strlen(argv[3])) < 0) return 1;
        return 0;
    }
    if (!strcmp(op, "print")) {         // print WORDS: one line
        for (int i = 2; i < argc; i++) printf("%s%s", i > 2 ? " " : "", argv[i]);
        printf("\n");
        return 0;
    }
    if (!strcmp(op, "words")) {         // words K: copy stdin K times, separated by blanks
        static char buf[1 << 20];
        long n = 0;
        ssize_t k;
        while (n < (long)sizeof buf && (k = read(0, buf + n, sizeof buf - n)) > 0) n += k;
        for (int i = atoi(argv[2]); i > 0; i--) {
            long w = 0;
            while (w < n) { k = write(1, buf + w, n - w); if (k <= 0) return 1; w += k; }
            if (i > 1 && write(1, " ", 1) < 0) return 1;
        }
        return 0;
    }
    if (!strcmp(op, "hang")) {          // hang MS TAG
        usleep(atoi(argv[2]) * 1000);
        if (argc > 3) logrec(argv[3]);
        return 0;
    }
    if (!strcmp(op, "stophang")) {      // stophang MS TAG: stop; once let go on, hang MS and log TAG (stophang MS TAG SIG: and die of SIG)
        raise(SIGSTOP);
        usleep(atoi(argv[2]) * 1000);
        if (argc > 3) logrec(argv[3]);
        if (argc > 4) kill(getpid(), atoi(argv[4]));
        return 0;
    }
    if (!strcmp(op, "stopfor")) {       // stopfor MS TAG [SIG]: log TAG and stop; a helper process kills this one MS later (with SIGKILL, or lets it go on with SIGCONT when SIG is 18)
        int me = getpid(), how = argc > 4 ? atoi(argv[4]) : 9;
        if (fork() == 0) {
            close(0); close(1); close(2);
            usleep(atoi(argv[2]) * 1000);
            kill(me, how);
            _exit(0);
        }
        if (argc > 3) logrec(argv[3]);
        raise(SIGSTOP);
        return 0;
    }
    if (!strcmp(op, "kill")) {          // kill SIG PID
        return kill(atoi(argv[3]), atoi(argv[2])) ? 1 : 0;
    }
    if (!strcmp(op, "up")) {            // up SIG: send SIG to the parent process
        kill(getppid(), atoi(argv[2]));
        usleep(20000);
        return 0;
    }
    return 99;
}
