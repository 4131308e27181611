/* rec MODE DIR ARGS...: notes in DIR what it was started with; then ends (run), ends after MODE milliseconds (a number) or stays (hold). */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static const char *dir;

static void on_signal(int n)
{
    char p[4096];
    int fd;

    snprintf(p, sizeof(p), "%s/s.%d.%d", dir, (int) getpid(), n);
    fd = open(p, O_WRONLY|O_CREAT, 0644);
    if (fd >= 0) close(fd);
    _exit(0);
}

int main(int argc, char **argv)
{
    char p[4096], q[4200];
    struct timespec t;
    struct stat st;
    int i, socks = 0, others = 0;
    FILE *f;

    if (argc < 3) return 1;
    dir = argv[2];
    for (i = 0; i < 4096; i++) {
        if (fstat(i, &st) == 0) {
            if (S_ISSOCK(st.st_mode)) socks++;
            else if (i > 2 && !S_ISFIFO(st.st_mode)) others++;
        }
    }
    for (i = 1; i < 31; i++) {
        if (i != SIGKILL && i != SIGSTOP && i != SIGCHLD && i != SIGPIPE) signal(i, on_signal);
    }
    clock_gettime(CLOCK_REALTIME, &t);
    snprintf(p, sizeof(p), "%s/r.%lld%09ld.%d", dir, (long long) t.tv_sec, t.tv_nsec, (int) getpid());
    snprintf(q, sizeof(q), "%s/tmp.%d", dir, (int) getpid());
    f = fopen(q, "w");
    if (f == NULL) return 1;
    fprintf(f, "%d %d", socks, others);
    for (i = 1; i < argc; i++) {
        fputc(0, f);
        fputs(argv[i], f);
    }
    fclose(f);
    rename(q, p);
    printf("out\n");
    fflush(stdout);
    if (strcmp(argv[1], "run") == 0) return 0;
    if (strcmp(argv[1], "hold") == 0) { for (;;) pause(); }
    usleep(atoi(argv[1]) * 1000);
    return 0;
}
