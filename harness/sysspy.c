// Runs a program and reports the system calls it asks to have reported instead of executing them.
//   sysspy PROGRAM
// getppid(0xC5ED0001, R) arms: the next system call is not executed but written to standard output
// as seven 64-bit numbers (number, six arguments), and returns R. Every other call is let through.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

struct shared { volatile int fd; volatile int state; };
static struct shared *sh;
static char **args;

static int child(void *unused) {
    prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, 0),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_write, 0, 4),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, 16),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 1, 0, 2),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, 32),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 8, 1, 0),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_USER_NOTIF),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)};
    struct sock_fprog p = {sizeof f / sizeof *f, f};
    int fd = syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_NEW_LISTENER, &p);
    sh->fd = fd;
    sh->state = 1;
    if (fd < 0) syscall(SYS_exit_group, 125);
    execv(args[0], args);
    syscall(SYS_exit_group, 126);
    return 0;
}

int main(int argc, char **argv) {
    args = argv + 1;
    sh = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char *stack = malloc(1 << 16);
    int pid = clone(child, stack + (1 << 16), CLONE_FILES | SIGCHLD, 0);
    if (pid < 0) { perror("clone"); return 125; }
    while (!sh->state) usleep(50);
    int fd = sh->fd;
    if (fd < 0) { fprintf(stderr, "no seccomp listener\n"); return 125; }
    int armed = 0;
    int64_t ret = 0;
    struct seccomp_notif *rq = calloc(1, 4096);
    struct seccomp_notif_resp *rs = calloc(1, 4096);
    for (;;) {
        struct pollfd pf = {fd, POLLIN, 0};
        poll(&pf, 1, 2000);
        if (!(pf.revents & POLLIN)) {
            int st;
            if (waitpid(pid, &st, WNOHANG) == pid) return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            if (pf.revents & (POLLHUP | POLLERR)) break;
            continue;
        }
        memset(rq, 0, 4096);
        if (ioctl(fd, SECCOMP_IOCTL_NOTIF_RECV, rq)) { if (errno == EINTR || errno == ENOENT) continue; break; }
        memset(rs, 0, 4096);
        rs->id = rq->id;
        if (armed) {
            uint64_t out[7] = {rq->data.nr};
            for (int i = 0; i < 6; i++) out[i + 1] = rq->data.args[i];
            if (write(1, out, sizeof out) != sizeof out) return 125;
            armed = 0;
            if (ret < 0 && ret >= -4095) rs->error = (int)ret; else rs->val = ret;
        } else if (rq->data.nr == SYS_getppid && rq->data.args[0] == 0xC5ED0001) {
            armed = 1;
            ret = rq->data.args[1];
        } else
            rs->flags = SECCOMP_USER_NOTIF_FLAG_CONTINUE;
        if (ioctl(fd, SECCOMP_IOCTL_NOTIF_SEND, rs) && errno != ENOENT) break;
    }
    int st;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
