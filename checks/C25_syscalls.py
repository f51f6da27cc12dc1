"""C25: the wrappers of system calls make the call they are named after, with their arguments, and return its result.
A seccomp listener reports the calls instead of executing them."""
import os, subprocess
import harness as H
from progs import ProgCheck, PCase
from stdgen import interesting, lit as nlit, M64

NRS = """read write open close stat fstat lstat poll lseek mmap mprotect munmap brk rt_sigaction rt_sigprocmask rt_sigreturn ioctl pread64 pwrite64 readv
writev access pipe select sched_yield mremap msync mincore madvise shmget shmat shmctl dup dup2 pause nanosleep getitimer alarm setitimer getpid sendfile
socket connect accept sendto recvfrom sendmsg recvmsg shutdown bind listen getsockname getpeername socketpair setsockopt getsockopt clone fork vfork execve
exit wait4 kill uname semget semop semctl shmdt msgget msgsnd msgrcv msgctl fcntl flock fsync fdatasync truncate ftruncate getdents getcwd chdir fchdir
rename mkdir rmdir creat link unlink symlink readlink chmod fchmod chown fchown lchown umask gettimeofday getrlimit getrusage sysinfo times ptrace getuid
syslog getgid setuid setgid geteuid getegid setpgid getppid getpgrp setsid setreuid setregid getgroups setgroups setresuid getresuid setresgid getresgid
getpgid setfsuid setfsgid getsid capget capset rt_sigpending rt_sigtimedwait rt_sigqueueinfo rt_sigsuspend sigaltstack utime mknod uselib personality
ustat statfs fstatfs sysfs getpriority setpriority sched_setparam sched_getparam sched_setscheduler sched_getscheduler sched_get_priority_max
sched_get_priority_min sched_rr_get_interval mlock munlock mlockall munlockall vhangup modify_ldt pivot_root _sysctl prctl arch_prctl adjtimex setrlimit
chroot sync acct settimeofday mount umount2 swapon swapoff reboot sethostname setdomainname iopl ioperm create_module init_module delete_module
get_kernel_syms query_module quotactl nfsservctl getpmsg putpmsg afs_syscall tuxcall security gettid readahead setxattr lsetxattr fsetxattr getxattr
lgetxattr fgetxattr listxattr llistxattr flistxattr removexattr lremovexattr fremovexattr tkill time futex sched_setaffinity sched_getaffinity
set_thread_area io_setup io_destroy io_getevents io_submit io_cancel get_thread_area lookup_dcookie epoll_create epoll_ctl_old epoll_wait_old
remap_file_pages getdents64 set_tid_address restart_syscall semtimedop fadvise64 timer_create timer_settime timer_gettime timer_getoverrun timer_delete
clock_settime clock_gettime clock_getres clock_nanosleep exit_group epoll_wait epoll_ctl tgkill utimes vserver mbind set_mempolicy get_mempolicy mq_open
mq_unlink mq_timedsend mq_timedreceive mq_notify mq_getsetattr kexec_load waitid add_key request_key keyctl ioprio_set ioprio_get inotify_init
inotify_add_watch inotify_rm_watch migrate_pages openat mkdirat mknodat fchownat futimesat newfstatat unlinkat renameat linkat symlinkat readlinkat
fchmodat faccessat pselect6 ppoll unshare set_robust_list get_robust_list splice tee sync_file_range vmsplice move_pages utimensat epoll_pwait signalfd
timerfd_create eventfd fallocate timerfd_settime timerfd_gettime accept4 signalfd4 eventfd2 epoll_create1 dup3 pipe2 inotify_init1 preadv pwritev
rt_tgsigqueueinfo perf_event_open recvmmsg fanotify_init fanotify_mark prlimit64 name_to_handle_at open_by_handle_at clock_adjtime syncfs sendmmsg setns
getcpu process_vm_readv process_vm_writev kcmp finit_module sched_setattr sched_getattr renameat2 seccomp getrandom memfd_create kexec_file_load bpf
execveat userfaultfd membarrier mlock2 copy_file_range preadv2 pwritev2 pkey_mprotect pkey_alloc pkey_free statx io_pgetevents rseq""".split()
NR = {n: i for i, n in enumerate(NRS)}
# enumerators of std::Syscall which are spelled differently
ODD = {"getrlimit": "GETTRLIMIT", "getrusage": "GETTRUSAGE", "sigaltstack": "SIGALSTACK", "_sysctl": "SYSCTL", "setrlimit": "SETTRLIMIT",
       "nfsservctl": "NFSSERVTCL", "newfstatat": "NEW_FSTATAT", "utimensat": "UTIMENSTAT", "prlimit64": "SYS_PRLIMIT64"}

# wrapper: parameter types, width in which the kernel looks at each argument, result. i/u: 32 bits, q/Q: 64 bits, p: pointer,
# z: zero, not passed to the wrapper
TABLE = """
read ipQ ipQ q|write ipQ ipQ q|open piu piu i|close i i i|stat pp pp i|fstat ip ip i|lstat pp pp i|poll pui pui i|lseek iqi iqi q
mmap pQqqiq pQqqiq p|mprotect pQq pQq i|munmap pQ pQ i|ioctl iiQ iiQ i|pread64 ipQq ipQq q|pwrite64 ipQq ipQq q|readv ipi ipi q|writev ipi ipi q
access pi pi i|pipe p p i|shed_yield=sched_yield - - i|mremap pQQq pQQq p|msync pQi pQi i|mincore pQp pQp i|madvise pQi pQi i|shmget iQi iQi i
shmat ipi ipi p|dup i i i|dup2 ii ii i|pause - - i|nanosleep pp pp i|alarm u u u|getpid - - i|sendfile iipQ iipQ q|socket iii iii i|accept ipp ipp i
sendto ipQi ipQizz q|recvfrom ipQipp ipQipp q|shutdown ii ii i|bind ipu ipi i|listen ii ii i|getsockname ipp ipp i|getpeername ipp ipp i
socketpair iiip iiip i|setsockopt iiipu iiipi i|getsockopt iiipp iiipp i|fork - - i|vfork - - i|execve ppp ppp i|kill ii ii i|getppid - - i|uname p p i
semget iii iii i|semop ipQ ipu i|semctl iii iii i|shmdt p p i|msgget ii ii i|msgsnd ipQi ipQi i|msgrcv ipQqi ipQqi q|fcntl ii ii i|fcntl2=fcntl iiq iiq i|wait4 ipiq ipiq i
flock ii ii i|fsync i i i|fdatasync i i i|truncate pq pq i|ftruncate iq iq i|getdents upu upu q|getdents64 upu upu q|getcwd pQ pQ p|chdir p p i|fchdir i i i
rename pp pp i|mkdir pu pu i|rmdir p p i|creat pu pu i|link pp pp i|unlink p p i|symlink pp pp i|readlink ppQ ppi q|chmod pu pu i|fchmod iu iu i|sync - - v
clock_gettime ip ip i|clock_settime ip ip i|exit i i v|gettimeofday pi pi i|time p p p
"""
WRAP = []
for _e in TABLE.replace("\n", "|").split("|"):
    if _e:
        n, a, k, r = _e.split()
        WRAP.append((n.split("=")[0], n.split("=")[-1], a.replace("-", ""), k.replace("-", ""), r))
TY = {"i": "i32", "u": "u32", "q": "i64", "Q": "u64", "p": "&void"}
HEAD = '''import "syscall.csp";
fn arm(r: u64) { let x: u64 = 0; asm "mov $0xC5ED0001, %edi;" "mov " r ", %rsi;" "mov $110, %eax;" "syscall;" "mov %rax, " &x; }
fn junk(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64): u64 { let x: u64 = a; let y = b * c; let z = d ^ e; let v: u64 = 0xfedcba9876543210; <- x + y + z + f + v; }
'''
PTR = {"open": "&const char"}


class C25(ProgCheck):
    id = "C25"
    rule = "a case is non-trivial when it makes at least 2 calls with arguments; distinct by source text"
    assumptions = ["Linux x86-64 system call numbers and argument widths; the calls are reported, not executed"]
    quick, thorough = 500, 3000
    batch = 16
    timeout = 15

    def setup(self):
        super().setup()
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "sysspy.c")
        self.spy = os.path.join(H.scratch(), "sysspy")
        subprocess.run(["gcc", "-O2", "-w", "-o", self.spy, src], check=True)

    def gen(self, s):
        b, exp, n, na = [], [], s.range(1, 8), 0
        labels = []
        for q in range(n):
            if s.draw(6) == 0:
                x = s.pick(NRS)
                b.append("emit_i64(std::Syscall::%s);\n" % ODD.get(x, x.upper()))
                exp.append(NR[x])
                continue
            name, call, at, kt, rt = s.pick(WRAP)
            labels.append("call " + name)
            args, want = [], [NR[call]]
            for a, k in zip(at, kt):
                ty = TY[a] if a != "p" else "u64"
                v = interesting(s, ty)
                if name == "write" and len(args) == 2 and v == 8:
                    v = 9
                e = nlit(v, ty)
                if a == "p":
                    e = "(%s: &void)" % e
                args.append(e)
                want.append(v & (M64 if k in "qQpz" else 0xffffffff))
            want += [0] * kt.count("z")
            if len(args) >= 1:
                na += 1
            r = s.pick([0, 1, -1, -22, s.range(0, 1000), s.range(-4095, -1), s.range(0, (1 << 31) - 1), s.range(0, (1 << 47))])
            b.append("arm((%s: u64));\n" % nlit(r, "i64"))
            if s.draw(3) == 0:
                b.insert(len(b) - 1, "emit_bool(junk(%d, 2, 3, 4, 5, 6) == 0);\n" % s.range(1, 9))
                exp.append(0)
            e = "std::syscall::%s(%s)" % (name, ", ".join(args))
            exp.append(("call", want, kt))
            if rt == "v":
                b.append(e + ";\n")
            else:
                b.append("emit_%s(%s);\n" % ({"i": "i32", "u": "u32", "q": "i64", "p": "u64"}[rt], e + (": u64" if rt == "p" else "")))
                if rt == "i":
                    r = (r & 0xffffffff) - ((r & 0x80000000) << 1)
                if rt == "u":
                    r &= 0xffffffff
                exp.append(r & M64)
        flat = []
        mask = []
        for x in exp:
            if isinstance(x, tuple):
                flat += x[1] + [0] * (7 - len(x[1]))
                mask += [M64] + [M64 if k in "qQpz" else 0xffffffff for k in x[2]] + [0] * (6 - len(x[2]))
            else:
                flat.append(x)
                mask.append(M64)
        return SCase(mask, "", "".join(b), flat, nontrivial=na >= 2, labels=labels, header=HEAD)

    def run_argv(self, exe):
        return [self.spy, exe]

    def accepts(self, c, got):
        return len(got) == len(c.expect) and all(g & m == w & m for g, w, m in zip(got, c.expect, c.mask))

    def describe(self, c, got):
        for j, (g, w, m) in enumerate(zip(got, c.expect, c.mask)):
            if g & m != w & m:
                return "emitted value #%d is %#x, expected %#x (in the bits %#x)" % (j, g, w, m)
        return super().describe(c, got)


class SCase(PCase):
    def __init__(self, mask, *a, **k):
        super().__init__(*a, **k)
        self.mask = mask


CHECK = C25()
