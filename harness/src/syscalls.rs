//! Watches system calls: a filter in the kernel stops or records calls which
//! reach for files or the network.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

pub static CAUGHT: AtomicU64 = AtomicU64::new(0);
pub static LAST: AtomicI64 = AtomicI64::new(-1);

const NET: &[i64] = &[libc::SYS_socket, libc::SYS_connect, libc::SYS_bind, libc::SYS_sendto, libc::SYS_socketpair];
const FILES: &[i64] = &[libc::SYS_open, libc::SYS_openat, libc::SYS_openat2, libc::SYS_creat, libc::SYS_stat, libc::SYS_lstat, libc::SYS_newfstatat, libc::SYS_statx, libc::SYS_access, libc::SYS_faccessat, libc::SYS_faccessat2, libc::SYS_readlink, libc::SYS_readlinkat, libc::SYS_getdents, libc::SYS_getdents64, libc::SYS_mkdir, libc::SYS_mkdirat, libc::SYS_unlink, libc::SYS_unlinkat, libc::SYS_rename, libc::SYS_renameat, libc::SYS_renameat2, libc::SYS_chdir, libc::SYS_getcwd, libc::SYS_execve, libc::SYS_execveat, libc::SYS_fork, libc::SYS_vfork, libc::SYS_symlink, libc::SYS_symlinkat, libc::SYS_link, libc::SYS_linkat, libc::SYS_truncate, libc::SYS_rmdir, libc::SYS_io_uring_setup];

fn op(code: u32, jt: u8, jf: u8, k: u32) -> libc::sock_filter { libc::sock_filter { code: code as u16, jt, jf, k } }
fn install(calls: &[i64], inet_only: bool, action: u32) -> Result<(), i32> {
    let (ld, jeq, ret) = (libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, libc::BPF_RET | libc::BPF_K);
    let mut p = vec![op(ld, 0, 0, 0)];
    if inet_only {
        // sockets of the Internet families only
        p.push(op(jeq, 0, 4, libc::SYS_socket as u32));
        p.push(op(ld, 0, 0, 16));
        p.push(op(jeq, 1, 0, libc::AF_INET as u32));
        p.push(op(jeq, 0, 1, libc::AF_INET6 as u32));
        p.push(op(ret, 0, 0, action));
    } else {
        for c in calls { p.push(op(jeq, 0, 1, *c as u32)); p.push(op(ret, 0, 0, action)); }
    }
    p.push(op(ret, 0, 0, libc::SECCOMP_RET_ALLOW));
    let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
    unsafe {
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 { return Err(*libc::__errno_location()); }
        if libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog as *const _ as usize, 0, 0) != 0 { return Err(*libc::__errno_location()); }
    }
    Ok(())
}
/// From now on the process is killed when it makes an Internet socket.
pub fn no_network() -> Result<(), i32> { install(&[], true, libc::SECCOMP_RET_KILL_PROCESS) }

extern "C" fn caught(_: libc::c_int, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        // si_syscall follows si_call_addr
        let nr = *((info as *const u8).add(24) as *const i32);
        let u = ctx as *mut libc::ucontext_t;
        // the C library's allocator and thread start-up look at these
        let path = match nr as i64 { libc::SYS_openat | libc::SYS_newfstatat | libc::SYS_statx | libc::SYS_faccessat | libc::SYS_faccessat2 | libc::SYS_readlinkat => (*u).uc_mcontext.gregs[libc::REG_RSI as usize], libc::SYS_open | libc::SYS_stat | libc::SYS_lstat | libc::SYS_access | libc::SYS_readlink => (*u).uc_mcontext.gregs[libc::REG_RDI as usize], _ => 0 } as *const u8;
        let starts = |t: &[u8]| !path.is_null() && t.iter().enumerate().all(|(k, b)| *path.add(k) == *b);
        if !(starts(b"/proc/sys/vm/overcommit_memory\0") || starts(b"/sys/devices/system/cpu/online\0") || starts(b"/proc/stat\0")) {
            LAST.store(nr as i64, SeqCst);
            CAUGHT.fetch_add(1, SeqCst);
        }
        (*u).uc_mcontext.gregs[libc::REG_RAX as usize] = -(libc::EPERM as i64);
    }
}
/// From now on calls of this thread for files and sockets fail and are counted.
pub fn watch_thread() -> Result<(), i32> {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = caught as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        if libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut()) != 0 { return Err(*libc::__errno_location()); }
    }
    let all: Vec<i64> = NET.iter().chain(FILES).copied().collect();
    install(&all, false, libc::SECCOMP_RET_TRAP)
}
