//! Running a piece of the harness in a child process.
use std::io::Write;

#[derive(Debug)]
pub enum End {
    Exit(i32, String),
    Signal(i32, String),
    Timeout,
}

/// As `run`; the child's standard error is added to its report.
pub fn run_stderr(timeout_ms: u64, f: impl FnOnce(&mut dyn Write) -> i32) -> End {
    run_(timeout_ms, false, true, f)
}

pub fn run(timeout_ms: u64, quiet: bool, f: impl FnOnce(&mut dyn Write) -> i32) -> End {
    run_(timeout_ms, quiet, false, f)
}

/// Runs `f` in a forked child with a pipe for its report. The child must not return normally;
/// `f`'s result is the exit code.
fn run_(timeout_ms: u64, quiet: bool, merge: bool, f: impl FnOnce(&mut dyn Write) -> i32) -> End {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe(fds.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if quiet {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
            }
            if merge {
                libc::dup2(fds[1], 2);
            }
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            struct Fd(i32);
            impl Write for Fd {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    let n = unsafe { libc::write(self.0, b.as_ptr() as *const _, b.len()) };
                    if n < 0 {
                        Err(std::io::Error::last_os_error())
                    } else {
                        Ok(n as usize)
                    }
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let code = f(&mut Fd(fds[1]));
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let t0 = std::time::Instant::now();
        let mut timed_out = false;
        loop {
            let left = timeout_ms as i64 - t0.elapsed().as_millis() as i64;
            if left <= 0 {
                timed_out = true;
                break;
            }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.min(1000) as i32);
            if r > 0 {
                let mut b = [0u8; 4096];
                let n = libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&b[..n as usize]);
            }
        }
        libc::close(fds[0]);
        if timed_out {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = String::from_utf8_lossy(&out).into_owned();
        if timed_out {
            End::Timeout
        } else if libc::WIFSIGNALED(st) {
            End::Signal(libc::WTERMSIG(st), s)
        } else {
            End::Exit(libc::WEXITSTATUS(st), s)
        }
    }
}
