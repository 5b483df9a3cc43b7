//! Process plumbing: every simulated run executes in a forked child, so that
//! it starts from the same pristine process state, and so that hangs, aborts
//! and stack overflows of the library are contained and reported.

use std::os::raw::{c_int, c_void};

extern "C" {
    fn fork() -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    fn close(fd: c_int) -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn kill(pid: c_int, sig: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn setrlimit(resource: c_int, limit: *const [u64; 2]) -> c_int;
    fn poll(fds: *mut PollFd, n: u64, timeout: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn open(path: *const i8, flags: c_int, ...) -> c_int;
    fn prctl(option: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}

#[repr(C)]
struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}

/// A page shared between a worker and its children.
static mut PAGE: *mut u64 = std::ptr::null_mut();

pub fn shared_page() -> *mut u64 {
    unsafe {
        // PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS
        mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut u64
    }
}

fn install_page() {
    unsafe { PAGE = shared_page() }
}

/// Note what the run is about to do, for the report of a hang or a crash.
#[inline]
pub fn progress(task: u64, op: u64, part: u64) {
    unsafe {
        if !PAGE.is_null() {
            PAGE.write_volatile(task);
            PAGE.add(1).write_volatile(op);
            PAGE.add(2).write_volatile(part);
        }
    }
}

pub fn last_progress() -> [u64; 3] {
    unsafe {
        if PAGE.is_null() {
            return [0; 3];
        }
        [PAGE.read_volatile(), PAGE.add(1).read_volatile(), PAGE.add(2).read_volatile()]
    }
}

#[derive(Debug, Clone)]
pub enum End {
    Done(Vec<u8>),
    /// CPU or wall-clock limit, with the last progress.
    Hang([u64; 3]),
    /// Killed by a signal or exited abnormally.
    Crash(i32, [u64; 3]),
}

fn write_all(fd: c_int, data: &[u8]) {
    let mut at = 0;
    while at < data.len() {
        let n = unsafe { write(fd, data[at..].as_ptr() as *const c_void, data.len() - at) };
        if n <= 0 {
            return;
        }
        at += n as usize;
    }
}

/// Run `f` in a forked child under CPU and wall-clock limits (seconds).
pub fn run_child(cpu: u64, wall: u64, f: &dyn Fn() -> Vec<u8>) -> End {
    unsafe {
        if PAGE.is_null() {
            install_page();
        }
        progress(0, 0, 0);
        let mut fds = [0 as c_int; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            harness_error("pipe failed");
        }
        let pid = fork();
        if pid < 0 {
            harness_error("fork failed");
        }
        if pid == 0 {
            close(fds[0]);
            prctl(1, 9, 0, 0, 0); // die with the parent
            setrlimit(0, &[cpu, cpu + 2]); // RLIMIT_CPU
            setrlimit(4, &[0, 0]); // RLIMIT_CORE
            let null = open(b"/dev/null\0".as_ptr() as *const i8, 1);
            if null >= 0 {
                dup2(null, 2);
            }
            let data = f();
            write_all(fds[1], &data);
            _exit(0);
        }
        close(fds[1]);
        let mut data = vec![];
        let mut buffer = vec![0u8; 1 << 16];
        let start = std::time::Instant::now();
        let mut timeout = false;
        loop {
            let left = (wall * 1000) as i64 - start.elapsed().as_millis() as i64;
            if left <= 0 {
                timeout = true;
                kill(pid, 9);
                break;
            }
            let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
            let r = poll(&mut p, 1, left.min(1000) as c_int);
            if r <= 0 {
                continue;
            }
            let n = read(fds[0], buffer.as_mut_ptr() as *mut c_void, buffer.len());
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buffer[..n as usize]);
        }
        close(fds[0]);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        let signal = status & 0x7f;
        let code = (status >> 8) & 0xff;
        if timeout || signal == 24 || (signal == 9 && cpu > 0 && start.elapsed().as_secs() >= cpu) {
            return End::Hang(last_progress());
        }
        if signal != 0 || code != 0 {
            return End::Crash(if signal != 0 { signal } else { -code }, last_progress());
        }
        End::Done(data)
    }
}

pub fn harness_error(message: &str) -> ! {
    println!("HARNESS-ERROR {}", message);
    std::process::exit(2);
}

/// Run jobs `0..n` on forked workers; the result of each job in order.  `stop`
/// tells whether a result ends the campaign: then no job above the lowest such
/// job is reported.
pub fn campaign(
    n: u64,
    workers: u64,
    job: &dyn Fn(u64) -> Vec<u8>,
    stop: &dyn Fn(&[u8]) -> bool,
) -> Vec<(u64, Vec<u8>)> {
    let flag = shared_page();
    unsafe {
        flag.write_volatile(u64::MAX);
    }
    let next = unsafe { &*(flag.add(1) as *const std::sync::atomic::AtomicU64) };
    let lowest = unsafe { &*(flag as *const std::sync::atomic::AtomicU64) };
    use std::sync::atomic::Ordering::SeqCst;
    next.store(0, SeqCst);
    let workers = workers.min(n.max(1));
    let mut pipes = vec![];
    unsafe {
        for _ in 0..workers {
            let mut fds = [0 as c_int; 2];
            if pipe(fds.as_mut_ptr()) != 0 {
                harness_error("pipe failed");
            }
            let pid = fork();
            if pid < 0 {
                harness_error("fork failed");
            }
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                close(fds[0]);
                install_page();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || i > lowest.load(SeqCst) {
                        break;
                    }
                    let data = job(i);
                    if stop(&data) {
                        lowest.fetch_min(i, SeqCst);
                    }
                    let mut frame = vec![];
                    frame.extend_from_slice(&i.to_le_bytes());
                    frame.extend_from_slice(&(data.len() as u64).to_le_bytes());
                    frame.extend_from_slice(&data);
                    write_all(fds[1], &frame);
                }
                _exit(0);
            }
            close(fds[1]);
            pipes.push((fds[0], pid, Vec::<u8>::new()));
        }
        let mut open: Vec<usize> = (0..pipes.len()).collect();
        let mut buffer = vec![0u8; 1 << 18];
        while !open.is_empty() {
            let mut polls: Vec<PollFd> =
                open.iter().map(|&i| PollFd { fd: pipes[i].0, events: 1, revents: 0 }).collect();
            poll(polls.as_mut_ptr(), polls.len() as u64, 1000);
            let mut still = vec![];
            for (p, &i) in polls.iter().zip(open.iter()) {
                if p.revents != 0 {
                    let n = read(p.fd, buffer.as_mut_ptr() as *mut c_void, buffer.len());
                    if n <= 0 {
                        close(p.fd);
                        let mut status = 0;
                        waitpid(pipes[i].1, &mut status, 0);
                        if status != 0 {
                            harness_error("a worker died");
                        }
                        continue;
                    }
                    pipes[i].2.extend_from_slice(&buffer[..n as usize]);
                }
                still.push(i);
            }
            open = still;
        }
    }
    let mut results = vec![];
    for (_, _, data) in &pipes {
        let mut at = 0;
        while at + 16 <= data.len() {
            let i = u64::from_le_bytes(data[at..at + 8].try_into().unwrap());
            let l = u64::from_le_bytes(data[at + 8..at + 16].try_into().unwrap()) as usize;
            results.push((i, data[at + 16..at + 16 + l].to_vec()));
            at += 16 + l;
        }
    }
    results.sort_by_key(|r| r.0);
    let limit = lowest.load(SeqCst);
    results.retain(|r| r.0 <= limit);
    results
}
