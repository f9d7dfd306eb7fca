//! A reference-answer server forked from the run's process before any code under test has run in it.
//! Each question is answered by a further fork, so the answer comes from a pristine process image.
pub struct Oracle {
    to: i32,
    from: i32,
}
unsafe fn read_n(fd: i32, buf: &mut [u8]) -> bool {
    let mut k = 0;
    while k < buf.len() {
        let r = libc::read(fd, buf.as_mut_ptr().add(k) as *mut libc::c_void, buf.len() - k);
        if r <= 0 {
            return false;
        }
        k += r as usize;
    }
    true
}
unsafe fn write_n(fd: i32, buf: &[u8]) -> bool {
    let mut k = 0;
    while k < buf.len() {
        let r = libc::write(fd, buf.as_ptr().add(k) as *const libc::c_void, buf.len() - k);
        if r <= 0 {
            return false;
        }
        k += r as usize;
    }
    true
}
impl Oracle {
    /// Must be called before `simulate`, in a single-threaded process.
    pub fn start(answer: fn(&[u8]) -> Vec<u8>) -> Oracle {
        unsafe {
            let mut a = [0i32; 2];
            let mut b = [0i32; 2];
            libc::pipe(a.as_mut_ptr());
            libc::pipe(b.as_mut_ptr());
            if libc::fork() == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(a[1]);
                libc::close(b[0]);
                let mut len = [0u8; 8];
                loop {
                    if !read_n(a[0], &mut len) {
                        libc::_exit(0);
                    }
                    let mut q = vec![0u8; u64::from_le_bytes(len) as usize];
                    if !read_n(a[0], &mut q) {
                        libc::_exit(0);
                    }
                    let pid = libc::fork();
                    if pid == 0 {
                        libc::alarm(100);
                        let r = answer(&q);
                        write_n(b[1], &(r.len() as u64).to_le_bytes());
                        write_n(b[1], &r);
                        libc::_exit(0);
                    }
                    let mut st = 0;
                    while libc::waitpid(pid, &mut st, 0) < 0 {}
                    if st != 0 {
                        // the reference computation itself died: report an empty answer
                        write_n(b[1], &u64::MAX.to_le_bytes());
                    }
                }
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Oracle { to: a[1], from: b[0] }
        }
    }
    /// None: the reference computation died.
    pub fn ask(&self, q: &[u8]) -> Option<Vec<u8>> {
        let _f = simk::Frozen::new();
        unsafe {
            if !write_n(self.to, &(q.len() as u64).to_le_bytes()) || !write_n(self.to, q) {
                return None;
            }
            let mut len = [0u8; 8];
            if !read_n(self.from, &mut len) {
                return None;
            }
            let n = u64::from_le_bytes(len);
            if n == u64::MAX {
                return None;
            }
            let mut v = vec![0u8; n as usize];
            if !read_n(self.from, &mut v) {
                return None;
            }
            Some(v)
        }
    }
}
