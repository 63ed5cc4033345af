//! Flight recorder: one shared page per worker, so that the supervisor knows which operation was
//! in flight when a worker aborted, overflowed its stack, ran out of its allocation budget or hung.
use std::os::fd::AsRawFd;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, Ordering};

#[repr(C)]
pub struct Page {
    pub case: AtomicU64,
    pub op_seq: AtomicU64,
    pub in_op: AtomicU32,
    pub event_budget_hit: AtomicU32,
    pub alloc_refused: AtomicU64,
    pub desc_len: AtomicU32,
    pub done: AtomicU32,
    /// how many times the usual CPU time the calls may take, if not 0
    pub patience: AtomicU32,
    pub desc: [u8; 2048],
}

static PAGE: AtomicPtr<Page> = AtomicPtr::new(std::ptr::null_mut());
static MUTED: AtomicBool = AtomicBool::new(false);

fn map(path: &Path, create: bool) -> std::io::Result<*mut Page> {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path)?;
    if create {
        f.set_len(4096)?;
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    if p == libc::MAP_FAILED {
        return Err(std::io::Error::last_os_error());
    }
    Ok(p as *mut Page)
}

pub fn create(path: &Path) -> std::io::Result<&'static Page> {
    map(path, true).map(|p| unsafe { &*p })
}

pub fn attach(path: &Path) -> std::io::Result<()> {
    PAGE.store(map(path, false)?, Ordering::SeqCst);
    Ok(())
}

/// In forked children, which must not disturb their parent's record.
pub fn mute() {
    MUTED.store(true, Ordering::SeqCst);
}

pub fn page() -> Option<&'static Page> {
    let p = PAGE.load(Ordering::Relaxed);
    if p.is_null() || MUTED.load(Ordering::Relaxed) {
        None
    } else {
        Some(unsafe { &*p })
    }
}

pub fn patience(times: u32) {
    if let Some(p) = page() {
        p.patience.store(times, Ordering::SeqCst);
    }
}

pub fn enter(desc: &str) {
    if let Some(p) = page() {
        let n = desc.len().min(2048);
        unsafe {
            std::ptr::copy_nonoverlapping(desc.as_ptr(), p.desc.as_ptr() as *mut u8, n);
        }
        p.desc_len.store(n as u32, Ordering::SeqCst);
        p.alloc_refused.store(0, Ordering::SeqCst);
        p.in_op.fetch_add(1, Ordering::SeqCst);
        p.op_seq.fetch_add(1, Ordering::SeqCst);
    }
}

pub fn leave() {
    if let Some(p) = page() {
        p.in_op.fetch_sub(1, Ordering::SeqCst);
        p.op_seq.fetch_add(1, Ordering::SeqCst);
    }
}

pub fn event_budget_hit() -> ! {
    if let Some(p) = page() {
        p.event_budget_hit.store(1, Ordering::SeqCst);
    }
    unsafe { libc::_exit(78) }
}

impl Page {
    pub fn desc(&self) -> String {
        let n = self.desc_len.load(Ordering::SeqCst) as usize;
        let b = unsafe { std::slice::from_raw_parts(self.desc.as_ptr(), n.min(2048)) };
        String::from_utf8_lossy(b).into_owned()
    }
}
