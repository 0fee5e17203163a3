//! Counts the sockets this process has connected to each local address (every server has its own), at every instant: the C
//! functions `connect` and `close` are replaced by ones that count and then do the system call.
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
static KEY_OF: [AtomicU32; 65536] = [const { AtomicU32::new(0) }; 65536];
static CUR: [AtomicU32; 65536] = [const { AtomicU32::new(0) }; 65536];
static PEAK: [AtomicU32; 65536] = [const { AtomicU32::new(0) }; 65536];

/// the largest number of connections to the address that existed at once since the last call (0: not known)
pub fn peak(addr: &std::net::SocketAddr) -> u32 {
    let std::net::IpAddr::V4(ip) = addr.ip() else { return 0 };
    let o = ip.octets();
    let k = (o[2] as usize) << 8 | o[3] as usize;
    if o[2] == 0 { return 0; }
    PEAK[k].swap(CUR[k].load(SeqCst), SeqCst)
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod imp {
    use super::*;
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    #[repr(C)]
    pub struct SockAddrIn { family: u16, _port: u16, ip: [u8; 4] }
    #[no_mangle]
    pub unsafe extern "C" fn connect(fd: i32, addr: *const SockAddrIn, len: u32) -> i32 {
        let r = syscall(42, fd as i64, addr, len as i64) as i32;
        let pending = r == 0 || std::io::Error::last_os_error().raw_os_error() == Some(115);
        if pending && (0..65536).contains(&fd) && len >= 8 && (*addr).family == 2 {
            let key = ((*addr).ip[2] as usize) << 8 | (*addr).ip[3] as usize;
            if KEY_OF[fd as usize].swap(key as u32, SeqCst) == 0 {
                let n = CUR[key].fetch_add(1, SeqCst) + 1;
                PEAK[key].fetch_max(n, SeqCst);
            }
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: i32) -> i32 {
        if (0..65536).contains(&fd) {
            let p = KEY_OF[fd as usize].swap(0, SeqCst) as usize;
            if p != 0 { CUR[p].fetch_sub(1, SeqCst); }
        }
        syscall(3, fd as i64) as i32
    }
}
