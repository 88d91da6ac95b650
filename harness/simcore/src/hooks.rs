//! Interposed libc entry points. Inside a simulation they are answered by the simulator,
//! otherwise they go to the kernel (randomness outside a simulation is a fixed stream so
//! that process start-up is deterministic as well).
use std::arch::asm;
use std::sync::atomic::{AtomicU64, Ordering};

use libc::{c_int, c_long, c_uint, c_void, size_t, sockaddr, sockaddr_in, socklen_t, ssize_t, timespec};

use crate::world::{is_active, with, BASE_MONO, BASE_REALTIME, CUR_SKEW, ENTROPY, NOW};

unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let ret: c_long;
    asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn finish(r: c_long) -> c_long {
    if r < 0 && r >= -4095 {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

fn fill_random(buf: *mut u8, len: usize) {
    static STARTUP: AtomicU64 = AtomicU64::new(0);
    let out = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    if is_active() {
        ENTROPY.with(|e| {
            let mut r = e.get();
            r.fill(out);
            e.set(r);
        });
    } else {
        for c in out.chunks_mut(8) {
            // the same bytes for every call: nothing outside a simulation may depend on call order
            let _ = STARTUP.fetch_add(1, Ordering::Relaxed);
            let mut x = 0x5151_1234_9876_0001u64;
            let v = crate::rng::splitmix(&mut x).to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, _flags: c_uint) -> ssize_t {
    if len > 0 {
        fill_random(buf as *mut u8, len);
    }
    len as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    fill_random(buf as *mut u8, len);
    0
}

/// The variadic libc `syscall`; the SysV ABI passes variadic integers like fixed ones
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom {
        if b > 0 {
            fill_random(a as *mut u8, b as usize);
        }
        return b;
    }
    finish(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if is_active() {
        let now = NOW.with(|n| n.get());
        let t = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => {
                ((BASE_REALTIME + now) as i64 + CUR_SKEW.with(|s| s.get())) as u64
            }
            libc::CLOCK_MONOTONIC
            | libc::CLOCK_MONOTONIC_RAW
            | libc::CLOCK_MONOTONIC_COARSE
            | libc::CLOCK_BOOTTIME => BASE_MONO + now,
            _ => return finish(raw(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int,
        };
        (*ts).tv_sec = (t / 1_000_000_000) as _;
        (*ts).tv_nsec = (t % 1_000_000_000) as _;
        return 0;
    }
    finish(raw(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

/// A fixed parallelism, so that shard counts do not depend on the machine
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: libc::pid_t, size: size_t, set: *mut c_void) -> c_int {
    let out = std::slice::from_raw_parts_mut(set as *mut u8, size);
    out.fill(0);
    out[0] = 0b11;
    0
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    if is_active() && (*addr).sa_family as c_int == libc::AF_INET {
        let a = &*(addr as *const sockaddr_in);
        let ip = std::net::Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr));
        return match crate::net::bind_addr(ip, u16::from_be(a.sin_port)) {
            Ok(id) => {
                with(|w| w.fds.insert(fd, id));
                0
            }
            Err(e) => {
                *libc::__errno_location() = e;
                -1
            }
        };
    }
    finish(raw(libc::SYS_bind, fd as c_long, addr as c_long, len as c_long, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if is_active() {
        if let Some(a) = with(|w| w.fds.get(&fd).map(|id| w.socks[*id].addr)) {
            let out = &mut *(addr as *mut sockaddr_in);
            out.sin_family = libc::AF_INET as _;
            out.sin_port = a.port().to_be();
            out.sin_addr.s_addr = u32::from(*a.ip()).to_be();
            *len = std::mem::size_of::<sockaddr_in>() as socklen_t;
            return 0;
        }
    }
    finish(raw(libc::SYS_getsockname, fd as c_long, addr as c_long, len as c_long, 0, 0, 0)) as c_int
}

/// Forces the linker to keep this object
pub fn keep() -> usize {
    getrandom as *const () as usize ^ syscall as *const () as usize ^ clock_gettime as *const () as usize ^ bind as *const () as usize
}
