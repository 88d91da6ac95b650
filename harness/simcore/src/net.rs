//! tokio-like UDP socket on the simulated network
use std::future::poll_fn;
use std::io;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::rc::Rc;
use std::task::{Context, Poll};

use crate::world::{cur, with, Fault, Sock};

pub struct UdpSocket {
    id: usize,
    /// keeps the descriptor the code configured alive
    std: Option<std::net::UdpSocket>,
    peer: std::sync::Mutex<Option<SocketAddrV4>>,
}

impl std::fmt::Debug for UdpSocket {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "UdpSocket({})", self.id)
    }
}

pub(crate) fn bind_addr(ip: Ipv4Addr, port: u16) -> Result<usize, i32> {
    let ctx = cur();
    with(|w| {
        let n = &w.nodes[ctx.node as usize];
        let ip = if ip.is_unspecified() || ip.is_loopback() { n.ip } else { ip };
        let port = if port == 0 {
            loop {
                w.next_port += 1;
                if !w.by_addr.contains_key(&SocketAddrV4::new(ip, w.next_port)) {
                    break w.next_port;
                }
            }
        } else {
            port
        };
        let addr = SocketAddrV4::new(ip, port);
        if w.by_addr.contains_key(&addr) {
            return Err(libc::EADDRINUSE);
        }
        let id = w.socks.len();
        w.socks.push(Sock {
            addr,
            node: ctx.node,
            inc: ctx.inc,
            queue: Default::default(),
            wakers: Vec::new(),
            closed: false,
        });
        w.by_addr.insert(addr, id);
        Ok(id)
    })
}

fn v4(a: SocketAddr) -> io::Result<SocketAddrV4> {
    match a {
        SocketAddr::V4(a) => Ok(a),
        SocketAddr::V6(_) => Err(io::Error::from_raw_os_error(libc::EAFNOSUPPORT)),
    }
}

fn resolve<A: std::net::ToSocketAddrs>(a: A) -> io::Result<SocketAddrV4> {
    for a in a.to_socket_addrs()? {
        if let SocketAddr::V4(a) = a {
            return Ok(a);
        }
    }
    Err(io::Error::from_raw_os_error(libc::EAFNOSUPPORT))
}

impl UdpSocket {
    pub fn from_std(s: std::net::UdpSocket) -> io::Result<Self> {
        use std::os::unix::io::AsRawFd;
        let fd = s.as_raw_fd();
        let id = with(|w| w.fds.remove(&fd)).ok_or_else(|| io::Error::from_raw_os_error(libc::EBADF))?;
        Ok(Self { id, std: Some(s), peer: Default::default() })
    }

    pub async fn bind<A: std::net::ToSocketAddrs>(a: A) -> io::Result<Self> {
        let a = resolve(a)?;
        let id = bind_addr(*a.ip(), a.port()).map_err(io::Error::from_raw_os_error)?;
        Ok(Self { id, std: None, peer: Default::default() })
    }

    pub async fn connect<A: std::net::ToSocketAddrs>(&self, a: A) -> io::Result<()> {
        *self.peer.lock().unwrap() = Some(resolve(a)?);
        Ok(())
    }

    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::V4(with(|w| w.socks[self.id].addr)))
    }

    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.peer
            .lock()
            .unwrap()
            .map(SocketAddr::V4)
            .ok_or_else(|| io::Error::from_raw_os_error(libc::ENOTCONN))
    }

    pub fn as_std(&self) -> Option<&std::net::UdpSocket> {
        self.std.as_ref()
    }

    fn send_now(&self, buf: &[u8], dst: SocketAddrV4) -> io::Result<usize> {
        with(|w| {
            let s = &w.socks[self.id];
            if s.closed {
                return Err(io::Error::from_raw_os_error(libc::EBADF));
            }
            let src = s.addr;
            if buf.len() > 65_507 {
                return Err(io::Error::from_raw_os_error(libc::EMSGSIZE));
            }
            if dst.port() == 0 {
                return Err(io::Error::from_raw_os_error(libc::EINVAL));
            }
            let p = w.cfg.net.send_err;
            if w.fire(Fault::SendErr, p) {
                return Err(io::Error::from_raw_os_error(libc::ENOBUFS));
            }
            w.send(src, dst, buf, false, 0);
            Ok(buf.len())
        })
    }

    pub async fn send_to<A: std::net::ToSocketAddrs>(&self, buf: &[u8], dst: A) -> io::Result<usize> {
        let dst = resolve(dst)?;
        poll_fn(|cx| self.poll_io(cx, || self.send_now(buf, dst))).await
    }

    pub fn try_send_to(&self, buf: &[u8], dst: SocketAddr) -> io::Result<usize> {
        self.send_now(buf, v4(dst)?)
    }

    pub fn poll_send_to(&self, _cx: &mut Context<'_>, buf: &[u8], dst: SocketAddr) -> Poll<io::Result<usize>> {
        Poll::Ready(v4(dst).and_then(|d| self.send_now(buf, d)))
    }

    pub async fn send(&self, buf: &[u8]) -> io::Result<usize> {
        let p = *self.peer.lock().unwrap();
        match p {
            Some(p) => self.send_now(buf, p),
            None => Err(io::Error::from_raw_os_error(libc::EDESTADDRREQ)),
        }
    }

    fn pop(&self) -> io::Result<(SocketAddrV4, Rc<[u8]>)> {
        with(|w| {
            if w.socks[self.id].closed {
                return Err(io::Error::from_raw_os_error(libc::EBADF));
            }
            if !w.socks[self.id].queue.is_empty() {
                let p = w.cfg.net.recv_err;
                if w.fire(Fault::RecvErr, p) {
                    return Err(io::Error::from_raw_os_error(libc::ECONNREFUSED));
                }
            }
            w.socks[self.id]
                .queue
                .pop_front()
                .ok_or_else(|| io::Error::from(io::ErrorKind::WouldBlock))
        })
    }

    pub fn try_recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        let (src, d) = self.pop()?;
        let n = d.len().min(buf.len());
        buf[..n].copy_from_slice(&d[..n]);
        Ok((n, SocketAddr::V4(src)))
    }

    fn poll_io<T>(&self, cx: &mut Context<'_>, mut f: impl FnMut() -> io::Result<T>) -> Poll<io::Result<T>> {
        let Some(coop) = real_tokio::sim_coop::take(cx) else { return Poll::Pending };
        match f() {
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
                with(|w| {
                    let s = &mut w.socks[self.id];
                    if !s.wakers.iter().any(|x| x.will_wake(cx.waker())) {
                        s.wakers.push(cx.waker().clone());
                    }
                });
                Poll::Pending
            }
            r => {
                coop.made_progress();
                Poll::Ready(r)
            }
        }
    }

    pub async fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        poll_fn(|cx| self.poll_io(cx, || self.try_recv_from(buf))).await
    }

    pub async fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        Ok(self.recv_from(buf).await?.0)
    }

    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        poll_fn(|cx| {
            self.poll_io(cx, || {
                with(|w| match w.socks[self.id].queue.front() {
                    Some((src, d)) => {
                        let n = d.len().min(buf.len());
                        buf[..n].copy_from_slice(&d[..n]);
                        Ok((n, SocketAddr::V4(*src)))
                    }
                    None => Err(io::Error::from(io::ErrorKind::WouldBlock)),
                })
            })
        })
        .await
    }

    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| {
            self.poll_io(cx, || {
                with(|w| {
                    if w.socks[self.id].queue.is_empty() {
                        Err(io::Error::from(io::ErrorKind::WouldBlock))
                    } else {
                        Ok(())
                    }
                })
            })
        })
        .await
    }

    pub async fn writable(&self) -> io::Result<()> {
        Ok(())
    }
}

impl Drop for UdpSocket {
    fn drop(&mut self) {
        let _ = crate::world::try_with(|w| {
            if let Some(s) = w.socks.get_mut(self.id) {
                if !s.closed {
                    s.closed = true;
                    s.queue.clear();
                    let a = s.addr;
                    if w.by_addr.get(&a) == Some(&self.id) {
                        w.by_addr.remove(&a);
                    }
                }
            }
        });
    }
}
