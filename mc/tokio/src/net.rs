//! In-memory TCP: ordered byte pipes of bounded capacity with half-close, reset,
//! refused connections, occupied addresses and injectable faults.
//!
//! Semantics follow Linux TCP on loopback where tchannel can observe it:
//! * `connect` completes once the connection is in the listener's backlog;
//! * data written before a close or reset by the *writer* stays readable;
//! * closing an endpoint with unread input resets the connection;
//! * writing to an endpoint that has been closed succeeds once (the data is lost)
//!   and makes the connection reset; later writes fail with `BrokenPipe`;
//! * a reset is reported once, by a read or a write, as `ConnectionReset`, unless the
//!   stream had ended before; then reads return 0 and writes fail with `BrokenPipe`;
//! * dropping a listener resets the connections still in its backlog.

use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

pub const DEFAULT_CAPACITY: usize = 256 * 1024;

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    capacity: usize,
    /// no more data will be written
    fin: bool,
    /// connection reset, seen by the reader after the buffered data
    rst: bool,
    rst_reported: bool,
    /// the reading endpoint is closed
    reader_closed: bool,
    /// the writing endpoint gets BrokenPipe
    broken: bool,
    written: u64,
    cut: Option<(u64, CutKind)>,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum CutKind {
    /// both directions end with FIN
    Close,
    /// both directions are reset
    Reset,
}

impl Pipe {
    fn wake_all(&mut self, out: &mut Vec<Waker>) {
        out.extend(self.rwaker.take());
        out.extend(self.wwaker.take());
    }
}

struct Conn {
    id: usize,
    /// `pipes[0]`: client to server, `pipes[1]`: server to client
    pipes: [Pipe; 2],
    /// number of live halves per endpoint (client, server)
    closed: [bool; 2],
    addr: [SocketAddr; 2],
    opened_at: u64,
    closed_at: Option<u64>,
}

type Shared = Arc<Mutex<Conn>>;

fn kill(c: &mut Conn, kind: CutKind, wakers: &mut Vec<Waker>) {
    for p in c.pipes.iter_mut() {
        match kind {
            CutKind::Close => p.fin = true,
            CutKind::Reset => p.rst = true,
        }
        p.broken = true;
        p.wake_all(wakers);
    }
}

fn lock(c: &Shared) -> MutexGuard<'_, Conn> {
    c.lock().unwrap_or_else(|e| e.into_inner())
}

#[derive(Default)]
struct Listener {
    id: u64,
    backlog: VecDeque<Shared>,
    waker: Option<Waker>,
}

struct CutPlan {
    /// index of the connection in order of `connect`
    conn: usize,
    dir: usize,
    at: u64,
    kind: CutKind,
}

#[derive(Default)]
struct Net {
    listeners: BTreeMap<SocketAddr, Listener>,
    accept_errors: BTreeMap<SocketAddr, VecDeque<io::ErrorKind>>,
    conns: Vec<Shared>,
    next_port: u16,
    next_listener: u64,
    capacity: Option<usize>,
    cuts: Vec<CutPlan>,
    blackholes: Vec<SocketAddr>,
    refused: BTreeMap<SocketAddr, u64>,
    max_open: BTreeMap<SocketAddr, usize>,
}

fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    mccore::ext(f)
}

/// Control and observation of the network model by scenarios.
pub mod mc {
    use super::*;

    pub use super::CutKind;

    /// Capacity of every pipe of connections made from now on.
    pub fn set_capacity(c: usize) {
        net(|n| n.capacity = Some(c))
    }
    /// The `conn`-th connection made in this execution ends when `at` bytes were
    /// written in direction `dir` (0: by the connecting side, 1: by the accepting side).
    pub fn cut(conn: usize, dir: usize, at: u64, kind: CutKind) {
        net(|n| n.cuts.push(CutPlan { conn, dir, at, kind }))
    }
    /// Like `cut` for an existing connection: after `more` more bytes.
    pub fn cut_after(conn: usize, dir: usize, more: u64, kind: CutKind) {
        let c = net(|n| n.conns.get(conn).cloned());
        if let Some(c) = c {
            let mut c = lock(&c);
            let p = &mut c.pipes[dir];
            p.cut = Some((p.written + more, kind));
        }
    }
    /// Ends a connection now.
    pub fn kill_conn(conn: usize, kind: CutKind) {
        let c = net(|n| n.conns.get(conn).cloned());
        if let Some(c) = c {
            let mut w = vec![];
            kill(&mut lock(&c), kind, &mut w);
            wake(w);
        }
    }
    pub fn inject_accept_error(addr: SocketAddr, kind: io::ErrorKind) {
        let w = net(|n| {
            n.accept_errors.entry(addr).or_default().push_back(kind);
            n.listeners.get_mut(&addr).and_then(|l| l.waker.take())
        });
        if let Some(w) = w {
            w.wake()
        }
    }
    /// Connection attempts to this address get no answer (and time out after 127 s).
    pub fn blackhole(addr: SocketAddr, on: bool) {
        net(|n| {
            n.blackholes.retain(|a| *a != addr);
            if on {
                n.blackholes.push(addr)
            }
        })
    }
    pub fn is_bound(addr: SocketAddr) -> bool {
        net(|n| n.listeners.contains_key(&addr))
    }
    /// Number of connections ever made (all addresses).
    pub fn connections() -> usize {
        net(|n| n.conns.len())
    }
    /// Number of connections ever made to `addr`.
    pub fn connections_to(addr: SocketAddr) -> usize {
        net(|n| n.conns.iter().filter(|c| lock(c).addr[1] == addr).count())
    }
    /// Indices of all connections ever made to `addr`.
    pub fn connections_of(addr: SocketAddr) -> Vec<usize> {
        net(|n| (0..n.conns.len()).filter(|i| lock(&n.conns[*i]).addr[1] == addr).collect())
    }
    /// Connections to `addr` whose connecting endpoint is still open.
    pub fn open_to(addr: SocketAddr) -> usize {
        net(|n| {
            n.conns
                .iter()
                .filter(|c| {
                    let c = lock(c);
                    c.addr[1] == addr && !c.closed[0]
                })
                .count()
        })
    }
    /// The highest number of connections to `addr` at any time that were neither dead
    /// nor ended by the connecting side.
    pub fn max_open(addr: SocketAddr) -> usize {
        net(|n| n.max_open.get(&addr).copied().unwrap_or(0))
    }
    /// Whether the endpoint of side `side` (0 connecting, 1 accepting) was closed.
    pub fn side_closed(conn: usize, side: usize) -> bool {
        net(|n| n.conns.get(conn).map(|c| lock(c).closed[side]).unwrap_or(true))
    }
    /// Connection attempts that were refused.
    pub fn refused(addr: SocketAddr) -> u64 {
        net(|n| n.refused.get(&addr).copied().unwrap_or(0))
    }
    /// Bytes written so far on a connection in a direction.
    pub fn written(conn: usize, dir: usize) -> u64 {
        net(|n| n.conns.get(conn).map(|c| lock(c).pipes[dir].written).unwrap_or(0))
    }
    /// (opened at, closed at) in virtual ns, of every connection to `addr`.
    pub fn lifetimes(addr: SocketAddr) -> Vec<(u64, Option<u64>)> {
        net(|n| {
            n.conns
                .iter()
                .filter(|c| lock(c).addr[1] == addr)
                .map(|c| {
                    let c = lock(c);
                    (c.opened_at, c.closed_at)
                })
                .collect()
        })
    }
}

fn wake(w: Vec<Waker>) {
    for w in w {
        w.wake()
    }
}

fn coop(what: &'static str, cx: &mut Context<'_>) -> bool {
    if mccore::coop_take(what) {
        true
    } else {
        cx.waker().wake_by_ref();
        false
    }
}

// ---------------------------------------------------------------- endpoints

struct Endpoint {
    conn: Shared,
    /// 0: connecting side, 1: accepting side
    side: usize,
}

impl Endpoint {
    fn poll_read(&self, cx: &mut Context<'_>, out: &mut ReadBuf<'_>, peek: bool) -> Poll<io::Result<()>> {
        if !coop("tcp-read", cx) {
            return Poll::Pending;
        }
        if out.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        let avail = {
            let c = lock(&self.conn);
            c.pipes[1 - self.side].buf.len().min(out.remaining())
        };
        let n = mccore::short_read(avail);
        let mut w = vec![];
        let r = {
            let mut c = lock(&self.conn);
            let id = c.id;
            let p = &mut c.pipes[1 - self.side];
            if n > 0 {
                let (a, b) = p.buf.as_slices();
                let na = a.len().min(n);
                out.put_slice(&a[..na]);
                out.put_slice(&b[..n - na]);
                if !peek {
                    p.buf.drain(..n);
                    w.extend(p.wwaker.take());
                }
                mccore::log(|| format!("  conn {id} side {} read {n}", self.side));
                Poll::Ready(Ok(()))
            } else if p.fin {
                // (a reset that comes after the end of the stream is not reported)
                Poll::Ready(Ok(()))
            } else if p.rst {
                if p.rst_reported {
                    Poll::Ready(Ok(()))
                } else {
                    p.rst_reported = true;
                    Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()))
                }
            } else {
                p.rwaker = Some(cx.waker().clone());
                Poll::Pending
            }
        };
        if r.is_pending() {
            mccore::coop_restore();
        }
        wake(w);
        r
    }

    fn poll_write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        if !coop("tcp-write", cx) {
            return Poll::Pending;
        }
        let mut w = vec![];
        let r = {
            let mut c = lock(&self.conn);
            let id = c.id;
            let side = self.side;
            let (fin, broken, reader_closed) =
                (c.pipes[side].fin, c.pipes[side].broken, c.pipes[side].reader_closed);
            let incoming = &mut c.pipes[1 - side];
            if !fin && incoming.rst && !incoming.fin && !incoming.rst_reported {
                // a reset is reported once, to whoever asks first
                incoming.rst_reported = true;
                mccore::log(|| format!("  conn {id} side {side} write: reset"));
                Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()))
            } else if fin || broken || c.pipes[side].rst {
                mccore::log(|| format!("  conn {id} side {side} write: broken pipe"));
                Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
            } else if reader_closed {
                // accepted by the local stack, answered by a reset
                c.pipes[side].written += data.len() as u64;
                kill(&mut c, CutKind::Reset, &mut w);
                mccore::log(|| format!("  conn {id} side {side} write to closed peer"));
                Poll::Ready(Ok(data.len()))
            } else {
                let p = &mut c.pipes[side];
                let mut n = data.len().min(p.capacity.saturating_sub(p.buf.len()));
                let mut cut = None;
                if let Some((at, kind)) = p.cut {
                    if p.written + n as u64 >= at {
                        n = (at - p.written) as usize;
                        cut = Some(kind);
                    }
                }
                if n == 0 && cut.is_none() && !data.is_empty() {
                    p.wwaker = Some(cx.waker().clone());
                    Poll::Pending
                } else {
                    p.buf.extend(&data[..n]);
                    p.written += n as u64;
                    w.extend(p.rwaker.take());
                    mccore::log(|| format!("  conn {id} side {side} wrote {n} of {}", data.len()));
                    if let Some(kind) = cut {
                        p.cut = None;
                        mccore::log(|| format!("  conn {id} cut {kind:?}"));
                        kill(&mut c, kind, &mut w);
                        if n == 0 && !data.is_empty() {
                            Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()))
                        } else {
                            Poll::Ready(Ok(n))
                        }
                    } else {
                        Poll::Ready(Ok(n))
                    }
                }
            }
        };
        if r.is_pending() {
            mccore::coop_restore();
        }
        wake(w);
        r
    }

    fn shutdown_write(&self) {
        let mut w = vec![];
        {
            let mut c = lock(&self.conn);
            let id = c.id;
            let p = &mut c.pipes[self.side];
            if !p.fin {
                mccore::log(|| format!("  conn {id} side {} fin", self.side));
            }
            p.fin = true;
            p.wake_all(&mut w);
        }
        wake(w);
    }

    fn close(&self) {
        let mut w = vec![];
        {
            let mut c = lock(&self.conn);
            if c.closed[self.side] {
                return;
            }
            let id = c.id;
            mccore::log(|| format!("  conn {id} side {} closed", self.side));
            c.closed[self.side] = true;
            if mccore::in_world() && c.closed_at.is_none() {
                c.closed_at = Some(mccore::now());
            }
            let unread = !c.pipes[1 - self.side].buf.is_empty();
            c.pipes[1 - self.side].reader_closed = true;
            if unread {
                kill(&mut c, CutKind::Reset, &mut w);
            } else {
                c.pipes[self.side].fin = true;
                c.pipes[self.side].wake_all(&mut w);
                c.pipes[1 - self.side].wake_all(&mut w);
            }
        }
        wake(w);
    }
}

struct Owned(Arc<Endpoint>);
impl Drop for Endpoint {
    fn drop(&mut self) {
        self.close()
    }
}

pub struct TcpStream {
    ep: Arc<Endpoint>,
}

impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("TcpStream").finish()
    }
}

struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let addrs = addr.resolve()?;
        let mut last = None;
        for a in addrs {
            match Self::connect_addr(a).await {
                Ok(s) => return Ok(s),
                Err(e) => last = Some(e),
            }
        }
        Err(last.unwrap_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
        }))
    }

    async fn connect_addr(addr: SocketAddr) -> io::Result<TcpStream> {
        mccore::point("connect");
        // connecting takes a round trip
        YieldOnce(false).await;
        if net(|n| n.blackholes.contains(&addr)) {
            mccore::log(|| format!("  connect {addr}: no answer"));
            crate::time::sleep(std::time::Duration::from_secs(127)).await;
            return Err(io::ErrorKind::TimedOut.into());
        }
        let mut w = vec![];
        let r = net(|n| {
            let Some(l) = n.listeners.get_mut(&addr) else {
                *n.refused.entry(addr).or_insert(0) += 1;
                mccore::log(|| format!("  connect {addr}: refused"));
                return Err(io::Error::from(io::ErrorKind::ConnectionRefused));
            };
            let id = n.conns.len();
            n.next_port = n.next_port.checked_add(1).unwrap_or(1);
            let local = SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 40000u16.wrapping_add(n.next_port));
            let cap = n.capacity.unwrap_or(DEFAULT_CAPACITY);
            let mk = || Pipe { capacity: cap, ..Default::default() };
            let mut pipes = [mk(), mk()];
            let mut early = None;
            for c in n.cuts.iter().filter(|c| c.conn == id) {
                if c.at == 0 {
                    early = Some(c.kind);
                } else {
                    pipes[c.dir].cut = Some((c.at, c.kind));
                }
            }
            let mut conn = Conn {
                id,
                pipes,
                closed: [false; 2],
                addr: [local, addr],
                opened_at: mccore::now(),
                closed_at: None,
            };
            if let Some(k) = early {
                kill(&mut conn, k, &mut vec![]);
            }
            let conn = Arc::new(Mutex::new(conn));
            n.conns.push(conn.clone());
            let open = n
                .conns
                .iter()
                .filter(|c| {
                    let c = lock(c);
                    let p = &c.pipes[0];
                    c.addr[1] == addr && !p.fin && !p.rst && !p.broken
                })
                .count();
            let m = n.max_open.entry(addr).or_insert(0);
            *m = open.max(*m);
            l.backlog.push_back(conn.clone());
            w.extend(l.waker.take());
            mccore::log(|| format!("  connect {addr}: conn {id}"));
            Ok(TcpStream { ep: Arc::new(Endpoint { conn, side: 0 }) })
        });
        wake(w);
        r
    }

    /// Index of the connection in order of `connect` (for scenarios).
    pub fn mc_index(&self) -> usize {
        lock(&self.ep.conn).id
    }

    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        (
            tcp::OwnedReadHalf { ep: Owned(self.ep.clone()) },
            tcp::OwnedWriteHalf { ep: Owned(self.ep), shutdown_on_drop: true },
        )
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf(&*self), tcp::WriteHalf(&*self))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(lock(&self.ep.conn).addr[self.ep.side])
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(lock(&self.ep.conn).addr[1 - self.ep.side])
    }
    pub fn set_nodelay(&self, _on: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_linger(&self, _d: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> {
        Ok(None)
    }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub async fn readable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| {
            let mut c = lock(&self.ep.conn);
            let p = &mut c.pipes[1 - self.ep.side];
            if !p.buf.is_empty() || p.fin || p.rst {
                Poll::Ready(Ok(()))
            } else {
                p.rwaker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
    pub async fn writable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| {
            let mut c = lock(&self.ep.conn);
            let p = &mut c.pipes[self.ep.side];
            if p.fin || p.rst || p.broken || p.buf.len() < p.capacity {
                Poll::Ready(Ok(()))
            } else {
                p.wwaker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut rb = ReadBuf::new(buf);
        let w = futures_noop();
        match self.ep.poll_read(&mut Context::from_waker(&w), &mut rb, false) {
            Poll::Ready(r) => r.map(|_| rb.filled().len()),
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        let w = futures_noop();
        match self.ep.poll_write(&mut Context::from_waker(&w), buf) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut rb = ReadBuf::new(buf);
        std::future::poll_fn(|cx| self.ep.poll_read(cx, &mut rb, true)).await?;
        Ok(rb.filled().len())
    }
    /// Closes abruptly: the peer sees a reset.
    pub fn mc_reset(self) {
        let mut w = vec![];
        kill(&mut lock(&self.ep.conn), CutKind::Reset, &mut w);
        wake(w);
    }
    /// Whether the peer closed or reset (for scenarios).
    pub fn mc_peer_gone(&self) -> bool {
        let c = lock(&self.ep.conn);
        let p = &c.pipes[1 - self.ep.side];
        p.fin || p.rst
    }
}

impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.ep.poll_read(cx, buf, false)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.ep.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.ep.shutdown_write();
        Poll::Ready(Ok(()))
    }
}

pub mod tcp {
    use super::*;

    pub struct OwnedReadHalf {
        pub(super) ep: Owned,
    }
    pub struct OwnedWriteHalf {
        pub(super) ep: Owned,
        pub(super) shutdown_on_drop: bool,
    }
    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);

    #[derive(Debug)]
    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);

    impl std::fmt::Debug for OwnedReadHalf {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_struct("OwnedReadHalf").finish()
        }
    }
    impl std::fmt::Debug for OwnedWriteHalf {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_struct("OwnedWriteHalf").finish()
        }
    }

    impl OwnedReadHalf {
        pub fn reunite(self, mut other: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
            if Arc::ptr_eq(&self.ep.0, &other.ep.0) {
                other.shutdown_on_drop = false;
                Ok(TcpStream { ep: self.ep.0.clone() })
            } else {
                Err(ReuniteError(self, other))
            }
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(lock(&self.ep.0.conn).addr[1 - self.ep.0.side])
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(lock(&self.ep.0.conn).addr[self.ep.0.side])
        }
    }
    impl OwnedWriteHalf {
        pub fn forget(mut self) {
            self.shutdown_on_drop = false;
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(lock(&self.ep.0.conn).addr[1 - self.ep.0.side])
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(lock(&self.ep.0.conn).addr[self.ep.0.side])
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            if self.shutdown_on_drop {
                self.ep.0.shutdown_write()
            }
        }
    }
    impl AsyncRead for OwnedReadHalf {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.ep.0.poll_read(cx, buf, false)
        }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.ep.0.poll_write(cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.ep.0.shutdown_write();
            self.shutdown_on_drop = false;
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncRead for ReadHalf<'_> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            self.0.ep.poll_read(cx, buf, false)
        }
    }
    impl AsyncWrite for WriteHalf<'_> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.0.ep.poll_write(cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.0.ep.shutdown_write();
            Poll::Ready(Ok(()))
        }
    }
}

// ---------------------------------------------------------------- listener

pub struct TcpListener {
    addr: SocketAddr,
    id: u64,
}

impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("TcpListener").field("addr", &self.addr).finish()
    }
}

impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let addrs = addr.resolve()?;
        let mut last = None;
        for a in addrs {
            match Self::bind_addr(a) {
                Ok(l) => return Ok(l),
                Err(e) => last = Some(e),
            }
        }
        Err(last.unwrap_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
        }))
    }

    fn bind_addr(mut addr: SocketAddr) -> io::Result<TcpListener> {
        mccore::point("bind");
        net(|n| {
            if addr.port() == 0 {
                n.next_port += 1;
                addr.set_port(50000 + n.next_port);
            }
            if n.listeners.contains_key(&addr) {
                mccore::log(|| format!("  bind {addr}: in use"));
                return Err(io::ErrorKind::AddrInUse.into());
            }
            n.next_listener += 1;
            let id = n.next_listener;
            n.listeners.insert(addr, Listener { id, ..Default::default() });
            mccore::log(|| format!("  bind {addr}"));
            Ok(TcpListener { addr, id })
        })
    }

    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }

    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        if !coop("accept", cx) {
            return Poll::Pending;
        }
        let r = net(|n| {
            if let Some(q) = n.accept_errors.get_mut(&self.addr) {
                if let Some(k) = q.pop_front() {
                    mccore::log(|| format!("  accept error {k:?}"));
                    return Poll::Ready(Err(k.into()));
                }
            }
            let l = n.listeners.get_mut(&self.addr).expect("listener");
            match l.backlog.pop_front() {
                Some(conn) => {
                    let (peer, id) = {
                        let c = lock(&conn);
                        (c.addr[0], c.id)
                    };
                    mccore::log(|| format!("  accept conn {id}"));
                    let s = TcpStream { ep: Arc::new(Endpoint { conn, side: 1 }) };
                    Poll::Ready(Ok((s, peer)))
                }
                None => {
                    l.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        });
        if r.is_pending() {
            mccore::coop_restore();
        }
        r
    }

    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
}

impl Drop for TcpListener {
    fn drop(&mut self) {
        if !mccore::in_world() {
            return;
        }
        let l = net(|n| match n.listeners.get(&self.addr) {
            Some(l) if l.id == self.id => n.listeners.remove(&self.addr),
            _ => None,
        });
        mccore::log(|| format!("  unbind {}", self.addr));
        if let Some(l) = l {
            let mut w = vec![];
            for c in &l.backlog {
                let mut c = lock(c);
                c.closed[1] = true;
                kill(&mut c, CutKind::Reset, &mut w);
            }
            wake(w);
        }
    }
}

/// Minimal `TcpSocket`.
#[derive(Debug)]
pub struct TcpSocket {
    addr: Mutex<Option<SocketAddr>>,
}

impl TcpSocket {
    pub fn new_v4() -> io::Result<TcpSocket> {
        Ok(TcpSocket { addr: Mutex::new(None) })
    }
    pub fn new_v6() -> io::Result<TcpSocket> {
        Self::new_v4()
    }
    pub fn set_reuseaddr(&self, _r: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_reuseport(&self, _r: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn bind(&self, addr: SocketAddr) -> io::Result<()> {
        if net(|n| n.listeners.contains_key(&addr)) {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        *self.addr.lock().unwrap() = Some(addr);
        Ok(())
    }
    pub async fn connect(self, addr: SocketAddr) -> io::Result<TcpStream> {
        TcpStream::connect(addr).await
    }
    pub fn listen(self, _backlog: u32) -> io::Result<TcpListener> {
        let a = self.addr.lock().unwrap().take();
        TcpListener::bind_addr(a.ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?)
    }
}

// ---------------------------------------------------------------- addresses

pub trait ToSocketAddrs {
    #[doc(hidden)]
    fn resolve(&self) -> io::Result<Vec<SocketAddr>>;
}

pub async fn lookup_host<T: ToSocketAddrs>(host: T) -> io::Result<impl Iterator<Item = SocketAddr>> {
    Ok(host.resolve()?.into_iter())
}

macro_rules! via_std {
    ($($t:ty),*) => {$(
        impl ToSocketAddrs for $t {
            fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
                Ok(std::net::ToSocketAddrs::to_socket_addrs(self)?.collect())
            }
        }
    )*};
}
via_std!(SocketAddr, SocketAddrV4, SocketAddrV6, (IpAddr, u16), (Ipv4Addr, u16), (Ipv6Addr, u16), str, String, (&str, u16), (String, u16));

impl ToSocketAddrs for &[SocketAddr] {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(self.to_vec())
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn resolve(&self) -> io::Result<Vec<SocketAddr>> {
        (**self).resolve()
    }
}

fn futures_noop() -> std::task::Waker {
    struct N;
    impl std::task::Wake for N {
        fn wake(self: Arc<Self>) {}
    }
    Arc::new(N).into()
}
