//! A virtual network: reliable ordered byte streams between tasks, controlled by the harness.

use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::poll_fn;
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

// -- addresses -----------------------------------------------------------------------------------

pub trait ToSocketAddrs {
    fn mc_addrs(&self) -> io::Result<Vec<SocketAddr>>;
}

impl<T: std::net::ToSocketAddrs + ?Sized> ToSocketAddrs for T {
    fn mc_addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(self.to_socket_addrs()?.collect())
    }
}

// -- pipes ---------------------------------------------------------------------------------------

struct Pipe {
    res: mc::Res,
    buf: VecDeque<u8>,
    cap: usize,
    /// The writer is done.
    fin: bool,
    /// The reader is gone.
    closed: bool,
    /// Broken by the harness: reads and writes fail.
    reset: bool,
    /// Partitioned by the harness: written bytes vanish, reads never complete.
    dark: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
    total: u64,
}

type PipeRef = Rc<RefCell<Pipe>>;

fn pipe(cap: usize) -> PipeRef {
    Rc::new(RefCell::new(Pipe {
        res: mc::new_res(),
        buf: VecDeque::new(),
        cap,
        fin: false,
        closed: false,
        reset: false,
        dark: false,
        reader: None,
        writer: None,
        total: 0,
    }))
}

fn wake_all(p: &mut Pipe) {
    if let Some(w) = p.reader.take() {
        w.wake();
    }
    if let Some(w) = p.writer.take() {
        w.wake();
    }
}

fn poll_read_pipe(p: &PipeRef, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let res = p.borrow().res;
    mc::point_named(res, mc::Acc::Write, "net read");
    let mut p = p.borrow_mut();
    if p.reset {
        return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
    }
    if p.dark {
        p.reader = Some(cx.waker().clone());
        return Poll::Pending;
    }
    if p.buf.is_empty() {
        if p.fin {
            return Poll::Ready(Ok(()));
        }
        p.reader = Some(cx.waker().clone());
        return Poll::Pending;
    }
    let avail = p.buf.len().min(buf.remaining());
    let mut n = avail;
    if mc::net_chunks() && avail > 1 {
        // Default: everything. Alternatives: one byte, half, all but one.
        n = match mc::fault(if avail > 2 { 4 } else { 2 }) {
            0 => avail,
            1 => 1,
            2 => avail / 2,
            _ => avail - 1,
        };
    }
    for _ in 0..n {
        let b = p.buf.pop_front().unwrap();
        buf.put_slice(&[b]);
    }
    if let Some(w) = p.writer.take() {
        w.wake();
    }
    Poll::Ready(Ok(()))
}

fn poll_write_pipe(p: &PipeRef, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
    let res = p.borrow().res;
    mc::point_named(res, mc::Acc::Write, "net write");
    let mut p = p.borrow_mut();
    if p.reset {
        return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
    }
    // The other end's close doesn't get through a partition either.
    if p.dark && !p.fin {
        return Poll::Ready(Ok(data.len()));
    }
    if p.fin || p.closed {
        return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
    }
    let room = p.cap - p.buf.len().min(p.cap);
    if room == 0 && !data.is_empty() {
        p.writer = Some(cx.waker().clone());
        return Poll::Pending;
    }
    let n = data.len().min(room);
    p.buf.extend(&data[..n]);
    p.total += n as u64;
    if let Some(w) = p.reader.take() {
        w.wake();
    }
    Poll::Ready(Ok(n))
}

fn shutdown_pipe(p: &PipeRef) {
    let res = p.borrow().res;
    mc::point_named(res, mc::Acc::Write, "net fin");
    let mut p = p.borrow_mut();
    p.fin = true;
    wake_all(&mut p);
}

fn close_reader(p: &PipeRef) {
    let res = p.borrow().res;
    mc::access(res, mc::Acc::Write);
    let mut p = p.borrow_mut();
    p.closed = true;
    wake_all(&mut p);
}

// -- network -------------------------------------------------------------------------------------

struct Listening {
    addr: SocketAddr,
    queue: VecDeque<TcpStream>,
    waker: Option<Waker>,
    id: u64,
}

struct Conn {
    a: PipeRef,
    b: PipeRef,
    from: SocketAddr,
    to: SocketAddr,
}

#[derive(Default)]
struct Net {
    listeners: Vec<Listening>,
    conns: Vec<Conn>,
    next_port: u16,
    next_id: u64,
    cap: usize,
    /// Connect attempts to these addresses hang.
    blackholes: Vec<SocketAddr>,
}

struct Global(std::cell::UnsafeCell<Option<Net>>);
unsafe impl Sync for Global {}
static NET: Global = Global(std::cell::UnsafeCell::new(None));
const RES: mc::Res = mc::Res(0x4e7);

fn net() -> &'static mut Net {
    unsafe {
        (*NET.0.get()).get_or_insert_with(|| Net { next_port: 40000, cap: 4 << 20, ..Default::default() })
    }
}

/// Harness controls.
pub mod mcnet {
    use super::*;

    /// Capacity of connections, per direction.
    pub fn set_capacity(cap: usize) {
        net().cap = cap;
        for c in &net().conns {
            c.a.borrow_mut().cap = cap;
            c.b.borrow_mut().cap = cap;
        }
    }
    /// Number of connections made so far.
    pub fn connections() -> usize {
        net().conns.len()
    }
    /// (from, to) of a connection.
    pub fn endpoints(i: usize) -> (SocketAddr, SocketAddr) {
        (net().conns[i].from, net().conns[i].to)
    }
    /// Bytes written by the connecting side and by the accepting side.
    pub fn traffic(i: usize) -> (u64, u64) {
        let c = &net().conns[i];
        (c.a.borrow().total, c.b.borrow().total)
    }
    /// Both ends get an error.
    pub fn reset(i: usize) {
        let (a, b) = (net().conns[i].a.clone(), net().conns[i].b.clone());
        for p in [a, b] {
            let res = p.borrow().res;
            mc::point_named(res, mc::Acc::Write, "net reset");
            let mut p = p.borrow_mut();
            p.reset = true;
            wake_all(&mut p);
        }
    }
    /// Everything sent from now on is lost, nobody notices.
    pub fn partition(i: usize) {
        let (a, b) = (net().conns[i].a.clone(), net().conns[i].b.clone());
        for p in [a, b] {
            let res = p.borrow().res;
            mc::point_named(res, mc::Acc::Write, "net partition");
            let mut p = p.borrow_mut();
            p.dark = true;
            p.buf.clear();
        }
    }
    /// True if neither end has closed or broken this connection.
    pub fn open(i: usize) -> bool {
        let c = &net().conns[i];
        let (a, b) = (c.a.borrow(), c.b.borrow());
        !(a.fin || a.closed || a.reset || b.fin || b.closed || b.reset)
    }
    pub fn blackhole(addr: SocketAddr) {
        net().blackholes.push(addr);
    }
    /// Ends every blackhole.
    pub fn heal() {
        net().blackholes.clear();
    }
    pub fn listening() -> Vec<SocketAddr> {
        net().listeners.iter().map(|l| l.addr).collect()
    }
}

pub struct TcpListener {
    addr: SocketAddr,
    id: u64,
}

impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("TcpListener").field("addr", &self.addr).finish()
    }
}

impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        mc::point_named(RES, mc::Acc::Write, "net bind");
        let mut addr = *addr.mc_addrs()?.first().ok_or(io::ErrorKind::InvalidInput)?;
        let n = net();
        if addr.port() == 0 {
            n.next_port += 1;
            addr.set_port(n.next_port);
        }
        if n.listeners.iter().any(|l| {
            l.addr.port() == addr.port()
                && (l.addr.ip() == addr.ip() || l.addr.ip().is_unspecified() || addr.ip().is_unspecified())
        }) {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        n.next_id += 1;
        let id = n.next_id;
        n.listeners.push(Listening { addr, queue: VecDeque::new(), waker: None, id });
        Ok(TcpListener { addr, id })
    }

    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }

    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        poll_fn(|cx| self.poll_accept(cx)).await
    }

    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        mc::point_named(RES, mc::Acc::Write, "net accept");
        let l = net().listeners.iter_mut().find(|l| l.id == self.id).unwrap();
        match l.queue.pop_front() {
            Some(s) => {
                let peer = s.peer;
                Poll::Ready(Ok((s, peer)))
            }
            None => {
                l.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Drop for TcpListener {
    fn drop(&mut self) {
        mc::access(RES, mc::Acc::Write);
        net().listeners.retain(|l| l.id != self.id);
    }
}

pub struct TcpStream {
    rx: PipeRef,
    tx: PipeRef,
    local: SocketAddr,
    peer: SocketAddr,
    live: bool,
}

unsafe impl Send for TcpStream {}
unsafe impl Sync for TcpStream {}

impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("TcpStream").field("local", &self.local).field("peer", &self.peer).finish()
    }
}

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let addrs = addr.mc_addrs()?;
        let mut last = io::Error::from(io::ErrorKind::InvalidInput);
        for a in addrs {
            match Self::connect_one(a).await {
                Ok(s) => return Ok(s),
                Err(e) => last = e,
            }
        }
        Err(last)
    }

    async fn connect_one(addr: SocketAddr) -> io::Result<TcpStream> {
        // A real connect takes at least one round trip.
        crate::task::yield_now().await;
        if net().blackholes.contains(&addr) {
            std::future::pending::<()>().await;
        }
        Self::connect_now(addr)
    }

    fn connect_now(addr: SocketAddr) -> io::Result<TcpStream> {
        mc::point_named(RES, mc::Acc::Write, "net connect");
        let n = net();
        let Some(l) = n.listeners.iter_mut().find(|l| {
            l.addr.port() == addr.port()
                && (l.addr.ip() == addr.ip() || l.addr.ip().is_unspecified() || addr.ip().is_unspecified())
        }) else {
            return Err(io::ErrorKind::ConnectionRefused.into());
        };
        n.next_port += 1;
        let local = SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), n.next_port);
        let a = pipe(n.cap);
        let b = pipe(n.cap);
        n.conns.push(Conn { a: a.clone(), b: b.clone(), from: local, to: addr });
        let server = TcpStream { rx: a.clone(), tx: b.clone(), local: addr, peer: local, live: true };
        let client = TcpStream { rx: b, tx: a, local, peer: addr, live: true };
        l.queue.push_back(server);
        if let Some(w) = l.waker.take() {
            w.wake();
        }
        Ok(client)
    }

    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.local)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.peer)
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> {
        Ok(None)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| self.poll_read_ready(cx)).await
    }
    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let res = self.rx.borrow().res;
        mc::point_named(res, mc::Acc::Write, "net readable");
        let mut p = self.rx.borrow_mut();
        if p.reset || (!p.dark && (!p.buf.is_empty() || p.fin)) {
            return Poll::Ready(Ok(()));
        }
        p.reader = Some(cx.waker().clone());
        Poll::Pending
    }
    pub async fn writable(&self) -> io::Result<()> {
        poll_fn(|cx| {
            let res = self.tx.borrow().res;
            mc::point_named(res, mc::Acc::Write, "net writable");
            let mut p = self.tx.borrow_mut();
            if p.reset || p.dark || p.fin || p.closed || p.buf.len() < p.cap {
                return Poll::Ready(Ok(()));
            }
            p.writer = Some(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut buf = ReadBuf::new(buf);
        match poll_read_pipe(&self.rx, &mut Context::from_waker(Waker::noop()), &mut buf) {
            Poll::Ready(r) => r.map(|_| buf.filled().len()),
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub fn try_write(&self, data: &[u8]) -> io::Result<usize> {
        match poll_write_pipe(&self.tx, &mut Context::from_waker(Waker::noop()), data) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.readable().await?;
        let p = self.rx.borrow();
        if p.reset {
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        let n = buf.len().min(p.buf.len());
        buf.iter_mut().zip(&p.buf).for_each(|(to, b)| *to = *b);
        Ok(n)
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        let s: &Self = self;
        (tcp::ReadHalf(s), tcp::WriteHalf(s))
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let s = Rc::new(RefCell::new(self));
        (tcp::OwnedReadHalf(s.clone()), tcp::OwnedWriteHalf(s))
    }
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        if self.live {
            shutdown_pipe(&self.tx);
            close_reader(&self.rx);
        }
    }
}

impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        poll_read_pipe(&self.rx, cx, buf)
    }
}

impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        poll_write_pipe(&self.tx, cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.tx.borrow().fin {
            return Poll::Ready(Ok(()));
        }
        if self.tx.borrow().reset {
            return Poll::Ready(Err(io::ErrorKind::NotConnected.into()));
        }
        shutdown_pipe(&self.tx);
        Poll::Ready(Ok(()))
    }
}

pub mod tcp {
    use super::*;
    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);

    impl AsyncRead for ReadHalf<'_> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            poll_read_pipe(&self.0.rx, cx, buf)
        }
    }
    impl AsyncWrite for WriteHalf<'_> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            poll_write_pipe(&self.0.tx, cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            if !self.0.tx.borrow().fin {
                shutdown_pipe(&self.0.tx);
            }
            Poll::Ready(Ok(()))
        }
    }

    pub struct OwnedReadHalf(pub(super) Rc<RefCell<TcpStream>>);
    pub struct OwnedWriteHalf(pub(super) Rc<RefCell<TcpStream>>);
    unsafe impl Send for OwnedReadHalf {}
    unsafe impl Sync for OwnedReadHalf {}
    unsafe impl Send for OwnedWriteHalf {}
    unsafe impl Sync for OwnedWriteHalf {}

    impl AsyncRead for OwnedReadHalf {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let p = self.0.borrow().rx.clone();
            poll_read_pipe(&p, cx, buf)
        }
    }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            let p = self.0.borrow().tx.clone();
            poll_write_pipe(&p, cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            let p = self.0.borrow().tx.clone();
            if !p.borrow().fin {
                shutdown_pipe(&p);
            }
            Poll::Ready(Ok(()))
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            let p = self.0.borrow().tx.clone();
            if !p.borrow().fin {
                shutdown_pipe(&p);
            }
        }
    }
}
