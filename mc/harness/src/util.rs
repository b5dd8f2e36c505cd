//! Building blocks of the scenarios.

use crate::wire::{self, Frame};
use bytes::Bytes;
use mccore::explore::{Bounds, Case, DriverFut};
use mccore::Opts;
use serde_json::{Map, Value};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::future::Future;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use tchannel_rs::messages::{JsonMessage, MessageChannel, RawMessage};
use tchannel_rs::{Config, ConfigBuilder, SubChannel, TChannel};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::Semaphore;
use tokio::task::JoinHandle;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

pub type Res<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)+) => {
        if !$c {
            return Err(format!($($f)+));
        }
    };
}

// ------------------------------------------------------------------ cases

pub const SEC: u64 = 1_000_000_000;

pub fn opts() -> Opts {
    Opts { horizon: 300 * SEC, ..Opts::default() }
}

pub fn case<F, Fut>(name: impl Into<String>, bounds: Bounds, f: F) -> Case
where
    F: Fn() -> Fut + Send + Sync + 'static,
    Fut: Future<Output = Res<String>> + 'static,
{
    Case {
        name: name.into(),
        driver: Arc::new(move || -> DriverFut { Box::pin(f()) }),
        opts: opts(),
        bounds,
        allow_panics: false,
    }
}

pub trait CaseExt {
    fn opts(self, f: impl FnOnce(&mut Opts)) -> Case;
    /// short reads as environment deviations
    fn short_reads(self) -> Case;
    fn early_timers(self) -> Case;
    fn coop_yields(self) -> Case;
}
impl CaseExt for Case {
    fn opts(mut self, f: impl FnOnce(&mut Opts)) -> Case {
        f(&mut self.opts);
        self
    }
    fn short_reads(self) -> Case {
        self.opts(|o| o.short_reads = true)
    }
    fn early_timers(self) -> Case {
        self.opts(|o| o.early_timers = true)
    }
    fn coop_yields(self) -> Case {
        self.opts(|o| o.coop_yields = true)
    }
}

pub fn explore_on() {
    mccore::set_explore(true)
}
pub fn explore_off() {
    mccore::set_explore(false)
}

/// Resolves `n` alternatives, all of which are explored.
pub fn free(n: usize, what: &str) -> usize {
    mccore::choose(n, mccore::Class::Free, what)
}

/// All permutations of 0..n, chosen exhaustively.
pub fn free_perm(n: usize, what: &str) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let i = free(left.len(), what);
        out.push(left.remove(i));
    }
    out
}

/// Exhaustively chosen interleaving of sequences of the given lengths: the list
/// of indices of the sequence that moves next.
pub fn free_merge(lens: &[usize], what: &str) -> Vec<usize> {
    let mut left = lens.to_vec();
    let mut out = vec![];
    loop {
        let live: Vec<usize> = (0..left.len()).filter(|i| left[*i] > 0).collect();
        if live.is_empty() {
            return out;
        }
        let i = live[free(live.len(), what)];
        left[i] -= 1;
        out.push(i);
    }
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.is_empty() {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            let x = left.remove(i);
            cur.push(x);
            go(left, cur, out);
            cur.pop();
            left.insert(i, x);
        }
    }
    let mut out = vec![];
    go(&mut (0..n).collect(), &mut vec![], &mut out);
    out
}

/// All interleavings of sequences with the given lengths.
pub fn merges(lens: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut [usize], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        let mut any = false;
        for i in 0..left.len() {
            if left[i] > 0 {
                any = true;
                left[i] -= 1;
                cur.push(i);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
        if !any {
            out.push(cur.clone());
        }
    }
    let mut out = vec![];
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

// ------------------------------------------------------------------ configuration

pub fn addr(i: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 8880 + i)
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub conns: u32,
    pub lifetime: Option<u64>,
    pub test: bool,
    pub buf: usize,
    pub tasks: usize,
    pub port: u16,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { conns: 1, lifetime: None, test: false, buf: 4, tasks: 4, port: 0 }
    }
}

pub fn cfg() -> Cfg {
    Cfg::default()
}

impl Cfg {
    pub fn conns(mut self, n: u32) -> Self {
        self.conns = n;
        self
    }
    pub fn lifetime(mut self, s: Option<u64>) -> Self {
        self.lifetime = s;
        self
    }
    pub fn test(mut self) -> Self {
        self.test = true;
        self
    }
    pub fn buf(mut self, n: usize) -> Self {
        self.buf = n;
        self
    }
    pub fn tasks(mut self, n: usize) -> Self {
        self.tasks = n;
        self
    }
    pub fn port(mut self, n: u16) -> Self {
        self.port = n;
        self
    }
    pub fn config(self) -> Config {
        ConfigBuilder::default()
            .max_connections(self.conns)
            .lifetime(self.lifetime.map(Duration::from_secs))
            .test_connection(self.test)
            .frame_buffer_size(self.buf)
            .server_address(addr(self.port))
            .server_tasks(self.tasks)
            .build()
            .expect("config")
    }
    pub fn channel(self) -> Res<TChannel> {
        TChannel::new(self.config()).map_err(|e| format!("TChannel::new: {e}"))
    }
    pub async fn sub(self, service: &str) -> Res<(TChannel, Arc<SubChannel>)> {
        let ch = self.channel()?;
        let sub = subchannel(&ch, service).await?;
        Ok((ch, sub))
    }
}

pub async fn subchannel(ch: &TChannel, service: &str) -> Res<Arc<SubChannel>> {
    ch.subchannel(service).await.map_err(|e| format!("subchannel {service}: {e}"))
}

pub fn start(ch: &TChannel) -> Res {
    ch.start_server().map_err(|e| format!("start_server: {e}"))
}

/// Server with subchannel "svc", started and listening.
pub async fn server(c: Cfg) -> Res<(TChannel, Arc<SubChannel>)> {
    let (ch, sub) = c.sub("svc").await?;
    start(&ch)?;
    settle().await;
    ensure!(tokio::net::mc::is_bound(addr(c.port)), "server is not listening after start_server");
    Ok((ch, sub))
}

/// Lets everything run until nothing is left to do without time passing.
pub async fn settle() {
    mccore::quiesce().await
}

// ------------------------------------------------------------------ handlers

pub type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;

pub struct AsyncFn<F>(pub F);
impl<F> fmt::Debug for AsyncFn<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("AsyncFn")
    }
}
impl<F> RequestHandlerAsync for AsyncFn<F>
where
    F: Fn(RawMessage) -> BoxFut<HandlerResult<RawMessage>> + Send + Sync,
{
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(
        &mut self,
        request: RawMessage,
    ) -> Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        (self.0)(request)
    }
}

pub struct SyncFn<F>(pub F);
impl<F> fmt::Debug for SyncFn<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SyncFn")
    }
}
impl<F> RequestHandler for SyncFn<F>
where
    F: Fn(RawMessage) -> HandlerResult<RawMessage> + Send + Sync,
{
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> HandlerResult<RawMessage> {
        (self.0)(request)
    }
}

pub struct JsonAsyncFn<F>(pub F);
impl<F> fmt::Debug for JsonAsyncFn<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JsonAsyncFn")
    }
}
impl<F> RequestHandlerAsync for JsonAsyncFn<F>
where
    F: Fn(JsonMessage) -> BoxFut<HandlerResult<JsonMessage>> + Send + Sync,
{
    type REQ = JsonMessage;
    type RES = JsonMessage;
    fn handle(
        &mut self,
        request: JsonMessage,
    ) -> Pin<Box<dyn Future<Output = HandlerResult<JsonMessage>> + Send + '_>> {
        (self.0)(request)
    }
}

pub struct JsonSyncFn<F>(pub F);
impl<F> fmt::Debug for JsonSyncFn<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JsonSyncFn")
    }
}
impl<F> RequestHandler for JsonSyncFn<F>
where
    F: Fn(JsonMessage) -> HandlerResult<JsonMessage> + Send + Sync,
{
    type REQ = JsonMessage;
    type RES = JsonMessage;
    fn handle(&mut self, request: JsonMessage) -> HandlerResult<JsonMessage> {
        (self.0)(request)
    }
}

/// What an echo handler called `tag` answers.
pub fn echo_reply(tag: &str, req: &RawMessage) -> RawMessage {
    let mut b = req.body().to_vec();
    b.extend(tag.as_bytes());
    RawMessage::new(req.endpoint().clone(), format!("{}/{}", tag, req.header()), Bytes::from(b))
}

pub async fn register_sync<F>(sub: &SubChannel, ep: &str, f: F) -> Res
where
    F: Fn(RawMessage) -> HandlerResult<RawMessage> + Send + Sync + 'static,
{
    sub.register(ep, SyncFn(f)).await.map_err(|e| format!("register {ep}: {e}"))
}

pub async fn register_async<F>(sub: &SubChannel, ep: &str, f: F) -> Res
where
    F: Fn(RawMessage) -> BoxFut<HandlerResult<RawMessage>> + Send + Sync + 'static,
{
    sub.register_async(ep, AsyncFn(f)).await.map_err(|e| format!("register {ep}: {e}"))
}

/// Answers at once.
pub async fn echo(sub: &SubChannel, ep: &str, tag: &str) -> Res {
    let tag = tag.to_string();
    register_sync(sub, ep, move |r| Ok(echo_reply(&tag, &r))).await
}

/// Is suspended `n` times before it answers.
pub async fn slow_echo(sub: &SubChannel, ep: &str, tag: &str, n: usize) -> Res {
    let tag = tag.to_string();
    register_async(sub, ep, move |r| {
        let tag = tag.clone();
        Box::pin(async move {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
            Ok(echo_reply(&tag, &r))
        })
    })
    .await
}

/// Answers when the gate is opened.
pub async fn gated_echo(sub: &SubChannel, ep: &str, tag: &str, gate: &Gate) -> Res {
    let tag = tag.to_string();
    let gate = gate.clone();
    register_async(sub, ep, move |r| {
        let tag = tag.clone();
        let gate = gate.clone();
        Box::pin(async move {
            gate.enter();
            gate.wait().await;
            Ok(echo_reply(&tag, &r))
        })
    })
    .await
}

/// Lets handlers wait for the scenario; counts how many are waiting.
#[derive(Clone)]
pub struct Gate {
    sem: Arc<Semaphore>,
    entered: Arc<std::sync::atomic::AtomicUsize>,
    opened: Arc<std::sync::atomic::AtomicUsize>,
}
impl Gate {
    pub fn new() -> Gate {
        Gate { sem: Arc::new(Semaphore::new(0)), entered: Default::default(), opened: Default::default() }
    }
    pub fn enter(&self) {
        self.entered.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
    pub async fn wait(&self) {
        if let Ok(p) = self.sem.acquire().await {
            p.forget()
        }
    }
    /// Lets one waiting handler go on.
    pub fn open(&self) {
        self.opened.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        self.sem.add_permits(1)
    }
    pub fn opened(&self) -> bool {
        self.opened.load(std::sync::atomic::Ordering::SeqCst) > 0
    }
    /// How many times a handler reached the gate.
    pub fn entered(&self) -> usize {
        self.entered.load(std::sync::atomic::Ordering::SeqCst)
    }
}

// ------------------------------------------------------------------ calls

pub type RawResult = HandlerResult<RawMessage>;
pub type JsonResult = HandlerResult<JsonMessage>;

pub fn raw(ep: &str, header: &str, body: &[u8]) -> RawMessage {
    RawMessage::new(ep.to_string(), header.to_string(), Bytes::copy_from_slice(body))
}

pub async fn send(sub: &SubChannel, to: SocketAddr, m: RawMessage) -> RawResult {
    MessageChannel::<RawMessage, RawMessage>::send(sub, m, to).await
}
pub async fn send_json(sub: &SubChannel, to: SocketAddr, m: JsonMessage) -> JsonResult {
    MessageChannel::<JsonMessage, JsonMessage>::send(sub, m, to).await
}

pub fn json_map(v: Value) -> Map<String, Value> {
    match v {
        Value::Object(m) => m,
        _ => panic!("not an object"),
    }
}

pub fn err_text(e: &HandlerError<RawMessage>) -> String {
    match e {
        HandlerError::MessageError(m) => format!("message error {}", show(m)),
        HandlerError::GeneralError(m) => format!("general error {m}"),
        HandlerError::InternalError(m) => format!("internal error {m}"),
    }
}

pub fn bytes_text(b: &[u8]) -> String {
    if b.len() > 24 {
        format!("{}..({} bytes)", String::from_utf8_lossy(&b[..12]), b.len())
    } else {
        String::from_utf8_lossy(b).into_owned()
    }
}

pub fn show(m: &RawMessage) -> String {
    format!(
        "[{} | {} | {}]",
        bytes_text(m.endpoint().as_bytes()),
        bytes_text(m.header().as_bytes()),
        bytes_text(m.body())
    )
}

pub fn res_text(r: &RawResult) -> String {
    match r {
        Ok(m) => format!("ok {}", show(m)),
        Err(e) => err_text(e),
    }
}

pub fn same(a: &RawMessage, b: &RawMessage) -> bool {
    a.endpoint() == b.endpoint() && a.header() == b.header() && a.body() == b.body()
}

/// The result must be this message.
pub fn expect_ok(what: &str, r: &RawResult, want: &RawMessage) -> Res {
    match r {
        Ok(m) if same(m, want) => Ok(()),
        _ => Err(format!("{what}: expected {}, got {}", show(want), res_text(r))),
    }
}

pub fn expect_err(what: &str, r: &RawResult) -> Res {
    match r {
        Err(HandlerError::MessageError(_)) | Ok(_) => {
            Err(format!("{what}: expected an error, got {}", res_text(r)))
        }
        Err(_) => Ok(()),
    }
}

/// `fut` must complete within `secs` of virtual time, i.e. without waiting for a
/// longer timeout of the code under test.
pub async fn within<F: Future>(secs: u64, what: &str, fut: F) -> Res<F::Output> {
    tokio::time::timeout(Duration::from_secs(secs), fut)
        .await
        .map_err(|_| format!("{what}: does not complete"))
}

pub const PROMPT: u64 = 5;
/// Longer than any timeout of the code under test (bb8 waits 30 s for a connection).
pub const EVENTUALLY: u64 = 100;

/// A call in a task of its own.
pub struct Call {
    pub h: JoinHandle<RawResult>,
    pub want: RawMessage,
    pub what: String,
}

pub fn spawn_call(sub: &Arc<SubChannel>, to: SocketAddr, m: RawMessage, tag: &str) -> Call {
    let sub = sub.clone();
    let want = echo_reply(tag, &m);
    let what = format!("call {}", show(&m));
    let h = tokio::task::spawn_named("call", async move { send(&sub, to, m).await });
    Call { h, want, what }
}

impl Call {
    pub async fn result(self) -> Res<RawResult> {
        match within(EVENTUALLY, &self.what, self.h).await? {
            Ok(r) => Ok(r),
            Err(e) => Err(format!("{}: task failed: {e}", self.what)),
        }
    }
    /// The call must return what an echo handler called `tag` answers.
    pub async fn echoed(self) -> Res {
        let (what, want) = (self.what.clone(), self.want.clone());
        let r = self.result().await?;
        expect_ok(&what, &r, &want)
    }
    pub async fn fails(self) -> Res {
        let what = self.what.clone();
        let r = self.result().await?;
        expect_err(&what, &r)
    }
}

/// A complete echoed call in the running task.
pub async fn call_echo(sub: &SubChannel, to: SocketAddr, m: RawMessage, tag: &str) -> Res {
    let want = echo_reply(tag, &m);
    let what = format!("call {}", show(&m));
    let r = within(EVENTUALLY, &what, send(sub, to, m)).await?;
    expect_ok(&what, &r, &want)
}

// ------------------------------------------------------------------ raw peers

pub struct Peer {
    pub s: TcpStream,
    pub buf: Vec<u8>,
}

impl Peer {
    pub fn new(s: TcpStream) -> Peer {
        Peer { s, buf: vec![] }
    }
    pub async fn connect(to: SocketAddr) -> Res<Peer> {
        let s = TcpStream::connect(to).await.map_err(|e| format!("peer: connect: {e}"))?;
        Ok(Peer::new(s))
    }
    /// Next frame; None at the end of the stream; frames must be well formed.
    pub async fn recv(&mut self) -> Res<Option<Frame>> {
        loop {
            if let Some(f) = wire::take_frame(&mut self.buf)? {
                return Ok(Some(f));
            }
            let mut b = [0u8; 8192];
            match self.s.read(&mut b).await {
                Ok(0) if self.buf.is_empty() => return Ok(None),
                Ok(0) => return Err(format!("peer: stream ends inside a frame: {:?}", self.buf)),
                Ok(n) => self.buf.extend(&b[..n]),
                Err(_) => return Ok(None),
            }
        }
    }
    pub async fn expect(&mut self, what: &str) -> Res<Frame> {
        match within(EVENTUALLY, what, self.recv()).await?? {
            Some(f) => Ok(f),
            None => Err(format!("{what}: connection ended")),
        }
    }
    pub async fn send_bytes(&mut self, b: &[u8]) -> Res {
        self.s.write_all(b).await.map_err(|e| format!("peer: write: {e}"))
    }
    pub async fn send(&mut self, f: &Frame) -> Res {
        self.send_bytes(&f.encode()).await
    }
    pub async fn send_all(&mut self, f: &[Frame]) -> Res {
        for f in f {
            self.send(f).await?;
        }
        Ok(())
    }
    pub async fn client_handshake(&mut self) -> Res {
        self.send(&wire::init_req(1)).await?;
        let f = self.expect("init response").await?;
        ensure!(f.ty == wire::INIT_RES && f.id == 1, "expected init response 1, got {:#x} {}", f.ty, f.id);
        let i = wire::parse_init(&f.payload)?;
        ensure!(i.version == 2, "init response with version {}", i.version);
        Ok(())
    }
    pub async fn server_handshake(&mut self) -> Res<u32> {
        let f = self.expect("init request").await?;
        ensure!(f.ty == wire::INIT_REQ, "first frame is {:#x}, not an init request", f.ty);
        let i = wire::parse_init(&f.payload)?;
        ensure!(i.version == 2, "init request with version {}", i.version);
        self.send(&wire::init_res(f.id)).await?;
        Ok(f.id)
    }
    /// Connects and shakes hands.
    pub async fn client(to: SocketAddr) -> Res<Peer> {
        let mut p = Peer::connect(to).await?;
        p.client_handshake().await?;
        Ok(p)
    }
    /// The complete next message, judged by the reference codec.
    pub async fn message(&mut self, what: &str) -> Res<(u32, wire::Assembly)> {
        let f = self.expect(what).await?;
        self.message_from(f, what).await
    }
    pub async fn message_from(&mut self, f: Frame, what: &str) -> Res<(u32, wire::Assembly)> {
        let id = f.id;
        let mut a = wire::Assembly::begin(&f).map_err(|e| format!("{what}: {e}"))?;
        while !a.complete {
            let f = self.expect(what).await?;
            ensure!(f.id == id, "{what}: frame of message {} inside message {id}", f.id);
            a.add(&f).map_err(|e| format!("{what}: {e}"))?;
        }
        Ok((id, a))
    }
    pub fn reset(self) {
        self.s.mc_reset()
    }
}

pub struct Listener(TcpListener);

impl Listener {
    pub async fn bind(i: u16) -> Res<Listener> {
        TcpListener::bind(addr(i)).await.map(Listener).map_err(|e| format!("peer: bind: {e}"))
    }
    pub async fn accept(&self) -> Res<Peer> {
        let (s, _) = self.0.accept().await.map_err(|e| format!("peer: accept: {e}"))?;
        Ok(Peer::new(s))
    }
    /// Accepts and shakes hands.
    pub async fn serve(&self) -> Res<Peer> {
        let mut p = self.accept().await?;
        p.server_handshake().await?;
        Ok(p)
    }
}

/// Runs the future as a task that is never preempted inside a poll.
pub fn peer_task<T: 'static, F: Future<Output = T> + 'static>(f: F) -> JoinHandle<T> {
    tokio::task::spawn_named("peer", f)
}

pub async fn join<T>(what: &str, h: JoinHandle<Res<T>>) -> Res<T> {
    match within(EVENTUALLY, what, h).await? {
        Ok(r) => r.map_err(|e| format!("{what}: {e}")),
        Err(e) => Err(format!("{what}: task failed: {e}")),
    }
}

/// Raw peer that serves as an echo server until the connection ends: answers every
/// request with `echo_reply(tag)`, immediately and in order; answers pings.
pub async fn echo_peer(mut p: Peer, tag: &str) -> Res<usize> {
    let mut col = wire::Collector::default();
    let mut n = 0;
    while let Some(f) = p.recv().await? {
        if f.ty == wire::PING_REQ {
            p.send(&wire::ping_res(f.id)).await?;
            continue;
        }
        if let Some((id, a)) = col.feed(&f)? {
            if p.send_all(&echo_frames(id, &a, tag)?).await.is_err() {
                break;
            }
            n += 1;
        }
    }
    Ok(n)
}

pub fn message_of(a: &wire::Assembly) -> Res<RawMessage> {
    ensure!(a.args.len() == 3, "message with {} arguments", a.args.len());
    let s = |b: &Vec<u8>| String::from_utf8(b.clone()).map_err(|e| e.to_string());
    Ok(RawMessage::new(s(&a.args[0])?, s(&a.args[1])?, Bytes::from(a.args[2].clone())))
}

/// Reference response frames of an echo handler called `tag` for request `a`.
pub fn echo_frames(id: u32, a: &wire::Assembly, tag: &str) -> Res<Vec<Frame>> {
    let r = echo_reply(tag, &message_of(a)?);
    Ok(response_frames(id, &r))
}

pub fn response_frames(id: u32, r: &RawMessage) -> Vec<Frame> {
    let args: [&[u8]; 3] = [r.endpoint().as_bytes(), r.header().as_bytes(), r.body()];
    wire::response(id, &wire::ResHead::new(0, "raw"), &wire::fill(&args, 60_000, 60_000))
}

pub fn request_frames(id: u32, service: &str, r: &RawMessage) -> Vec<Frame> {
    let args: [&[u8]; 3] = [r.endpoint().as_bytes(), r.header().as_bytes(), r.body()];
    wire::request(id, &wire::ReqHead::new(service, "raw"), &wire::fill(&args, 60_000, 60_000))
}

/// The raw message some arguments stand for, read tolerantly (missing arguments are
/// empty, further ones ignored).
pub fn message_of_args(args: &[Vec<u8>]) -> Option<RawMessage> {
    let a = |i: usize| args.get(i).cloned().unwrap_or_default();
    Some(RawMessage::new(String::from_utf8(a(0)).ok()?, String::from_utf8(a(1)).ok()?, Bytes::from(a(2))))
}

/// One byte of `b` is changed to another value; all of them are enumerated.
pub fn free_mutation(b: &mut [u8]) -> (usize, u8) {
    let at = free(b.len(), "position");
    let x = 1 + free(255, "value") as u8;
    b[at] ^= x;
    (at, b[at])
}

// ------------------------------------------------------------------ recording

/// Shared record of what happened, in order.
#[derive(Clone, Default)]
pub struct Record<T>(Rc<RefCell<Vec<T>>>);
// Safety: all tasks of an execution run on one thread.
unsafe impl<T> Send for Record<T> {}
unsafe impl<T> Sync for Record<T> {}
impl<T: Clone> Record<T> {
    pub fn new() -> Self {
        Record(Default::default())
    }
    pub fn push(&self, t: T) {
        self.0.borrow_mut().push(t)
    }
    pub fn get(&self) -> Vec<T> {
        self.0.borrow().clone()
    }
    pub fn len(&self) -> usize {
        self.0.borrow().len()
    }
}

#[derive(Clone, Default)]
pub struct Num(Rc<Cell<i64>>);
unsafe impl Send for Num {}
unsafe impl Sync for Num {}
impl Num {
    pub fn new() -> Num {
        Num::default()
    }
    pub fn add(&self, n: i64) -> i64 {
        self.0.set(self.0.get() + n);
        self.0.get()
    }
    pub fn get(&self) -> i64 {
        self.0.get()
    }
    pub fn set(&self, n: i64) {
        self.0.set(n)
    }
}
