//! Operation sequences over TCP, tasks and time, and what a program can observe of
//! them. Compiled twice: against tokio (with the real network, threads and clock)
//! and against the models.

use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::time::{sleep, timeout, Instant};

/// Time for anything in flight to arrive.
const PAUSE: Duration = Duration::from_millis(25);
const UNIT: u64 = 100;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Net {
    /// write one byte, read up to 16, shut down, drop the write or the read half, or
    /// the whole of side 0 (connecting) or 1 (accepting)
    W(usize),
    R(usize),
    S(usize),
    Dw(usize),
    Dr(usize),
    D(usize),
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Lis {
    Bind,
    Unbind,
    Connect,
    Accept,
    ReadClient,
    WriteClient,
    DropClient,
    DropServer,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Task {
    /// kind 0: returns at once, 1: never, 2: panics, 3: returns after a while, 4: has a
    /// destructor that takes note and never returns
    Spawn(usize),
    Abort,
    DropHandle,
    Join,
    Finished,
    Wait,
}

#[derive(Clone, Debug)]
pub enum Seq {
    Net(usize, Vec<Net>),
    Lis(usize, Vec<Lis>),
    Task(Vec<Task>),
    Timers(Vec<u64>),
    Timeout(u64, u64),
    Interval(u64, Vec<u64>, usize),
    Reset(u64, u64, u64),
    Select(Vec<u64>),
}

fn words<T: Copy>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
    let mut v: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..len {
        v = v.iter().flat_map(|w| alphabet.iter().map(move |a| { let mut w = w.clone(); w.push(*a); w })).collect();
    }
    v
}

/// No operation on something that was dropped before.
fn valid_net(w: &[Net]) -> bool {
    let mut wr = [true; 2];
    let mut rd = [true; 2];
    for o in w {
        let ok = match *o {
            Net::W(s) | Net::S(s) => wr[s],
            Net::R(s) => rd[s],
            Net::Dw(s) => std::mem::replace(&mut wr[s], false) && rd[s],
            Net::Dr(s) => std::mem::replace(&mut rd[s], false) && wr[s],
            Net::D(s) => {
                let ok = wr[s] || rd[s];
                wr[s] = false;
                rd[s] = false;
                ok
            }
        };
        if !ok {
            return false;
        }
    }
    true
}

pub fn all(depth: usize) -> Vec<Seq> {
    let mut v = vec![];
    let mut id = 0;
    let ops: Vec<Net> = (0..2).flat_map(|s| [Net::W(s), Net::R(s), Net::S(s), Net::Dw(s), Net::Dr(s), Net::D(s)]).collect();
    for len in 1..=depth {
        for w in words(&ops, len) {
            if valid_net(&w) {
                id += 1;
                v.push(Seq::Net(id, w));
            }
        }
    }
    use Lis::*;
    for len in 1..=depth + 1 {
        for w in words(&[Bind, Unbind, Connect, Accept, ReadClient, WriteClient, DropClient, DropServer], len) {
            // only those which begin with something that has an effect
            let (mut b, mut c, mut a) = (false, false, false);
            let ok = w.iter().all(|o| match o {
                Bind => { b = true; true }
                Unbind => std::mem::replace(&mut b, false),
                Connect => { c = true; true }
                Accept => { a = true; b }
                ReadClient | WriteClient => c,
                DropClient => std::mem::replace(&mut c, false),
                DropServer => std::mem::replace(&mut a, false),
            });
            if ok && w[0] == Bind {
                id += 1;
                v.push(Seq::Lis(id, w));
            }
        }
    }
    use Task::*;
    for len in 1..=depth + 1 {
        for w in words(&[Spawn(0), Spawn(1), Spawn(2), Spawn(3), Spawn(4), Abort, DropHandle, Join, Finished, Wait], len) {
            let mut h = false;
            let mut n = 0;
            let ok = w.iter().all(|o| match o {
                Spawn(_) => { n += 1; !std::mem::replace(&mut h, true) && n == 1 }
                Abort | Join | Finished => h,
                DropHandle => std::mem::replace(&mut h, false),
                Wait => n > 0,
            });
            if ok {
                v.push(Seq::Task(w));
            }
        }
    }
    for len in 1..=depth {
        for w in words(&[0u64, 1, 2, 4], len) {
            v.push(Seq::Timers(w.clone()));
            v.push(Seq::Select(w));
        }
    }
    for a in 0..4 {
        for b in 0..4 {
            if a != b || a == 0 {
                v.push(Seq::Timeout(a, b));
            }
            for c in 0..4 {
                v.push(Seq::Reset(a, b, c));
            }
        }
    }
    for period in 1..3 {
        for behaviour in 0..3 {
            for w in words(&[0u64, 1, 3], depth.min(4)) {
                // delays given in halves, so that they do not coincide with ticks
                v.push(Seq::Interval(period, w, behaviour));
            }
        }
    }
    v
}

fn kind(e: &io::Error) -> String {
    format!("{:?}", e.kind())
}

fn data(r: Result<io::Result<usize>, tokio::time::error::Elapsed>) -> String {
    match r {
        Err(_) => "blocked".into(),
        Ok(Ok(n)) => n.to_string(),
        Ok(Err(e)) => kind(&e),
    }
}

fn host(id: usize) -> std::net::SocketAddr {
    let h = id + 10;
    ([127, 1 + (h >> 16) as u8, (h >> 8) as u8, h as u8], 7171).into()
}

struct Note(Arc<AtomicUsize>);
impl Drop for Note {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

fn units(since: Instant) -> u64 {
    // rounded to whole and half units
    ((since.elapsed().as_millis() as u64) * 2 + UNIT / 2) / UNIT
}

impl Seq {
    pub fn name(&self) -> String {
        format!("{self:?}")
    }

    pub async fn run(self) -> String {
        match self {
            Seq::Net(id, w) => net(id, w).await.unwrap_or_else(|e| format!("setup {e}")),
            Seq::Lis(id, w) => lis(id, w).await,
            Seq::Task(w) => task(w).await,
            Seq::Timers(w) => {
                let t = Instant::now();
                let out = Arc::new(Mutex::new(vec![]));
                let mut js = vec![];
                for (i, d) in w.into_iter().enumerate() {
                    let out = out.clone();
                    js.push(tokio::spawn(async move {
                        sleep(Duration::from_millis(d * UNIT)).await;
                        let u = units(t);
                        out.lock().unwrap().push((u, i));
                    }));
                }
                for j in js {
                    j.await.unwrap();
                }
                let mut v = out.lock().unwrap().clone();
                // the order of timers due at once is not specified
                v.sort();
                format!("{v:?}")
            }
            Seq::Timeout(a, b) => {
                let t = Instant::now();
                let f = async move {
                    if b > 0 {
                        sleep(Duration::from_millis(b * UNIT)).await
                    }
                };
                let r = timeout(Duration::from_millis(a * UNIT), f).await;
                format!("{} {}", r.is_ok(), units(t))
            }
            Seq::Select(w) => {
                let t = Instant::now();
                let mut fs: Vec<Pin<Box<tokio::time::Sleep>>> =
                    w.iter().map(|d| Box::pin(tokio::time::sleep_until(t + Duration::from_millis(d * UNIT)))).collect();
                let r = std::future::poll_fn(|cx| {
                    let ready: Vec<usize> = fs
                        .iter_mut()
                        .enumerate()
                        .filter_map(|(i, f)| f.as_mut().poll(cx).is_ready().then_some(i))
                        .collect();
                    match ready.is_empty() {
                        true => std::task::Poll::Pending,
                        false => std::task::Poll::Ready(ready.len()),
                    }
                })
                .await;
                format!("{} {} {:?}", r > 0, units(t), fs.iter().map(|f| f.is_elapsed()).collect::<Vec<_>>())
            }
            Seq::Interval(p, w, b) => {
                let t = Instant::now();
                let mut i = tokio::time::interval(Duration::from_millis(p * UNIT));
                i.set_missed_tick_behavior(match b {
                    0 => tokio::time::MissedTickBehavior::Burst,
                    1 => tokio::time::MissedTickBehavior::Delay,
                    _ => tokio::time::MissedTickBehavior::Skip,
                });
                let mut v = vec![];
                for d in w {
                    i.tick().await;
                    v.push(units(t));
                    if d > 0 {
                        sleep(Duration::from_millis(d * UNIT / 2)).await;
                    }
                }
                i.tick().await;
                v.push(units(t));
                format!("{v:?}")
            }
            Seq::Reset(a, b, c) => {
                let t = Instant::now();
                let mut s = Box::pin(sleep(Duration::from_millis(a * UNIT)));
                let _ = timeout(Duration::from_millis(b * UNIT + UNIT / 2), s.as_mut()).await;
                let e = s.is_elapsed();
                s.as_mut().reset(Instant::now() + Duration::from_millis(c * UNIT));
                s.await;
                format!("{e} {}", units(t))
            }
        }
    }
}

async fn net(id: usize, w: Vec<Net>) -> io::Result<String> {
    let l = TcpListener::bind(host(id)).await?;
    let a = TcpStream::connect(host(id)).await?;
    let (b, _) = l.accept().await?;
    let (ar, aw) = a.into_split();
    let (br, bw) = b.into_split();
    let mut rd = [Some(ar), Some(br)];
    let mut wr = [Some(aw), Some(bw)];
    let mut out = vec![];
    for o in w {
        match o {
            Net::W(s) => out.push(data(timeout(PAUSE, wr[s].as_mut().unwrap().write(b"x")).await)),
            Net::R(s) => {
                let mut buf = [0; 16];
                out.push(data(timeout(PAUSE, rd[s].as_mut().unwrap().read(&mut buf)).await))
            }
            Net::S(s) => {
                // (the result of shutting down a connection that was reset differs
                // between systems)
                let _ = wr[s].as_mut().unwrap().shutdown().await;
            }
            Net::Dw(s) => wr[s] = None,
            Net::Dr(s) => rd[s] = None,
            Net::D(s) => {
                wr[s] = None;
                rd[s] = None;
            }
        }
        sleep(PAUSE).await;
    }
    Ok(out.join(" "))
}

async fn lis(id: usize, w: Vec<Lis>) -> String {
    let mut l = None;
    let mut c: Option<TcpStream> = None;
    let mut s = None;
    let mut out = vec![];
    for o in w {
        match o {
            Lis::Bind => match TcpListener::bind(host(id)).await {
                Ok(x) => {
                    out.push("bound".to_string());
                    l = Some(x)
                }
                Err(e) => out.push(kind(&e)),
            },
            Lis::Unbind => l = None,
            Lis::Connect => match TcpStream::connect(host(id)).await {
                Ok(x) => {
                    out.push("connected".into());
                    c = Some(x)
                }
                Err(e) => out.push(kind(&e)),
            },
            Lis::Accept => {
                let Some(l) = l.as_ref() else { continue };
                match timeout(PAUSE, l.accept()).await {
                    Err(_) => out.push("none".into()),
                    Ok(Ok((x, _))) => {
                        out.push("accepted".into());
                        s = Some(x)
                    }
                    Ok(Err(e)) => out.push(kind(&e)),
                }
            }
            Lis::ReadClient => {
                let Some(c) = c.as_mut() else { continue };
                let mut buf = [0; 16];
                out.push(data(timeout(PAUSE, c.read(&mut buf)).await))
            }
            Lis::WriteClient => {
                let Some(c) = c.as_mut() else { continue };
                out.push(data(timeout(PAUSE, c.write(b"x")).await))
            }
            Lis::DropClient => c = None,
            Lis::DropServer => s = None,
        }
        sleep(PAUSE).await;
    }
    drop(s);
    out.join(" ")
}

async fn task(w: Vec<Task>) -> String {
    let notes = Arc::new(AtomicUsize::new(0));
    let mut h: Option<tokio::task::JoinHandle<usize>> = None;
    let mut joined = false;
    let mut out = vec![];
    for o in w {
        match o {
            Task::Spawn(k) => {
                let n = Note(notes.clone());
                h = Some(tokio::spawn(async move {
                    let _n = n;
                    match k {
                        0 => 7,
                        2 => panic!("task"),
                        3 => {
                            sleep(PAUSE * 3 / 2).await;
                            8
                        }
                        _ => std::future::pending().await,
                    }
                }))
            }
            Task::Abort => h.as_ref().unwrap().abort(),
            Task::DropHandle => h = None,
            Task::Join => {
                if joined {
                    continue; // polling a handle again after its end is a mistake
                }
                out.push(match timeout(PAUSE, h.as_mut().unwrap()).await {
                    Err(_) => "running".into(),
                    Ok(r) => {
                        joined = true;
                        match r {
                            Ok(x) => x.to_string(),
                            Err(e) => format!("cancelled={} panic={}", e.is_cancelled(), e.is_panic()),
                        }
                    }
                })
            }
            Task::Finished => {
                sleep(PAUSE).await;
            }
            Task::Wait => sleep(PAUSE * 2).await,
        }
        // (what a running task has done by now depends on the schedule)
        if matches!(o, Task::Wait | Task::Finished) {
            out.push(format!("ended {}", notes.load(Ordering::SeqCst)));
        }
    }
    out.join(" ")
}
