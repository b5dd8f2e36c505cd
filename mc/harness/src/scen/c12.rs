//! C12: no bytes from a server can hurt the client.

use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame, ResHead};
use mccore::explore::{Bounds, Case};
use std::sync::Arc;
use tokio::io::AsyncWriteExt;
use tokio::net::mc;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "all 255 other values of every byte of init, call response, continuation, error and ping response frames; pairs of mutations in length fields; every truncation with every kind of end; all sequences of frames of all types as an answer; a violation is a panic, a call that does not return once its connection ends, a result that does not follow from the bytes, an error for a valid response, or a call to this or another peer that is disturbed later",
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    Close,
    Reset,
    /// stays open
    Open,
}
const ENDS: [End; 3] = [End::Close, End::Reset, End::Open];

/// What the first connection does with its init request / first call.
#[derive(Clone)]
enum Attack {
    Init(Vec<u8>),
    /// built from the id of the call
    Answer(Arc<dyn Fn(u32) -> Vec<u8> + Send + Sync>),
    /// answer to the ping of a client that tests its connections
    Ping(Arc<dyn Fn(u32) -> Vec<u8> + Send + Sync>),
}

/// First connection: attacked; the following ones serve.
async fn bad_peer(l: Listener, a: Attack, end: End, sent: Record<(u32, Vec<u8>)>) -> Res {
    let mut p = l.accept().await?;
    match &a {
        Attack::Init(b) => {
            let f = p.expect("init").await?;
            sent.push((f.id, vec![]));
            p.send_bytes(b).await?;
        }
        Attack::Answer(b) => {
            p.server_handshake().await?;
            let (id, _) = p.message("request").await?;
            let b = b(id);
            sent.push((id, b.clone()));
            p.send_bytes(&b).await?;
        }
        Attack::Ping(b) => {
            p.server_handshake().await?;
            // a new connection is not tested
            let (id, a) = p.message("request").await?;
            p.send_all(&echo_frames(id, &a, "t")?).await?;
            let f = p.expect("ping").await?;
            ensure!(f.ty == wire::PING_REQ, "expected a ping, got {:#x}", f.ty);
            let b = b(f.id);
            sent.push((f.id, vec![]));
            p.send_bytes(&b).await?;
        }
    }
    let mut open = None;
    match end {
        End::Close => drop(p),
        End::Reset => {
            // let the bytes arrive
            settle().await;
            p.reset()
        }
        End::Open => open = Some(peer_task(echo_rest(p))),
    }
    loop {
        let mut p = l.accept().await?;
        if p.server_handshake().await.is_err() {
            continue;
        }
        peer_task(echo_peer(p, "t"));
        let _ = &open;
    }
}

/// Goes on as an echo server, if it is asked to.
async fn echo_rest(mut p: Peer) -> Res {
    let _ = echo_like(&mut p).await;
    let _ = p.s.shutdown().await;
    std::future::pending::<()>().await;
    Ok(())
}

async fn echo_like(p: &mut Peer) -> Res {
    let mut col = wire::Collector::default();
    while let Some(f) = p.recv().await? {
        if f.ty == wire::PING_REQ {
            p.send(&wire::ping_res(f.id)).await?;
        } else if f.ty == wire::INIT_REQ {
            p.send(&wire::init_res(f.id)).await?;
        } else if let Some((id, a)) = col.feed(&f)? {
            p.send_all(&echo_frames(id, &a, "t")?).await?;
        }
    }
    Ok(())
}

async fn run(a: Attack, end: End, test: bool) -> Res<String> {
    let (_o, osub) = server(cfg().port(1)).await?;
    echo(&osub, "e", "o").await?;
    let l = Listener::bind(0).await?;
    let mut c = cfg().port(2).buf(2);
    if test {
        c = c.test();
    }
    let (_c, csub) = c.sub("svc").await?;
    // a call to another peer is in flight throughout
    let gate = Gate::new();
    gated_echo(&osub, "gate", "g", &gate).await?;
    let other = spawn_call(&csub, addr(1), raw("gate", "h", b"other"), "g");
    settle().await;
    let sent: Record<(u32, Vec<u8>)> = Record::new();
    let peer = peer_task(bad_peer(l, a.clone(), end, sent.clone()));
    if let Attack::Ping(_) = a {
        call_echo(&csub, addr(0), raw("e", "h", b"first"), "t").await?;
    }
    let m = raw("e", "h", b"request");
    let good = echo_reply("t", &m);
    let mut call = spawn_call(&csub, addr(0), m, "t");
    let what = call.what.clone();
    // calls to others are served meanwhile
    call_echo(&csub, addr(1), raw("e", "h", b"meanwhile"), "o").await?;
    settle().await;
    settle().await; // the peer waits for the first one
    let out;
    match &a {
        Attack::Answer(_) => {
            let (id, b) = sent.get().first().cloned().ok_or("request did not arrive")?;
            let frames = wire::frames_leniently(&b);
            let lenient = wire::assemble_leniently(&frames, id, wire::CALL_RES);
            // valid by the letter: must be understood
            let strict = strict_response(&frames, id);
            let done = call.h.is_finished();
            if end != End::Open || strict.is_some() {
                ensure!(done, "{what}: does not return although its connection ended, or its response arrived");
            }
            if !done {
                call.h.abort();
                out = "pending".to_string();
            } else {
                let r = call.result().await?;
                let want = lenient.and_then(|(h, args)| match h {
                    wire::Head::Res { code, .. } => message_of_args(&args).map(|m| (code, m)),
                    _ => None,
                });
                match (&r, &want) {
                    (Ok(m), Some((0, w))) if same(m, w) => (),
                    (Err(tchannel_rs::errors::HandlerError::MessageError(m)), Some((1, w))) if same(m, w) => (),
                    (Ok(_) | Err(tchannel_rs::errors::HandlerError::MessageError(_)), _) => {
                        return Err(format!("{what}: {} does not follow from the answer", res_text(&r)));
                    }
                    _ => ensure!(strict.is_none(), "{what}: valid response, but {}", res_text(&r)),
                }
                out = if r.is_ok() { "ok".into() } else { "error".to_string() };
            }
        }
        Attack::Init(_) | Attack::Ping(_) => {
            // fails, or succeeds over another connection (or this one)
            match tokio::time::timeout(std::time::Duration::from_secs(EVENTUALLY), &mut call.h).await {
                Ok(r) => {
                    let r = r.map_err(|e| format!("{what}: task failed: {e}"))?;
                    if r.is_ok() {
                        expect_ok(&what, &r, &good)?;
                    } else {
                        expect_err(&what, &r)?;
                    }
                    out = if r.is_ok() { "ok".into() } else { "error".to_string() };
                }
                Err(_) => {
                    ensure!(end == End::Open, "{what}: does not return although its connection ended");
                    call.h.abort();
                    out = "pending".into();
                }
            }
        }
    }
    // later calls
    settle().await;
    settle().await;
    if end != End::Open {
        call_echo(&csub, addr(0), raw("e", "h", b"later"), "t").await.map_err(|e| format!("later: {e}"))?;
    }
    gate.open();
    other.echoed().await?;
    call_echo(&csub, addr(1), raw("e", "h", b"later"), "o").await?;
    if peer.is_finished() {
        // it never ends without an error
        join("peer", peer).await?;
    }
    Ok(out)
}

/// The response, if the frames are one valid response to this id and nothing else.
fn strict_response(frames: &[Frame], id: u32) -> Option<()> {
    let mine: Vec<&Frame> = frames.iter().filter(|f| f.id == id).collect();
    let mut a = wire::Assembly::begin(mine.first()?).ok()?;
    for f in &mine[1..] {
        a.add(f).ok()?;
    }
    let wire::Head::Res { headers, .. } = &a.head else { return None };
    if wire::get(headers, "as") != Some("raw") || a.args.len() != 3 || !a.complete {
        return None;
    }
    message_of_args(&a.args).map(|_| ())
}

fn response(id: u32) -> Vec<Frame> {
    vec![wire::simple_response(id, "e", "h", b"body")]
}
fn response2(id: u32) -> Vec<Frame> {
    wire::response(id, &ResHead::new(0, "raw"), &[vec![b"e".to_vec(), b"h".to_vec(), b"bo".to_vec()], vec![b"dy".to_vec()]])
}
fn message_error(id: u32) -> Vec<Frame> {
    wire::response(id, &ResHead::new(1, "raw"), &[vec![b"e".to_vec(), b"h".to_vec(), b"no".to_vec()]])
}
fn error(id: u32) -> Vec<Frame> {
    vec![wire::error(id, 3, "busy")]
}
fn bytes(f: Vec<Frame>) -> Vec<u8> {
    f.iter().flat_map(|f| f.encode()).collect()
}

type Template = (&'static str, fn(u32) -> Vec<Frame>);
const TEMPLATES: [Template; 4] =
    [("response", response), ("two frames", response2), ("message error", message_error), ("error", error)];

/// Frames of all types for a call `id`, well formed and not.
fn alphabet(id: u32) -> Vec<Frame> {
    vec![
        wire::init_req(id),
        wire::init_res(id),
        wire::simple_request(id, "svc", "e", "h", b"b"),
        wire::simple_response(id, "e", "h", b"b"),
        response2(id).remove(0),
        response2(id).remove(1),
        wire::cancel(id),
        wire::claim(id),
        wire::ping_req(id),
        wire::ping_res(id),
        wire::error(id, 3, "no"),
        wire::error(u32::MAX, 0xff, "fatal"),
        Frame::new(wire::CALL_RES, id, vec![]),
        Frame::new(wire::CALL_RES, id, vec![0xff; wire::MAX_FRAME - wire::HEADER]),
        Frame::new(wire::CALL_RES_CONT, id, vec![1, 0]),
    ]
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for (name, f) in TEMPLATES {
        for end in [End::Close, End::Open] {
            v.push(case(format!("mutated {name} then {end:?}"), Bounds::none(), move || async move {
                let n = bytes(f(1)).len();
                let (at, x) = (free(n, "position"), 1 + free(255, "value") as u8);
                let a = Attack::Answer(Arc::new(move |id| {
                    let mut b = bytes(f(id));
                    b[at] ^= x;
                    b
                }));
                run(a, end, false).await.map(|r| format!("{at} {r}"))
            }));
        }
        for end in ENDS {
            v.push(case(format!("truncated {name} then {end:?}"), Bounds::none(), move || async move {
                let n = free(bytes(f(1)).len() + 1, "bytes");
                let a = Attack::Answer(Arc::new(move |id| bytes(f(id))[..n].to_vec()));
                run(a, end, false).await.map(|r| format!("{n} {r}"))
            }));
            v.push(case(format!("{name} with truncated payload then {end:?}"), Bounds::none(), move || async move {
                let k = free(f(1).len(), "frame");
                let n = free(f(1)[k].payload.len() + 1, "bytes");
                let a = Attack::Answer(Arc::new(move |id| {
                    let mut f = f(id);
                    f[k].payload.truncate(n);
                    bytes(f)
                }));
                run(a, end, false).await.map(|r| format!("{k} {n} {r}"))
            }));
        }
    }
    {
        // positions of sizes, counts, types
        let b0 = bytes(response(1));
        let n = b0.len();
        let at: Vec<usize> = vec![0, 1, 2, 7, 16, 17, 43, 44, 47, 51, n - 12, n - 11, n - 9, n - 8, n - 6, n - 5];
        let vals: Vec<u8> = vec![0, 1, 2, 3, 4, 0x14, 0x7f, 0x80, 0xfe, 0xff];
        v.push(case("two mutations", Bounds::none(), move || {
            let (at, vals) = (at.clone(), vals.clone());
            async move {
                let (i, j) = (at[free(at.len(), "first")], at[free(at.len(), "second")]);
                let (x, y) = (vals[free(vals.len(), "value")], vals[free(vals.len(), "value")]);
                let a = Attack::Answer(Arc::new(move |id| {
                    let mut b = bytes(response(id));
                    b[i] = x;
                    b[j] = y;
                    b
                }));
                let end = [End::Close, End::Open][free(t.pick(1, 2), "end")];
                run(a, end, false).await.map(|r| format!("{i} {j} {r}"))
            }
        }));
    }
    for end in [End::Close, End::Open] {
        v.push(case(format!("mutated init response then {end:?}"), Bounds::none(), move || async move {
            let mut b = wire::init_res(0).encode();
            let (at, _) = free_mutation(&mut b);
            run(Attack::Init(b), end, false).await.map(|r| format!("{at} {r}"))
        }));
        v.push(case(format!("mutated ping response then {end:?}"), Bounds::none(), move || async move {
            let (at, x) = (free(16, "position"), 1 + free(255, "value") as u8);
            let a = Attack::Ping(Arc::new(move |id| {
                let mut b = wire::ping_res(id).encode();
                b[at] ^= x;
                b
            }));
            run(a, end, true).await.map(|r| format!("{at} {r}"))
        }));
    }
    for end in ENDS {
        v.push(case(format!("truncated init response then {end:?}"), Bounds::none(), move || async move {
            let b = wire::init_res(0).encode();
            let n = free(b.len() + 1, "bytes");
            run(Attack::Init(b[..n].to_vec()), end, false).await.map(|r| format!("{n} {r}"))
        }));
        v.push(case(format!("init response with truncated payload then {end:?}"), Bounds::none(), move || async move {
            let mut f = wire::init_res(0);
            let n = free(f.payload.len() + 1, "bytes");
            f.payload.truncate(n);
            run(Attack::Init(f.encode()), end, false).await.map(|r| format!("{n} {r}"))
        }));
        for k in ["init", "answer", "ping"] {
            let n = match k {
                "answer" => t.pick(3, 4),
                _ => t.pick(2, 3),
            };
            v.push(case(format!("frames as {k} then {end:?} length={n}"), Bounds::none(), move || async move {
                let s: Vec<usize> = (0..n).map(|_| free(alphabet(0).len(), "frame")).collect();
                let s2 = s.clone();
                let f = Arc::new(move |id| {
                    let a = alphabet(id);
                    bytes(s2.iter().map(|i| a[*i].clone()).collect())
                });
                let a = match k {
                    "init" => Attack::Init(f(0)),
                    "answer" => Attack::Answer(f),
                    _ => Attack::Ping(f),
                };
                run(a, end, k == "ping").await.map(|r| format!("{s:?} {r}"))
            }));
        }
    }
    // short payloads of all types
    for ty in wire::ALL_TYPES {
        for k in ["init", "answer", "ping"] {
            v.push(case(format!("short payloads of type {ty:#x} as {k}"), Bounds::none(), move || async move {
                let vals = [0u8, 1, 2, 0x80, 0xff];
                let n = free(t.pick(3, 5), "length");
                let p: Vec<u8> = (0..n).map(|_| vals[free(vals.len(), "byte")]).collect();
                let p2 = p.clone();
                let f = Arc::new(move |id| Frame::new(ty, id, p2.clone()).encode());
                let a = match k {
                    "init" => Attack::Init(f(0)),
                    "answer" => Attack::Answer(f),
                    _ => Attack::Ping(f),
                };
                run(a, End::Close, k == "ping").await.map(|r| format!("{p:?} {r}"))
            }));
        }
    }
    // in all schedules
    for (name, f) in TEMPLATES {
        for kind in 0..3usize {
            v.push(case(format!("bad {name} schedules {kind}"), Bounds::sched(t.pick(1, 2)), move || async move {
                let a = Attack::Answer(Arc::new(move |id| {
                    let mut b = bytes(f(id));
                    match kind {
                        0 => b[2] = 0x77,
                        1 => b[1] = 3,
                        _ => {
                            b[16] = 0xee;
                        }
                    }
                    b
                }));
                explore_on();
                run(a, End::Close, false).await
            }));
        }
    }
    // many bad connections in a row, then a good one
    v.push(case("many bad answers", Bounds::none(), move || async move {
        let l = Listener::bind(0).await?;
        let (_c, csub) = cfg().port(2).sub("svc").await?;
        let n = t.pick(40usize, 300);
        let kind = free(4, "kind");
        let bad = Num::new();
        let b2 = bad.clone();
        let _peer = peer_task(async move {
            loop {
                let mut p = l.serve().await?;
                while let Some(f) = p.recv().await? {
                    if b2.get() >= n as i64 {
                        let a = wire::Assembly::begin(&f)?;
                        p.send_all(&echo_frames(f.id, &a, "t")?).await?;
                        continue;
                    }
                    b2.add(1);
                    match kind {
                        0 => p.send_bytes(&[0, 3, 1, 1]).await?,
                        1 => p.send(&Frame::new(wire::CALL_RES, f.id, vec![9])).await?,
                        2 => p.send(&wire::error(f.id, 1, "x")).await?,
                        _ => p.send(&Frame::new(wire::CALL_RES_CONT, f.id, vec![])).await?,
                    }
                }
            }
            #[allow(unreachable_code)]
            Ok::<(), String>(())
        });
        for i in 0..n {
            let m = raw("e", &i.to_string(), b"");
            let r = within(PROMPT, "call", send(&csub, addr(0), m)).await?;
            expect_err("call", &r)?;
        }
        call_echo(&csub, addr(0), raw("e", "h", b"later"), "t").await?;
        if kind != 0 {
            ensure!(mc::connections_to(addr(0)) == 1, "malformed content of one response cost the connection");
        }
        Ok(format!("{kind}"))
    })
    .opts(|o| o.max_steps = 30_000_000));
    v
}
