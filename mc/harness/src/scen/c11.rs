//! C11: no bytes from a client can hurt the server.

use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame, ReqHead};
use mccore::explore::{Bounds, Case};
use std::sync::Arc;
use tchannel_rs::{SubChannel, TChannel};
use tokio::io::AsyncWriteExt;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "all 255 other values of every byte of handshake, call, continuation, ping and error frames; pairs of mutations in length fields; every truncation; all sequences of frames of all types, well formed or not, before, during and after the handshake; many bad connections; peers that stay silent or do not read; a violation is a panic, a success answer that does not follow from the bytes, a call on another connection (open before, with a handler running, or new) that fails, or a connection that neither closes nor serves after malformed content",
    }
}

/// Ends of a bad connection.
const ENDS: [&str; 4] = ["close", "reset", "half", "silence"];

struct World {
    _s: TChannel,
    sub: Arc<SubChannel>,
    gate: Gate,
    /// connected, a request at the gate
    before: Peer,
}

/// Server under attack: "e" echoes, "gate" waits.
async fn world(c: Cfg) -> Res<World> {
    let (s, sub) = server(c).await?;
    echo(&sub, "e", "t").await?;
    let gate = Gate::new();
    gated_echo(&sub, "gate", "g", &gate).await?;
    let mut before = Peer::client(addr(0)).await?;
    before.send(&wire::simple_request(7, "svc", "gate", "h", b"before")).await?;
    settle().await;
    ensure!(gate.entered() == 1, "handler did not start");
    Ok(World { _s: s, sub, gate, before })
}

impl World {
    /// Present and new connections are served.
    async fn probe(mut self) -> Res {
        settle().await;
        self.before.send(&wire::simple_request(8, "svc", "e", "h", b"again")).await?;
        self.gate.open();
        let mut got = vec![];
        for _ in 0..2 {
            let (id, a) = self.before.message("response on a present connection").await?;
            got.push((id, a.args[2].clone()));
        }
        got.sort();
        ensure!(got == [(7, b"beforeg".to_vec()), (8, b"againt".to_vec())], "responses {got:?}");
        let mut p = Peer::client(addr(0)).await.map_err(|e| format!("new connection: {e}"))?;
        p.send(&wire::simple_request(7, "svc", "e", "h", b"new")).await?;
        let (id, a) = p.message("response on a new connection").await?;
        ensure!(id == 7 && a.args[2] == b"newt", "response {id} {:?}", a.args);
        // handlers can still be registered and found
        echo(&self.sub, "later", "l").await?;
        p.send(&wire::simple_request(9, "svc", "later", "h", b"x")).await?;
        let (_, a) = p.message("response of a new handler").await?;
        ensure!(a.args[2] == b"xl", "response {:?}", a.args);
        Ok(())
    }
}

async fn end(mut p: Peer, how: &str, keep: &mut Vec<Peer>) -> Res {
    match how {
        "close" => drop(p),
        "reset" => p.reset(),
        "half" => {
            let _ = p.s.shutdown().await;
            keep.push(p)
        }
        _ => keep.push(p),
    }
    Ok(())
}

/// Every frame the server sent so far.
async fn drain(p: &mut Peer) -> Res<Vec<Frame>> {
    let mut v = vec![];
    loop {
        match tokio::time::timeout(std::time::Duration::from_millis(1), p.recv()).await {
            Ok(Ok(Some(f))) => v.push(f),
            Ok(Ok(None)) => return Ok(v),
            Ok(Err(e)) => return Err(e),
            Err(_) => return Ok(v),
        }
    }
}

/// Sends `bytes` behind a good handshake (or instead of one), checks what comes back,
/// and that the connection is then closed or served if its frames can be told apart.
async fn attack(w: World, handshake: bool, bytes: Vec<u8>, how: &'static str) -> Res<String> {
    let mut keep = vec![];
    let mut p = Peer::connect(addr(0)).await?;
    if handshake {
        p.client_handshake().await?;
    }
    let frames = wire::frames_leniently(&bytes);
    let whole = frames.iter().map(|f| f.payload.len() + wire::HEADER).sum::<usize>() == bytes.len();
    let _ = p.send_bytes(&bytes).await;
    settle().await;
    let out = drain(&mut p).await?;
    let mut said = vec![];
    for id in out.iter().map(|f| f.id).collect::<std::collections::BTreeSet<_>>() {
        let Some((head, args)) = wire::assemble_leniently(&out, id, wire::CALL_RES) else { continue };
        said.push(id);
        let wire::Head::Res { code: 0, .. } = head else { continue };
        let req = wire::assemble_leniently(&frames, id, wire::CALL_REQ);
        let want = req.and_then(|(_, a)| message_of_args(&a)).map(|m| echo_reply("t", &m));
        let got = message_of_args(&args);
        ensure!(
            matches!((&want, &got), (Some(a), Some(b)) if same(a, b)),
            "success response {id} {args:?} to malformed or other request"
        );
    }
    if whole && how == "silence" && handshake {
        // closed, or served
        if p.send(&wire::simple_request(0x51525354, "svc", "e", "h", b"follow")).await.is_ok() {
            loop {
                match within(PROMPT, "connection neither closed nor served", p.recv()).await?? {
                    Some(f) if f.id == 0x51525354 => break,
                    Some(_) => (),
                    None => break,
                }
            }
        }
    }
    end(p, how, &mut keep).await?;
    w.probe().await?;
    drop(keep);
    Ok(format!("{said:?} {}", out.len()))
}

fn templates() -> Vec<(&'static str, Vec<Frame>)> {
    let two = wire::request(
        7,
        &ReqHead::new("svc", "raw"),
        &[vec![b"e".to_vec(), b"h".to_vec(), b"bo".to_vec()], vec![b"dy".to_vec()]],
    );
    vec![
        ("call", vec![wire::simple_request(7, "svc", "e", "h", b"body")]),
        ("two frames", two),
        ("ping", vec![wire::ping_req(7)]),
        ("error", vec![wire::error(7, 3, "no")]),
        ("cancel", vec![wire::cancel(7)]),
    ]
}

/// Frames of all types, well formed and not.
fn alphabet() -> Vec<Frame> {
    let mut v = vec![
        wire::init_req(7),
        wire::init_res(7),
        wire::simple_request(7, "svc", "e", "h", b"b"),
        wire::simple_response(7, "e", "h", b"b"),
        wire::request(7, &ReqHead::new("svc", "raw"), &[vec![b"e".to_vec()], vec![b"h".to_vec()]]).remove(0),
        wire::request(7, &ReqHead::new("svc", "raw"), &[vec![b"e".to_vec()], vec![vec![], b"h".to_vec()]]).remove(1),
        wire::cancel(7),
        wire::claim(7),
        wire::ping_req(7),
        wire::ping_res(7),
        wire::error(7, 3, "no"),
        wire::error(u32::MAX, 0xff, "fatal"),
    ];
    // no payload at all, and the largest there is
    v.push(Frame::new(wire::CALL_REQ, 7, vec![]));
    v.push(Frame::new(wire::CALL_REQ, 8, vec![0xff; wire::MAX_FRAME - wire::HEADER]));
    v.push(Frame::new(wire::CALL_REQ_CONT, 7, vec![0, 0]));
    v
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // one mutated byte
    for (name, frames) in templates() {
        for how in ["silence", "close"] {
            let frames = frames.clone();
            v.push(case(format!("mutated {name} then {how}"), Bounds::none(), move || {
                let frames = frames.clone();
                async move {
                    let w = world(cfg().buf(2).tasks(2)).await?;
                    let mut b: Vec<u8> = frames.iter().flat_map(|f| f.encode()).collect();
                    let (at, _) = free_mutation(&mut b);
                    join("attack", peer_task(attack(w, true, b, how))).await.map(|r| format!("{at} {r}"))
                }
            }));
        }
    }
    for how in ["silence", "close"] {
        v.push(case(format!("mutated init then {how}"), Bounds::none(), move || async move {
            let w = world(cfg()).await?;
            let mut b = wire::init_req(7).encode();
            let (at, _) = free_mutation(&mut b);
            b.extend(wire::simple_request(9, "svc", "e", "h", b"body").encode());
            join("attack", peer_task(attack(w, false, b, how))).await.map(|r| format!("{at} {r}"))
        }));
    }
    // two mutations of bytes that determine lengths, counts and types
    {
        let b0 = wire::simple_request(7, "svc", "e", "h", b"body").encode();
        let body = b0.len();
        // size, type, flags, service length, header count, first key, checksum, argument lengths
        let at: Vec<usize> = vec![0, 1, 2, 16, 46, 50, 51, 54, body - 14, body - 13, body - 12, body - 10, body - 9, body - 7, body - 6, body - 5];
        let vals: Vec<u8> = vec![0, 1, 2, 3, 4, 0x13, 0x7f, 0x80, 0xfe, 0xff];
        v.push(case("two mutations", Bounds::none(), move || {
            let (at, vals, mut b) = (at.clone(), vals.clone(), b0.clone());
            async move {
                let w = world(cfg()).await?;
                let i = free(at.len(), "first");
                let j = free(at.len(), "second");
                b[at[i]] = vals[free(vals.len(), "value")];
                b[at[j]] = vals[free(vals.len(), "value")];
                let how = ["silence", "close"][free(t.pick(1, 2), "end")];
                join("attack", peer_task(attack(w, true, b, how))).await.map(|r| format!("{i} {j} {r}"))
            }
        }));
    }
    // truncated
    for how in ENDS {
        v.push(case(format!("truncated {how}"), Bounds::none(), move || async move {
            let w = world(cfg().buf(1)).await?;
            let mut b = wire::init_req(1).encode();
            b.extend(templates().iter().flat_map(|t| t.1.clone()).flat_map(|f| f.encode()));
            let n = free(b.len() + 1, "bytes");
            b.truncate(n);
            join("attack", peer_task(attack(w, false, b, how))).await.map(|r| format!("{n} {r}"))
        }));
        v.push(case(format!("payload truncated inside the frame {how}"), Bounds::none(), move || async move {
            let w = world(cfg().buf(1)).await?;
            let ts = templates();
            let (_, fs) = &ts[free(ts.len(), "template")];
            let i = free(fs.len(), "frame");
            let mut fs = fs.clone();
            let n = free(fs[i].payload.len() + 1, "payload");
            fs[i].payload.truncate(n);
            let b: Vec<u8> = fs.iter().flat_map(|f| f.encode()).collect();
            join("attack", peer_task(attack(w, true, b, how))).await.map(|r| format!("{n} {r}"))
        }));
        v.push(case(format!("init payload truncated inside the frame {how}"), Bounds::none(), move || async move {
            let w = world(cfg().buf(1)).await?;
            let mut f = wire::init_req(1);
            let n = free(f.payload.len() + 1, "payload");
            f.payload.truncate(n);
            join("attack", peer_task(attack(w, false, f.encode(), how))).await.map(|r| format!("{n} {r}"))
        }));
    }
    // payloads of a few arbitrary bytes
    for ty in wire::ALL_TYPES {
        v.push(case(format!("short payloads of type {ty:#x}"), Bounds::none(), move || async move {
            let w = world(cfg()).await?;
            let vals = [0u8, 1, 2, 0x80, 0xff];
            let n = free(t.pick(4, 6), "length");
            let p: Vec<u8> = (0..n).map(|_| vals[free(vals.len(), "byte")]).collect();
            let handshake = free(2, "handshake") == 1;
            let b = Frame::new(ty, 7, p.clone()).encode();
            join("attack", peer_task(attack(w, handshake, b, "silence"))).await.map(|r| format!("{p:?} {r}"))
        }));
    }
    // sequences of frames
    for handshake in [false, true] {
        for buf in [1usize, 4] {
            let n = if buf == 1 { t.pick(3, 4) } else { 2 };
            v.push(case(format!("sequences handshake={handshake} buf={buf} length={n}"), Bounds::none(), move || async move {
                let w = world(cfg().buf(buf).tasks(1)).await?;
                let a = alphabet();
                let s: Vec<usize> = (0..n).map(|_| free(a.len(), "frame")).collect();
                let b: Vec<u8> = s.iter().flat_map(|i| a[*i].encode()).collect();
                let mut keep = vec![];
                let s2 = s.clone();
                let p = peer_task(async move {
                    let mut p = Peer::connect(addr(0)).await?;
                    if handshake {
                        p.client_handshake().await?;
                    }
                    // nothing is read: it must not matter to others
                    let _ = p.send_bytes(&b).await;
                    settle().await;
                    end(p, ENDS[s2[0] % 4], &mut keep).await?;
                    w.probe().await?;
                    drop(keep);
                    Ok(())
                });
                join("attack", p).await?;
                Ok(format!("{s:?}"))
            }));
        }
    }
    // many bad connections of one kind, then good ones
    let many = t.pick(40usize, 300);
    v.push(case("many bad connections", Bounds::none(), move || async move {
        let w = world(cfg().tasks(1)).await?;
        let kind = free(9, "kind");
        let how = ENDS[free(4, "end")];
        let p = peer_task(async move {
            let mut keep = vec![];
            for i in 0..many {
                let mut p = Peer::connect(addr(0)).await?;
                if kind >= 3 {
                    p.client_handshake().await?;
                }
                match kind {
                    0 => (),
                    1 => p.send_bytes(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").await?,
                    2 => p.send(&Frame::new(wire::INIT_REQ, 1, vec![0, 3, 0, 0])).await?,
                    3 => p.send_bytes(&[0, 3, 1, 1]).await?,
                    4 => p.send(&Frame::new(wire::CALL_REQ, 1, vec![9])).await?,
                    5 => p.send(&alphabet()[4]).await?,
                    6 => p.send(&wire::simple_request(7, "nope", "e", "h", b"")).await?,
                    7 => p.send(&wire::simple_request(7, "svc", "nope", "h", b"")).await?,
                    _ => p.send(&wire::simple_request(7, "svc", "e", "h", b"")).await?,
                }
                if i % 3 == 0 {
                    settle().await;
                }
                end(p, how, &mut keep).await?;
            }
            w.probe().await?;
            drop(keep);
            Ok(format!("{kind} {how}"))
        });
        join("attack", p).await
    })
    .opts(|o| o.max_steps = 30_000_000));
    // many bad requests on one connection
    v.push(case("many bad requests", Bounds::none(), move || async move {
        let w = world(cfg().tasks(2)).await?;
        let kind = free(5, "kind");
        let p = peer_task(async move {
            let mut p = Peer::client(addr(0)).await?;
            let n = 3 * many as u32;
            for i in 0..n {
                let id = 100 + i;
                p.send(&match kind {
                    0 => Frame::new(wire::CALL_REQ, id, vec![9]),
                    1 => wire::simple_request(id, "nope", "e", "h", b""),
                    2 => wire::simple_request(id, "svc", "nope", "h", b""),
                    3 => Frame::new(wire::CALL_REQ, id, vec![]),
                    _ => {
                        let mut f = wire::simple_request(id, "svc", "e", "h", b"");
                        f.payload.pop();
                        f
                    }
                })
                .await?;
                match p.recv().await? {
                    Some(f) => ensure!(f.id == id && f.ty == wire::ERROR, "answer {:#x} {} to bad request {id}", f.ty, f.id),
                    None => return Err(format!("connection ended by bad request {i}")),
                }
            }
            p.send(&wire::simple_request(7, "svc", "e", "h", b"x")).await?;
            let (_, a) = p.message("response after many bad requests").await?;
            ensure!(a.args[2] == b"xt", "{:?}", a.args);
            w.probe().await?;
            Ok(format!("{kind}"))
        });
        join("attack", p).await
    })
    .opts(|o| o.max_steps = 30_000_000));
    // a peer that does not read its responses
    for buf in [1usize, 4] {
        for tasks in [0usize, 1] {
            v.push(case(format!("peer does not read buf={buf} tasks={tasks}"), Bounds::sched(t.pick(1, 2)), move || async move {
                tokio::net::mc::set_capacity(4096);
                let w = world(cfg().buf(buf).tasks(tasks)).await?;
                register_sync(&w.sub, "big", |r| Ok(raw(r.endpoint(), "h", &[1; 100_000]))).await?;
                let p = peer_task(async move {
                    let mut keep = vec![];
                    explore_on();
                    for _ in 0..2 {
                        let mut p = Peer::client(addr(0)).await?;
                        for i in 0..4 {
                            p.send(&wire::simple_request(i, "svc", "big", "h", b"")).await?;
                        }
                        keep.push(p);
                    }
                    w.probe().await?;
                    drop(keep);
                    Ok("ok".to_string())
                });
                join("attack", p).await
            }));
        }
    }
    // attacks in all schedules
    for k in 0..4usize {
        v.push(case(format!("attack schedules {k}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let w = world(cfg().buf(1).tasks(1)).await?;
            let p = peer_task(async move {
                let mut keep = vec![];
                let mut p = Peer::client(addr(0)).await?;
                explore_on();
                let f = match k {
                    0 => wire::simple_request(7, "svc", "e", "h", b"").encode(),
                    1 => Frame::new(wire::CALL_REQ, 7, vec![9]).encode(),
                    2 => vec![0, 3, 9, 9],
                    _ => alphabet()[4].encode(),
                };
                p.send_bytes(&f).await?;
                end(p, ["reset", "close", "silence", "half"][k], &mut keep).await?;
                w.probe().await?;
                drop(keep);
                Ok("ok".to_string())
            });
            join("attack", p).await
        }));
    }
    v
}
