//! C13: the handshake comes first and is verified on both sides.

use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame};
use mccore::explore::{Bounds, Case};
use std::time::Duration;
use tokio::net::mc;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "all frame types, many or all versions, ids and header sets as first frame, in both directions, everything pipelined behind it, every segmentation of the stream, delayed and repeated answers, schedules of concurrent first calls; a violation is a call sent before a valid init response arrived, a call served without a valid init request before it, a wrong or missing init response, or a call over a refused connection that does not fail",
    }
}

fn versions(t: Tier) -> Vec<u16> {
    if t.thorough() {
        (0..=u16::MAX).collect()
    } else {
        let mut v: Vec<u16> = (0..=260).collect();
        for b in 0..16 {
            for d in [-1i32, 0, 1, 2] {
                v.push(((1i32 << b) + d) as u16);
                v.push(((2i32 << b) + d) as u16);
            }
        }
        v.push(u16::MAX);
        v.sort();
        v.dedup();
        v
    }
}

const IDS: [u32; 6] = [0, 1, 2, 0x0001_0000, 0x7fff_ffff, 0xffff_fffe];

fn header_sets() -> Vec<Vec<(String, String)>> {
    let s = |a: &str, b: &str| (a.to_string(), b.to_string());
    vec![
        vec![],
        wire::INIT_HEADERS.iter().map(|(a, b)| s(a, b)).collect(),
        vec![s("", ""), s("tchannel_language", ""), s("x", "é")],
        (0..300).map(|i| (format!("k{i}"), "v".repeat(i))).collect(),
    ]
}

fn init(ty: u8, id: u32, version: u16, h: &[(String, String)]) -> Frame {
    let h: Vec<(&str, &str)> = h.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    Frame::new(ty, id, wire::init_payload(version, &h))
}

/// A payload as some frame type has it.
fn payload(k: usize) -> Vec<u8> {
    match k {
        0 => wire::init_payload(2, &wire::INIT_HEADERS),
        1 => wire::init_payload(1, &wire::INIT_HEADERS),
        2 => vec![],
        3 => wire::error_payload(3, "busy"),
        4 => wire::simple_request(1, "svc", "e", "h", b"b").payload,
        _ => wire::simple_response(1, "e", "h", b"b").payload,
    }
}

/// Number of handler invocations.
async fn counting_server(c: Cfg) -> Res<(tchannel_rs::TChannel, Num)> {
    let (s, sub) = server(c).await?;
    let n = Num::new();
    let n2 = n.clone();
    register_sync(&sub, "e", move |r| {
        n2.add(1);
        Ok(echo_reply("t", &r))
    })
    .await?;
    Ok((s, n))
}

/// What a peer gets until the server is done with what was sent.
async fn answers(p: &mut Peer) -> Res<Vec<Frame>> {
    settle().await;
    let mut v = vec![];
    loop {
        match tokio::time::timeout(Duration::from_millis(1), p.recv()).await {
            Ok(Ok(Some(f))) => v.push(f),
            Ok(Ok(None)) | Err(_) => return Ok(v),
            Ok(Err(e)) => return Err(e),
        }
    }
}

fn check_accepted(out: &[Frame], id: u32, calls: &[u32]) -> Res {
    ensure!(!out.is_empty(), "init request of version 2 is not answered");
    ensure!(out[0].ty == wire::INIT_RES && out[0].id == id, "init request {id} answered by {:#x} {}", out[0].ty, out[0].id);
    let i = wire::parse_init(&out[0].payload)?;
    ensure!(i.version == 2, "init response with version {}", i.version);
    let mut got: Vec<u32> = out[1..].iter().filter(|f| f.ty == wire::CALL_RES).map(|f| f.id).collect();
    got.sort();
    let mut want = calls.to_vec();
    want.sort();
    ensure!(got == want, "calls {want:?} behind the handshake, responses {got:?}");
    Ok(())
}

fn check_refused(out: &[Frame], handled: i64) -> Res {
    ensure!(handled == 0, "a call was served without handshake");
    for f in out {
        ensure!(f.ty != wire::CALL_RES, "a call was answered without handshake");
        ensure!(f.ty != wire::INIT_RES, "handshake accepted although it was none");
    }
    Ok(())
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // ---- server
    v.push(case("server: version", Bounds::none(), move || async move {
        let (_s, n) = counting_server(cfg()).await?;
        let vs = versions(t);
        let version = vs[free(vs.len().min(65535), "version")];
        let peer = peer_task(async move {
            let mut p = Peer::connect(addr(0)).await?;
            p.send(&init(wire::INIT_REQ, 3, version, &header_sets()[1])).await?;
            p.send(&wire::simple_request(5, "svc", "e", "h", b"b")).await?;
            let out = answers(&mut p).await?;
            if version == 2 {
                check_accepted(&out, 3, &[5])?;
            } else {
                check_refused(&out, n.get())?;
            }
            Ok(format!("{version} {}", out.len()))
        });
        join("peer", peer).await
    }));
    v.push(case("server: ids and headers", Bounds::none(), move || async move {
        let (_s, _) = counting_server(cfg()).await?;
        let id = IDS[free(IDS.len(), "id")];
        let hs = header_sets();
        let h = free(hs.len(), "headers");
        let behind = free(3, "calls");
        let peer = peer_task(async move {
            let mut p = Peer::connect(addr(0)).await?;
            p.send(&init(wire::INIT_REQ, id, 2, &hs[h])).await?;
            let mut calls = vec![];
            for i in 0..behind {
                // one call uses the id of the init request
                let c = if i == 0 { id } else { 77 };
                calls.push(c);
                p.send(&wire::simple_request(c, "svc", "e", "h", b"b")).await?;
            }
            check_accepted(&answers(&mut p).await?, id, &calls)?;
            Ok(format!("{id} {h} {behind}"))
        });
        join("peer", peer).await
    }));
    v.push(case("server: other first frames", Bounds::none(), move || async move {
        let (_s, n) = counting_server(cfg()).await?;
        let ty = wire::ALL_TYPES[free(wire::ALL_TYPES.len(), "type")];
        let k = free(6, "payload");
        let id = IDS[free(3, "id")];
        // what follows: call; handshake and call; ping and call
        let then = free(3, "then");
        let peer = peer_task(async move {
            let mut p = Peer::connect(addr(0)).await?;
            p.send(&Frame::new(ty, id, payload(k))).await?;
            if then == 1 {
                let _ = p.send(&wire::init_req(8)).await;
            }
            if then == 2 {
                let _ = p.send(&wire::ping_req(8)).await;
            }
            let _ = p.send(&wire::simple_request(9, "svc", "e", "h", b"b")).await;
            let out = answers(&mut p).await?;
            if ty == wire::INIT_REQ && k == 0 {
                check_accepted(&out, id, &[9])?;
            } else if ty == wire::INIT_REQ && wire::parse_init(&payload(k)).is_err() && wire::Rd(&payload(k)).u16() == Ok(2) {
                // malformed in another way: either
            } else {
                check_refused(&out, n.get())?;
            }
            Ok(format!("{ty:#x} {k} {then} {}", out.len()))
        });
        join("peer", peer).await
    }));
    // several frames before the handshake
    v.push(case("server: late handshake", Bounds::none(), move || async move {
        let (_s, n) = counting_server(cfg().buf(1)).await?;
        let len = 1 + free(t.pick(2, 3), "length");
        let kinds: Vec<usize> = (0..len).map(|_| free(wire::ALL_TYPES.len(), "type")).collect();
        let wait = free(2, "wait") == 1;
        let peer = peer_task(async move {
            let mut p = Peer::connect(addr(0)).await?;
            let mut accepted = None;
            for (i, k) in kinds.iter().enumerate() {
                let f = match wire::ALL_TYPES[*k] {
                    wire::INIT_REQ => wire::init_req(20 + i as u32),
                    wire::CALL_REQ => wire::simple_request(20 + i as u32, "svc", "e", "h", b"b"),
                    ty => Frame::new(ty, 20 + i as u32, payload(if ty == wire::INIT_RES { 0 } else { 3 })),
                };
                if i == 0 && f.ty == wire::INIT_REQ {
                    accepted = Some(20);
                }
                let _ = p.send(&f).await;
                if wait {
                    settle().await;
                }
            }
            let _ = p.send(&wire::init_req(50)).await;
            let _ = p.send(&wire::simple_request(60, "svc", "e", "h", b"b")).await;
            let out = answers(&mut p).await?;
            match accepted {
                None => check_refused(&out, n.get())?,
                Some(id) => {
                    ensure!(!out.is_empty() && out[0].ty == wire::INIT_RES && out[0].id == id, "no init response first");
                    ensure!(out.iter().any(|f| f.id == 60 && f.ty == wire::CALL_RES), "call not served");
                }
            }
            Ok(format!("{kinds:?} {wait}"))
        });
        join("peer", peer).await
    }));
    // every segmentation in three of handshake and pipelined calls
    v.push(case("server: segments", Bounds::none(), move || async move {
        let (_s, _) = counting_server(cfg().buf(1)).await?;
        let mut b = wire::init_req(3).encode();
        b.extend(wire::simple_request(5, "svc", "e", "h", b"b").encode());
        b.extend(wire::simple_request(3, "svc", "e", "h", b"b").encode());
        let x = free(b.len() + 1, "cut");
        let y = if t.thorough() { x + free(b.len() - x + 1, "cut") } else { (x + 7).min(b.len()) };
        let peer = peer_task(async move {
            let mut p = Peer::connect(addr(0)).await?;
            for s in [&b[..x], &b[x..y], &b[y..]] {
                p.send_bytes(s).await?;
                settle().await;
            }
            check_accepted(&answers(&mut p).await?, 3, &[3, 5])?;
            Ok(format!("{x} {y}"))
        });
        join("peer", peer).await
    }));
    // the init response is written before responses, in all schedules
    for buf in [1usize, 4] {
        for conns in [1usize, 2] {
            v.push(case(format!("server: schedules buf={buf} connections={conns}"), Bounds::sched(t.pick(2, 3)), move || async move {
                let (_s, _) = counting_server(cfg().buf(buf).tasks(0)).await?;
                explore_on();
                let mut hs = vec![];
                for c in 0..conns {
                    hs.push(peer_task(async move {
                        let mut p = Peer::connect(addr(0)).await?;
                        let id = 3 + c as u32;
                        p.send(&wire::init_req(id)).await?;
                        p.send(&wire::simple_request(5, "svc", "e", "h", b"b")).await?;
                        p.send(&wire::simple_request(6, "svc", "e", "h", b"b")).await?;
                        let mut out = vec![];
                        for _ in 0..3 {
                            out.push(p.expect("answers").await?);
                        }
                        check_accepted(&out, id, &[5, 6])
                    }));
                }
                for h in hs {
                    join("peer", h).await?;
                }
                Ok("ok".into())
            }));
        }
    }
    // a connection that does not shake hands delays nobody
    v.push(case("server: silent connection", Bounds::sched(t.pick(1, 2)), move || async move {
        let (_s, n) = counting_server(cfg()).await?;
        let peer = peer_task(async move {
            let mut silent = vec![];
            explore_on();
            for i in 0..3 {
                let mut p = Peer::connect(addr(0)).await?;
                p.send_bytes(&wire::init_req(1).encode()[..i * 8]).await?;
                silent.push(p);
            }
            let mut p = within(PROMPT, "handshake", Peer::client(addr(0))).await??;
            p.send(&wire::simple_request(5, "svc", "e", "h", b"b")).await?;
            within(PROMPT, "response", p.message("response")).await??;
            ensure!(n.get() == 1, "{} calls", n.get());
            // the silent ones go on
            for (i, mut p) in silent.into_iter().enumerate() {
                p.send_bytes(&wire::init_req(1).encode()[i * 8..]).await?;
                p.send(&wire::simple_request(5, "svc", "e", "h", b"b")).await?;
                let f = p.expect("init response").await?;
                ensure!(f.ty == wire::INIT_RES && f.id == 1, "{:#x}", f.ty);
                p.message("response").await?;
            }
            Ok("ok".to_string())
        });
        join("peer", peer).await
    }));

    // ---- client: raw peer with a chosen answer to the init request
    #[derive(Clone)]
    enum Answer {
        Frames(Vec<Frame>),
        Close,
        Reset,
        Silence,
    }
    /// Every connection gets the same answer; whatever else arrives is recorded.
    async fn refusing(l: Listener, a: Answer, seen: Record<u8>, relative: bool) -> Res {
        loop {
            let mut p = l.accept().await?;
            let (a, seen) = (a.clone(), seen.clone());
            peer_task(async move {
                let f = p.expect("init request").await?;
                if f.ty != wire::INIT_REQ || wire::parse_init(&f.payload)?.version != 2 {
                    seen.push(0);
                }
                match a {
                    Answer::Frames(fs) => {
                        for mut x in fs {
                            if relative {
                                x.id = f.id.wrapping_add(x.id);
                            }
                            let _ = p.send(&x).await;
                        }
                    }
                    Answer::Close => return Ok(()),
                    Answer::Reset => {
                        p.reset();
                        return Ok(());
                    }
                    Answer::Silence => (),
                }
                while let Some(f) = p.recv().await? {
                    seen.push(f.ty);
                }
                Ok::<(), String>(())
            });
        }
    }
    async fn refused(a: Answer, n: usize, relative: bool) -> Res {
        let l = Listener::bind(0).await?;
        let seen = Record::new();
        let _p = peer_task(refusing(l, a, seen.clone(), relative));
        let (_c, csub) = cfg().port(1).sub("svc").await?;
        let calls: Vec<Call> = (0..n).map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), b"b"), "t")).collect();
        for c in calls {
            c.fails().await?;
        }
        ensure!(mc::connections_to(addr(0)) > 0, "no connection was made");
        ensure!(seen.len() == 0, "frames {:?} on a connection without valid init response", seen.get());
        Ok(())
    }
    async fn accepted(fs: Vec<Frame>) -> Res {
        let l = Listener::bind(0).await?;
        let peer = peer_task(async move {
            let mut p = l.accept().await?;
            let f = p.expect("init request").await?;
            ensure!(f.ty == wire::INIT_REQ, "first frame {:#x}", f.ty);
            for mut x in fs {
                x.id = f.id.wrapping_add(x.id);
                p.send(&x).await?;
            }
            let (id, a) = p.message("request behind a valid handshake").await?;
            p.send_all(&echo_frames(id, &a, "t")?).await?;
            Ok(())
        });
        let (_c, csub) = cfg().port(1).sub("svc").await?;
        call_echo(&csub, addr(0), raw("e", "h", b"b"), "t").await?;
        join("peer", peer).await
    }

    v.push(case("client: version", Bounds::none(), move || async move {
        let vs = versions(t);
        let version = vs[free(vs.len().min(65535), "version")];
        let f = init(wire::INIT_RES, 0, version, &header_sets()[1]);
        if version == 2 {
            accepted(vec![f]).await?;
        } else {
            refused(Answer::Frames(vec![f]), 1, true).await?;
        }
        Ok(format!("{version}"))
    }));
    v.push(case("client: headers", Bounds::none(), || async {
        let hs = header_sets();
        let k = free(hs.len(), "headers");
        accepted(vec![init(wire::INIT_RES, 0, 2, &hs[k])]).await?;
        Ok(format!("{k}"))
    }));
    v.push(case("client: other answers", Bounds::none(), || async {
        let ty = wire::ALL_TYPES[free(wire::ALL_TYPES.len(), "type")];
        let k = free(6, "payload");
        let off = free(2, "id");
        let n = 1 + free(2, "calls");
        // a valid response behind it comes too late, if the first one was an answer
        let late = free(2, "late") == 1;
        let valid = ty == wire::INIT_RES && k == 0 && off == 0;
        let malformed = ty == wire::INIT_RES && k > 1;
        let mut fs = vec![Frame::new(ty, off as u32, payload(k))];
        if late {
            fs.push(wire::init_res(0));
        }
        if valid || (off == 1 && late) {
            accepted(fs).await?;
        } else if !malformed || payload(k).len() < 2 {
            refused(Answer::Frames(fs), n, true).await?;
        }
        Ok(format!("{ty:#x} {k} {off} {late}"))
    }));
    v.push(case("client: no answer", Bounds::none(), || async {
        let k = free(3, "end");
        let n = 1 + free(3, "calls");
        refused([Answer::Close, Answer::Reset, Answer::Silence][k].clone(), n, false).await?;
        Ok(format!("{k} {n}"))
    }));
    // nothing is sent before the answer has arrived completely, however long it takes
    v.push(case("client: delayed answer", Bounds::none(), move || async move {
        let l = Listener::bind(0).await?;
        let b = wire::init_res(0).encode();
        let at = free(b.len(), "bytes");
        let secs = [0u64, 1, 20][free(3, "delay")];
        let n = 1 + free(2, "calls");
        let peer = peer_task(async move {
            let mut p = l.accept().await?;
            let f = p.expect("init request").await?;
            let len = (f.payload.len() + wire::HEADER) as u64;
            let mut b = wire::init_res(f.id).encode();
            let rest = b.split_off(at);
            p.send_bytes(&b).await?;
            settle().await;
            tokio::time::sleep(Duration::from_secs(secs)).await;
            settle().await;
            let c = p.s.mc_index();
            ensure!(p.buf.is_empty() && mc::written(c, 0) == len, "{} bytes sent before the init response", mc::written(c, 0));
            p.send_bytes(&rest).await?;
            echo_peer(p, "t").await?;
            Ok(())
        });
        let (c, csub) = cfg().port(1).sub("svc").await?;
        let calls: Vec<Call> = (0..n).map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), b"b"), "t")).collect();
        for c in calls {
            c.echoed().await?;
        }
        drop((c, csub));
        join("peer", peer).await?;
        Ok(format!("{at} {secs} {n}"))
    }));
    // concurrent first calls: every connection begins with its own handshake
    for conns in [1u32, 2, 3] {
        for n in [1usize, 2, 3] {
            for test in [false, true] {
                let d = if n == 3 || test { t.pick(1, 2) } else { t.pick(2, 3) };
                v.push(case(format!("client: schedules conns={conns} calls={n} test={test}"), Bounds::sched(d), move || async move {
                    let l = Listener::bind(0).await?;
                    let bad: Record<String> = Record::new();
                    let b2 = bad.clone();
                    let _peer = peer_task(async move {
                        loop {
                            let mut p = l.accept().await?;
                            let bad = b2.clone();
                            peer_task(async move {
                                let f = p.expect("init request").await?;
                                if f.ty != wire::INIT_REQ || wire::parse_init(&f.payload).map(|i| i.version) != Ok(2) {
                                    bad.push(format!("first frame {:#x}", f.ty));
                                }
                                for _ in 0..3 {
                                    tokio::task::yield_now().await;
                                    let w = mc::written(p.s.mc_index(), 0);
                                    if w != (wire::HEADER + f.payload.len()) as u64 {
                                        bad.push(format!("{w} bytes before the init response"));
                                    }
                                }
                                p.send(&wire::init_res(f.id)).await?;
                                let mut col = wire::Collector::default();
                                while let Some(f) = p.recv().await? {
                                    match f.ty {
                                        wire::PING_REQ => p.send(&wire::ping_res(f.id)).await?,
                                        wire::INIT_REQ => bad.push("second init request".into()),
                                        _ => {
                                            if let Some((id, a)) = col.feed(&f)? {
                                                p.send_all(&echo_frames(id, &a, "t")?).await?;
                                            }
                                        }
                                    }
                                }
                                Ok::<(), String>(())
                            });
                        }
                        #[allow(unreachable_code)]
                        Ok::<(), String>(())
                    });
                    let mut c = cfg().conns(conns).port(1);
                    if test {
                        c = c.test();
                    }
                    let (_c, csub) = c.sub("svc").await?;
                    explore_on();
                    let calls: Vec<Call> =
                        (0..n).map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), b"b"), "t")).collect();
                    for c in calls {
                        c.echoed().await?;
                    }
                    if test {
                        call_echo(&csub, addr(0), raw("e", "again", b"b"), "t").await?;
                    }
                    explore_off();
                    ensure!(bad.len() == 0, "{:?}", bad.get());
                    Ok("ok".into())
                }));
            }
        }
    }
    v
}
