//! C08: an unservable request is answered with an error and harms nobody else.

use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame, ReqHead};
use mccore::explore::{Bounds, Case};
use std::collections::BTreeMap;
use std::sync::Arc;
use tchannel_rs::errors::{HandlerError, TChannelError};
use tchannel_rs::messages::JsonMessage;
use tchannel_rs::SubChannel;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "every kind of unservable request (unknown service or endpoint, argument scheme missing, unknown or wrong, undecodable arguments or fields, unsupported checksum, every way a handler fails) in all interleavings of its frames with those of good requests, with handlers in flight, reused ids and schedules; a violation is anything but exactly one well-formed error under its id, or a good call that does not get its response",
    }
}

const KINDS: [&str; 32] = [
    "unknown service",
    "empty service",
    "service in other case",
    "unknown endpoint",
    "empty endpoint",
    "endpoint of other service",
    "missing scheme",
    "unknown scheme",
    "json for raw handler",
    "raw for json handler",
    "http for raw handler",
    "thrift for json handler",
    "sthrift for raw handler",
    "empty scheme",
    "scheme in other case",
    "scheme under other header",
    "endpoint in other case",
    "endpoint with a space",
    "endpoint not utf-8",
    "header not utf-8",
    "json header invalid",
    "json body invalid",
    "json body not an object",
    "checksum crc32",
    "unknown checksum",
    "unknown flags",
    "no arguments",
    "truncated argument",
    "four arguments in a frame",
    "general error",
    "internal error",
    "long error text",
];

/// Frames of an unservable request in `n` frames.
fn bad(kind: usize, id: u32, n: usize) -> Vec<Frame> {
    let mut head = ReqHead::new("svc", "raw");
    let (mut ep, mut h, mut b): (Vec<u8>, Vec<u8>, Vec<u8>) = (b"e".to_vec(), b"h".to_vec(), b"b".to_vec());
    let name = KINDS[kind];
    match name {
        "unknown service" => head.service = "nobody",
        "empty service" => head.service = "",
        "service in other case" => head.service = "SVC",
        "unknown endpoint" => ep = b"nothing".to_vec(),
        "empty endpoint" => ep = vec![],
        "endpoint of other service" => ep = b"foreign".to_vec(),
        "missing scheme" => head.headers = vec![("cn", "reference")],
        "unknown scheme" => head.headers = vec![("as", "smoke signals")],
        "json for raw handler" => {
            head.headers = vec![("as", "json")];
            h = b"{}".to_vec();
            b = b"{}".to_vec();
        }
        "raw for json handler" | "thrift for json handler" => {
            // would be valid JSON
            ep = b"j".to_vec();
            h = b"{}".to_vec();
            b = b"{}".to_vec();
            if name != "raw for json handler" {
                head.headers = vec![("as", "thrift")];
            }
        }
        "http for raw handler" => head.headers = vec![("as", "http")],
        "sthrift for raw handler" => head.headers = vec![("as", "sthrift")],
        "empty scheme" => head.headers = vec![("as", "")],
        "scheme in other case" => head.headers = vec![("as", "RAW")],
        "scheme under other header" => head.headers = vec![("AS", "raw"), ("cn", "raw")],
        "endpoint in other case" => ep = b"E".to_vec(),
        "endpoint with a space" => ep = b"e ".to_vec(),
        "endpoint not utf-8" => ep = vec![0xff, 0xfe],
        "header not utf-8" => h = vec![0xc3, 0x28],
        "json header invalid" | "json body invalid" | "json body not an object" => {
            head.headers = vec![("as", "json")];
            ep = b"j".to_vec();
            h = b"{}".to_vec();
            b = b"{}".to_vec();
            match name {
                "json header invalid" => h = b"{".to_vec(),
                "json body invalid" => b = b"{\"a\":}".to_vec(),
                _ => b = b"[1]".to_vec(),
            }
        }
        "general error" => ep = b"general".to_vec(),
        "internal error" => ep = b"internal".to_vec(),
        "long error text" => ep = b"long".to_vec(),
        _ => (),
    }
    let frames = match n {
        1 => vec![vec![ep, h, b]],
        2 => vec![vec![ep, h], vec![vec![], b]],
        _ => vec![vec![ep], vec![vec![], h], vec![vec![], b]],
    };
    let mut f = wire::request(id, &head, &frames);
    // defects of the frame itself: in the last frame
    let last = f.len() - 1;
    let cs = if last == 0 { 1 + head.bytes().len() } else { 1 };
    let p = &mut f[last].payload;
    match name {
        "checksum crc32" => {
            p[cs] = 1;
            p.splice(cs + 1..cs + 1, [1, 2, 3, 4]);
        }
        "unknown checksum" => p[cs] = 9,
        "unknown flags" => p[0] |= 0x80,
        "no arguments" => p.truncate(cs + 1),
        "truncated argument" => {
            p.pop();
        }
        "four arguments in a frame" => {
            for _ in 0..3 {
                wire::chunk(p, b"more");
            }
        }
        _ => (),
    }
    f
}

async fn register_all(sub: &Arc<SubChannel>, gate: &Gate) -> Res {
    echo(sub, "e", "t").await?;
    slow_echo(sub, "g", "t", 2).await?;
    gated_echo(sub, "w", "t", gate).await?;
    let j = JsonSyncFn(|r: JsonMessage| Ok(r));
    sub.register("j", j).await.map_err(|e| e.to_string())?;
    register_sync(sub, "general", |_| Err(HandlerError::GeneralError("broken".into()))).await?;
    register_async(sub, "internal", |_| {
        Box::pin(async { Err(HandlerError::InternalError(TChannelError::Error("inside".into()))) })
    })
    .await?;
    register_sync(sub, "long", |_| Err(HandlerError::GeneralError("ä€x".repeat(50_000)))).await?;
    Ok(())
}

fn good(id: u32, ep: &str, n: usize) -> Vec<Frame> {
    let (e, h, b) = (ep.as_bytes().to_vec(), format!("h{id}").into_bytes(), vec![id as u8; 3]);
    let frames = match n {
        1 => vec![vec![e, h, b]],
        2 => vec![vec![e, h], vec![vec![], b]],
        _ => vec![vec![e], vec![vec![], h], vec![vec![], b]],
    };
    wire::request(id, &ReqHead::new("svc", "raw"), &frames)
}

/// Reads until every id has its answer; `true`: an error is expected.
async fn answers(p: &mut Peer, mut want: BTreeMap<u32, bool>) -> Res<Vec<u32>> {
    let mut col = wire::Collector::default();
    let mut order = vec![];
    while !want.is_empty() {
        let f = p.expect("answer").await?;
        let id = f.id;
        let Some(error) = want.get(&id).copied() else {
            return Err(format!("frame {:#x} for {id}, which was answered or never asked", f.ty));
        };
        if error {
            ensure!(f.ty == wire::ERROR, "request {id}: expected an error, got frame {:#x}", f.ty);
            wire::parse_error(&f)?;
        } else {
            ensure!(f.ty != wire::ERROR, "good request {id}: error {:?}", wire::parse_error(&f));
            let Some((_, a)) = col.feed(&f)? else { continue };
            ensure!(matches!(a.head, wire::Head::Res { code: 0, .. }), "good request {id}: response code");
            let m = message_of(&a)?;
            ensure!(
                m.header() == &format!("t/h{id}") && m.body()[..3] == [id as u8; 3],
                "good request {id}: wrong response {}",
                show(&m)
            );
        }
        want.remove(&id);
        order.push(id);
    }
    // nothing else follows
    settle().await;
    if let Ok(f) = tokio::time::timeout(std::time::Duration::from_secs(1), p.recv()).await {
        return Err(format!("unexpected {:?}", f?.map(|f| (f.ty, f.id))));
    }
    Ok(order)
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for kind in 0..KINDS.len() {
        for n in 1..=3usize {
            for tasks in [0usize, 1, 2] {
                // all interleavings of the frames of the failing and two good requests
                v.push(case(format!("{} frames={n} tasks={tasks}", KINDS[kind]), Bounds::none(), move || async move {
                    let (s, sub) = server(cfg().tasks(tasks).buf(1)).await?;
                    let gate = Gate::new();
                    register_all(&sub, &gate).await?;
                    echo(&*subchannel(&s, "other").await?, "foreign", "f").await?;
                    let peer = peer_task(async move {
                        let mut p = Peer::client(addr(0)).await?;
                        let seqs = [bad(kind, 4, n), good(5, "e", 2), good(6, "g", 1)];
                        let order = free_merge(&[n, 2, 1], "order");
                        let mut next = [0; 3];
                        for i in &order {
                            p.send(&seqs[*i][next[*i]]).await?;
                            next[*i] += 1;
                        }
                        let o = answers(&mut p, [(4, true), (5, false), (6, false)].into()).await?;
                        // the id can be used again, the connection too
                        p.send_all(&good(4, "e", n)).await?;
                        p.send_all(&good(7, "e", 1)).await?;
                        answers(&mut p, [(4, false), (7, false)].into()).await?;
                        Ok(format!("{o:?}"))
                    });
                    join("peer", peer).await
                }));
            }
            // handlers in flight
            let d = t.pick(1, 2);
            v.push(case(format!("{} frames={n}, handler in flight", KINDS[kind]), Bounds::sched(d), move || async move {
                let (s, sub) = server(cfg().tasks(2).buf(1)).await?;
                let gate = Gate::new();
                register_all(&sub, &gate).await?;
                echo(&*subchannel(&s, "other").await?, "foreign", "f").await?;
                let peer = peer_task(async move {
                    let mut p = Peer::client(addr(0)).await?;
                    explore_on();
                    p.send_all(&good(3, "w", 2)).await?;
                    p.send_all(&bad(kind, 4, n)).await?;
                    p.send_all(&good(5, "e", 2)).await?;
                    answers(&mut p, [(4, true), (5, false)].into()).await?;
                    ensure!(gate.entered() == 1, "handler of the good request does not run");
                    gate.open();
                    answers(&mut p, [(3, false)].into()).await?;
                    explore_off();
                    p.send_all(&good(4, "g", 1)).await?;
                    answers(&mut p, [(4, false)].into()).await?;
                    Ok("ok".into())
                });
                join("peer", peer).await
            }));
        }
    }
    // two failing requests at a time, all pairs
    for tasks in [1usize, 2] {
        v.push(case(format!("two failing requests tasks={tasks}"), Bounds::none(), move || async move {
            let (s, sub) = server(cfg().tasks(tasks).buf(1)).await?;
            let gate = Gate::new();
            register_all(&sub, &gate).await?;
            echo(&*subchannel(&s, "other").await?, "foreign", "f").await?;
            let peer = peer_task(async move {
                let mut p = Peer::client(addr(0)).await?;
                let a = free(KINDS.len(), "first");
                let b = free(KINDS.len(), "second");
                let seqs = [bad(a, 4, 2), bad(b, 6, 2), good(5, "g", 2)];
                let order = if t.thorough() { free_merge(&[2, 2, 2], "order") } else { vec![0, 2, 1, 0, 1, 2] };
                let mut next = [0; 3];
                for i in &order {
                    p.send(&seqs[*i][next[*i]]).await?;
                    next[*i] += 1;
                }
                answers(&mut p, [(4, true), (5, false), (6, true)].into()).await?;
                Ok(format!("{a} {b}"))
            });
            join("peer", peer).await
        }));
    }
    // many failing requests leave nothing behind
    v.push(case("many failing requests", Bounds::none(), || async {
        let (s, sub) = server(cfg().tasks(1).buf(1)).await?;
        let gate = Gate::new();
        register_all(&sub, &gate).await?;
        echo(&*subchannel(&s, "other").await?, "foreign", "f").await?;
        let peer = peer_task(async move {
            let mut p = Peer::client(addr(0)).await?;
            for i in 0..40 * KINDS.len() as u32 {
                let k = i as usize % KINDS.len();
                p.send_all(&bad(k, i, 1 + k % 3)).await?;
                p.send_all(&good(i + 100_000, "e", 1)).await?;
                answers_now(&mut p, i, i + 100_000).await?;
            }
            Ok("ok".into())
        });
        join("peer", peer).await
    }));

    // with the real client
    for tasks in [1usize, 3] {
        for (k, name) in ["service", "endpoint", "scheme", "general", "internal", "long", "own"].into_iter().enumerate() {
            for big in [false, true] {
                v.push(case(format!("real client {name} tasks={tasks} big={big}"), Bounds::sched(t.pick(1, 2)), move || async move {
                    let (s, sub) = server(cfg().tasks(tasks).buf(1)).await?;
                    let gate = Gate::new();
                    register_all(&sub, &gate).await?;
                    echo(&*subchannel(&s, "other").await?, "foreign", "f").await?;
                    let (c, csub) = cfg().buf(1).port(1).sub("svc").await?;
                    call_echo(&csub, addr(0), raw("e", "w", b""), "t").await?;
                    settle().await;
                    let long = "s".repeat(300);
                    let bad_sub = match k {
                        0 => subchannel(&c, "nobody").await?,
                        6 => subchannel(&c, &long).await?,
                        _ => csub.clone(),
                    };
                    let ep = ["e", "nothing", "j", "general", "internal", "long", "e"][k];
                    explore_on();
                    let a = spawn_call(&csub, addr(0), raw("w", "1", b"x"), "t");
                    let body = if big { vec![7; 70_000] } else { vec![7] };
                    let b = spawn_call(&bad_sub, addr(0), raw(ep, "2", &body), "t");
                    let d = spawn_call(&csub, addr(0), raw("e", "3", &body), "t");
                    if tasks == 1 {
                        gate.open();
                    }
                    b.fails().await?;
                    d.echoed().await?;
                    if tasks > 1 {
                        gate.open();
                    }
                    a.echoed().await?;
                    explore_off();
                    call_echo(&csub, addr(0), raw("e", "4", b""), "t").await?;
                    ensure!(tokio::net::mc::connections_to(addr(0)) == 1, "the connection was replaced");
                    Ok("ok".into())
                }));
            }
        }
    }
    v
}

async fn answers_now(p: &mut Peer, bad: u32, good: u32) -> Res {
    let mut left = vec![bad, good];
    while !left.is_empty() {
        let f = p.expect("answer").await?;
        ensure!(left.contains(&f.id), "unexpected frame {:#x} {}", f.ty, f.id);
        ensure!((f.ty == wire::ERROR) == (f.id == bad), "frame {:#x} for {}", f.ty, f.id);
        left.retain(|x| *x != f.id);
    }
    Ok(())
}
