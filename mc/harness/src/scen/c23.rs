//! C23: ended connections and dropped channels leave nothing behind.

use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame};
use mccore::explore::{Bounds, Case};
use super::sizes::blob;
use std::sync::Arc;
use std::time::Duration;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::messages::RawMessage;
use tchannel_rs::{SubChannel, TChannel};
use tokio::net::mc::{self, CutKind};

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "all histories of calls of several kinds (answered, failing, of many frames, abandoned, over a connection that \
               gets lost), up to a length, after which the client is dropped, also while others still use its subchannel; raw \
               clients and servers whose connections end in every way at every stage of the exchange, with schedules; failed \
               connection attempts of every kind; many of each; a violation is a connection that stays open at an end, a task \
               that stays, or a handler that is not dropped",
    }
}

fn live() -> usize {
    mccore::live_tasks()
}

async fn pause(secs: u64) {
    tokio::time::sleep(Duration::from_secs(secs)).await;
    settle().await
}

/// Every connection to `addr(i)` is closed at both ends.
fn all_closed(i: u16, what: &str) -> Res {
    for c in mc::connections_of(addr(i)) {
        ensure!(mc::side_closed(c, 0), "{what}: connection {c} stays open at the client's end");
        ensure!(mc::side_closed(c, 1), "{what}: connection {c} stays open at the server's end");
    }
    Ok(())
}

fn tasks_are(n: usize, what: &str) -> Res {
    let k = live();
    ensure!(k == n, "{what}: {k} tasks instead of {n}");
    Ok(())
}

/// Longer than any of the client's periodic checks.
const LATER: u64 = 70;

async fn test_server(c: Cfg) -> Res<(TChannel, Arc<SubChannel>)> {
    let (s, sub) = server(c).await?;
    slow_echo(&sub, "e", "t", 2).await?;
    register_sync(&sub, "bad", |_| Err(HandlerError::GeneralError("no".into()))).await?;
    register_async(&sub, "no", |r| Box::pin(async move { Err(HandlerError::MessageError(r)) })).await?;
    Ok((s, sub))
}

const OPS: usize = 7;
async fn op(sub: &Arc<SubChannel>, o: usize, i: usize) -> Res<String> {
    let body = |n: usize| blob(n, i);
    let msg = |ep: &str, n: usize| raw(ep, &format!("h{i}"), &body(n));
    match o {
        0 => call_echo(sub, addr(0), msg("e", 3), "t").await.map(|_| "call".into()),
        1 => call_echo(sub, addr(0), msg("e", 140_000), "t").await.map(|_| "big".into()),
        2 => {
            for ep in ["bad", "no", "missing"] {
                let r = within(EVENTUALLY, "failing call", send(sub, addr(0), msg(ep, 3))).await?;
                ensure!(r.is_err(), "{ep}: {}", res_text(&r));
            }
            Ok("failing".into())
        }
        3 => {
            let v: Vec<Call> = (0..3).map(|k| spawn_call(sub, addr(0), msg("e", 1 + k), "t")).collect();
            for c in v {
                c.echoed().await?;
            }
            Ok("three".into())
        }
        4 => {
            for big in [3, 140_000] {
                let c = spawn_call(sub, addr(0), msg("e", big), "t");
                for _ in 0..2 {
                    tokio::task::yield_now().await
                }
                c.h.abort();
                let _ = c.h.await;
            }
            Ok("abandoned".into())
        }
        k => {
            let kind = [CutKind::Close, CutKind::Reset][k - 5];
            for c in mc::connections_of(addr(0)) {
                mc::kill_conn(c, kind)
            }
            settle().await;
            Ok(format!("{kind:?}"))
        }
    }
}

/// How a raw client ends its connection.
const CLIENT_ENDS: [&str; 4] = ["close", "reset", "half", "unread"];
/// Stages of the exchange of a raw client.
const STAGES: [&str; 9] =
    ["connected", "part of init", "bad init", "handshake", "part of frame", "part of request", "handling", "answered", "garbage"];

async fn raw_client(stage: usize, end: usize, gate: &Gate) -> Res {
    let mut p = Peer::connect(addr(0)).await?;
    let req = wire::simple_request(7, "svc", "gated", "h", b"body");
    let mut answers = 0;
    match stage {
        0 => (),
        1 => p.send_bytes(&wire::init_req(1).encode()[..9]).await?,
        2 => p.send(&req).await?,
        _ => p.client_handshake().await?,
    }
    match stage {
        4 => p.send_bytes(&req.encode()[..20]).await?,
        5 => {
            let m = raw("e", "h", &blob(100_000, 1));
            p.send_all(&request_frames(3, "svc", &m)[..1]).await?;
        }
        6 | 7 => {
            for i in 0..3 {
                p.send(&wire::simple_request(i, "svc", "gated", "h", b"body")).await?;
            }
            settle().await;
            if stage == 7 {
                for _ in 0..3 {
                    gate.open()
                }
                settle().await;
            } else {
                answers = 3
            }
        }
        8 => {
            for f in [Frame::new(wire::CALL_REQ, 5, vec![1, 2, 3]), Frame::new(0x77, 1, vec![])] {
                p.send(&f).await?
            }
        }
        _ => (),
    }
    match CLIENT_ENDS[end] {
        "close" => {
            if stage == 7 {
                for _ in 0..3 {
                    p.message("response").await?;
                }
            }
            drop(p)
        }
        "reset" => p.reset(),
        "half" => {
            use tokio::io::AsyncWriteExt;
            let _ = p.s.shutdown().await;
            for _ in 0..answers {
                gate.open()
            }
            answers = 0;
            // the server's end must come by itself
            within(EVENTUALLY, "end of the connection by the server", async { while let Ok(Some(_)) = p.recv().await {} }).await?;
        }
        _ => drop(p),
    }
    settle().await;
    for _ in 0..answers {
        gate.open()
    }
    Ok(())
}

/// What a raw server does with a connection.
const SERVER_ACTS: [&str; 8] =
    ["closes", "part of init", "bad init", "error", "handshake", "request", "part of response", "answer"];

async fn raw_server(mut p: Peer, act: usize, reset: bool) -> Res {
    let f = p.expect("init request").await?;
    match act {
        0 => (),
        1 => p.send_bytes(&wire::init_res(f.id).encode()[..7]).await?,
        2 => p.send(&Frame::new(wire::INIT_RES, f.id, vec![0, 9, 0, 0])).await?,
        3 => p.send(&wire::error(f.id, 3, "busy")).await?,
        _ => p.send(&wire::init_res(f.id)).await?,
    }
    if act >= 5 {
        let (id, a) = p.message("request").await?;
        let m = echo_reply("t", &message_of(&a)?);
        let frames = response_frames(id, &RawMessage::new(m.endpoint().clone(), m.header().clone(), blob(100_000, 1).into()));
        match act {
            5 => (),
            6 => p.send(&frames[0]).await?,
            _ => p.send_all(&frames).await?,
        }
    }
    if act == 4 || act == 7 {
        settle().await;
    }
    if reset {
        p.reset()
    }
    Ok(())
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // a client with a history is dropped
    for (conns, lifetime, test, len) in [
        (1, None, false, t.pick(3, 4)),
        (2, None, false, t.pick(2, 3)),
        (1, Some(20), true, t.pick(2, 3)),
        (2, Some(60), false, t.pick(2, 3)),
    ] {
        v.push(case(format!("client dropped conns={conns} lifetime={lifetime:?} test={test} length={len}"), Bounds::none(), move || async move {
            let (_s, _ssub) = test_server(cfg()).await?;
            let before = live();
            let mut c = cfg().conns(conns).lifetime(lifetime).port(1);
            if test {
                c = c.test();
            }
            let (ch, sub) = c.sub("svc").await?;
            let mut h = vec![];
            for i in 0..len {
                let o = free(OPS, "op");
                h.push(op(&sub, o, i).await.map_err(|e| format!("{h:?} {o}: {e}"))?);
            }
            let pause_before = free(2, "pause") == 1;
            if pause_before {
                pause(45).await;
            }
            match free(3, "order") {
                0 => {
                    drop(ch);
                    // the subchannel alone keeps working
                    call_echo(&sub, addr(0), raw("e", "alone", b"b"), "t").await.map_err(|e| format!("{h:?}: {e}"))?;
                    drop(sub)
                }
                1 => {
                    drop(sub);
                    drop(ch)
                }
                _ => {
                    // a pending call keeps it until it returns
                    let c = spawn_call(&sub, addr(0), raw("e", "pending", &blob(140_000, 5)), "t");
                    drop(sub);
                    drop(ch);
                    c.echoed().await.map_err(|e| format!("{h:?}: {e}"))?;
                }
            }
            pause(LATER).await;
            all_closed(0, &format!("{h:?}"))?;
            tasks_are(before, &format!("{h:?}"))?;
            Ok(format!("{h:?}"))
        })
        .opts(|o| o.horizon = 1000 * SEC));
    }
    // dropped at any moment of the last call's end
    for conns in [1, 2] {
        for big in [false, true] {
            v.push(case(format!("client dropped with its last call conns={conns} big={big}"), Bounds::sched(t.pick(1 + u32::from(!big), 2 + u32::from(!big))), move || async move {
                let (_s, _ssub) = test_server(cfg().buf(1)).await?;
                let before = live();
                let (ch, sub) = cfg().buf(1).conns(conns).port(1).sub("svc").await?;
                call_echo(&sub, addr(0), raw("e", "first", b"b"), "t").await?;
                settle().await;
                explore_on();
                let n = if big { 140_000 } else { 1 };
                let a = spawn_call(&sub, addr(0), raw("e", "1", &blob(n, 1)), "t");
                let b = spawn_call(&sub, addr(0), raw("e", "2", &blob(n, 2)), "t");
                drop(sub);
                drop(ch);
                a.echoed().await?;
                b.echoed().await?;
                explore_off();
                pause(LATER).await;
                all_closed(0, "after the last call")?;
                tasks_are(before, "after the last call")?;
                Ok("ok".into())
            }));
        }
    }
    // connections of raw clients
    for stage in 0..STAGES.len() {
        for end in 0..CLIENT_ENDS.len() {
            for tasks in [1, 2] {
                let d = t.pick(u32::from(stage >= 4 && tasks == 1), 2);
                v.push(case(format!("client {} then {} tasks={tasks}", STAGES[stage], CLIENT_ENDS[end]), Bounds::sched(d), move || async move {
                    let (_s, sub) = test_server(cfg().buf(1).tasks(tasks)).await?;
                    let gate = Gate::new();
                    gated_echo(&sub, "gated", "t", &gate).await?;
                    let before = live();
                    let c = mc::connections_to(addr(0));
                    explore_on();
                    let g = gate.clone();
                    join("client", peer_task(async move { raw_client(stage, end, &g).await })).await?;
                    explore_off();
                    // handlers that the ended connection left waiting
                    for _ in 0..3 {
                        gate.open()
                    }
                    pause(1).await;
                    for i in mc::connections_of(addr(0)).into_iter().skip(c) {
                        ensure!(mc::side_closed(i, 1), "the server keeps its end of connection {i} open");
                    }
                    tasks_are(before, "after the connection")?;
                    let mut p = Peer::client(addr(0)).await?;
                    p.send(&wire::simple_request(1, "svc", "e", "h", b"b")).await?;
                    p.message("response to another client").await?;
                    Ok("ok".into())
                }));
            }
        }
    }
    // connections to raw servers
    for act in 0..SERVER_ACTS.len() {
        for reset in [false, true] {
            for conns in [1, 2] {
                v.push(case(format!("server {} reset={reset} conns={conns}", SERVER_ACTS[act]), Bounds::sched(t.pick(u32::from(conns == 1), 2)), move || async move {
                    let l = Listener::bind(0).await?;
                    let before = live();
                    let (ch, sub) = cfg().buf(1).conns(conns).port(1).sub("svc").await?;
                    let server = peer_task(async move {
                        let mut seen = vec![];
                        loop {
                            let p = l.accept().await?;
                            seen.push(peer_task(raw_server(p, act, reset)));
                            let k = seen.len();
                            if k > 10_000 {
                                return Err::<(), String>("too many connections".into());
                            }
                        }
                    });
                    explore_on();
                    let calls: Vec<Call> = (0..2)
                        .map(|i| spawn_call(&sub, addr(0), raw("e", &format!("{i}"), b"b"), "t"))
                        .collect();
                    for c in calls {
                        let _ = c.result().await?;
                    }
                    explore_off();
                    drop(sub);
                    drop(ch);
                    pause(LATER).await;
                    server.abort();
                    let _ = server.await;
                    settle().await;
                    for i in mc::connections_of(addr(0)) {
                        ensure!(mc::side_closed(i, 0), "the client keeps its end of connection {i} open");
                    }
                    tasks_are(before, "after the client was dropped")?;
                    Ok(format!("{}", mc::connections_to(addr(0))))
                })
                .opts(|o| {
                    o.horizon = 1000 * SEC;
                    o.max_steps = 5_000_000
                }));
            }
        }
    }
    // addresses that cannot be connected to
    for silent in [false, true] {
        for conns in [1, 3] {
            v.push(case(format!("unreachable silent={silent} conns={conns}"), Bounds::sched(t.pick(1, 2)), move || async move {
                if silent {
                    mc::blackhole(addr(0), true);
                }
                let before = live();
                let (ch, sub) = cfg().conns(conns).port(1).sub("svc").await?;
                explore_on();
                let calls: Vec<Call> = (0..2).map(|_| spawn_call(&sub, addr(0), raw("e", "h", b"b"), "t")).collect();
                for c in calls {
                    match within(200, "call", c.h).await? {
                        Ok(r) => expect_err("call", &r)?,
                        Err(e) => return Err(format!("call failed: {e}")),
                    }
                }
                explore_off();
                drop(sub);
                drop(ch);
                pause(200).await;
                tasks_are(before, "after the client was dropped")?;
                Ok("ok".into())
            })
            .opts(|o| o.horizon = 1000 * SEC));
        }
    }
    // many connections and calls, one after another
    v.push(case("many clients".to_string(), Bounds::none(), move || async move {
        let (_s, _sub) = test_server(cfg()).await?;
        let before = live();
        for i in 0..t.pick(150, 1500) {
            let (ch, sub) = cfg().conns(1 + i as u32 % 3).port(1).sub("svc").await?;
            for o in [i % OPS, (i / OPS) % OPS] {
                op(&sub, o, i).await?;
            }
            drop((ch, sub));
            if i % 50 == 49 {
                pause(LATER).await;
                all_closed(0, "many clients")?;
                tasks_are(before, "many clients")?;
            }
        }
        Ok("ok".into())
    })
    .opts(|o| {
        o.horizon = 100_000 * SEC;
        o.max_steps = 50_000_000
    }));
    v.push(case("many connections of one client".to_string(), Bounds::none(), move || async move {
        let (_s, _sub) = test_server(cfg()).await?;
        let (_ch, sub) = cfg().port(1).sub("svc").await?;
        call_echo(&sub, addr(0), raw("e", "h", b"b"), "t").await?;
        pause(LATER).await;
        let first = live();
        for i in 0..t.pick(200, 2000) {
            for o in [5 + i % 2, i % 4] {
                op(&sub, o, i).await?;
            }
            settle().await;
            let open = mc::open_to(addr(0));
            ensure!(open == 1, "{open} connections are open at the client's end after {i} losses");
        }
        pause(LATER).await;
        tasks_are(first, "many connections")?;
        Ok("ok".into())
    })
    .opts(|o| {
        o.horizon = 100_000 * SEC;
        o.max_steps = 50_000_000
    }));
    // handlers go with the server
    for used in [0usize, 1, 2] {
        v.push(case(format!("handlers are dropped used={used}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let token = Arc::new(());
            let weak = Arc::downgrade(&token);
            let before = live();
            let (s, sub) = server(cfg().buf(1)).await?;
            register_async(&sub, "e", move |r| {
                let token = token.clone();
                Box::pin(async move {
                    tokio::task::yield_now().await;
                    let _keep = token;
                    Ok(echo_reply("t", &r))
                })
            })
            .await?;
            let (c, csub) = cfg().port(1).sub("svc").await?;
            explore_on();
            let calls: Vec<Call> = (0..used).map(|i| spawn_call(&csub, addr(0), raw("e", &format!("{i}"), b"b"), "t")).collect();
            for c in calls {
                c.echoed().await?;
            }
            drop((s, sub));
            drop((c, csub));
            explore_off();
            pause(LATER).await;
            all_closed(0, "after both")?;
            ensure!(weak.upgrade().is_none(), "the handler is kept");
            tasks_are(before, "after both")?;
            Ok("ok".into())
        }));
    }
    v
}
