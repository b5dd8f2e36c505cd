//! C19: abandoning a call is harmless.

use super::sizes::blob;
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire;
use mccore::explore::{Bounds, Case};
use std::future::Future;
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use tchannel_rs::SubChannel;
use tokio::mc::advance_counters;
use tokio::net::mc;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "a call is dropped at every one of its suspension points (from looking the pool up, connecting, shaking hands and pinging to the last frame of its response), at once or after everything else has moved on, with calls before, beside and behind it, alone and in sequences of abandoned calls, and aborted in every schedule within the bounds; all answers a peer may give to an abandoned call; a violation is another call that fails, hangs or gets a wrong response",
    }
}

/// Polls the call `n` times and then drops it, or first waits for `gate`.
fn abandon(sub: &Arc<SubChannel>, to: u16, m: tchannel_rs::messages::RawMessage, n: usize, gate: Option<Gate>) -> tokio::task::JoinHandle<bool> {
    let sub = sub.clone();
    tokio::task::spawn_named("abandoned", async move {
        let mut left = n;
        let mut fut = Box::pin(send(&sub, addr(to), m));
        let done = std::future::poll_fn(|cx| {
            if left == 0 {
                return Poll::Ready(false);
            }
            left -= 1;
            match fut.as_mut().poll(cx) {
                Poll::Ready(_) => Poll::Ready(true),
                Poll::Pending if left == 0 => Poll::Ready(false),
                Poll::Pending => Poll::Pending,
            }
        })
        .await;
        if let Some(g) = gate {
            g.enter();
            g.wait().await;
        }
        drop(fut);
        done
    })
}

fn message(i: usize, big: bool) -> tchannel_rs::messages::RawMessage {
    let body = if big { blob(150_000 + i, i) } else { format!("b{i}").into_bytes() };
    raw("e", &i.to_string(), &body)
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // every suspension point, with the real server
    for warm in [false, true] {
        for test in [false, true] {
            for big in [false, true] {
                for conns in [1u32, 2] {
                    let polls = 24;
                    let d = if warm && !test && conns == 1 { t.pick(1, 2) } else { t.pick(0, 1) };
                    let d = if big { d.min(t.pick(0, 1)) } else { d };
                    v.push(case(format!("every point warm={warm} test={test} big={big} conns={conns}"), Bounds::sched(d), move || async move {
                        let (_s, ssub) = server(cfg().buf(1).tasks(2)).await?;
                        echo(&ssub, "e", "t").await?;
                        let mut c = cfg().conns(conns).buf(1).port(1);
                        if test {
                            c = c.test();
                        }
                        let (_c, sub) = c.sub("svc").await?;
                        if warm {
                            call_echo(&sub, addr(0), message(100, false), "t").await?;
                            settle().await;
                        }
                        let n = free(polls, "polls");
                        let gate = if free(2, "dropped later") == 1 { Some(Gate::new()) } else { None };
                        let others = free(4, "others");
                        explore_on();
                        let mut calls = vec![];
                        if others & 1 == 1 {
                            calls.push(spawn_call(&sub, addr(0), message(1, big), "t"));
                        }
                        let a = abandon(&sub, 0, message(2, big), n, gate.clone());
                        if others & 2 == 2 {
                            calls.push(spawn_call(&sub, addr(0), message(3, big), "t"));
                        }
                        if let Some(g) = &gate {
                            settle().await;
                            g.open();
                        }
                        let done = within(EVENTUALLY, "abandoned call", a).await?.map_err(|e| e.to_string())?;
                        for c in calls {
                            c.echoed().await?;
                        }
                        explore_off();
                        for i in 4..7 {
                            let (what, m) = (format!("later call {i}"), message(i, big));
                            let want = echo_reply("t", &m);
                            expect_ok(&what, &within(PROMPT, &what, send(&sub, addr(0), m)).await?, &want)?;
                        }
                        Ok(format!("done {done}"))
                    }));
                }
            }
        }
    }
    // sequences of abandoned calls
    let len = t.pick(2usize, 3);
    for conns in [1u32, 2] {
        for test in [false, true] {
            for big in [false, true] {
                v.push(case(format!("sequences length={len} conns={conns} test={test} big={big}"), Bounds::none(), move || async move {
                    let (_s, ssub) = server(cfg().buf(1).tasks(1)).await?;
                    echo(&ssub, "e", "t").await?;
                    let mut c = cfg().conns(conns).buf(1).port(1);
                    if test {
                        c = c.test();
                    }
                    let (_c, sub) = c.sub("svc").await?;
                    let mut h = vec![];
                    for i in 0..len {
                        let n = free(16, "polls");
                        h.push(n);
                        let gate = if free(2, "overlapping") == 1 { Some(Gate::new()) } else { None };
                        let a = abandon(&sub, 0, message(i, big), n, gate.clone());
                        if let Some(g) = gate {
                            g.open();
                        } else {
                            within(EVENTUALLY, "abandoned call", a).await?.map_err(|e| e.to_string())?;
                        }
                    }
                    for i in 10..12 {
                        let (what, m) = (format!("{h:?}: later call"), message(i, big));
                        let want = echo_reply("t", &m);
                        expect_ok(&what, &within(PROMPT, &what, send(&sub, addr(0), m)).await?, &want)?;
                    }
                    ensure!(mc::connections_to(addr(0)) <= conns as usize, "{h:?}: {} connections", mc::connections_to(addr(0)));
                    Ok(format!("{h:?}"))
                }));
            }
        }
    }
    // aborted at any moment
    for others in [0usize, 1, 2] {
        for warm in [false, true] {
            let d = if others == 0 { t.pick(3, 4) } else { t.pick(2, 3) };
            let d = if warm { d } else { d - 1 };
            v.push(case(format!("aborted others={others} warm={warm}"), Bounds::sched(d), move || async move {
                let (_s, ssub) = server(cfg().buf(1).tasks(1)).await?;
                echo(&ssub, "e", "t").await?;
                let (_c, sub) = cfg().buf(1).port(1).sub("svc").await?;
                if warm {
                    call_echo(&sub, addr(0), message(100, false), "t").await?;
                    settle().await;
                }
                explore_on();
                let a = spawn_call(&sub, addr(0), message(0, false), "t").h;
                let calls: Vec<Call> = (0..others).map(|i| spawn_call(&sub, addr(0), message(1 + i, false), "t")).collect();
                tokio::task::yield_now().await;
                a.abort();
                let r = within(EVENTUALLY, "aborted call", a).await?;
                for c in calls {
                    c.echoed().await?;
                }
                explore_off();
                call_echo(&sub, addr(0), message(5, false), "t").await?;
                Ok(match r {
                    Ok(Ok(_)) => "done".into(),
                    Ok(Err(e)) => return Err(format!("aborted call failed: {}", err_text(&e))),
                    Err(_) => "aborted".into(),
                })
            }));
        }
    }
    // all that a peer may do about an abandoned call
    for buf in [1usize, 3] {
        for frames in [1usize, 3] {
            v.push(case(format!("answers buf={buf} frames={frames}"), Bounds::sched(t.pick(0, 1)), move || async move {
                let l = Listener::bind(0).await?;
                let (_c, sub) = cfg().buf(buf).port(1).sub("svc").await?;
                let other = spawn_call(&sub, addr(0), message(1, frames > 1), "t");
                let n = Gate::new();
                let sub2 = sub.clone();
                // not before its request has been received
                let a = tokio::task::spawn_named("abandoned", async move { send(&sub2, addr(0), message(2, false)).await.is_ok() });
                let mut p = within(EVENTUALLY, "connection", l.serve()).await??;
                let mut col = wire::Collector::default();
                let mut got = vec![];
                while got.len() < 2 {
                    let f = p.expect("frame").await?;
                    got.extend(col.feed(&f)?);
                }
                let mine = got.iter().position(|(_, x)| x.args[1] == b"2").ok_or("no abandoned request")?;
                let (aid, areq) = got.remove(mine);
                let (oid, oreq) = got.remove(0);
                // what is sent under the abandoned id
                let answer: Vec<wire::Frame> = match free(6, "answer") {
                    0 => vec![],
                    1 => wire::response(
                        aid,
                        &wire::ResHead::new(0, "raw"),
                        &wire::fill(&[&areq.args[0], b"h", &blob(frames * 60_000 - 30_000, 3)], 60_000, 60_000),
                    ),
                    2 => vec![wire::error(aid, 3, "busy")],
                    3 => {
                        let mut f = echo_frames(aid, &areq, "t")?;
                        f.extend(f.clone());
                        f
                    }
                    // never finished
                    4 => {
                        let mut f = wire::response(
                            aid,
                            &wire::ResHead::new(0, "raw"),
                            &wire::fill(&[&areq.args[0], b"h", &blob(150_000, 3)], 60_000, 60_000),
                        );
                        f.pop();
                        f
                    }
                    _ => vec![wire::Frame::new(wire::CALL_RES, aid, vec![1, 2, 3])],
                };
                let own = echo_frames(oid, &oreq, "t")?;
                let order = free_merge(&[answer.len(), own.len()], "order");
                // frames that are sent before the call is abandoned
                let before = free(order.len() + 1, "before");
                let pause = free(2, "pause") == 1;
                let (mut ai, mut oi) = (0, 0);
                explore_on();
                for (k, which) in order.iter().enumerate() {
                    if k == before {
                        a.abort();
                        if pause {
                            settle().await;
                        }
                    }
                    let f = if *which == 0 {
                        ai += 1;
                        &answer[ai - 1]
                    } else {
                        oi += 1;
                        &own[oi - 1]
                    };
                    p.send(f).await?;
                    if pause && k < before {
                        settle().await;
                    }
                }
                a.abort();
                let _ = within(EVENTUALLY, "abandoned call", a).await?;
                other.echoed().await?;
                n.open();
                explore_off();
                // later calls, on the same connection
                let rest = peer_task(echo_peer(p, "t"));
                for i in 5..8 {
                    let (what, m) = (format!("later call {i}"), message(i, frames > 1));
                    let want = echo_reply("t", &m);
                    expect_ok(&what, &within(PROMPT, &what, send(&sub, addr(0), m)).await?, &want)?;
                }
                ensure!(mc::connections_to(addr(0)) == 1, "the connection was replaced");
                drop((_c, sub));
                join("peer", rest).await?;
                Ok("ok".into())
            }));
        }
    }
    // its late response does not reach a call that comes when the ids have come round
    for k in [1usize, 2] {
        v.push(case(format!("ids come round, abandoned={k}"), Bounds::sched(t.pick(1, 2)), move || async move {
            let l = Listener::bind(0).await?;
            let (_c, sub) = cfg().buf(1).port(1).sub("svc").await?;
            let mut ab = vec![];
            for i in 0..k {
                let sub = sub.clone();
                ab.push(tokio::task::spawn_named("abandoned", async move { send(&sub, addr(0), message(i, false)).await.is_ok() }));
            }
            let mut p = within(EVENTUALLY, "connection", l.serve()).await??;
            let mut old = vec![];
            for _ in 0..k {
                old.push(p.message("request").await?);
            }
            for a in ab {
                a.abort();
            }
            settle().await;
            advance_counters(0u32.wrapping_sub(1 + free(k + 1, "back") as u32));
            explore_on();
            let calls: Vec<Call> = (0..2).map(|i| spawn_call(&sub, addr(0), message(10 + i, false), "t")).collect();
            let mut new = vec![];
            for _ in 0..2 {
                new.push(p.message("request").await?);
            }
            // now the abandoned ones are answered at last
            for (id, a) in &old {
                p.send_all(&echo_frames(*id, a, "late")?).await?;
            }
            for (id, a) in &new {
                p.send_all(&echo_frames(*id, a, "t")?).await?;
            }
            for c in calls {
                c.echoed().await?;
            }
            Ok("ok".into())
        }));
    }
    // calls that give up because of the time
    for secs in [1u64, 29, 31] {
        v.push(case(format!("timeout {secs}"), Bounds::none(), move || async move {
            let (_s, ssub) = server(cfg().buf(1).tasks(1)).await?;
            let gate = Gate::new();
            gated_echo(&ssub, "slow", "s", &gate).await?;
            echo(&ssub, "e", "t").await?;
            let mut c = cfg().buf(1).port(1);
            if free(2, "test") == 1 {
                c = c.test();
            }
            let (_c, sub) = c.sub("svc").await?;
            let n = 1 + free(3, "calls");
            let what = free(3, "peer");
            if what == 1 {
                // nobody answers
                mc::blackhole(addr(2), true);
            }
            let mut given_up = vec![];
            for i in 0..n {
                let sub = sub.clone();
                let to = if what == 0 { 0 } else { 2 };
                given_up.push(tokio::task::spawn_named("given up", async move {
                    tokio::time::timeout(Duration::from_secs(secs), send(&sub, addr(to), raw("slow", &i.to_string(), b"b"))).await.is_err()
                }));
            }
            for h in given_up {
                within(EVENTUALLY, "call with a timeout", h).await?.map_err(|e| e.to_string())?;
            }
            // the server lets one request at a time through to its handler
            for _ in 0..n {
                gate.open();
            }
            for i in 0..2 {
                let (what, m) = (format!("later call {i}"), message(i, false));
                let want = echo_reply("t", &m);
                expect_ok(&what, &within(PROMPT, &what, send(&sub, addr(0), m)).await?, &want)?;
            }
            if what > 0 {
                // the other peer comes up
                mc::blackhole(addr(2), false);
                let (_s2, ssub2) = server(cfg().port(2)).await?;
                echo(&ssub2, "e", "t2").await?;
                tokio::time::sleep(Duration::from_secs(200)).await;
                call_echo(&sub, addr(2), message(9, false), "t2").await?;
            }
            Ok("ok".into())
        })
        .opts(|o| o.horizon = 2000 * SEC));
    }
    // others wait for the connection that an abandoned call was the first to want
    for k in [1usize, 2] {
        for conns in [1u32, 2] {
            v.push(case(format!("waiting for the connection others={k} conns={conns}"), Bounds::sched(t.pick(1, 2)), move || async move {
                let (_c, sub) = cfg().conns(conns).buf(1).port(1).sub("svc").await?;
                // the server is up late
                let late = free(2, "late") == 1;
                let (s, ssub) = cfg().buf(1).sub("svc").await?;
                echo(&ssub, "e", "t").await?;
                if !late {
                    start(&s)?;
                    settle().await;
                }
                let n = free(8, "polls");
                explore_on();
                let gate = if free(2, "dropped later") == 1 { Some(Gate::new()) } else { None };
                let a = abandon(&sub, 0, message(0, false), n, gate.clone());
                let calls: Vec<Call> = (0..k).map(|i| spawn_call(&sub, addr(0), message(1 + i, false), "t")).collect();
                if late {
                    settle().await;
                    start(&s)?;
                    settle().await;
                }
                if let Some(g) = gate {
                    g.open();
                }
                within(EVENTUALLY, "abandoned call", a).await?.map_err(|e| e.to_string())?;
                for c in calls {
                    c.echoed().await?;
                }
                explore_off();
                call_echo(&sub, addr(0), message(9, false), "t").await?;
                Ok("ok".into())
            }));
        }
    }
    // very many
    for test in [false, true] {
        v.push(case(format!("many abandoned test={test}"), Bounds::none(), move || async move {
            let (_s, ssub) = server(cfg().buf(1).tasks(1)).await?;
            echo(&ssub, "e", "t").await?;
            let mut c = cfg().buf(1).port(1);
            if test {
                c = c.test();
            }
            let (_c, sub) = c.sub("svc").await?;
            for i in 0..t.pick(2000, 20_000) {
                let a = abandon(&sub, 0, message(i, i % 50 == 7), i % 13, None);
                within(EVENTUALLY, "abandoned call", a).await?.map_err(|e| e.to_string())?;
                if i % 100 == 0 {
                    call_echo(&sub, addr(0), message(i, false), "t").await?;
                }
            }
            settle().await;
            call_echo(&sub, addr(0), message(9, false), "t").await?;
            ensure!(mc::connections_to(addr(0)) == 1, "{} connections", mc::connections_to(addr(0)));
            Ok("ok".into())
        })
        .opts(|o| o.max_steps = 20_000_000));
    }
    v
}
