//! C20: pings are answered and tested connections work.

use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame};
use mccore::explore::{Bounds, Case};
use tokio::net::mc::CutKind;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "a ping at every position of a sequence of frames (between and inside requests, while handlers run), all interleavings of several pings with the frames of two requests, schedules; a client that tests its connections over histories of calls, idle times, lost connections and wrong ping answers",
    }
}

/// Sends the frames in the given order; every request must be answered, every ping
/// must get exactly one response.
async fn script(mut p: Peer, frames: Vec<Frame>, early: bool) -> Res<Peer> {
    let mut pings = vec![];
    let mut calls = vec![];
    let (mut done_pings, mut done_calls) = (vec![], vec![]);
    let mut col = wire::Collector::default();
    let mut read = |f: Frame, dp: &mut Vec<u32>, dc: &mut Vec<u32>| -> Res {
        if f.ty == wire::PING_RES {
            ensure!(f.payload.is_empty(), "ping response with a payload");
            dp.push(f.id);
        } else if let Some((id, _)) = col.feed(&f)? {
            dc.push(id);
        }
        Ok(())
    };
    for f in frames {
        p.send(&f).await?;
        match f.ty {
            wire::PING_REQ => pings.push(f.id),
            wire::CALL_REQ => calls.push(f.id),
            _ => (),
        }
        if early && f.ty == wire::PING_REQ {
            // the ping is answered before anything else is sent
            while done_pings.len() < pings.len() {
                let f = within(PROMPT, "ping response", p.recv()).await??.ok_or("connection ended")?;
                read(f, &mut done_pings, &mut done_calls)?;
            }
        }
    }
    while done_pings.len() < pings.len() || done_calls.len() < calls.len() {
        let f = p.expect("response").await?;
        read(f, &mut done_pings, &mut done_calls)?;
    }
    ensure!(done_pings == pings, "ping responses {done_pings:?} to {pings:?}");
    done_calls.sort();
    calls.sort();
    ensure!(done_calls == calls, "responses {done_calls:?} to {calls:?}");
    Ok(p)
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let req = |id: u32, ep: &str| {
        wire::request(
            id,
            &wire::ReqHead::new("svc", "raw"),
            &[vec![ep.into(), b"h".to_vec()], vec![b"x".to_vec()], vec![vec![], b"b".to_vec()]],
        )
    };
    for tasks in [0usize, 1, 3] {
        for buf in [1usize, 4] {
            for early in [false, true] {
                v.push(case(format!("pings among frames tasks={tasks} buf={buf} early={early}"), Bounds::none(), move || async move {
                    let (_s, sub) = server(cfg().tasks(tasks).buf(buf)).await?;
                    echo(&sub, "e", "t").await?;
                    slow_echo(&sub, "f", "t", 2).await?;
                    let peer = peer_task(async move {
                        let p = Peer::client(addr(0)).await?;
                        // two requests of 3 frames and two pings; one ping has a call's id
                        let seqs = [req(4, "e"), req(6, "f"), vec![wire::ping_req(6), wire::ping_req(9)]];
                        let order = free_merge(&[3, 3, 2], "order");
                        let mut next = [0; 3];
                        let mut frames = vec![];
                        for i in &order {
                            frames.push(seqs[*i][next[*i]].clone());
                            next[*i] += 1;
                        }
                        script(p, frames, early).await?;
                        Ok(format!("{order:?}"))
                    });
                    join("peer", peer).await
                }));
            }
        }
    }
    v.push(case("ping schedules", Bounds::sched(t.pick(2, 3)), move || async move {
        let (_s, sub) = server(cfg().tasks(1).buf(1)).await?;
        echo(&sub, "e", "t").await?;
        let peer = peer_task(async move {
            let p = Peer::client(addr(0)).await?;
            explore_on();
            let mut f = vec![wire::ping_req(1)];
            f.extend(req(4, "e"));
            f.insert(3, wire::ping_req(2));
            f.push(wire::ping_req(4));
            f.push(wire::simple_request(5, "svc", "e", "", b""));
            f.push(wire::ping_req(7));
            script(p, f, false).await?;
            Ok("ok".into())
        });
        join("peer", peer).await
    }));
    // pings are answered while every handler is busy
    for tasks in [0usize, 1, 2] {
        v.push(case(format!("ping while handlers run tasks={tasks}"), Bounds::sched(t.pick(1, 2)), move || async move {
            let (_s, sub) = server(cfg().tasks(tasks).buf(1)).await?;
            let g = Gate::new();
            for i in 0..3 {
                gated_echo(&sub, &format!("e{i}"), "t", &g).await?;
            }
            let peer = peer_task(async move {
                let mut p = Peer::client(addr(0)).await?;
                explore_on();
                for i in 0..3u32 {
                    p.send(&wire::simple_request(i, "svc", &format!("e{i}"), "", b"")).await?;
                    p.send(&wire::ping_req(100 + i)).await?;
                    let f = within(PROMPT, "ping response", p.recv()).await??.ok_or("connection ended")?;
                    ensure!(f == wire::ping_res(100 + i), "expected ping response, got {f:?}");
                }
                settle().await;
                for _ in 0..3 {
                    g.open();
                    p.message("response").await?;
                }
                Ok("ok".into())
            });
            join("peer", peer).await
        }));
    }
    // many pings and nothing else
    v.push(case("many pings", Bounds::none(), || async {
        let (_s, sub) = server(cfg().tasks(1).buf(1)).await?;
        echo(&sub, "e", "t").await?;
        let peer = peer_task(async move {
            let p = Peer::client(addr(0)).await?;
            let mut f: Vec<Frame> = (0..500).map(wire::ping_req).collect();
            f.push(wire::simple_request(7, "svc", "e", "", b""));
            script(p, f, false).await?;
            Ok("ok".into())
        });
        join("peer", peer).await
    }));

    // clients that test their connections, real server: histories of calls,
    // pauses and a lost connection
    for conns in [1u32, 2] {
        for lifetime in [None, Some(20u64)] {
            let len = t.pick(4, 6);
            v.push(case(format!("tested connections conns={conns} lifetime={lifetime:?}"), Bounds::none(), move || async move {
                let (_s, sub) = server(cfg()).await?;
                slow_echo(&sub, "e", "t", 1).await?;
                let (_c, csub) = cfg().conns(conns).lifetime(lifetime).test().port(1).sub("svc").await?;
                let mut ops = vec![];
                for i in 0..len {
                    let op = free(4, "op");
                    ops.push(op);
                    match op {
                        0 => call_echo(&csub, addr(0), raw("e", &i.to_string(), b"b"), "t").await?,
                        1 => {
                            let a = spawn_call(&csub, addr(0), raw("e", "1", b"b"), "t");
                            let b = spawn_call(&csub, addr(0), raw("e", "2", &[7; 70_000]), "t");
                            a.echoed().await?;
                            b.echoed().await?;
                        }
                        2 => tokio::time::sleep(std::time::Duration::from_secs(31)).await,
                        _ => {
                            for c in 0..tokio::net::mc::connections() {
                                tokio::net::mc::kill_conn(c, CutKind::Reset);
                            }
                            settle().await;
                        }
                    }
                }
                call_echo(&csub, addr(0), raw("e", "last", b"b"), "t").await?;
                Ok(format!("{ops:?} {}", tokio::net::mc::connections_to(addr(0))))
            }));
        }
        v.push(case(format!("tested connections, schedules conns={conns}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let (_s, sub) = server(cfg().buf(1)).await?;
            echo(&sub, "e", "t").await?;
            let (_c, csub) = cfg().buf(1).conns(conns).test().port(1).sub("svc").await?;
            call_echo(&csub, addr(0), raw("e", "first", b"b"), "t").await?;
            settle().await;
            explore_on();
            let a = spawn_call(&csub, addr(0), raw("e", "1", b"b"), "t");
            let b = spawn_call(&csub, addr(0), raw("e", "2", b"c"), "t");
            a.echoed().await?;
            b.echoed().await?;
            Ok("ok".into())
        }));
    }
    // a peer that answers pings in another order, together with other frames
    v.push(case("peer answers pings and calls in all orders", Bounds::sched(t.pick(0, 1)), || async {
        let l = Listener::bind(0).await?;
        let (_c, csub) = cfg().buf(2).test().port(1).sub("svc").await?;
        let peer = peer_task(async move {
            let mut p = l.serve().await?;
            let mut pending: Vec<Vec<Frame>> = vec![];
            let mut order = String::new();
            let mut col = wire::Collector::default();
            // answers to be sent are chosen whenever nothing more arrives
            loop {
                let f = if pending.is_empty() {
                    p.recv().await?
                } else {
                    match within(1, "", p.recv()).await {
                        Ok(f) => f?,
                        Err(_) => {
                            let i = free(pending.len(), "answer");
                            order += &i.to_string();
                            let a = pending.remove(i);
                            p.send_all(&a).await?;
                            continue;
                        }
                    }
                };
                let Some(f) = f else { break };
                if f.ty == wire::PING_REQ {
                    pending.push(vec![wire::ping_res(f.id)]);
                } else if let Some((id, a)) = col.feed(&f)? {
                    pending.push(echo_frames(id, &a, "t")?);
                }
            }
            Ok(order)
        });
        explore_on();
        let calls: Vec<Call> = (0..3)
            .map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), b"b"), "t"))
            .collect();
        for c in calls {
            c.echoed().await?;
        }
        drop((_c, csub));
        join("peer", peer).await
    }));
    // a peer whose answer to a ping is wrong: the connection is replaced
    for wrong in 0..6usize {
        v.push(case(format!("wrong ping answer {wrong}"), Bounds::none(), move || async move {
            let l = Listener::bind(0).await?;
            let (_c, csub) = cfg().test().port(1).sub("svc").await?;
            let accepted = Num::new();
            let acc = accepted.clone();
            let bad_at = free(3, "which ping");
            let peer: tokio::task::JoinHandle<Res> = peer_task(async move {
                let mut bad_left = 1;
                let mut seen = 0;
                loop {
                    let mut p = l.serve().await?;
                    acc.add(1);
                    while let Some(f) = p.recv().await? {
                        if f.ty == wire::PING_REQ {
                            seen += 1;
                            if bad_left == 1 && seen == bad_at + 1 {
                                bad_left = 0;
                                match wrong {
                                    0 => p.send(&wire::error(f.id, 3, "busy")).await?,
                                    1 => p.send(&wire::init_res(f.id)).await?,
                                    2 => p.send(&wire::simple_response(f.id, "", "", b"")).await?,
                                    3 => p.send(&wire::ping_req(f.id)).await?,
                                    4 => break,
                                    _ => {
                                        p.reset();
                                        break;
                                    }
                                }
                            } else {
                                p.send(&wire::ping_res(f.id)).await?;
                            }
                        } else {
                            let (id, a) = p.message_from(f, "request").await?;
                            p.send_all(&echo_frames(id, &a, "t")?).await?;
                        }
                    }
                }
                #[allow(unreachable_code)]
                Ok(())
            });
            for i in 0..4 {
                call_echo(&csub, addr(0), raw("e", &i.to_string(), b"b"), "t").await?;
            }
            ensure!(accepted.get() == 2, "{} connections were made", accepted.get());
            drop(peer);
            Ok("ok".into())
        }));
    }
    v
}
