//! C22: server_tasks bounds the number of requests handled at the same time.

use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire;
use mccore::explore::{Bounds, Case};

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "server_tasks 0..3 and large x 1..4 requests to distinct handlers that wait to be released, all release orders (enumerated), with scheduling deviations; a violation is more handlers running than allowed, fewer than possible, or a request never served",
    }
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for tasks in [0usize, 1, 2, 3, 100, usize::MAX] {
        for n in [1usize, 2, 3, 4] {
            for multi in [false, true] {
                let limit = if tasks == 0 { n } else { tasks.min(n) };
                let d = t.pick(u32::from(n < 4) + u32::from(n < 3 || n == 3 && !multi), if n < 4 { 3 } else { 2 });
                v.push(case(
                    format!("tasks={tasks} requests={n} multi={multi}"),
                    Bounds::sched(d),
                    move || async move {
                        let (_s, sub) = server(cfg().tasks(tasks).buf(2)).await?;
                        let gates: Vec<Gate> = (0..n).map(|_| Gate::new()).collect();
                        let running = Num::new();
                        let peak = Num::new();
                        for (i, g) in gates.iter().enumerate() {
                            let (g, running, peak) = (g.clone(), running.clone(), peak.clone());
                            register_async(&sub, &format!("e{i}"), move |r| {
                                let (g, running, peak) = (g.clone(), running.clone(), peak.clone());
                                Box::pin(async move {
                                    let now = running.add(1);
                                    peak.set(peak.get().max(now));
                                    g.enter();
                                    g.wait().await;
                                    running.add(-1);
                                    Ok(echo_reply("t", &r))
                                })
                            })
                            .await?;
                        }
                        echo(&sub, "other", "o").await?;
                        let peer = peer_task(async move {
                            let mut p = Peer::client(addr(0)).await?;
                            let (_c, csub) = cfg().port(1).sub("svc").await?;
                            explore_on();
                            for i in 0..n {
                                let id = 10 + i as u32;
                                let head = wire::ReqHead::new("svc", "raw");
                                let ep = format!("e{i}").into_bytes();
                                let e = if multi {
                                    vec![vec![ep, b"h".to_vec()], vec![vec![], b"b".to_vec()]]
                                } else {
                                    vec![vec![ep, b"h".to_vec(), b"b".to_vec()]]
                                };
                                p.send_all(&wire::request(id, &head, &e)).await?;
                            }
                            settle().await;
                            ensure!(running.get() == limit as i64, "{} handlers run, {limit} should", running.get());
                            // other connections are not affected
                            call_echo(&csub, addr(0), raw("other", "x", b"y"), "o").await?;
                            let mut left: Vec<usize> = (0..n).collect();
                            let mut col = wire::Collector::default();
                            let mut order = vec![];
                            while !left.is_empty() {
                                // release any of the running handlers
                                let run: Vec<usize> = left.iter().copied().filter(|i| gates[*i].entered() > 0).collect();
                                let want = if tasks == 0 { left.len() } else { tasks.min(left.len()) };
                                ensure!(run.len() == want, "{} handlers run, {want} should", run.len());
                                let i = run[free(run.len(), "release")];
                                gates[i].open();
                                left.retain(|x| *x != i);
                                order.push(i);
                                let (id, a) = loop {
                                    if let Some(x) = col.feed(&p.expect("response").await?)? {
                                        break x;
                                    }
                                };
                                ensure!(id == 10 + i as u32, "response {id} when {i} was released");
                                let m = raw(&format!("e{i}"), "h", b"b");
                                ensure!(same(&message_of(&a)?, &echo_reply("t", &m)), "wrong response");
                                settle().await;
                            }
                            ensure!(peak.get() <= limit as i64, "{} handlers ran at once", peak.get());
                            ensure!(gates.iter().all(|g| g.entered() == 1), "a handler ran more than once");
                            Ok(format!("{order:?}"))
                        });
                        join("peer", peer).await
                    },
                ));
            }
        }
    }
    // large numbers, requests to the handlers of two services
    for tasks in [0usize, 4, 5, 8, 16, 17, 32, 33, 50, 64, 65, 100, 101, 128, 200, 255, 256, 257, 1000, usize::MAX] {
        for buf in [1usize, 100] {
            v.push(case(format!("many requests tasks={tasks} buf={buf}"), Bounds::none(), move || async move {
                let (srv, sub) = server(cfg().tasks(tasks).buf(buf)).await?;
                let sub2 = subchannel(&srv, "svc2").await?;
                let n = 300usize;
                let limit = if tasks == 0 { n } else { tasks.min(n) };
                let gates: Vec<Gate> = (0..n).map(|_| Gate::new()).collect();
                for (i, g) in gates.iter().enumerate() {
                    gated_echo(if i % 2 == 0 { &sub } else { &sub2 }, &format!("e{i}"), "t", g).await?;
                }
                let peer = peer_task(async move {
                    let mut p = Peer::client(addr(0)).await?;
                    for i in 0..n {
                        let svc = ["svc", "svc2"][i % 2];
                        p.send(&wire::simple_request(i as u32, svc, &format!("e{i}"), "h", b"b")).await?;
                    }
                    settle().await;
                    let mut left: Vec<usize> = (0..n).collect();
                    while !left.is_empty() {
                        let run: Vec<usize> = left.iter().copied().filter(|i| gates[*i].entered() > 0).collect();
                        let want = limit.min(left.len());
                        ensure!(run.len() == want, "{} handlers run, {want} should", run.len());
                        // release several at a time
                        let k = run.len().min(1 + n / 10);
                        let mut ids: Vec<u32> = vec![];
                        for i in &run[..k] {
                            gates[*i].open();
                            left.retain(|x| x != i);
                        }
                        for _ in 0..k {
                            ids.push(p.message("response").await?.0);
                        }
                        ids.sort();
                        let mut released: Vec<u32> = run[..k].iter().map(|i| *i as u32).collect();
                        released.sort();
                        ensure!(ids == released, "responses {ids:?} when {released:?} were released");
                        settle().await;
                    }
                    Ok("ok".into())
                });
                join("peer", peer).await
            }));
        }
    }
    // the limit is per connection
    for tasks in [1usize, 2] {
        v.push(case(format!("two connections tasks={tasks}"), Bounds::sched(t.pick(1, 2)), move || async move {
            let (_s, sub) = server(cfg().tasks(tasks).buf(1)).await?;
            let n = 3;
            let gates: Vec<Gate> = (0..2 * n).map(|_| Gate::new()).collect();
            for (i, g) in gates.iter().enumerate() {
                gated_echo(&sub, &format!("e{i}"), "t", g).await?;
            }
            let peer = peer_task(async move {
                let mut p = [Peer::client(addr(0)).await?, Peer::client(addr(0)).await?];
                explore_on();
                for i in 0..2 * n {
                    let f = wire::simple_request(i as u32 + 1, "svc", &format!("e{i}"), "h", b"");
                    p[i / n].send(&f).await?;
                }
                settle().await;
                for c in 0..2 {
                    let e = (c * n..(c + 1) * n).filter(|i| gates[*i].entered() > 0).count();
                    ensure!(e == tasks, "connection {c}: {e} handlers run, {tasks} should");
                }
                // everything on the second connection is served while the first waits
                for k in 0..n {
                    let i = (n..2 * n).find(|i| gates[*i].entered() > 0 && !gates[*i].opened()).ok_or("no handler runs")?;
                    gates[i].open();
                    let (id, _) = p[1].message("response").await?;
                    ensure!(id == i as u32 + 1, "response {id} at {k}");
                    settle().await;
                }
                for g in &gates[..n] {
                    g.open();
                }
                for _ in 0..n {
                    p[0].message("response").await?;
                }
                Ok("ok".into())
            });
            join("peer", peer).await
        }));
    }
    // the permits come back, whatever happens to the requests
    for kind in 0..4usize {
        v.push(case(format!("permits are returned kind={kind}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let (_s, sub) = server(cfg().tasks(1).buf(1)).await?;
            echo(&sub, "e", "t").await?;
            register_sync(&sub, "bad", |_| {
                Err(tchannel_rs::errors::HandlerError::GeneralError("no".into()))
            })
            .await?;
            let peer = peer_task(async move {
                let mut p = Peer::client(addr(0)).await?;
                explore_on();
                for id in 1..4 {
                    let f = match kind {
                        0 => wire::simple_request(id, "svc", "bad", "h", b""),
                        1 => wire::simple_request(id, "none", "e", "h", b""),
                        2 => wire::simple_request(id, "svc", "none", "h", b""),
                        _ => wire::Frame::new(wire::CALL_REQ, id, vec![0, 1]),
                    };
                    p.send(&f).await?;
                }
                p.send(&wire::simple_request(9, "svc", "e", "h", b"")).await?;
                let mut errors = 0;
                loop {
                    let f = p.expect("response").await?;
                    if f.ty == wire::ERROR {
                        ensure!(f.id < 4, "error for {}", f.id);
                        errors += 1;
                    } else {
                        ensure!(f.id == 9, "response {}", f.id);
                        break;
                    }
                }
                Ok(format!("{errors}"))
            });
            join("peer", peer).await
        }));
    }
    v
}
