//! C01: every call gets the response to its own request.

use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire;
use mccore::explore::{Bounds, Case};
use std::collections::BTreeMap;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "all executions with at most the stated number of scheduling deviations of 2-4 concurrent calls; all response orders and all interleavings of response fragments (enumerated completely)",
    }
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];

    // concurrent calls of one client over the configured pool, real server
    for (n, conns, buf) in [(2, 1, 1), (2, 1, 4), (2, 2, 2), (3, 1, 1), (3, 2, 4)] {
        let deep = n == 2 && buf == 1;
        let b = Bounds::sched(if n == 2 { 2 } else { 1 } + u32::from(t.thorough() || deep || n == 3));
        v.push(case(format!("echo n={n} conns={conns} buf={buf}"), b, move || async move {
            let (_s, sub) = server(cfg().buf(buf)).await?;
            for i in 0..n {
                slow_echo(&sub, &format!("e{i}"), &format!("t{i}"), 1).await?;
            }
            let (_c, csub) = cfg().conns(conns).buf(buf).port(1).sub("svc").await?;
            call_echo(&csub, addr(0), raw("e0", "warm", b"up"), "t0").await?;
            settle().await;
            explore_on();
            let calls: Vec<Call> = (0..n)
                .map(|i| {
                    let m = raw(&format!("e{i}"), &format!("h{i}"), format!("b{i}").as_bytes());
                    spawn_call(&csub, addr(0), m, &format!("t{i}"))
                })
                .collect();
            for c in calls {
                c.echoed().await?;
            }
            Ok(format!("connections {}", tokio::net::mc::connections_to(addr(0))))
        }));
    }

    // all orders of the responses of a raw peer, with concurrent calls
    for n in [2usize, 3, 4] {
        let b = Bounds::sched(if n == 2 { 1 + u32::from(t.thorough()) } else { u32::from(t.thorough()) });
        v.push(case(format!("orders n={n}"), b, move || async move {
            let l = Listener::bind(0).await?;
            let (_c, csub) = cfg().buf(2).port(1).sub("svc").await?;
            let peer = peer_task(async move {
                let mut p = l.serve().await?;
                let mut got = vec![];
                for _ in 0..n {
                    got.push(p.message("request").await?);
                }
                let order = free_perm(n, "response order");
                for i in &order {
                    p.send_all(&echo_frames(got[*i].0, &got[*i].1, "t")?).await?;
                }
                let rest = echo_peer(p, "t").await?;
                Ok(format!("{order:?} {rest}"))
            });
            explore_on();
            let calls: Vec<Call> = (0..n)
                .map(|i| spawn_call(&csub, addr(0), raw(&format!("e{i}"), "h", b"b"), "t"))
                .collect();
            for c in calls {
                c.echoed().await?;
            }
            drop((_c, csub));
            join("peer", peer).await
        }));
    }

    // all interleavings of the fragments of two or three responses
    for lens in [vec![2usize, 2], vec![3, 2], vec![3, 3], vec![2, 2, 2]] {
        for buf in [1usize, 3] {
            let lens = lens.clone();
            let thorough = t.thorough();
            let b = Bounds::sched(u32::from(thorough && lens.len() == 2));
            v.push(case(format!("fragments {lens:?} buf={buf}"), b, move || {
                let lens = lens.clone();
                async move {
                    let l = Listener::bind(0).await?;
                    let (_c, csub) = cfg().buf(buf).port(1).sub("svc").await?;
                    let n = lens.len();
                    let peer = peer_task(async move {
                        let mut p = l.serve().await?;
                        let mut frames = BTreeMap::new();
                        for _ in 0..n {
                            let (id, a) = p.message("request").await?;
                            let r = echo_reply("t", &message_of(&a)?);
                            let i: usize = r.endpoint()[1..].parse().unwrap();
                            // lens[i] frames with the body cut into pieces
                            let body = r.body();
                            let k = lens[i];
                            let cut = body.len() / k;
                            let mut parts: Vec<Vec<Vec<u8>>> = vec![];
                            for j in 0..k {
                                let piece = if j + 1 < k { &body[j * cut..(j + 1) * cut] } else { &body[j * cut..] };
                                if j == 0 {
                                    parts.push(vec![r.endpoint().as_bytes().to_vec(), r.header().as_bytes().to_vec(), piece.to_vec()]);
                                } else {
                                    parts.push(vec![piece.to_vec()]);
                                }
                            }
                            frames.insert(i, wire::response(id, &wire::ResHead::new(0, "raw"), &parts));
                        }
                        let lens: Vec<usize> = (0..n).map(|i| frames[&i].len()).collect();
                        let order = free_merge(&lens, "fragment order");
                        let mut next = vec![0; n];
                        for i in &order {
                            p.send(&frames[i][next[*i]]).await?;
                            next[*i] += 1;
                        }
                        echo_peer(p, "t").await?;
                        Ok(format!("{order:?}"))
                    });
                    explore_on();
                    let calls: Vec<Call> = (0..n)
                        .map(|i| {
                            let m = raw(&format!("e{i}"), "h", format!("body-{i}-{i}{i}{i}{i}").as_bytes());
                            spawn_call(&csub, addr(0), m, "t")
                        })
                        .collect();
                    for c in calls {
                        c.echoed().await?;
                    }
                    drop((_c, csub));
                    join("peer", peer).await
                }
            }));
        }
    }

    // many outstanding calls, answered in several orders, whole or frame by frame
    for n in t.pick(vec![101usize, 257], vec![99, 100, 101, 127, 128, 129, 255, 256, 257, 1000]) {
        v.push(case(format!("many outstanding n={n}"), Bounds::none(), move || async move {
            let buf = [1usize, 100][free(2, "buffer")];
            let order = free(4, "order");
            let frames = 1 + free(2, "frames");
            let l = Listener::bind(0).await?;
            let (_c, csub) = cfg().buf(buf).port(1).sub("svc").await?;
            let peer = peer_task(async move {
                let mut p = l.serve().await?;
                let mut got = vec![];
                for _ in 0..n {
                    got.push(p.message("request").await?);
                }
                let pos: Vec<usize> = match order {
                    0 => (0..n).collect(),
                    1 => (0..n).rev().collect(),
                    2 => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect(),
                    _ => (0..n).map(|i| (i + n / 2) % n).collect(),
                };
                for j in 0..frames {
                    for i in &pos {
                        let r = echo_reply("t", &message_of(&got[*i].1)?);
                        let (a, b) = r.body().split_at(r.body().len() / frames);
                        let args = vec![r.endpoint().as_bytes().to_vec(), r.header().as_bytes().to_vec(), a.to_vec()];
                        let parts = if frames == 1 { vec![[&args[..2], &[r.body().to_vec()]].concat()] } else { vec![args, vec![b.to_vec()]] };
                        p.send(&wire::response(got[*i].0, &wire::ResHead::new(0, "raw"), &parts)[j]).await?;
                    }
                }
                echo_peer(p, "t").await?;
                Ok(format!("{buf} {order} {frames}"))
            });
            let calls: Vec<Call> = (0..n)
                .map(|i| spawn_call(&csub, addr(0), raw(&format!("e{i}"), "h", format!("body of {i}").as_bytes()), "t"))
                .collect();
            for c in calls {
                c.echoed().await?;
            }
            drop((_c, csub));
            join("peer", peer).await
        }));
    }

    // two clients that use the same ids at the same time, answered by one server
    v.push(case("two clients, equal ids", Bounds::sched(t.pick(2, 3)), || async {
        let (_s, sub) = server(cfg()).await?;
        slow_echo(&sub, "e", "t", 1).await?;
        slow_echo(&sub, "f", "u", 1).await?;
        let (_c, c1) = cfg().port(1).sub("svc").await?;
        let (_d, c2) = cfg().port(2).sub("svc").await?;
        explore_on();
        let a = spawn_call(&c1, addr(0), raw("e", "one", b"1"), "t");
        let b = spawn_call(&c2, addr(0), raw("f", "two", b"2"), "u");
        a.echoed().await?;
        b.echoed().await?;
        Ok("ok".into())
    }));

    // raw clients: equal ids on two connections, all handler completion orders
    v.push(case("raw clients, equal ids, all completion orders", Bounds::sched(1), || async {
        let (_s, sub) = server(cfg()).await?;
        let gates: Vec<Gate> = (0..4).map(|_| Gate::new()).collect();
        for (i, g) in gates.iter().enumerate() {
            gated_echo(&sub, &format!("e{i}"), &format!("t{i}"), g).await?;
        }
        let peers = peer_task(async move {
            let mut p = [Peer::client(addr(0)).await?, Peer::client(addr(0)).await?];
            explore_on();
            for (i, p) in p.iter_mut().enumerate() {
                for j in 0..2 {
                    let m = raw(&format!("e{}", 2 * i + j), &format!("h{i}{j}"), b"b");
                    p.send_all(&request_frames(7 + j as u32, "svc", &m)).await?;
                }
            }
            settle().await;
            ensure!(gates.iter().all(|g| g.entered() == 1), "a request did not reach its handler");
            let order = free_perm(4, "completion");
            for k in &order {
                gates[*k].open();
                let (i, j) = (k / 2, k % 2);
                let (id, a) = p[i].message("response").await?;
                ensure!(id == 7 + j as u32, "response {id} instead of {}", 7 + j);
                let m = message_of(&a)?;
                let want = echo_reply(&format!("t{k}"), &raw(&format!("e{k}"), &format!("h{i}{j}"), b"b"));
                ensure!(same(&m, &want), "response {} instead of {}", show(&m), show(&want));
            }
            Ok(format!("{order:?}"))
        });
        join("peers", peers).await
    }));
    v
}
