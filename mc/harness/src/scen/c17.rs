//! C17: pooling of connections.

use super::sizes::blob;
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire;
use mccore::explore::{Bounds, Case};
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};
use std::sync::Arc;
use std::time::Duration;
use tchannel_rs::{SubChannel, TChannel};
use tokio::net::mc::{self, CutKind};
use tokio::net::TcpListener;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "concurrent first and later calls over pools of several sizes in every schedule within the bounds, all sequences of calls of several kinds to several peers, and all sequences of calls and pauses for several lifetimes with calls in flight across the retirement of their connection; a violation is more open connections than configured, a connection that is not reused or not shared, one that is used although it should have been replaced, calls mixed up between peers, or a call lost on a retired connection",
    }
}

/// Serves every connection as an echo server whose tag tells peer and connection.
async fn tagging_server(to: SocketAddr, name: &'static str) -> Res {
    let l = TcpListener::bind(to).await.map_err(|e| e.to_string())?;
    peer_task(async move {
        let mut n = 0;
        while let Ok((s, _)) = l.accept().await {
            let tag = format!("{name}{n}");
            n += 1;
            peer_task(async move {
                let mut p = Peer::new(s);
                if p.server_handshake().await.is_ok() {
                    let _ = echo_peer(p, &tag).await;
                }
            });
        }
    });
    Ok(())
}

/// Calls a `tagging_server` and returns the number of the connection used.
async fn which(sub: &SubChannel, to: SocketAddr, name: &str, header: &str) -> Res<usize> {
    let m = raw("e", header, b"b");
    let what = format!("call {header}");
    let r = within(EVENTUALLY, &what, send(sub, to, m.clone())).await?;
    let tag = match &r {
        Ok(r) => r.header().split('/').next().unwrap_or("").to_string(),
        Err(_) => return Err(format!("{what}: {}", res_text(&r))),
    };
    expect_ok(&what, &r, &echo_reply(&tag, &m))?;
    let n = tag.strip_prefix(name).ok_or_else(|| format!("{what}: answered by {tag}"))?;
    n.parse().map_err(|_| format!("{what}: answered by {tag}"))
}

/// Peer that holds all requests back and can answer them in any order.
struct Held {
    p: Peer,
    got: Vec<(u32, wire::Assembly)>,
}

async fn held(l: &Listener, n: usize) -> Res<Held> {
    let mut p = within(EVENTUALLY, "connection", l.serve()).await??;
    let mut got = vec![];
    let mut col = wire::Collector::default();
    while got.len() < n {
        let f = p.expect("request").await?;
        if f.ty == wire::PING_REQ {
            p.send(&wire::ping_res(f.id)).await?;
        } else if let Some(x) = col.feed(&f)? {
            got.push(x);
        }
    }
    Ok(Held { p, got })
}

async fn two_subs(c: Cfg) -> Res<(TChannel, [Arc<SubChannel>; 2])> {
    let (ch, a) = c.sub("svc").await?;
    let b = subchannel(&ch, "svc2").await?;
    Ok((ch, [a, b]))
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // concurrent calls never open more connections than configured
    for conns in [1u32, 2, 3] {
        for k in [2usize, 3, 4] {
            for warm in [false, true] {
                let d = match k {
                    2 if conns < 3 => t.pick(2, 3),
                    _ => t.pick(1, 2),
                };
                v.push(case(format!("limit conns={conns} calls={k} warm={warm}"), Bounds::sched(d), move || async move {
                    tagging_server(addr(0), "a").await?;
                    let (_c, subs) = two_subs(cfg().conns(conns).buf(1).port(1)).await?;
                    if warm {
                        which(&subs[0], addr(0), "a", "warm").await?;
                        settle().await;
                    }
                    explore_on();
                    let mut hs = vec![];
                    for i in 0..k {
                        let sub = subs[i % 2].clone();
                        hs.push(tokio::task::spawn_named("caller", async move {
                            which(&sub, addr(0), "a", &format!("{i}")).await?;
                            which(&sub, addr(0), "a", &format!("{i} again")).await
                        }));
                    }
                    for h in hs {
                        let c = join("caller", h).await?;
                        ensure!(c < conns as usize, "connection number {c} of {conns}");
                    }
                    settle().await;
                    explore_off();
                    for i in 0..6 {
                        let c = which(&subs[i % 2], addr(0), "a", "then").await?;
                        ensure!(c < conns as usize, "connection number {c} of {conns} used later");
                    }
                    let n = mc::connections_to(addr(0));
                    ensure!(n <= conns as usize, "{n} connections instead of at most {conns}");
                    Ok(format!("{n}"))
                }));
            }
        }
    }
    // also while connections are lost
    for conns in [1u32, 2] {
        for kind in [CutKind::Close, CutKind::Reset] {
            v.push(case(format!("limit and losses conns={conns} {kind:?}"), Bounds::sched(t.pick(1, 2)), move || async move {
                tagging_server(addr(0), "a").await?;
                let (_c, subs) = two_subs(cfg().conns(conns).buf(1).port(1)).await?;
                let mut hs = vec![];
                for i in 0..3 {
                    let sub = subs[i % 2].clone();
                    hs.push(tokio::task::spawn_named("caller", async move {
                        which(&sub, addr(0), "a", &format!("{i}")).await
                    }));
                }
                for h in hs {
                    join("caller", h).await?;
                }
                for round in 0..2 {
                    // all or the first one
                    let all = free(2, "lost") == 0;
                    settle().await;
                    explore_on();
                    for c in mc::connections_of(addr(0)) {
                        mc::kill_conn(c, kind);
                        if !all {
                            break;
                        }
                    }
                    let mut hs = vec![];
                    for i in 0..3 {
                        let sub = subs[i % 2].clone();
                        hs.push(tokio::task::spawn_named("caller", async move {
                            // may hit the lost connection
                            let _ = send(&sub, addr(0), raw("e", &format!("{round} {i}"), b"b")).await;
                            Ok(())
                        }));
                    }
                    for h in hs {
                        join("caller", h).await?;
                    }
                    explore_off();
                }
                settle().await;
                for i in 0..4 {
                    which(&subs[i % 2], addr(0), "a", "then").await?;
                }
                let n = mc::max_open(addr(0));
                ensure!(n <= conns as usize, "{n} connections at a time instead of at most {conns}");
                Ok(format!("{} made", mc::connections_to(addr(0))))
            }));
        }
    }
    // shared by concurrent calls
    for conns in [1u32, 2] {
        for k in [2usize, 5] {
            for test in [false, true] {
                v.push(case(format!("shared conns={conns} calls={k} test={test}"), Bounds::sched(t.pick(1, 2)), move || async move {
                    let got: Record<(usize, u32)> = Record::new();
                    let total = Num::new();
                    let go = Gate::new();
                    let l = Listener::bind(0).await?;
                    let (g, n, gate) = (got.clone(), total.clone(), go.clone());
                    peer_task(async move {
                        let mut c = 0;
                        while let Ok(mut p) = l.serve().await {
                            let (g, n, gate, c2) = (g.clone(), n.clone(), gate.clone(), c);
                            c += 1;
                            peer_task(async move {
                                let mut held = vec![];
                                let mut col = wire::Collector::default();
                                loop {
                                    tokio::select! {
                                        biased;
                                        _ = gate.wait() => break,
                                        f = p.recv() => match f {
                                            Ok(Some(f)) if f.ty == wire::PING_REQ => { let _ = p.send(&wire::ping_res(f.id)).await; }
                                            Ok(Some(f)) => if let Ok(Some((id, a))) = col.feed(&f) {
                                                g.push((c2, id));
                                                n.add(1);
                                                held.push((id, a));
                                            },
                                            _ => return,
                                        }
                                    }
                                }
                                for (id, a) in held.iter().rev() {
                                    if let Ok(f) = echo_frames(*id, a, "t") {
                                        let _ = p.send_all(&f).await;
                                    }
                                }
                                let _ = p.recv().await;
                            });
                        }
                    });
                    let (_c, subs) = two_subs(cfg().conns(conns).buf(1).port(1)).await?;
                    let cfg2 = test;
                    let (_c2, sub2) = if cfg2 {
                        let c = cfg().conns(conns).buf(1).port(1);
                        c.test().sub("svc").await?
                    } else {
                        cfg().port(2).sub("svc").await?
                    };
                    explore_on();
                    let calls: Vec<Call> = (0..k)
                        .map(|i| {
                            let sub = if test { &sub2 } else { &subs[i % 2] };
                            spawn_call(sub, addr(0), raw("e", &i.to_string(), b"b"), "t")
                        })
                        .collect();
                    settle().await;
                    settle().await;
                    // all of them are under way although none was answered
                    ensure!(total.get() == k as i64, "{} of {k} calls reached the peer", total.get());
                    let n = mc::connections_to(addr(0));
                    ensure!(n <= conns as usize, "{n} connections");
                    for _ in 0..n {
                        go.open();
                    }
                    for c in calls {
                        c.echoed().await?;
                    }
                    Ok(format!("{n}"))
                }));
            }
        }
    }
    // reused by later calls, whatever the calls before were
    let len = t.pick(4usize, 6);
    for conns in [1u32, 3] {
        for test in [false, true] {
            v.push(case(format!("reuse length={len} conns={conns} test={test}"), Bounds::none(), move || async move {
                let (_s, ssub) = server(cfg()).await?;
                echo(&ssub, "e", "t").await?;
                register_sync(&ssub, "bad", |r| Err(tchannel_rs::errors::HandlerError::MessageError(r))).await?;
                register_sync(&ssub, "worse", |_| Err(tchannel_rs::errors::HandlerError::GeneralError("no".into()))).await?;
                let mut c = cfg().conns(conns).port(1);
                if test {
                    c = c.test();
                }
                let (_c, subs) = two_subs(c).await?;
                let mut h = vec![];
                let mut n = 0;
                for i in 0..len {
                    let op = free(7, "operation");
                    h.push(op);
                    let m = |e: &str| raw(e, &format!("{i}"), b"b");
                    match op {
                        0 => call_echo(&subs[0], addr(0), m("e"), "t").await?,
                        1 => call_echo(&subs[0], addr(0), raw("e", "big", &blob(150_000, i)), "t").await?,
                        2 => {
                            let r = within(PROMPT, "message error", send(&subs[0], addr(0), m("bad"))).await?;
                            ensure!(
                                matches!(r, Err(tchannel_rs::errors::HandlerError::MessageError(_))),
                                "{h:?}: {}",
                                res_text(&r)
                            );
                        }
                        3 => expect_err("failing handler", &within(PROMPT, "error", send(&subs[0], addr(0), m("worse"))).await?)?,
                        4 => expect_err("unknown service", &within(PROMPT, "error", send(&subs[1], addr(0), m("e"))).await?)?,
                        5 => tokio::time::sleep(Duration::from_secs(40)).await,
                        _ => {
                            // abandoned at once
                            let sub = subs[0].clone();
                            let m = m("e");
                            let h = tokio::spawn(async move { send(&sub, addr(0), m).await.is_ok() });
                            h.abort();
                            let _ = h.await;
                        }
                    }
                    let now = mc::connections_to(addr(0));
                    ensure!(n == 0 || now == n, "{h:?}: {now} connections, there were {n}");
                    n = now;
                    ensure!(n <= 1, "{h:?}: {n} connections for calls one after the other");
                    settle().await;
                }
                Ok(format!("{h:?}"))
            }));
        }
    }
    // every address is a peer of its own
    let len = t.pick(4usize, 6);
    for conns in [1u32, 2] {
        v.push(case(format!("peers length={len} conns={conns}"), Bounds::none(), move || async move {
            let peers: [(SocketAddr, &'static str); 5] = [
                (addr(0), "a"),
                (addr(1), "b"),
                ((Ipv4Addr::new(127, 0, 0, 2), addr(0).port()).into(), "c"),
                ((Ipv6Addr::LOCALHOST, addr(0).port()).into(), "d"),
                ((Ipv6Addr::LOCALHOST, addr(1).port()).into(), "e"),
            ];
            for (to, name) in peers {
                tagging_server(to, name).await?;
            }
            let (_c, subs) = two_subs(cfg().conns(conns).port(5)).await?;
            let mut h = vec![];
            let mut used = [0usize; 5];
            for i in 0..len {
                let p = free(5, "peer");
                h.push(p);
                let c = which(&subs[i % 2], peers[p].0, peers[p].1, &format!("{i}")).await.map_err(|e| format!("{h:?}: {e}"))?;
                ensure!(c == 0, "{h:?}: connection {c}");
                used[p] = 1;
                for (q, (to, _)) in peers.iter().enumerate() {
                    ensure!(
                        mc::connections_to(*to) == used[q],
                        "{h:?}: {} connections to peer {q}",
                        mc::connections_to(*to)
                    );
                }
            }
            // a name of an address is that address
            let what = "call by name";
            let m = raw("e", "name", b"b");
            let r = within(EVENTUALLY, what, {
                use tchannel_rs::messages::{MessageChannel, RawMessage};
                MessageChannel::<RawMessage, RawMessage>::send(&*subs[0], m.clone(), addr(0).to_string())
            })
            .await?;
            expect_ok(what, &r, &echo_reply("a0", &m))?;
            ensure!(mc::connections_to(addr(0)) == 1, "{h:?}: another connection for a name");
            Ok(format!("{h:?}"))
        }));
    }
    // concurrent calls to several peers
    for conns in [1u32, 2] {
        v.push(case(format!("peers at the same time conns={conns}"), Bounds::sched(t.pick(2, 3)), move || async move {
            tagging_server(addr(0), "a").await?;
            tagging_server(addr(1), "b").await?;
            let (_c, subs) = two_subs(cfg().conns(conns).buf(1).port(5)).await?;
            explore_on();
            let mut hs = vec![];
            for i in 0..3u16 {
                let sub = subs[0].clone();
                hs.push(tokio::task::spawn_named("caller", async move {
                    which(&sub, addr(i % 2), if i % 2 == 0 { "a" } else { "b" }, &format!("{i}")).await
                }));
            }
            for h in hs {
                join("caller", h).await?;
            }
            for i in 0..2 {
                let n = mc::connections_to(addr(i));
                ensure!(n >= 1 && n <= conns as usize, "{n} connections to peer {i}");
            }
            Ok("ok".into())
        }));
    }
    // lifetimes
    let pauses = [0u64, 7, 16, 29, 33, 62];
    let len = t.pick(4usize, 6);
    for life in [1u64, 20, 30, 45, 60, 100] {
        for conns in [1u32, 2] {
            for test in [false, true] {
                if test && !t.thorough() && ![30, 45].contains(&life) {
                    continue;
                }
                let len = if t.thorough() && conns == 1 && !test { len } else { len.min(5) };
                v.push(case(format!("lifetime {life} conns={conns} test={test} length={len}"), Bounds::none(), move || async move {
                    tagging_server(addr(0), "a").await?;
                    let mut c = cfg().conns(conns).lifetime(Some(life)).port(1);
                    if test {
                        c = c.test();
                    }
                    let (_c, subs) = two_subs(c).await?;
                    let mut h = vec![];
                    let mut last = None;
                    for i in 0..len {
                        let p = pauses[if i == 0 { 0 } else { free(pauses.len(), "pause") }];
                        h.push(p);
                        tokio::time::sleep(Duration::from_secs(p)).await;
                        let now = mccore::now();
                        let before = mc::lifetimes(addr(0));
                        let c = which(&subs[0], addr(0), "a", &format!("{i}")).await.map_err(|e| format!("{h:?}: {e}"))?;
                        if let Some((born, _)) = before.get(c) {
                            let age = (now - born) / SEC;
                            ensure!(age < life + 31, "{h:?}: used a connection of {age} s");
                        }
                        if let Some(l) = last {
                            let (born, _): (u64, _) = before[l];
                            let age = (now - born) / SEC;
                            ensure!(c == l || age >= life, "{h:?}: connection of {age} s was replaced");
                        }
                        last = Some(c);
                        ensure!(mc::max_open(addr(0)) <= conns as usize, "{h:?}: {} connections", mc::max_open(addr(0)));
                    }
                    Ok(format!("{h:?}"))
                })
                .opts(|o| o.horizon = 2000 * SEC));
            }
        }
    }
    // without a lifetime
    v.push(case("no lifetime", Bounds::none(), || async {
        tagging_server(addr(0), "a").await?;
        let (_c, subs) = two_subs(cfg().lifetime(None).port(1)).await?;
        let mut h = vec![];
        for i in 0..4 {
            let p = [1u64, 31, 95, 280][free(4, "pause")];
            h.push(p);
            let c = which(&subs[0], addr(0), "a", &format!("{i}")).await?;
            ensure!(c == 0, "{h:?}: connection {c}");
            tokio::time::sleep(Duration::from_secs(p)).await;
        }
        Ok(format!("{h:?}"))
    })
    .opts(|o| o.horizon = 2000 * SEC));
    // several connections grow old together
    for conns in [2u32, 3] {
        v.push(case(format!("all grow old conns={conns}"), Bounds::sched(1), move || async move {
            tagging_server(addr(0), "a").await?;
            let (_c, subs) = two_subs(cfg().conns(conns).lifetime(Some(20)).port(1)).await?;
            for round in 0..3 {
                let now = mccore::now();
                let before = mc::lifetimes(addr(0));
                explore_on();
                let mut hs = vec![];
                for i in 0..3 {
                    let sub = subs[i % 2].clone();
                    hs.push(tokio::task::spawn_named("caller", async move {
                        which(&sub, addr(0), "a", &format!("{round} {i}")).await
                    }));
                }
                for h in hs {
                    let c = join("caller", h).await?;
                    if let Some((born, _)) = before.get(c) {
                        let age = (now - born) / SEC;
                        ensure!(age < 51, "used a connection of {age} s");
                    }
                }
                explore_off();
                settle().await;
                tokio::time::sleep(Duration::from_secs(55)).await;
            }
            let n = mc::max_open(addr(0));
            ensure!(n <= conns as usize, "{n} connections at a time");
            Ok(format!("{n}"))
        })
        .opts(|o| o.horizon = 2000 * SEC));
    }
    // calls in flight on a connection that is retired
    for k in [1usize, 2, 3] {
        for big in [false, true] {
            for test in [false, true] {
                v.push(case(format!("in flight calls={k} big={big} test={test}"), Bounds::none(), move || async move {
                    let l = Listener::bind(0).await?;
                    let mut c = cfg().buf(2).lifetime(Some(20)).port(1);
                    if test {
                        c = c.test();
                    }
                    let (_c, subs) = two_subs(c).await?;
                    let body = if big { blob(150_000, 7) } else { b"b".to_vec() };
                    let calls: Vec<Call> = (0..k)
                        .map(|i| spawn_call(&subs[0], addr(0), raw("e", &i.to_string(), &body), "old"))
                        .collect();
                    let mut old = held(&l, k).await?;
                    let order = free_perm(k, "order");
                    let early = free(k + 1, "answered before");
                    for i in &order[..early] {
                        let (id, a) = &old.got[*i];
                        old.p.send_all(&echo_frames(*id, a, "old")?).await?;
                    }
                    tokio::time::sleep(Duration::from_secs(55)).await;
                    // the first one is too old now
                    let later = spawn_call(&subs[1], addr(0), raw("e", "later", &body), "new");
                    let mut new = held(&l, 1).await?;
                    // both connections answer
                    let first = free(2, "order of connections");
                    let when = free(2, "pause");
                    for step in 0..2 {
                        if when == 1 {
                            tokio::time::sleep(Duration::from_secs(45)).await;
                        }
                        if step == first {
                            for i in &order[early..] {
                                let (id, a) = &old.got[*i];
                                old.p.send_all(&echo_frames(*id, a, "old")?).await?;
                                settle().await;
                            }
                        } else {
                            let (id, a) = &new.got[0];
                            new.p.send_all(&echo_frames(*id, a, "new")?).await?;
                        }
                    }
                    for c in calls {
                        c.echoed().await?;
                    }
                    later.echoed().await?;
                    // then the old connection ends
                    let f = within(EVENTUALLY, "end of the old connection", old.p.recv()).await??;
                    ensure!(f.is_none(), "a frame on the retired connection");
                    Ok("ok".into())
                })
                .opts(|o| o.horizon = 2000 * SEC));
            }
        }
    }
    // a request that is still being sent when its connection is retired
    for capacity in [64usize, 1000, 66_000] {
        v.push(case(format!("being sent capacity={capacity}"), Bounds::none(), move || async move {
            mc::set_capacity(capacity);
            let l = Listener::bind(0).await?;
            let (_c, subs) = two_subs(cfg().buf(1).lifetime(Some(20)).port(1)).await?;
            let call = spawn_call(&subs[0], addr(0), raw("e", "big", &blob(300_000, 1)), "old");
            let mut p = within(EVENTUALLY, "connection", l.serve()).await??;
            let read = free(3, "frames read before");
            let mut frames = vec![];
            for _ in 0..read {
                frames.push(p.expect("frame").await?);
            }
            tokio::time::sleep(Duration::from_secs(55)).await;
            let later = spawn_call(&subs[1], addr(0), raw("e", "later", b"b"), "new");
            let mut new = held(&l, 1).await?;
            let (id, a) = &new.got[0];
            new.p.send_all(&echo_frames(*id, a, "new")?).await?;
            later.echoed().await?;
            let mut col = wire::Collector::default();
            let got = loop {
                let f = if frames.is_empty() { p.expect("frame").await? } else { frames.remove(0) };
                if let Some(x) = col.feed(&f)? {
                    break x;
                }
            };
            let reply = peer_task(async move { p.send_all(&echo_frames(got.0, &got.1, "old")?).await.map(|_| p) });
            call.echoed().await?;
            let mut p = join("reply", reply).await?;
            let f = within(EVENTUALLY, "end of the old connection", p.recv()).await??;
            ensure!(f.is_none(), "a frame on the retired connection");
            Ok("ok".into())
        })
        .opts(|o| o.horizon = 2000 * SEC));
    }
    // calls issued around the moment of the retirement, with the real server
    for (conns, tasks) in [(1u32, 1usize), (1, 0), (2, 4)] {
        v.push(case(format!("around the retirement conns={conns} tasks={tasks}"), Bounds::sched(if tasks == 0 { t.pick(2, 3) } else { t.pick(1, 2) }), move || async move {
            let (_s, ssub) = server(cfg().tasks(tasks).buf(1)).await?;
            slow_echo(&ssub, "e", "t", 1).await?;
            let (_c, subs) = two_subs(cfg().conns(conns).buf(1).lifetime(Some(20)).port(1)).await?;
            call_echo(&subs[0], addr(0), raw("e", "first", b"b"), "t").await?;
            // the pool looks for old connections 30 s after the first call
            let at = mc::lifetimes(addr(0))[0].0 + 30 * SEC;
            let off = [-1i64, 0, 1][free(3, "offset")];
            tokio::time::sleep(Duration::from_nanos((at - mccore::now()).saturating_add_signed(off))).await;
            explore_on();
            let calls: Vec<Call> =
                (0..2).map(|i| spawn_call(&subs[0], addr(0), raw("e", &i.to_string(), b"b"), "t")).collect();
            for c in calls {
                c.echoed().await?;
            }
            explore_off();
            tokio::time::sleep(Duration::from_secs(1)).await;
            call_echo(&subs[0], addr(0), raw("e", "then", b"b"), "t").await?;
            settle().await;
            ensure!(mc::open_to(addr(0)) <= conns as usize, "{} connections stay", mc::open_to(addr(0)));
            Ok(format!("{}", mc::connections_to(addr(0))))
        })
        .opts(|o| o.horizon = 2000 * SEC));
    }
    // many calls, few connections
    for conns in [1u32, 4] {
        v.push(case(format!("many calls conns={conns}"), Bounds::none(), move || async move {
            tagging_server(addr(0), "a").await?;
            let (_c, subs) = two_subs(cfg().conns(conns).port(1)).await?;
            for round in 0..t.pick(20, 200) {
                let mut hs = vec![];
                for i in 0..20 {
                    let sub = subs[i % 2].clone();
                    hs.push(tokio::task::spawn_named("caller", async move {
                        which(&sub, addr(0), "a", &format!("{round} {i}")).await
                    }));
                }
                for h in hs {
                    join("caller", h).await?;
                }
            }
            let n = mc::connections_to(addr(0));
            ensure!(n <= conns as usize, "{n} connections");
            Ok(format!("{n}"))
        })
        .opts(|o| o.max_steps = 5_000_000));
    }
    v
}
