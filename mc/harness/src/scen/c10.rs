//! C10: handlers run exactly once per request and never concurrently.

use super::sizes::text;
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame, ReqHead};
use mccore::explore::{Bounds, Case};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use super::c09::{failure, FAILURES};
use tchannel_rs::errors::HandlerError;
use tchannel_rs::messages::{JsonMessage, RawMessage};
use tchannel_rs::SubChannel;
use tokio::io::AsyncWriteExt;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "several requests to one handler over one or more connections in every schedule within the bounds; requests cut at every byte, by every kind of end and by foreign frames; every service and endpoint of a set of confusable names; a violation is overlapping invocations, a request handled twice or not at all, by another handler, or before it is complete",
    }
}

/// A handler that records its invocations and notices overlaps.
#[derive(Clone)]
struct Watched {
    running: Num,
    overlap: Num,
    seen: Record<String>,
}

impl Watched {
    fn new() -> Watched {
        Watched { running: Num::new(), overlap: Num::new(), seen: Record::new() }
    }
    fn enter(&self, r: &RawMessage) {
        if self.running.add(1) > 1 {
            self.overlap.add(1);
        }
        self.seen.push(r.header().clone());
    }
    fn leave(&self) {
        self.running.add(-1);
    }
    async fn register(&self, sub: &SubChannel, ep: &str, sync: bool, suspend: usize) -> Res {
        let w = self.clone();
        if sync {
            let point = Arc::new(tokio::mc::AtomicBool::new(false));
            register_sync(sub, ep, move |r| {
                w.enter(&r);
                for _ in 0..suspend {
                    // scheduling point: other threads may run
                    point.store(true, Ordering::SeqCst);
                }
                w.leave();
                Ok(echo_reply("t", &r))
            })
            .await
        } else {
            register_async(sub, ep, move |r| {
                let w = w.clone();
                Box::pin(async move {
                    w.enter(&r);
                    for _ in 0..suspend {
                        tokio::task::yield_now().await;
                    }
                    w.leave();
                    Ok(echo_reply("t", &r))
                })
            })
            .await
        }
    }
    fn check(&self, want: &[String]) -> Res {
        ensure!(self.overlap.get() == 0, "invocations of one handler overlap");
        let mut a = self.seen.get();
        a.sort();
        let mut b = want.to_vec();
        b.sort();
        ensure!(a == b, "handler ran for {a:?}, requests were {b:?}");
        Ok(())
    }
}

const NAMES: [&str; 8] = ["e", "E", "ee", "e ", "", "svc", "é", "e\0"];

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // concurrent requests to one handler, real clients
    for sync in [false, true] {
        for tasks in [0usize, 1, 3] {
            for (clients, n) in [(1usize, 2usize), (1, 3), (2, 1), (2, 2), (3, 1)] {
                let deep = clients * n == 2 && tasks != 1;
                v.push(case(
                    format!("same handler sync={sync} tasks={tasks} clients={clients} calls={n}"),
                    Bounds::sched(t.pick(1, 2) + u32::from(deep)),
                    move || async move {
                        let (_s, sub) = server(cfg().tasks(tasks).buf(2)).await?;
                        let w = Watched::new();
                        w.register(&sub, "e", sync, 2).await?;
                        echo(&sub, "warm", "t").await?;
                        let mut subs = vec![];
                        for i in 0..clients {
                            let x = cfg().buf(1).port(1 + i as u16).sub("svc").await?;
                            call_echo(&x.1, addr(0), raw("warm", "", b""), "t").await?;
                            subs.push(x);
                        }
                        settle().await;
                        explore_on();
                        let mut calls = vec![];
                        let mut want = vec![];
                        for (c, (_, s)) in subs.iter().enumerate() {
                            for i in 0..n {
                                let h = format!("{c}.{i}");
                                want.push(h.clone());
                                calls.push(spawn_call(s, addr(0), raw("e", &h, b"b"), "t"));
                            }
                        }
                        for c in calls {
                            c.echoed().await?;
                        }
                        explore_off();
                        settle().await;
                        w.check(&want)?;
                        Ok(format!("{:?}", w.seen.get()))
                    },
                ));
            }
        }
    }
    // raw clients: requests arrive together, multi-frame and interleaved
    for tasks in [0usize, 2] {
        for conns in [1usize, 2] {
            v.push(case(format!("interleaved requests tasks={tasks} connections={conns}"), Bounds::sched(t.pick(1, 2)), move || async move {
                let (_s, sub) = server(cfg().tasks(tasks).buf(1)).await?;
                let w = Watched::new();
                w.register(&sub, "e", false, 3).await?;
                let w2 = w.clone();
                let peer = peer_task(async move {
                    let mut ps = vec![];
                    for _ in 0..conns {
                        ps.push(Peer::client(addr(0)).await?);
                    }
                    let mut want = vec![];
                    let mut seqs: Vec<(usize, Vec<Frame>)> = vec![];
                    for i in 0..3usize {
                        let h = i.to_string();
                        want.push(h.clone());
                        let e = [vec![b"e".to_vec(), h.into_bytes()], vec![vec![], b"b".to_vec()]];
                        seqs.push((i % conns, wire::request(7 + (i / conns) as u32, &ReqHead::new("svc", "raw"), &e)));
                    }
                    let order = free_merge(&[2, 2, 2], "order");
                    explore_on();
                    let mut next = [0; 3];
                    for i in &order {
                        let (c, f) = &seqs[*i];
                        ps[*c].send(&f[next[*i]]).await?;
                        next[*i] += 1;
                    }
                    for i in 0..3 {
                        ps[i % conns].message("response").await?;
                    }
                    settle().await;
                    w2.check(&want)?;
                    Ok(format!("{order:?} {:?}", w2.seen.get()))
                });
                join("peer", peer).await
            }));
        }
    }
    // requests that end before they are complete
    for frames in [1usize, 2, 3, 5] {
        for end in ["close", "reset", "half", "silence"] {
            v.push(case(format!("incomplete request frames={frames} end={end}"), Bounds::none(), move || async move {
                let (_s, sub) = server(cfg().buf(1)).await?;
                let w = Watched::new();
                w.register(&sub, "e", false, 0).await?;
                let w2 = w.clone();
                let peer = peer_task(async move {
                    let mut p = Peer::client(addr(0)).await?;
                    let e: Vec<Vec<Vec<u8>>> = match frames {
                        1 => vec![vec![b"e".to_vec(), b"h".to_vec(), b"b".to_vec()]],
                        2 => vec![vec![b"e".to_vec(), b"h".to_vec(), b"b".to_vec()], vec![vec![]]],
                        3 => vec![vec![b"e".to_vec()], vec![vec![], b"h".to_vec()], vec![vec![], b"b".to_vec()]],
                        _ => vec![vec![b"e".to_vec(), b"h".to_vec(), vec![1]], vec![vec![2]], vec![vec![3]], vec![vec![]], vec![vec![4]]],
                    };
                    let bytes: Vec<u8> =
                        wire::request(7, &ReqHead::new("svc", "raw"), &e).iter().flat_map(|f| f.encode()).collect();
                    let at = free(bytes.len() + 1, "bytes");
                    p.send_bytes(&bytes[..at]).await?;
                    match end {
                        "close" => drop(p),
                        "reset" => p.reset(),
                        "half" => {
                            p.s.shutdown().await.map_err(|e| e.to_string())?;
                            settle().await;
                            drop(p)
                        }
                        _ => {
                            settle().await;
                            tokio::time::sleep(std::time::Duration::from_secs(60)).await;
                            drop(p)
                        }
                    }
                    settle().await;
                    let seen = w2.seen.get();
                    if at < bytes.len() {
                        ensure!(seen.is_empty(), "handler ran for {at} of {} bytes of a request", bytes.len());
                    } else if end == "silence" {
                        ensure!(seen == ["h"], "handler ran for {seen:?}");
                    } else {
                        ensure!(seen.len() <= 1, "handler ran for {seen:?}");
                    }
                    // others are served
                    let mut p = Peer::client(addr(0)).await?;
                    p.send(&wire::simple_request(1, "svc", "e", "next", b"")).await?;
                    p.message("response").await?;
                    Ok(format!("{at}"))
                });
                join("peer", peer).await
            }));
        }
    }
    // a foreign frame takes the place of a continuation
    v.push(case("incomplete request, foreign frame", Bounds::none(), || async {
        let (_s, sub) = server(cfg().buf(1)).await?;
        let w = Watched::new();
        w.register(&sub, "e", false, 0).await?;
        let w2 = w.clone();
        let peer = peer_task(async move {
            let mut p = Peer::client(addr(0)).await?;
            let f = wire::request(
                7,
                &ReqHead::new("svc", "raw"),
                &[vec![b"e".to_vec(), b"h".to_vec()], vec![vec![], b"b".to_vec()], vec![b"c".to_vec()]],
            );
            let foreign = [
                wire::cancel(7),
                wire::claim(7),
                wire::error(7, 2, "cancelled"),
                wire::ping_req(7),
                wire::ping_res(7),
                wire::init_req(7),
                wire::init_res(7),
                wire::simple_response(7, "e", "h", b"x"),
            ];
            let at = free(2, "position") + 1;
            let k = free(foreign.len(), "frame");
            p.send_all(&f[..at]).await?;
            p.send(&foreign[k]).await?;
            settle().await;
            ensure!(w2.seen.len() == 0, "handler ran for an incomplete request");
            drop(p);
            settle().await;
            ensure!(w2.seen.len() == 0, "handler ran for an incomplete request");
            Ok(format!("{at} {k}"))
        });
        join("peer", peer).await
    }));
    // the right handler, and no other
    for tasks in [1usize, 4] {
        v.push(case(format!("confusable names tasks={tasks}"), Bounds::none(), move || async move {
            let (s, _) = server(cfg().tasks(tasks)).await?;
            let seen: Record<(usize, usize)> = Record::new();
            for (i, svc) in NAMES.iter().enumerate() {
                let sub = subchannel(&s, svc).await?;
                for (j, ep) in NAMES.iter().enumerate() {
                    if (i + j) % 5 == 4 {
                        continue; // not registered
                    }
                    let seen = seen.clone();
                    register_sync(&sub, ep, move |r| {
                        seen.push((i, j));
                        Ok(echo_reply(&format!("{i}.{j}"), &r))
                    })
                    .await?;
                }
            }
            let (c, _) = cfg().port(1).sub("x").await?;
            let i = free(NAMES.len(), "service");
            let j = free(NAMES.len(), "endpoint");
            let csub = subchannel(&c, NAMES[i]).await?;
            if (i + j) % 5 == 4 {
                spawn_call(&csub, addr(0), raw(NAMES[j], "h", b"b"), "").fails().await?;
                ensure!(seen.len() == 0, "handlers {:?} ran", seen.get());
            } else {
                call_echo(&csub, addr(0), raw(NAMES[j], "h", b"b"), &format!("{i}.{j}")).await?;
                ensure!(seen.get() == [(i, j)], "handlers {:?} ran", seen.get());
            }
            Ok(format!("{i} {j}"))
        }));
    }
    // once, whatever the handler decides
    for tasks in [1usize, 4] {
        v.push(case(format!("every outcome tasks={tasks}"), Bounds::none(), move || async move {
            let (_s, sub) = server(cfg().tasks(tasks)).await?;
            let n = Num::new();
            let kind = free(4, "kind of handler");
            let outcome = free(FAILURES + 2, "outcome");
            let suspend = free(2, "suspended");
            let m = n.clone();
            fn decide<M: tchannel_rs::messages::Message>(r: M, o: usize) -> tchannel_rs::handler::HandlerResult<M> {
                match o {
                    0 => Ok(r),
                    1 => Err(HandlerError::MessageError(r)),
                    o => Err(failure(o - 2)),
                }
            }
            let e = match kind {
                0 => {
                    sub.register("e", SyncFn(move |r: RawMessage| {
                        m.add(1);
                        decide(r, outcome)
                    }))
                    .await
                }
                1 => {
                    sub.register("e", JsonSyncFn(move |r: JsonMessage| {
                        m.add(1);
                        decide(r, outcome)
                    }))
                    .await
                }
                2 => {
                    sub.register_async("e", AsyncFn(move |r: RawMessage| -> BoxFut<RawResult> {
                        let m = m.clone();
                        Box::pin(async move {
                            m.add(1);
                            for _ in 0..suspend {
                                tokio::task::yield_now().await;
                            }
                            decide(r, outcome)
                        })
                    }))
                    .await
                }
                _ => {
                    sub.register_async("e", JsonAsyncFn(move |r: JsonMessage| -> BoxFut<JsonResult> {
                        let m = m.clone();
                        Box::pin(async move {
                            m.add(1);
                            for _ in 0..suspend {
                                tokio::task::yield_now().await;
                            }
                            decide(r, outcome)
                        })
                    }))
                    .await
                }
            };
            e.map_err(|e| e.to_string())?;
            let (_c, csub) = cfg().port(1).sub("svc").await?;
            for i in 1..=3 {
                let good = if kind % 2 == 0 {
                    within(EVENTUALLY, "call", send(&csub, addr(0), raw("e", "h", b"b"))).await?.is_ok()
                } else {
                    let j = JsonMessage::new("e".into(), Default::default(), Default::default());
                    within(EVENTUALLY, "call", send_json(&csub, addr(0), j)).await?.is_ok()
                };
                ensure!(good == (outcome == 0), "success={good} for outcome {outcome}");
                settle().await;
                ensure!(n.get() == i, "handler ran {} times for {i} requests", n.get());
            }
            tokio::time::sleep(std::time::Duration::from_secs(120)).await;
            settle().await;
            ensure!(n.get() == 3, "handler ran {} times for 3 requests", n.get());
            Ok(format!("{kind} {outcome}"))
        }));
    }
    // long names that differ in one place
    v.push(case("long names", Bounds::none(), || async {
        let (s, _) = server(cfg()).await?;
        let svcs: Vec<String> = (0..3).map(|i| format!("{}{i}", text(254, 1))).collect();
        let eps: Vec<String> = [100usize, 65_400, 65_535, 70_000, 140_000]
            .iter()
            .flat_map(|n| (0..2).map(move |i| format!("{}{i}", text(n - 1, 1))))
            .collect();
        let seen: Record<(usize, usize)> = Record::new();
        for (i, svc) in svcs.iter().enumerate() {
            let sub = subchannel(&s, svc).await?;
            for (j, ep) in eps.iter().enumerate() {
                let seen = seen.clone();
                register_sync(&sub, ep, move |r| {
                    seen.push((i, j));
                    Ok(echo_reply("t", &r))
                })
                .await?;
            }
        }
        let (c, _) = cfg().port(1).sub("x").await?;
        let i = free(svcs.len(), "service");
        let j = free(eps.len(), "endpoint");
        let csub = subchannel(&c, &svcs[i]).await?;
        call_echo(&csub, addr(0), raw(&eps[j], "h", b"b"), "t").await?;
        ensure!(seen.get() == [(i, j)], "handlers {:?} ran", seen.get());
        Ok(format!("{i} {j}"))
    }));
    // long histories: exactly once, in the order of a sequential client
    v.push(case("history", Bounds::none(), move || async move {
        let (_s, sub) = server(cfg().tasks(1).buf(1)).await?;
        let w = Watched::new();
        w.register(&sub, "e", false, 1).await?;
        let (_c, csub) = cfg().buf(1).port(1).sub("svc").await?;
        let mut want = vec![];
        let mut count: BTreeMap<usize, usize> = BTreeMap::new();
        for i in 0..t.pick(300, 3000) {
            let h = i.to_string();
            want.push(h.clone());
            let n = [0usize, 70_000, 3][i % 3];
            *count.entry(n).or_default() += 1;
            call_echo(&csub, addr(0), raw("e", &h, &vec![1; n]), "t").await?;
        }
        ensure!(w.seen.get() == want, "handled in another order");
        Ok(format!("{count:?}"))
    })
    .opts(|o| o.max_steps = 20_000_000));
    v
}
