//! C18: outstanding calls on a connection have distinct ids.

use super::sizes::blob;
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire;
use mccore::explore::{Bounds, Case};
use std::collections::BTreeMap;
use std::sync::Arc;
use tchannel_rs::SubChannel;
use tokio::mc::{advance_counters, set_counter_start};

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "concurrent calls in every schedule within the bounds, with the id counter starting at every value around its wrap-around and with every number of ids consumed between two calls that makes the counter meet the ids of outstanding calls again, single- and multi-frame, with and without pings; long histories with an outstanding call; every kind of finished request whose id is used again on a server connection; a violation is two outstanding calls with one id, a frame under a wrong id, or a call that fails or gets another one's response",
    }
}

/// Server side of one connection that keeps track of what is outstanding.
struct Tracker {
    p: Peer,
    col: wire::Collector,
    /// complete requests without an answer
    held: BTreeMap<u32, wire::Assembly>,
}

impl Tracker {
    fn new(p: Peer) -> Tracker {
        Tracker { p, col: Default::default(), held: BTreeMap::new() }
    }
    /// Takes frames until `n` complete requests are held; answers pings.
    async fn hold(&mut self, n: usize) -> Res {
        while self.held.len() < n {
            let f = self.p.expect("frame").await?;
            self.frame(f).await?;
        }
        Ok(())
    }
    async fn frame(&mut self, f: wire::Frame) -> Res {
        let first = f.ty == wire::CALL_REQ || f.ty == wire::PING_REQ;
        if first {
            ensure!(!self.held.contains_key(&f.id), "id {} used again while its call is outstanding", f.id);
            ensure!(!self.col.open.contains_key(&f.id), "id {} used again while its request is being sent", f.id);
        }
        if f.ty == wire::PING_REQ {
            return self.p.send(&wire::ping_res(f.id)).await;
        }
        ensure!(
            first || self.col.open.contains_key(&f.id),
            "frame {:#x} under id {}, which has no request being sent",
            f.ty,
            f.id
        );
        if let Some((id, a)) = self.col.feed(&f)? {
            self.held.insert(id, a);
        }
        Ok(())
    }
    async fn answer(&mut self, id: u32) -> Res {
        let a = self.held.remove(&id).ok_or("nothing held under that id")?;
        self.p.send_all(&echo_frames(id, &a, "t")?).await
    }
    /// Answers what is held, and then everything else, until the connection ends.
    async fn rest(mut self) -> Res {
        for id in self.held.keys().copied().collect::<Vec<_>>() {
            self.answer(id).await?;
        }
        while let Some(f) = self.p.recv().await? {
            self.frame(f).await?;
            for id in self.held.keys().copied().collect::<Vec<_>>() {
                self.answer(id).await?;
            }
        }
        Ok(())
    }
}

fn request(sub: &Arc<SubChannel>, i: usize, big: bool) -> Call {
    let body = if big { blob(70_000 + i, i) } else { format!("b{i}").into_bytes() };
    spawn_call(sub, addr(0), raw("e", &i.to_string(), &body), "t")
}

const M: u32 = u32::MAX;

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // concurrent calls, from every start of the counter around the wrap-around
    for k in [2usize, 3] {
        for big in [false, true] {
            for test in [false, true] {
                for start in [0, M - 3, M - 2, M - 1, M] {
                    let mut d = if k == 2 { t.pick(3, 4) } else { t.pick(2, 3) };
                    if test || big {
                        d = 1;
                    }
                    v.push(case(format!("concurrent calls={k} big={big} test={test} start={start}"), Bounds::sched(d), move || async move {
                        set_counter_start(start);
                        let l = Listener::bind(0).await?;
                        let mut c = cfg().buf(1).port(1);
                        if test {
                            c = c.test();
                        }
                        let (_c, sub) = c.sub("svc").await?;
                        let peer = peer_task(async move {
                            let mut tr = Tracker::new(l.serve().await?);
                            tr.hold(1).await?;
                            let first = *tr.held.keys().next().unwrap();
                            tr.answer(first).await?;
                            tr.hold(k).await?;
                            tr.rest().await
                        });
                        request(&sub, 9, false).echoed().await?;
                        settle().await;
                        explore_on();
                        let calls: Vec<Call> = (0..k).map(|i| request(&sub, i, big)).collect();
                        for c in calls {
                            c.echoed().await?;
                        }
                        explore_off();
                        // and go on behind it
                        for i in 10..16 {
                            request(&sub, i, false).echoed().await?;
                        }
                        drop((_c, sub));
                        join("peer", peer).await?;
                        Ok("ok".into())
                    }));
                }
            }
        }
    }
    // the counter meets the ids of outstanding calls again
    for outstanding in [1usize, 2, 3] {
        for k in [1usize, 2] {
            for test in [false, true] {
                for big in [false, true] {
                    let d = match (k, test || big, outstanding) {
                        (1, false, _) => t.pick(1, 3),
                        (2, false, 1) => t.pick(2, 3),
                        _ => t.pick(0, 1),
                    };
                    v.push(case(
                        format!("outstanding={outstanding} met again by calls={k} test={test} big={big}"),
                        Bounds::sched(d),
                        move || async move {
                            let l = Listener::bind(0).await?;
                            let mut c = cfg().buf(1).port(1);
                            if test {
                                c = c.test();
                            }
                            let (_c, sub) = c.sub("svc").await?;
                            let go = Gate::new();
                            let gate = go.clone();
                            let peer = peer_task(async move {
                                let mut tr = Tracker::new(l.serve().await?);
                                tr.hold(outstanding + k).await?;
                                gate.wait().await;
                                // new and old ones are answered in any order of the two groups
                                let ids: Vec<u32> = tr.held.keys().copied().collect();
                                for i in free_perm(ids.len().min(3), "order") {
                                    tr.answer(ids[i]).await?;
                                }
                                tr.rest().await
                            });
                            let mut calls = vec![];
                            // some ids may be free in between
                            let gaps = free(2, "gaps") as u32;
                            for i in 0..outstanding {
                                calls.push(request(&sub, i, false));
                                settle().await;
                                advance_counters(gaps);
                            }
                            // all but a few of 2^32 ids are consumed meanwhile
                            let back = 1 + free(2 * outstanding + 2, "back") as u32;
                            advance_counters(0u32.wrapping_sub(back));
                            explore_on();
                            for i in 0..k {
                                calls.push(request(&sub, outstanding + i, big));
                            }
                            settle().await;
                            settle().await;
                            explore_off();
                            go.open();
                            for c in calls {
                                c.echoed().await?;
                            }
                            // further ones
                            for i in 10..13 {
                                request(&sub, i, false).echoed().await?;
                            }
                            drop((_c, sub));
                            join("peer", peer).await?;
                            Ok(format!("gaps {gaps} back {back}"))
                        },
                    ));
                }
            }
        }
    }
    // the same with the real server
    for k in [1usize, 2] {
        v.push(case(format!("met again, real server calls={k}"), Bounds::sched(t.pick(1, 2)), move || async move {
            let (_s, ssub) = server(cfg().buf(1)).await?;
            let gate = Gate::new();
            gated_echo(&ssub, "slow", "s", &gate).await?;
            echo(&ssub, "e", "t").await?;
            let (_c, sub) = cfg().buf(1).port(1).sub("svc").await?;
            let slow = spawn_call(&sub, addr(0), raw("slow", "h", b"b"), "s");
            settle().await;
            ensure!(gate.entered() == 1, "the call did not reach its handler");
            advance_counters(0u32.wrapping_sub(1 + free(2, "back") as u32));
            explore_on();
            let calls: Vec<Call> = (0..k).map(|i| request(&sub, i, false)).collect();
            for c in calls {
                c.echoed().await?;
            }
            explore_off();
            gate.open();
            slow.echoed().await?;
            request(&sub, 5, false).echoed().await?;
            Ok("ok".into())
        }));
    }
    // finished calls leave nothing behind: all ids that were used come again
    let len = t.pick(4usize, 6);
    for buf in [1usize, 4] {
        v.push(case(format!("ids come again length={len} buf={buf}"), Bounds::none(), move || async move {
            let (_s, ssub) = server(cfg().buf(buf)).await?;
            echo(&ssub, "e", "t").await?;
            register_sync(&ssub, "bad", |r| Err(tchannel_rs::errors::HandlerError::MessageError(r))).await?;
            let (_c, sub) = cfg().buf(buf).port(1).sub("svc").await?;
            let mut h = vec![];
            for i in 0..len {
                let op = free(4, "operation");
                h.push(op);
                match op {
                    0 => request(&sub, i, false).echoed().await?,
                    1 => request(&sub, i, true).echoed().await?,
                    2 => {
                        let r = within(PROMPT, "message error", send(&sub, addr(0), raw("bad", "h", b"b"))).await?;
                        ensure!(
                            matches!(r, Err(tchannel_rs::errors::HandlerError::MessageError(_))),
                            "{h:?}: {}",
                            res_text(&r)
                        );
                    }
                    _ => spawn_call(&sub, addr(0), raw("none", "h", b"b"), "").fails().await?,
                }
                // half of the time the next call has the same id again
                if free(2, "again") == 1 {
                    advance_counters(M);
                }
            }
            ensure!(tokio::net::mc::connections_to(addr(0)) == 1, "{h:?}: the connection was replaced");
            Ok(format!("{h:?}"))
        }));
    }
    // a raw client uses the id of a finished request again
    for buf in [1usize, 4] {
        v.push(case(format!("raw client reuses ids buf={buf}"), Bounds::none(), move || async move {
            let (_s, ssub) = server(cfg().buf(buf)).await?;
            echo(&ssub, "e", "t").await?;
            register_sync(&ssub, "bad", |r| Err(tchannel_rs::errors::HandlerError::MessageError(r))).await?;
            let mut p = Peer::client(addr(0)).await?;
            let mut h = vec![];
            let id = [1u32, 0, M - 1][free(3, "id")];
            for i in 0..t.pick(3, 4) {
                let op = free(7, "request");
                h.push(op);
                let m = raw("e", &i.to_string(), &blob(if op == 1 { 150_000 } else { 10 }, i));
                match op {
                    0 | 1 => {
                        p.send_all(&request_frames(id, "svc", &m)).await?;
                        let (rid, a) = p.message("response").await?;
                        ensure!(rid == id, "{h:?}: response under {rid}");
                        ensure!(same(&message_of(&a)?, &echo_reply("t", &m)), "{h:?}: wrong response");
                    }
                    2 => {
                        p.send_all(&request_frames(id, "svc", &raw("bad", "h", b"b"))).await?;
                        let (rid, _) = p.message("response").await?;
                        ensure!(rid == id, "{h:?}: response under {rid}");
                    }
                    3 | 4 => {
                        // nobody serves it
                        let m = if op == 3 { raw("none", "h", b"b") } else { raw("none", "h", &blob(150_000, i)) };
                        p.send_all(&request_frames(id, if op == 3 { "svc" } else { "other" }, &m)).await?;
                        let f = p.expect("error").await?;
                        ensure!(f.ty == wire::ERROR && f.id == id, "{h:?}: frame {:#x} under {}", f.ty, f.id);
                    }
                    5 => {
                        p.send(&wire::ping_req(id)).await?;
                        let f = p.expect("ping response").await?;
                        ensure!(f.ty == wire::PING_RES && f.id == id, "{h:?}: frame {:#x} under {}", f.ty, f.id);
                    }
                    _ => {
                        // cancelled once it is done
                        p.send(&wire::cancel(id)).await?;
                    }
                }
            }
            Ok(format!("{id} {h:?}"))
        }));
    }
    // the client gets along with every order in which ids become free
    let len = t.pick(6usize, 8);
    v.push(case(format!("histories length={len}"), Bounds::none(), move || async move {
        // issue a call, let the oldest or the newest one be answered, or skip almost all ids
        let l = Listener::bind(0).await?;
        let (_c, sub) = cfg().buf(1).port(1).sub("svc").await?;
        request(&sub, 99, false).h.abort();
        let go = Arc::new(tokio::sync::Mutex::new(None));
        let g2 = go.clone();
        let acc = peer_task(async move {
            *g2.lock().await = Some(Tracker::new(l.serve().await?));
            Ok(())
        });
        let first = request(&sub, 100, false);
        join("accept", acc).await?;
        let mut tr = go.lock().await.take().unwrap();
        tr.hold(1).await?;
        let id = *tr.held.keys().next().unwrap();
        tr.answer(id).await?;
        first.echoed().await?;
        let mut open: Vec<(u32, Call)> = vec![];
        let mut h = vec![];
        for i in 0..len {
            let op = free(if open.is_empty() { 2 } else { 4 }, "operation");
            h.push(op);
            match op {
                0 => {
                    let before: Vec<u32> = tr.held.keys().copied().collect();
                    let c = request(&sub, i, false);
                    tr.hold(before.len() + 1).await.map_err(|e| format!("{h:?}: {e}"))?;
                    let id = tr.held.keys().copied().find(|x| !before.contains(x)).unwrap();
                    open.push((id, c));
                }
                1 => advance_counters(M - 1),
                _ => {
                    let (id, c) = if op == 2 { open.remove(0) } else { open.pop().unwrap() };
                    tr.answer(id).await?;
                    c.echoed().await.map_err(|e| format!("{h:?}: {e}"))?;
                }
            }
        }
        for (id, c) in open {
            tr.answer(id).await?;
            c.echoed().await.map_err(|e| format!("{h:?}: {e}"))?;
        }
        Ok(format!("{h:?}"))
    }));
    // very many outstanding calls
    for n in [300usize, 70_000] {
        v.push(case(format!("many outstanding n={n}"), Bounds::none(), move || async move {
            let l = Listener::bind(0).await?;
            let (_c, sub) = cfg().port(1).sub("svc").await?;
            let peer = peer_task(async move {
                let mut tr = Tracker::new(l.serve().await?);
                tr.hold(n).await?;
                tr.rest().await
            });
            let calls: Vec<Call> = (0..n).map(|i| request(&sub, i, false)).collect();
            for c in calls {
                c.echoed().await?;
            }
            request(&sub, n, false).echoed().await?;
            drop((_c, sub));
            join("peer", peer).await
                .map(|_| "ok".into())
        })
        .opts(|o| o.max_steps = 100_000_000));
    }
    // very many calls while one is outstanding
    for (name, raw_peer) in [("raw peer", true), ("real server", false)] {
        let n = t.pick(70_000usize, 300_000);
        v.push(case(format!("many calls, {name}"), Bounds::none(), move || async move {
            let gate = Gate::new();
            let mut peer = None;
            let mut srv = None;
            if raw_peer {
                let l = Listener::bind(0).await?;
                let gate = gate.clone();
                peer = Some(peer_task(async move {
                    let mut tr = Tracker::new(l.serve().await?);
                    tr.hold(1).await?;
                    let slow = *tr.held.keys().next().unwrap();
                    let mut open = false;
                    while let Some(f) = tr.p.recv().await? {
                        tr.frame(f).await?;
                        open |= gate.opened();
                        for id in tr.held.keys().copied().collect::<Vec<_>>() {
                            if id != slow || open {
                                tr.answer(id).await?;
                            }
                        }
                    }
                    Ok::<(), String>(())
                }));
            } else {
                let (s, ssub) = server(cfg()).await?;
                gated_echo(&ssub, "slow", "t", &gate).await?;
                echo(&ssub, "e", "t").await?;
                srv = Some(s);
            }
            let (_c, sub) = cfg().port(1).sub("svc").await?;
            let slow = spawn_call(&sub, addr(0), raw("slow", "h", b"b"), "t");
            settle().await;
            for i in 0..n {
                call_echo(&sub, addr(0), raw("e", &i.to_string(), b"b"), "t").await?;
            }
            gate.open();
            call_echo(&sub, addr(0), raw("e", "last", b"b"), "t").await?;
            slow.echoed().await?;
            drop((_c, sub));
            if let Some(p) = peer {
                join("peer", p).await?;
            }
            drop(srv);
            Ok("ok".into())
        })
        .opts(|o| o.max_steps = 100_000_000));
    }
    v
}
