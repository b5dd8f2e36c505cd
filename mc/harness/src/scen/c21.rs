//! C21: unexpected frames do not disturb other calls.

use super::sizes::blob;
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame};
use mccore::explore::{Bounds, Case};
use std::sync::Arc;
use tchannel_rs::SubChannel;
use tokio::net::mc;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "every frame type with several contents under unknown, finished, abandoned, handshake and pending ids, at every position among the frames of the responses to several calls, repeated, and in all sequences up to a length; all duplications of response, init and ping frames; with scheduling deviations; a violation is any other call that fails, hangs or gets a wrong response, or a call whose result is neither its own response nor an error",
    }
}

fn message(i: usize, big: bool) -> tchannel_rs::messages::RawMessage {
    let body = if big { blob(66_000 + i, i) } else { format!("b{i}").into_bytes() };
    raw("e", &i.to_string(), &body)
}

/// Payloads a frame of this type may have: valid ones first.
fn payloads(ty: u8) -> Vec<Vec<u8>> {
    let m = raw("e", "stray", b"stray");
    let garbage = vec![0xff; 5];
    match ty {
        wire::INIT_REQ | wire::INIT_RES => vec![wire::init_req(0).payload, vec![], garbage],
        wire::CALL_REQ => vec![request_frames(0, "svc", &m).remove(0).payload, vec![]],
        wire::CALL_RES => {
            let multi = wire::response(0, &wire::ResHead::new(0, "raw"), &wire::fill(&[b"e", b"h", &blob(300, 1)], 200, 200));
            vec![response_frames(0, &m).remove(0).payload, multi[0].payload.clone(), vec![], garbage]
        }
        wire::CALL_REQ_CONT | wire::CALL_RES_CONT => {
            let multi = wire::response(0, &wire::ResHead::new(0, "raw"), &wire::fill(&[b"e", b"h", &blob(300, 1)], 200, 200));
            vec![multi[1].payload.clone(), vec![]]
        }
        wire::CANCEL => vec![wire::cancel(0).payload, vec![]],
        wire::CLAIM => vec![wire::claim(0).payload, vec![]],
        wire::ERROR => vec![wire::error_payload(3, "busy"), wire::error_payload(0xff, "fatal"), vec![], garbage],
        _ => vec![vec![], garbage],
    }
}

/// A client with a finished and an abandoned call behind it and `k` pending calls.
struct World {
    p: Peer,
    sub: Arc<SubChannel>,
    _c: tchannel_rs::TChannel,
    finished: u32,
    abandoned: u32,
    init: u32,
    calls: Vec<Call>,
    /// responses to the pending calls
    own: Vec<Vec<Frame>>,
    ids: Vec<u32>,
}

async fn world(buf: usize, k: usize, big: bool) -> Res<World> {
    let l = Listener::bind(0).await?;
    let (c, sub) = cfg().buf(buf).port(1).sub("svc").await?;
    let first = spawn_call(&sub, addr(0), message(90, false), "t");
    let mut p = within(EVENTUALLY, "connection", l.accept()).await??;
    let init = p.server_handshake().await?;
    let (finished, a) = p.message("request").await?;
    p.send_all(&echo_frames(finished, &a, "t")?).await?;
    first.echoed().await?;
    let ab = spawn_call(&sub, addr(0), message(91, false), "t");
    let (abandoned, _) = p.message("request").await?;
    ab.h.abort();
    settle().await;
    let mut w = World { p, sub, _c: c, finished, abandoned, init, calls: vec![], own: vec![], ids: vec![] };
    for i in 0..k {
        w.calls.push(spawn_call(&w.sub, addr(0), message(i, false), "t"));
        let (id, a) = w.p.message("request").await?;
        let mut r = echo_reply("t", &message_of(&a)?);
        w.calls[i].want = r.clone();
        if big {
            // the response is longer than the request
            r = raw("e", &format!("t/{i}"), &blob(450 + i, i));
            w.calls[i].want = r.clone();
        }
        w.own.push(wire::response(
            id,
            &wire::ResHead::new(0, "raw"),
            &wire::fill(&[r.endpoint().as_bytes(), r.header().as_bytes(), r.body()], 200, 200),
        ));
        w.ids.push(id);
    }
    Ok(w)
}

impl World {
    /// All calls but the excepted one return their own response; that one may fail.
    async fn finish(self, except: Option<usize>) -> Res<String> {
        let mut out = String::from("ok");
        for (i, c) in self.calls.into_iter().enumerate() {
            if except == Some(i) {
                let (what, want) = (c.what.clone(), c.want.clone());
                match c.result().await? {
                    Ok(m) => expect_ok(&what, &Ok(m), &want)?,
                    Err(e) => {
                        // an error, but no message
                        expect_err(&what, &Err(e))?;
                        out = "failed".into()
                    }
                }
            } else {
                c.echoed().await?;
            }
        }
        let p = self.p;
        let rest = peer_task(echo_peer(p, "t"));
        for i in 5..7 {
            let (what, m) = (format!("later call {i}"), message(i, i == 6));
            let want = echo_reply("t", &m);
            expect_ok(&what, &within(PROMPT, &what, send(&self.sub, addr(0), m)).await?, &want)?;
        }
        ensure!(mc::connections_to(addr(0)) == 1, "the connection was replaced");
        drop((self.sub, self._c));
        join("peer", rest).await?;
        Ok(out)
    }
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // frames that belong to no outstanding call
    for ty in wire::ALL_TYPES {
        for buf in [1usize, 4] {
            for big in [false, true] {
                let d = if big { 0 } else { t.pick(1, 2) };
                v.push(case(format!("stray {ty:#x} buf={buf} big={big}"), Bounds::sched(d), move || async move {
                    let mut w = world(buf, 2, big).await?;
                    let next = w.ids[1].wrapping_add(1);
                    let id = [w.finished, w.abandoned, w.init, next + 40, u32::MAX - 1, u32::MAX][free(6, "id")];
                    let pl = payloads(ty);
                    let content = free(pl.len(), "content");
                    let times = [1usize, 4][free(2, "times")];
                    let order = free_merge(&w.own.iter().map(|x| x.len()).collect::<Vec<_>>(), "order");
                    let at = free(order.len() + 1, "position");
                    let pause = free(2, "pause") == 1;
                    explore_on();
                    let mut next = [0usize; 2];
                    for k in 0..=order.len() {
                        if k == at {
                            for _ in 0..times {
                                w.p.send(&Frame::new(ty, id, pl[content].clone())).await?;
                            }
                            if pause {
                                settle().await;
                            }
                        }
                        if let Some(i) = order.get(k) {
                            let f = w.own[*i][next[*i]].clone();
                            next[*i] += 1;
                            w.p.send(&f).await?;
                            if pause {
                                settle().await;
                            }
                        }
                    }
                    explore_off();
                    w.finish(None).await
                }));
            }
        }
    }
    // a stray frame while nothing is outstanding, and ahead of the id it has
    for ty in wire::ALL_TYPES {
        v.push(case(format!("stray {ty:#x} while idle"), Bounds::sched(t.pick(1, 2)), move || async move {
            let mut w = world(1, 0, false).await?;
            // ids of calls yet to come
            let id = w.abandoned.wrapping_add(1 + free(3, "ahead") as u32);
            let pl = payloads(ty);
            let content = free(pl.len(), "content");
            for _ in 0..[1usize, 4][free(2, "times")] {
                w.p.send(&Frame::new(ty, id, pl[content].clone())).await?;
            }
            // has been read before the calls begin
            settle().await;
            explore_on();
            w.finish(None).await
        }));
    }
    // a violation concerning one call
    for ty in wire::ALL_TYPES {
        for buf in [1usize, 4] {
            for big in [false, true] {
                let d = if big { 0 } else { t.pick(1, 2) };
                v.push(case(format!("violation {ty:#x} buf={buf} big={big}"), Bounds::sched(d), move || async move {
                    let mut w = world(buf, 2, big).await?;
                    let victim = free(2, "victim");
                    let pl = payloads(ty);
                    let content = free(pl.len(), "content");
                    let times = [1usize, 4][free(2, "times")];
                    let order = free_merge(&w.own.iter().map(|x| x.len()).collect::<Vec<_>>(), "order");
                    let at = free(order.len() + 1, "position");
                    let pause = free(2, "pause") == 1;
                    // is the own response of the victim still sent?
                    let own = free(2, "answered") == 1;
                    let mut next = [0usize; 2];
                    let id = w.ids[victim];
                    explore_on();
                    for k in 0..=order.len() {
                        if k == at {
                            for _ in 0..times {
                                w.p.send(&Frame::new(ty, id, pl[content].clone())).await?;
                            }
                            if pause {
                                settle().await;
                            }
                        }
                        if let Some(i) = order.get(k) {
                            let f = w.own[*i][next[*i]].clone();
                            next[*i] += 1;
                            if *i == victim && k >= at && !own {
                                continue;
                            }
                            w.p.send(&f).await?;
                            if pause {
                                settle().await;
                            }
                        }
                    }
                    explore_off();
                    if w.calls[victim].h.is_finished() || own {
                        // may have taken the foreign frame for its response
                        let c = w.calls.remove(victim);
                        let what = c.what.clone();
                        let r = within(EVENTUALLY, &what, c.h).await?.map_err(|e| e.to_string())?;
                        let foreign = match &r {
                            Ok(m) if same(m, &c.want) => "own",
                            // a response under its id is a response to it, from its first frame on
                            Ok(_) if ty == wire::CALL_RES || ty == wire::CALL_RES_CONT => "foreign",
                            Ok(_) => return Err(format!("{what}: {} by a frame of type {ty:#x}", res_text(&r))),
                            Err(_) => {
                                expect_err(&what, &r)?;
                                "failed"
                            }
                        };
                        w.finish(None).await?;
                        return Ok(foreign.into());
                    }
                    // waits for the rest of its response: that is its right
                    w.calls[victim].h.abort();
                    w.calls.remove(victim);
                    w.finish(None).await?;
                    Ok("waiting".into())
                }));
            }
        }
    }
    // duplicates of the frames of a response
    for buf in [1usize, 2, 4] {
        for big in [false, true] {
            v.push(case(format!("duplicates buf={buf} big={big}"), Bounds::sched(if big { t.pick(0, 1) } else { t.pick(2, 3) }), move || async move {
                let mut w = world(buf, 2, big).await?;
                let n = w.own[0].len();
                // which frame of the first call's response, how often more, and when
                let which = free(n + 1, "which");
                let times = 1 + free(5, "times");
                let lag = free(n + 1, "lag");
                let pause = free(2, "pause") == 1;
                let dup: Vec<Frame> = if which == n { w.own[0].clone() } else { vec![w.own[0][which].clone()] };
                let first = if which == n { n - 1 } else { which };
                let mut seq = vec![];
                for (k, f) in w.own[0].iter().enumerate() {
                    seq.push(f.clone());
                    if k == (first + lag).min(n - 1) {
                        for _ in 0..times {
                            seq.extend(dup.clone());
                        }
                    }
                }
                // a frame repeated before the end of the response spoils it
                let spoils = first + lag < n - 1;
                explore_on();
                for f in &seq {
                    w.p.send(f).await?;
                    if pause {
                        settle().await;
                    }
                }
                let own = w.own[1].clone();
                w.p.send_all(&own).await?;
                explore_off();
                if spoils {
                    let c = w.calls.remove(0);
                    let r = c.result().await?;
                    let out = if r.is_ok() { "ok" } else { "failed" };
                    w.finish(None).await?;
                    return Ok(out.into());
                }
                w.finish(None).await
            }));
        }
    }
    // repeated answers to the init request and to pings
    for buf in [1usize, 2, 4] {
        for test in [false, true] {
            v.push(case(format!("repeated handshake buf={buf} test={test}"), Bounds::sched(t.pick(1, 2)), move || async move {
                let l = Listener::bind(0).await?;
                let mut c = cfg().buf(buf).port(1);
                if test {
                    c = c.test();
                }
                let (_c, sub) = c.sub("svc").await?;
                let more = free(6, "more");
                let later = free(3, "when");
                explore_on();
                let calls: Vec<Call> = (0..2).map(|i| spawn_call(&sub, addr(0), message(i, false), "t")).collect();
                let peer = peer_task(async move {
                    let mut p = l.accept().await?;
                    let id = p.server_handshake().await?;
                    if later == 0 {
                        for _ in 0..more {
                            p.send(&wire::init_res(id)).await?;
                        }
                    }
                    let mut col = wire::Collector::default();
                    while let Some(f) = p.recv().await? {
                        if later == 1 {
                            for _ in 0..more {
                                p.send(&wire::init_res(id)).await?;
                            }
                        }
                        if f.ty == wire::PING_REQ {
                            for _ in 0..=more {
                                p.send(&wire::ping_res(f.id)).await?;
                            }
                        } else if let Some((i, a)) = col.feed(&f)? {
                            if p.send_all(&echo_frames(i, &a, "t")?).await.is_err() {
                                break;
                            }
                            if later == 2 {
                                for _ in 0..more {
                                    p.send(&wire::init_res(id)).await?;
                                }
                            }
                        }
                    }
                    Ok(())
                });
                for c in calls {
                    c.echoed().await?;
                }
                explore_off();
                for i in 3..6 {
                    let (what, m) = (format!("later call {i}"), message(i, false));
                    let want = echo_reply("t", &m);
                    expect_ok(&what, &within(PROMPT, &what, send(&sub, addr(0), m)).await?, &want)?;
                }
                ensure!(mc::connections_to(addr(0)) == 1, "the connection was replaced");
                drop((_c, sub));
                join("peer", peer).await?;
                Ok("ok".into())
            }));
        }
    }
    // all sequences of stray frames between the calls
    let len = t.pick(3usize, 4);
    for buf in [1usize, 3] {
        v.push(case(format!("sequences length={len} buf={buf}"), Bounds::none(), move || async move {
            let mut w = world(buf, 2, true).await?;
            let mut h = vec![];
            let mut next = [0usize; 2];
            for _ in 0..len {
                // a frame of some type under some id, or the next of a response
                let op = free(wire::ALL_TYPES.len() + 2, "frame");
                if op < wire::ALL_TYPES.len() {
                    let ty = wire::ALL_TYPES[op];
                    let which = free(3, "id");
                    let id = [w.finished, w.abandoned, w.ids[1].wrapping_add(9)][which];
                    h.push((op, which));
                    w.p.send(&Frame::new(ty, id, payloads(ty)[0].clone())).await?;
                } else {
                    let i = op - wire::ALL_TYPES.len();
                    h.push((op, 0));
                    if let Some(f) = w.own[i].get(next[i]).cloned() {
                        next[i] += 1;
                        w.p.send(&f).await?;
                    }
                }
            }
            for i in 0..2 {
                for f in w.own[i][next[i]..].to_vec() {
                    w.p.send(&f).await?;
                }
            }
            w.finish(None).await.map_err(|e| format!("{h:?}: {e}"))
        }));
    }
    // floods
    for buf in [1usize, 100] {
        v.push(case(format!("flood buf={buf}"), Bounds::none(), move || async move {
            let mut w = world(buf, 2, true).await?;
            let ty = wire::ALL_TYPES[free(wire::ALL_TYPES.len(), "type")];
            let which = free(4, "id");
            let pl = payloads(ty).remove(0);
            let mut next = [0usize; 2];
            for round in 0..3 {
                for i in 0..500u32 {
                    let id = [w.finished, w.abandoned, 1000 + i, u32::MAX - i][which];
                    w.p.send(&Frame::new(ty, id, pl.clone())).await?;
                }
                for i in 0..2 {
                    let end = if round == 2 { w.own[i].len() } else { next[i] + 1 };
                    for f in w.own[i][next[i].min(w.own[i].len())..end.min(w.own[i].len())].to_vec() {
                        w.p.send(&f).await?;
                    }
                    next[i] = end;
                }
            }
            w.finish(None).await
        })
        .opts(|o| o.max_steps = 5_000_000));
    }
    v
}
