//! C16: starting, stopping and restarting the server.

use super::Property;
use crate::ensure;
use crate::util::*;
use mccore::explore::{Bounds, Case};
use std::io::ErrorKind;
use std::sync::Arc;
use tchannel_rs::TChannel;
use tokio::net::mc as net;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "all sequences of starts, stops, calls and pauses up to a length against a two-state model, concurrent starts and stops judged for linearizability, restarts and drops at every schedule within the bounds, every pattern of failing accepts; a violation is a start or stop with another result than the model's, a server that does not listen or serve when it should or does when it should not, or an address that stays taken",
    }
}

const ERRORS: [ErrorKind; 8] = [
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionReset,
    ErrorKind::Other,
    ErrorKind::OutOfMemory,
    ErrorKind::PermissionDenied,
    ErrorKind::Interrupted,
    ErrorKind::TimedOut,
    ErrorKind::InvalidInput,
];

/// A client of its own calls the server.
async fn probe(running: bool, what: &str) -> Res {
    let (_c, csub) = cfg().port(9).sub("svc").await?;
    let c = spawn_call(&csub, addr(0), raw("e", what, b"body"), "t");
    let r = if running { c.echoed().await } else { c.fails().await };
    r.map_err(|e| format!("{what} (running {running}): {e}"))
}

/// After everything came to rest the server listens or the address is free.
async fn check(running: bool, what: &str) -> Res {
    settle().await;
    settle().await;
    ensure!(
        net::is_bound(addr(0)) == running,
        "{what}: server should {}be listening but is{}",
        if running { "" } else { "not " },
        if running { " not" } else { "" }
    );
    probe(running, what).await?;
    if !running {
        let l = Listener::bind(0).await.map_err(|e| format!("{what}: address is not free: {e}"))?;
        drop(l);
        settle().await;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Start,
    Stop,
    Pause,
    Call,
}
use Op::*;

#[derive(Clone, Copy, Debug)]
struct Done {
    op: Op,
    ok: bool,
    begin: i64,
    end: i64,
}

/// Is there an order of the operations, respecting which ended before another one
/// began, that explains all results and the final state?
fn linearizable(mut running: bool, ops: &[Done], last: bool) -> bool {
    fn go(running: &mut bool, left: &mut Vec<Done>, last: bool) -> bool {
        if left.is_empty() {
            return *running == last;
        }
        for i in 0..left.len() {
            let o = left[i];
            if left.iter().any(|p| p.end < o.begin) {
                continue;
            }
            let (ok, next) = match o.op {
                Start => (!*running, true),
                _ => (true, false),
            };
            if ok != o.ok {
                continue;
            }
            left.remove(i);
            let mut r = next;
            if go(&mut r, left, last) {
                return true;
            }
            left.insert(i, o);
        }
        false
    }
    go(&mut running, &mut ops.to_vec(), last)
}

async fn setup() -> Res<TChannel> {
    let (s, sub) = cfg().sub("svc").await?;
    echo(&sub, "e", "t").await?;
    Ok(s)
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // sequences against the model
    for (len, d) in [(t.pick(5, 7), 0), (t.pick(3, 4), 1), (t.pick(2, 3), t.pick(2, 3))] {
        v.push(case(format!("sequences length={len} d={d}"), if d == 0 { Bounds::none() } else { Bounds::sched(d) }, move || async move {
            let s = setup().await?;
            let mut running = false;
            let mut h = vec![];
            if d > 0 {
                explore_on();
            }
            for _ in 0..len {
                let op = [Start, Stop, Pause, Call][free(if d == 0 { 4 } else { 3 }, "operation")];
                h.push(op);
                match op {
                    Start => {
                        let r = s.start_server();
                        ensure!(r.is_ok() != running, "{h:?}: start returned {r:?}");
                        running = true;
                    }
                    Stop => {
                        let r = s.shutdown_server();
                        ensure!(r.is_ok(), "{h:?}: stop returned {r:?}");
                        running = false;
                    }
                    Pause => settle().await,
                    Call => {
                        settle().await;
                        probe(running, &format!("{h:?}")).await?
                    }
                }
            }
            explore_off();
            check(running, &format!("{h:?}")).await?;
            drop(s);
            check(false, &format!("{h:?} drop")).await?;
            Ok(format!("{h:?}"))
        }));
    }
    // concurrent starts and stops
    let groups: Vec<Vec<Vec<Op>>> = vec![
        vec![vec![Start], vec![Start]],
        vec![vec![Start], vec![Start], vec![Start]],
        vec![vec![Start], vec![Stop]],
        vec![vec![Stop], vec![Stop]],
        vec![vec![Start], vec![Start], vec![Stop]],
        vec![vec![Start, Stop], vec![Start]],
        vec![vec![Stop, Start], vec![Start]],
        vec![vec![Stop, Start], vec![Stop, Start]],
        vec![vec![Start, Stop], vec![Start, Stop]],
    ];
    for g in groups {
        for initial in [false, true] {
            let n: usize = g.iter().map(|x| x.len()).sum();
            let d = if n <= 2 { t.pick(6, 9) } else { t.pick(4, 6) };
            let gg = g.clone();
            v.push(case(format!("concurrent {g:?} running={initial}"), Bounds::sched(d), move || {
                let g = gg.clone();
                async move {
                    let s = Arc::new(setup().await?);
                    if initial {
                        start(&s)?;
                        settle().await;
                    }
                    let done: Record<Done> = Record::new();
                    let clock = Num::new();
                    explore_on();
                    let mut hs = vec![];
                    for ops in g.clone() {
                        let (s, done, clock) = (s.clone(), done.clone(), clock.clone());
                        hs.push(tokio::task::spawn_named("operations", async move {
                            for op in ops {
                                let begin = clock.add(1);
                                let ok = match op {
                                    Start => s.start_server().is_ok(),
                                    _ => s.shutdown_server().is_ok(),
                                };
                                done.push(Done { op, ok, begin, end: clock.add(1) });
                            }
                            Ok(())
                        }));
                    }
                    for h in hs {
                        join("operations", h).await?;
                    }
                    settle().await;
                    explore_off();
                    settle().await;
                    let bound = net::is_bound(addr(0));
                    let ops = done.get();
                    ensure!(
                        linearizable(initial, &ops, bound),
                        "no order of the operations explains their results and the final state {bound}: {ops:?}"
                    );
                    check(bound, "at the end").await?;
                    // and it goes on working
                    let r = s.start_server();
                    ensure!(r.is_ok() != bound, "then start returned {r:?}");
                    check(true, "started then").await?;
                    ensure!(s.start_server().is_err(), "a running server was started");
                    check(true, "started again").await?;
                    ensure!(s.shutdown_server().is_ok(), "stop failed");
                    check(false, "stopped then").await?;
                    Ok(format!("{bound}"))
                }
            }));
        }
    }
    // stop and start again while it is used
    for busy in [0usize, 1, 2] {
        for times in [1usize, 2] {
            v.push(case(format!("restart busy={busy} times={times}"), Bounds::sched(if busy == 0 { t.pick(5, 8) } else { t.pick(3, 4) }), move || async move {
                let (s, sub) = cfg().buf(1).sub("svc").await?;
                echo(&sub, "e", "t").await?;
                start(&s)?;
                settle().await;
                explore_on();
                // connections that come in meanwhile: whatever happens to them
                let mut peers = vec![];
                for _ in 0..busy {
                    peers.push(peer_task(async move {
                        if let Ok(mut p) = Peer::connect(addr(0)).await {
                            let _ = p.client_handshake().await;
                            let _ = p.recv().await;
                        }
                    }));
                }
                for _ in 0..times {
                    ensure!(s.shutdown_server().is_ok(), "stop failed");
                    start(&s)?;
                }
                ensure!(s.start_server().is_err(), "a running server was started");
                settle().await;
                explore_off();
                check(true, "restarted").await?;
                drop(s);
                check(false, "dropped").await?;
                Ok("ok".into())
            }));
        }
    }
    // the channel is dropped
    for started in [false, true] {
        for busy in [0usize, 1] {
            v.push(case(format!("drop started={started} busy={busy}"), Bounds::sched(t.pick(3, 4)), move || async move {
                let (s, sub) = cfg().sub("svc").await?;
                echo(&sub, "e", "t").await?;
                if started {
                    start(&s)?;
                    settle().await;
                }
                explore_on();
                if !started {
                    start(&s)?;
                }
                for _ in 0..busy {
                    peer_task(async move {
                        if let Ok(mut p) = Peer::connect(addr(0)).await {
                            let _ = p.client_handshake().await;
                            let _ = p.recv().await;
                        }
                    });
                }
                let h = tokio::task::spawn_named("drop", async move {
                    drop(s);
                    Ok(())
                });
                join("drop", h).await?;
                settle().await;
                explore_off();
                check(false, "dropped").await?;
                // its address is usable for another channel
                let s2 = setup().await?;
                start(&s2)?;
                check(true, "another channel").await?;
                // what is left of the first one changes nothing
                drop(sub);
                check(true, "subchannel dropped").await?;
                Ok("ok".into())
            }));
        }
    }
    // failing accepts
    let n = t.pick(4usize, 6);
    v.push(case(format!("failing accepts length={n}"), Bounds::none(), move || async move {
        let s = setup().await?;
        start(&s)?;
        settle().await;
        let kind = ERRORS[free(ERRORS.len(), "kind")];
        let mut h = vec![];
        for _ in 0..n {
            let fail = free(2, "accept") == 1;
            h.push(fail);
            if fail {
                net::inject_accept_error(addr(0), kind);
                if free(2, "pause") == 1 {
                    settle().await;
                }
            } else {
                probe(true, &format!("{kind:?} {h:?}")).await?;
            }
        }
        check(true, &format!("{kind:?} {h:?}")).await?;
        ensure!(s.start_server().is_err(), "{kind:?} {h:?}: a running server was started");
        ensure!(s.shutdown_server().is_ok(), "stop failed");
        check(false, "stopped").await?;
        start(&s)?;
        check(true, "started").await?;
        Ok(format!("{kind:?} {h:?}"))
    }));
    // a failing accept with calls in flight and other connections waiting
    for n in [1usize, 2] {
        v.push(case(format!("failing accept among connections n={n}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let s = setup().await?;
            start(&s)?;
            settle().await;
            let kind = ERRORS[free(2, "kind")];
            explore_on();
            let mut peers = vec![];
            for i in 0..3u32 {
                peers.push(peer_task(async move {
                    let mut p = Peer::client(addr(0)).await?;
                    let m = raw("e", &i.to_string(), b"b");
                    p.send_all(&request_frames(7, "svc", &m)).await?;
                    let (id, a) = p.message("response").await?;
                    ensure!(id == 7 && same(&message_of(&a)?, &echo_reply("t", &m)), "wrong response");
                    Ok(())
                }));
                if (i as usize) < n {
                    net::inject_accept_error(addr(0), kind);
                }
            }
            for p in peers {
                join("peer", p).await?;
            }
            explore_off();
            check(true, "then").await?;
            Ok(format!("{kind:?}"))
        }));
    }
    // the address is taken at first
    for retries in [1usize, 2] {
        v.push(case(format!("address taken retries={retries}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let s = setup().await?;
            let l = Listener::bind(0).await?;
            explore_on();
            for _ in 0..retries {
                let _ = s.start_server();
                settle().await;
                ensure!(s.shutdown_server().is_ok(), "stop failed");
            }
            drop(l);
            start(&s)?;
            settle().await;
            explore_off();
            check(true, "started").await?;
            Ok("ok".into())
        }));
    }
    // channels are independent
    let len = t.pick(4usize, 6);
    v.push(case(format!("two channels length={len}"), Bounds::none(), move || async move {
        let mut chans = vec![];
        for p in 0..2 {
            let (s, sub) = cfg().port(p).sub("svc").await?;
            echo(&sub, "e", &format!("t{p}")).await?;
            chans.push(s);
        }
        let mut running = [false; 2];
        let mut h = vec![];
        for _ in 0..len {
            let (c, go) = (free(2, "channel"), free(2, "operation") == 0);
            h.push((c, go));
            if go {
                ensure!(chans[c].start_server().is_ok() != running[c], "{h:?}: start");
            } else {
                ensure!(chans[c].shutdown_server().is_ok(), "{h:?}: stop");
            }
            running[c] = go;
        }
        settle().await;
        settle().await;
        // each server calls the other one and itself
        for from in &chans {
            let csub = subchannel(from, "svc").await?;
            for c in 0..2u16 {
                ensure!(net::is_bound(addr(c)) == running[c as usize], "{h:?}: {c} should be {running:?}");
                let call = spawn_call(&csub, addr(c), raw("e", "h", b"b"), &format!("t{c}"));
                if running[c as usize] {
                    call.echoed().await.map_err(|e| format!("{h:?}: {e}"))?;
                } else {
                    call.fails().await.map_err(|e| format!("{h:?}: {e}"))?;
                }
            }
        }
        Ok(format!("{h:?}"))
    }));
    // handlers survive, and changes made while it is stopped take effect
    v.push(case("handlers and restarts", Bounds::none(), || async {
        let s = setup().await?;
        let sub = subchannel(&s, "svc").await?;
        let mut h = vec![];
        let mut have = vec![true, false, false];
        for i in 0..3 {
            let what = free(4, "operation");
            h.push(what);
            match what {
                0 => {
                    let _ = s.start_server();
                }
                1 => {
                    let _ = s.shutdown_server();
                }
                2 => {
                    if !have[1] {
                        echo(&sub, "e1", "t").await?;
                        have[1] = true;
                    }
                }
                _ => {
                    if have[0] {
                        sub.unregister("e").await.map_err(|e| e.to_string())?;
                        have[0] = false;
                    }
                    let n = subchannel(&s, "new").await?;
                    echo(&n, &format!("n{i}"), "t").await?;
                    have[2] = true;
                }
            }
        }
        let _ = s.start_server();
        settle().await;
        let (c, csub) = cfg().port(9).sub("svc").await?;
        for (i, e) in ["e", "e1"].iter().enumerate() {
            let call = spawn_call(&csub, addr(0), raw(e, "h", b"b"), "t");
            if have[i] {
                call.echoed().await?;
            } else {
                call.fails().await?;
            }
        }
        let nsub = subchannel(&c, "new").await?;
        for (i, o) in h.iter().enumerate() {
            if *o == 3 {
                call_echo(&nsub, addr(0), raw(&format!("n{i}"), "h", b"b"), "t").await?;
            }
        }
        Ok(format!("{h:?}"))
    }));
    // many restarts
    v.push(case("many restarts", Bounds::none(), move || async move {
        let s = setup().await?;
        for i in 0..t.pick(300, 3000) {
            start(&s)?;
            if i % 3 > 0 {
                settle().await;
            }
            if i % 50 == 1 {
                probe(true, &format!("start {i}")).await?;
            }
            ensure!(s.shutdown_server().is_ok(), "stop failed");
            if i % 4 > 0 {
                settle().await;
            }
        }
        check(false, "stopped").await?;
        start(&s)?;
        check(true, "started").await?;
        Ok("ok".into())
    })
    .opts(|o| o.max_steps = 5_000_000));
    v
}
