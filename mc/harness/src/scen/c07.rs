//! C07: clients recover after a lost connection or a server restart.

use super::sizes::blob;
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire;
use mccore::explore::{Bounds, Case};
use std::sync::Arc;
use std::time::Duration;
use tchannel_rs::{SubChannel, TChannel};
use tokio::net::mc::{self, CutKind};

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "all histories, up to the stated length, of calls, lost connections (closed, reset), server restarts, outages and pauses, for several pool sizes, lifetimes and with or without connection tests; concurrent calls after a loss with scheduling deviations; a violation is a call that fails, or takes long, although its peer is up and the loss is known, or one to an unreachable peer that does not fail",
    }
}

fn kill_all(to: u16, kind: CutKind) {
    // connections to other addresses stay
    for c in mc::connections_of(addr(to)) {
        mc::kill_conn(c, kind);
    }
}

struct World {
    server: TChannel,
    csub: Arc<SubChannel>,
    up: bool,
    /// calls failed, the next attempt to connect may be up to half a minute away
    backoff: bool,
    n: usize,
}

const OPS: [&str; 8] = ["call", "close", "reset", "restart", "outage", "other", "pause", "two calls"];

async fn op(w: &mut World, op: usize) -> Res {
    w.n += 1;
    let m = raw("e", &w.n.to_string(), b"b");
    match op {
        0 => {
            let c = spawn_call(&w.csub, addr(0), m, "t");
            if w.up {
                let what = format!("call {} to a running peer", w.n);
                let (want, r) = (c.want.clone(), within(if w.backoff { EVENTUALLY } else { PROMPT }, &what, c.h).await?);
                w.backoff = false;
                expect_ok(&what, &r.map_err(|e| e.to_string())?, &want)?;
            } else {
                c.fails().await?;
                w.backoff = true;
            }
        }
        1 => kill_all(0, CutKind::Close),
        2 => kill_all(0, CutKind::Reset),
        3 | 4 => {
            if w.up {
                w.server.shutdown_server().map_err(|e| e.to_string())?;
                settle().await;
                kill_all(0, CutKind::Close);
                settle().await;
                w.up = false;
            }
            if op == 3 {
                start(&w.server)?;
                settle().await;
                w.up = true;
            }
        }
        5 => {
            let what = "call to another peer";
            let want = echo_reply("o", &m);
            let r = within(PROMPT, what, send(&w.csub, addr(1), m)).await?;
            expect_ok(what, &r, &want)?;
        }
        6 => tokio::time::sleep(Duration::from_secs(31)).await,
        _ => {
            let a = spawn_call(&w.csub, addr(0), m, "t");
            let b = spawn_call(&w.csub, addr(0), raw("e", "big", &blob(70_000, w.n)), "t");
            for c in [a, b] {
                if w.up {
                    c.echoed().await?;
                } else {
                    c.fails().await?;
                }
            }
            w.backoff = !w.up;
        }
    }
    settle().await;
    Ok(())
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for conns in [1u32, 2, 10] {
        for lifetime in [None, Some(20u64)] {
            for test in [false, true] {
                let len = if conns == 1 && !test && lifetime.is_none() { t.pick(4, 5) } else { t.pick(3, 4) };
                v.push(case(
                    format!("histories conns={conns} lifetime={lifetime:?} test={test} length={len}"),
                    Bounds::none(),
                    move || async move {
                        let (server_, sub) = server(cfg()).await?;
                        echo(&sub, "e", "t").await?;
                        let (_other, osub) = server(cfg().port(1)).await?;
                        echo(&osub, "e", "o").await?;
                        let mut c = cfg().conns(conns).lifetime(lifetime).port(2);
                        if test {
                            c = c.test();
                        }
                        let (_c, csub) = c.sub("svc").await?;
                        let mut w = World { server: server_, csub, up: true, backoff: false, n: 0 };
                        let mut h = vec![];
                        for _ in 0..len {
                            let o = free(OPS.len(), "op");
                            h.push(OPS[o]);
                            op(&mut w, o).await.map_err(|e| format!("{h:?}: {e}"))?;
                        }
                        if !w.up {
                            op(&mut w, 3).await?;
                        }
                        op(&mut w, 0).await.map_err(|e| format!("{h:?}, last call: {e}"))?;
                        op(&mut w, 5).await.map_err(|e| format!("{h:?}, last call: {e}"))?;
                        Ok(format!("{h:?}"))
                    },
                )
                .opts(|o| o.horizon = 1500 * SEC));
            }
        }
    }
    // concurrent calls after a loss
    for kind in [CutKind::Close, CutKind::Reset] {
        for conns in [1u32, 2] {
            for n in [1usize, 2, 3] {
                let d = t.pick(if n == 3 { 1 } else { 2 }, if n == 1 { 4 } else { 2 });
                v.push(case(format!("calls after a loss {kind:?} conns={conns} n={n}"), Bounds::sched(d), move || async move {
                    let (_s, sub) = server(cfg().buf(1)).await?;
                    slow_echo(&sub, "e", "t", 1).await?;
                    let (_c, csub) = cfg().buf(1).conns(conns).port(2).sub("svc").await?;
                    let warm: Vec<Call> = (0..conns)
                        .map(|i| spawn_call(&csub, addr(0), raw("e", &format!("w{i}"), b"b"), "t"))
                        .collect();
                    for c in warm {
                        c.echoed().await?;
                    }
                    settle().await;
                    kill_all(0, kind);
                    settle().await;
                    explore_on();
                    let calls: Vec<Call> =
                        (0..n).map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), b"b"), "t")).collect();
                    for c in calls {
                        let what = c.what.clone();
                        within(PROMPT, &what, c.echoed()).await??;
                    }
                    Ok("ok".into())
                }));
            }
        }
    }
    // connections that end as soon as they are made, some times
    for kind in [CutKind::Close, CutKind::Reset] {
        for times in 1..=5usize {
            for answered in [false, true] {
                for n in 1..=2usize {
                    v.push(case(
                        format!("short-lived connections {kind:?} times={times} answered={answered} n={n}"),
                        Bounds::sched(t.pick(1, 2)),
                        move || async move {
                            let l = Listener::bind(0).await?;
                            let (_c, csub) = cfg().port(2).sub("svc").await?;
                            let peer = peer_task(async move {
                                for _ in 0..times {
                                    let p = if answered { l.serve().await? } else { l.accept().await? };
                                    if kind == CutKind::Reset {
                                        p.reset()
                                    }
                                }
                                loop {
                                    echo_peer(l.serve().await?, "t").await?;
                                }
                                #[allow(unreachable_code)]
                                Ok::<(), String>(())
                            });
                            explore_on();
                            let calls: Vec<Call> =
                                (0..n).map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), b"b"), "t")).collect();
                            let mut out = vec![];
                            for c in calls {
                                // fails, or gets its response
                                let (what, want) = (c.what.clone(), c.want.clone());
                                let r = c.result().await?;
                                if r.is_ok() {
                                    expect_ok(&what, &r, &want)?;
                                }
                                out.push(r.is_ok());
                            }
                            explore_off();
                            let mut k = 0;
                            // every failing call uses up at least one of these connections
                            loop {
                                settle().await;
                                let m = raw("e", "later", b"");
                                let r = within(PROMPT, "later call", send(&csub, addr(0), m.clone())).await?;
                                if r.is_ok() {
                                    expect_ok("later call", &r, &echo_reply("t", &m))?;
                                    break;
                                }
                                k += 1;
                                ensure!(k <= times, "calls still fail: {}", res_text(&r));
                            }
                            drop(peer);
                            Ok(format!("{out:?} {k}"))
                        },
                    ));
                }
            }
        }
    }
    // the peer is unreachable and comes up after a while
    for conns in [1u32, 3] {
        for secs in [0u64, 1, 5, 20, 29, 31, 40, 100] {
            v.push(case(format!("peer comes up after {secs}s conns={conns}"), Bounds::sched(t.pick(0, 1)), move || async move {
                let (server, sub) = cfg().sub("svc").await?;
                echo(&sub, "e", "t").await?;
                let (_c, csub) = cfg().conns(conns).port(2).sub("svc").await?;
                explore_on();
                let a = spawn_call(&csub, addr(0), raw("e", "1", b"b"), "t");
                let b = spawn_call(&csub, addr(0), raw("e", "2", b"b"), "t");
                tokio::time::sleep(Duration::from_secs(secs)).await;
                start(&server)?;
                settle().await;
                // calls started now succeed
                let c = spawn_call(&csub, addr(0), raw("e", "3", b"b"), "t");
                c.echoed().await?;
                let mut out = vec![];
                for c in [a, b] {
                    let (what, want) = (c.what.clone(), c.want.clone());
                    let r = c.result().await?;
                    if secs < 20 || r.is_ok() {
                        expect_ok(&what, &r, &want)?;
                    } else {
                        expect_err(&what, &r)?;
                    }
                    out.push(r.is_ok());
                }
                call_echo(&csub, addr(0), raw("e", "4", b"b"), "t").await?;
                Ok(format!("{out:?}"))
            }));
        }
    }
    // an address that does not answer at all disturbs nobody else
    for conns in [1u32, 2] {
        v.push(case(format!("silent address conns={conns}"), Bounds::sched(t.pick(1, 2)), move || async move {
            let (_s, sub) = server(cfg()).await?;
            echo(&sub, "e", "t").await?;
            mc::blackhole(addr(3), true);
            let (_c, csub) = cfg().conns(conns).port(2).sub("svc").await?;
            explore_on();
            let lost: Vec<Call> =
                (0..3).map(|i| spawn_call(&csub, addr(3), raw("e", &i.to_string(), b"b"), "t")).collect();
            let ok = spawn_call(&csub, addr(0), raw("e", "2", b"b"), "t");
            within(PROMPT, "call to a peer that is up", ok.echoed()).await??;
            explore_off();
            for c in lost {
                c.fails().await?;
            }
            call_echo(&csub, addr(0), raw("e", "4", b"b"), "t").await?;
            Ok("ok".into())
        }));
    }
    // a peer that is no TChannel server: connections are refused by it
    for bad in 0..4usize {
        v.push(case(format!("peer refuses handshakes {bad}"), Bounds::none(), move || async move {
            let l = Listener::bind(0).await?;
            let good = Num::new();
            let g = good.clone();
            let (_c, csub) = cfg().port(2).sub("svc").await?;
            let peer = peer_task(async move {
                loop {
                    let mut p = l.accept().await?;
                    if g.get() > 0 {
                        p.server_handshake().await?;
                        echo_peer(p, "t").await?;
                        continue;
                    }
                    let f = p.expect("init").await?;
                    match bad {
                        0 => p.send(&wire::error(f.id, 0xff, "no")).await?,
                        1 => p.send_bytes(b"HTTP/1.1 400 Bad Request\r\n\r\n").await?,
                        2 => p.send(&wire::Frame::new(wire::INIT_RES, f.id, wire::init_payload(1, &[]))).await?,
                        _ => p.send(&wire::init_res(f.id + 1)).await?,
                    }
                }
                #[allow(unreachable_code)]
                Ok::<(), String>(())
            });
            let a = spawn_call(&csub, addr(0), raw("e", "1", b"b"), "t");
            a.fails().await?;
            good.set(1);
            call_echo(&csub, addr(0), raw("e", "4", b"b"), "t").await?;
            drop(peer);
            Ok("ok".into())
        }));
    }
    v
}
