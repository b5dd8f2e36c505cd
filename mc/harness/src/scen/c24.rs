//! C24: a panicking handler is contained.

use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire;
use mccore::explore::{Bounds, Case};
use std::sync::Arc;
use tchannel_rs::messages::JsonMessage;
use tchannel_rs::SubChannel;
use tokio::net::mc;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "handlers that panic (synchronous or not, before or after being suspended, raw or JSON) x all histories of panicking \
               and normal calls up to a length x server tasks, panics while other calls wait for the same handler, for a server \
               task, or for another handler, over the same and other connections, with schedules; a violation is a call that never \
               returns, a panicking call that succeeds, a call over another connection that is disturbed, a handler, server task \
               or registration lost for good, or anything left behind",
    }
}

/// Panics when the request says so.
async fn handlers(sub: &SubChannel) -> Res {
    register_sync(sub, "s", |r| {
        if r.header() == "panic" {
            panic!("intended");
        }
        Ok(echo_reply("t", &r))
    })
    .await?;
    register_async(sub, "a", |r| {
        if r.header() == "panic" {
            panic!("intended");
        }
        Box::pin(async move {
            tokio::task::yield_now().await;
            if r.header() == "later" {
                panic!("intended");
            }
            Ok(echo_reply("t", &r))
        })
    })
    .await?;
    echo(sub, "o", "o").await?;
    sub.register(
        "j",
        JsonSyncFn(|r: JsonMessage| -> JsonResult {
            if r.headers().contains_key("panic") {
                panic!("intended");
            }
            Ok(r)
        }),
    )
    .await
    .map_err(|e| e.to_string())
}

async fn json_call(sub: &SubChannel, panics: bool) -> Res {
    let h = if panics { serde_json::json!({"panic": 1}) } else { serde_json::json!({"h": 1}) };
    let m = JsonMessage::new("j".into(), json_map(h), json_map(serde_json::json!({"b": [1, "x"]})));
    let r = within(EVENTUALLY, "JSON call", send_json(sub, addr(0), m.clone())).await?;
    match r {
        Err(_) if panics => Ok(()),
        Ok(a) if !panics && a.body() == m.body() && a.headers() == m.headers() => Ok(()),
        Ok(a) => Err(format!("JSON call (panic: {panics}) returns {a}")),
        Err(_) => Err(format!("JSON call (panic: {panics}) fails")),
    }
}

const OPS: usize = 6;
/// A call, which is complete afterwards.
async fn op(sub: &SubChannel, o: usize, i: usize) -> Res {
    let (ep, header, tag) = match o {
        0 => ("s", "panic", None),
        1 => ("a", "panic", None),
        2 => ("a", "later", None),
        3 => ("s", "h", Some("t")),
        4 => ("a", "h", Some("t")),
        _ => {
            json_call(sub, true).await?;
            settle().await;
            return json_call(sub, false).await;
        }
    };
    let body = vec![b'x'; if i == 1 { 70_000 } else { i }];
    let m = raw(ep, header, &body);
    match tag {
        Some(tag) => call_echo(sub, addr(0), m, tag).await,
        None => {
            let r = within(EVENTUALLY, "call that panics", send(sub, addr(0), m)).await?;
            ensure!(r.is_err(), "call that panics returns {}", res_text(&r));
            // whatever becomes of the connection
            settle().await;
            Ok(())
        }
    }
}

fn panics(mut c: Case) -> Case {
    c.allow_panics = true;
    c
}

/// Either the response or an error, but not nothing.
async fn own_or_error(c: Call) -> Res<bool> {
    let (what, want) = (c.what.clone(), c.want.clone());
    let r = c.result().await?;
    if r.is_err() {
        return Ok(false);
    }
    expect_ok(&what, &r, &want)?;
    Ok(true)
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // histories
    for tasks in [0usize, 1, 2] {
        for conns in [1u32, 2] {
            v.push(panics(case(format!("history tasks={tasks} conns={conns}"), Bounds::none(), move || async move {
                let (s, sub) = server(cfg().tasks(tasks).buf(1)).await?;
                handlers(&sub).await?;
                settle().await;
                let before = mccore::live_tasks();
                let n = t.pick(3, 5);
                let mut h = vec![];
                {
                    let (c1, s1) = cfg().port(1).conns(conns).sub("svc").await?;
                    let (c2, s2) = cfg().port(2).conns(conns).sub("svc").await?;
                    for i in 0..n {
                        let o = free(OPS, "op");
                        h.push(o);
                        op(if i % 2 == 0 || conns == 1 { &s1 } else { &s2 }, o, i).await?;
                    }
                    // everything works, also for a client that saw no panic
                    for sub in [&s1, &s2] {
                        for ep in ["s", "a"] {
                            call_echo(sub, addr(0), raw(ep, "end", b""), "t").await?;
                        }
                        call_echo(sub, addr(0), raw("o", "end", b""), "o").await?;
                        json_call(sub, false).await?;
                    }
                    drop((c1, c2));
                }
                // nothing is left
                tokio::time::sleep(std::time::Duration::from_secs(70)).await;
                settle().await;
                ensure!(mccore::live_tasks() == before, "{} tasks instead of {before}", mccore::live_tasks());
                for c in mc::connections_of(addr(0)) {
                    ensure!(mc::side_closed(c, 0) && mc::side_closed(c, 1), "connection {c} stays open");
                }
                // registration and the server itself work as before
                for ep in ["s", "a", "o", "j"] {
                    ensure!(sub.register("x".to_string() + ep, SyncFn(|r| Ok(r))).await.is_ok(), "registration fails");
                    ensure!(sub.register(ep, SyncFn(|r| Ok(r))).await.is_err(), "handler '{ep}' is gone");
                    sub.unregister(ep).await.map_err(|e| format!("handler '{ep}' cannot be unregistered: {e}"))?;
                }
                s.shutdown_server().map_err(|e| e.to_string())?;
                start(&s)?;
                settle().await;
                echo(&sub, "s", "new").await?;
                let (_c, csub) = cfg().port(3).sub("svc").await?;
                call_echo(&csub, addr(0), raw("s", "h", b"b"), "new").await?;
                Ok(format!("{h:?}"))
            })));
        }
    }
    // others wait while a handler panics: for the same handler, for a server task, for another handler
    for tasks in [0usize, 1, 2] {
        for kind in 0..3usize {
            let d = t.pick(2, 3);
            v.push(panics(case(format!("others tasks={tasks} kind={kind}"), Bounds::sched(d), move || async move {
                let (_s, sub) = server(cfg().tasks(tasks).buf(1)).await?;
                handlers(&sub).await?;
                let gate = Gate::new();
                let g = gate.clone();
                register_async(&sub, "g", move |r| {
                    let g = g.clone();
                    Box::pin(async move {
                        g.enter();
                        g.wait().await;
                        if r.header() == "panic" {
                            panic!("intended");
                        }
                        Ok(echo_reply("g", &r))
                    })
                })
                .await?;
                let other = Gate::new();
                gated_echo(&sub, "og", "og", &other).await?;
                let (_c1, s1) = cfg().port(1).sub("svc").await?;
                let (_c2, s2) = cfg().port(2).sub("svc").await?;
                call_echo(&s1, addr(0), raw("o", "first", b""), "o").await?;
                call_echo(&s2, addr(0), raw("o", "first", b""), "o").await?;
                // the handler is about to panic
                let bad = spawn_call(&s1, addr(0), raw("g", "panic", b"b"), "g");
                settle().await;
                ensure!(gate.entered() == 1, "handler does not run");
                let (ep, tag) = [("g", "g"), ("og", "og"), ("a", "t")][kind];
                let same = spawn_call(&s1, addr(0), raw(ep, "same", b"1"), tag);
                settle().await;
                let another = spawn_call(&s2, addr(0), raw(ep, "another", b"2"), tag);
                settle().await;
                explore_on();
                for _ in 0..3 {
                    gate.open();
                    other.open();
                }
                bad.fails().await?;
                another.echoed().await?;
                let ok = own_or_error(same).await?;
                explore_off();
                settle().await;
                for s in [&s1, &s2] {
                    for (ep, tag) in [("g", "g"), ("a", "t"), ("o", "o")] {
                        gate.open();
                        call_echo(s, addr(0), raw(ep, "after", b"3"), tag).await?;
                    }
                }
                Ok(format!("same {ok}"))
            })));
        }
    }
    // panics at the same time, over several connections
    for conns in [1u32, 2] {
        v.push(panics(case(format!("several conns={conns}"), Bounds::sched(t.pick(1, 2)), move || async move {
            let (_s, sub) = server(cfg().tasks(0).buf(2)).await?;
            handlers(&sub).await?;
            let (_c1, s1) = cfg().port(1).conns(conns).sub("svc").await?;
            let (_c2, s2) = cfg().port(2).sub("svc").await?;
            call_echo(&s2, addr(0), raw("o", "first", b""), "o").await?;
            explore_on();
            let bad: Vec<Call> = [("s", "panic"), ("a", "later"), ("a", "panic")]
                .iter()
                .map(|(ep, h)| spawn_call(&s1, addr(0), raw(ep, h, b"b"), "t"))
                .collect();
            let good: Vec<Call> = ["s", "a"].iter().map(|ep| spawn_call(&s2, addr(0), raw(ep, "h", b"b"), "t")).collect();
            for c in good {
                c.echoed().await?;
            }
            for c in bad {
                c.fails().await?;
            }
            explore_off();
            settle().await;
            for s in [&s1, &s2] {
                for ep in ["s", "a"] {
                    call_echo(s, addr(0), raw(ep, "after", b"3"), "t").await?;
                }
            }
            Ok("ok".into())
        })));
    }
    // what a raw client sees: an error for the request, or the end of the connection
    for (ep, header) in [("s", "panic"), ("a", "panic"), ("a", "later")] {
        v.push(panics(case(format!("wire {ep} {header}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let (_s, sub) = server(cfg().tasks(1).buf(1)).await?;
            handlers(&sub).await?;
            let peer = peer_task(async move {
                let mut quiet = Peer::client(addr(0)).await?;
                let mut p = Peer::client(addr(0)).await?;
                explore_on();
                p.send(&wire::simple_request(7, "svc", ep, header, b"b")).await?;
                let seen = match within(EVENTUALLY, "answer or end", p.recv()).await? {
                    Ok(Some(f)) => {
                        ensure!(f.ty == wire::ERROR && f.id == 7, "frame {f:?} answers a request that panics");
                        p.send(&wire::simple_request(8, "svc", "o", "h", b"b")).await?;
                        let (id, _) = within(EVENTUALLY, "response", p.message("response")).await??;
                        ensure!(id == 8, "response {id}");
                        "error"
                    }
                    Ok(None) | Err(_) => "end",
                };
                // an idle connection is not affected
                quiet.send(&wire::simple_request(1, "svc", ep, "h", b"b")).await?;
                let (id, a) = within(EVENTUALLY, "response", quiet.message("response")).await??;
                ensure!(id == 1 && same(&message_of(&a)?, &echo_reply("t", &raw(ep, "h", b"b"))), "wrong response");
                Ok(seen.to_string())
            });
            join("peer", peer).await
        })));
    }
    // many, one after the other
    v.push(panics(case("many".to_string(), Bounds::none(), move || async move {
        let (_s, sub) = server(cfg().tasks(1).buf(1)).await?;
        handlers(&sub).await?;
        let (_c, csub) = cfg().port(1).sub("svc").await?;
        let csub: Arc<SubChannel> = csub;
        for i in 0..300usize {
            op(&csub, i % 3, i % 7).await?;
        }
        call_echo(&csub, addr(0), raw("s", "h", b"b"), "t").await?;
        call_echo(&csub, addr(0), raw("a", "h", b"b"), "t").await?;
        Ok("ok".into())
    })));
    v
}
