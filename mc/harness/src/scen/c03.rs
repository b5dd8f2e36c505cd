//! C03: everything put on the wire conforms to the protocol.

use super::sizes::*;
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Assembly, Head};
use mccore::explore::{Bounds, Case};
use tchannel_rs::errors::{HandlerError, TChannelError};
use tchannel_rs::messages::{JsonMessage, RawMessage};

pub fn property() -> Property {
    Property {
        cases,
        level: "bounded_exhaustive",
        rule: "all argument sizes in windows around the ends of the first three frames, in both directions, raw and JSON; concurrent senders within the preemption bound; every byte written is judged by an independent codec",
    }
}

pub fn check_request(a: &Assembly, service: &str, scheme: &str) -> Res {
    match &a.head {
        Head::Req { service: s, headers, .. } => {
            ensure!(s == service, "request for service '{s}' instead of '{service}'");
            ensure!(wire::get(headers, "as") == Some(scheme), "arg scheme header is {:?}", wire::get(headers, "as"));
        }
        h => return Err(format!("expected a request, got {h:?}")),
    }
    ensure!(a.args.len() == 3, "request of {} arguments", a.args.len());
    Ok(())
}

pub fn check_response(a: &Assembly, code: u8, scheme: &str) -> Res {
    match &a.head {
        Head::Res { code: c, headers } => {
            ensure!(*c == code, "response code {c} instead of {code}");
            ensure!(wire::get(headers, "as") == Some(scheme), "arg scheme header is {:?}", wire::get(headers, "as"));
        }
        h => return Err(format!("expected a response, got {h:?}")),
    }
    ensure!(a.args.len() == 3, "response of {} arguments", a.args.len());
    Ok(())
}

fn check_json(a: &Assembly, m: &JsonMessage) -> Res {
    ensure!(a.args[0] == m.method_name().as_bytes(), "arg1 differs");
    for (i, want) in [m.headers(), m.body()].into_iter().enumerate() {
        let got: serde_json::Value =
            serde_json::from_slice(&a.args[i + 1]).map_err(|e| format!("arg{}: {e}", i + 2))?;
        ensure!(got.as_object() == Some(want), "arg{} differs", i + 2);
    }
    Ok(())
}

/// The client's frames as a raw server sees them.
async fn client_wire(s: [usize; 3], json: bool) -> Res<String> {
    let l = Listener::bind(0).await?;
    let (_c, csub) = cfg().port(1).sub("svc").await?;
    let peer = peer_task(async move {
        let mut p = l.serve().await?;
        let (id, a) = p.message("request").await?;
        if json {
            check_request(&a, "svc", "json")?;
            check_json(&a, &sized_json(s))?;
        } else {
            check_request(&a, "svc", "raw")?;
            check_same("request on the wire", &message_of(&a)?, &sized(s))?;
        }
        let head = wire::ResHead::new(0, if json { "json" } else { "raw" });
        p.send_all(&wire::response(id, &head, &[vec![b"e".to_vec(), b"{}".to_vec(), b"{}".to_vec()]])).await?;
        settle().await;
        let f = within(1, "", p.recv()).await;
        ensure!(!matches!(f, Ok(Ok(Some(_)))), "unexpected frame behind the request: {f:?}");
        Ok(a.frames)
    });
    if json {
        let r = within(EVENTUALLY, "call", send_json(&csub, addr(0), sized_json(s))).await?;
        r.map_err(|e| format!("call: {e}"))?;
    } else {
        let r = within(EVENTUALLY, "call", send(&csub, addr(0), sized(s))).await?;
        expect_ok("call", &r, &raw("e", "{}", b"{}"))?;
    }
    let n = join("peer", peer).await?;
    Ok(format!("{s:?} {n} frames"))
}

/// The server's frames as a raw client sees them.
async fn server_wire(s: [usize; 3], json: bool, error: bool) -> Res<String> {
    let (_srv, sub) = server(cfg()).await?;
    if json {
        sub.register("e", JsonSyncFn(move |_| {
            let m = sized_json(s);
            if error { Err(HandlerError::MessageError(m)) } else { Ok(m) }
        })).await.map_err(|e| e.to_string())?;
    } else {
        register_sync(&sub, "e", move |_| {
            let m = sized(s);
            if error { Err(HandlerError::MessageError(m)) } else { Ok(m) }
        }).await?;
    }
    let peer = peer_task(async move {
        let mut p = Peer::client(addr(0)).await?;
        let scheme = if json { "json" } else { "raw" };
        let args = vec![b"e".to_vec(), b"{}".to_vec(), b"{}".to_vec()];
        let id = 0x01020304;
        p.send_all(&wire::request(id, &wire::ReqHead::new("svc", scheme), &[args])).await?;
        let (rid, a) = p.message("response").await?;
        ensure!(rid == id, "response {rid} to request {id}");
        check_response(&a, u8::from(error), scheme)?;
        if json {
            check_json(&a, &sized_json(s))?;
        } else {
            check_same("response on the wire", &message_of(&a)?, &sized(s))?;
        }
        let f = within(1, "", p.recv()).await;
        ensure!(!matches!(f, Ok(Ok(Some(_)))), "unexpected frame behind the response: {f:?}");
        Ok(a.frames)
    });
    let n = join("peer", peer).await?;
    Ok(format!("{s:?} {n} frames"))
}

fn cases(t: Tier) -> Vec<Case> {
    let r = rooms();
    let mut v = vec![];
    for sel in 0..2 {
        let pick = |first: usize| if sel == 0 { plain_sizes(t) } else { many_frames(first, r.cont, t) };
        let name = ["plain sizes", "many frames"][sel];
        let s = pick(r.req);
        v.push(case(format!("{name}, requests"), Bounds::none(), move || {
            let s = s.clone();
            async move { client_wire(s[free(s.len(), "sizes")], false).await }
        }));
        let s = pick(r.res);
        v.push(case(format!("{name}, responses"), Bounds::none(), move || {
            let s = s.clone();
            async move { server_wire(s[free(s.len(), "sizes")], false, false).await }
        }));
    }
    for json in [false, true] {
        let s = sizes(r.req, r.cont, t);
        v.push(case(format!("requests json={json}"), Bounds::none(), move || {
            let s = s.clone();
            async move { client_wire(s[free(s.len(), "sizes")], json).await }
        }));
        for error in [false, true] {
            let s = sizes(r.res, r.cont, t);
            v.push(case(format!("responses json={json} error={error}"), Bounds::none(), move || {
                let s = s.clone();
                async move { server_wire(s[free(s.len(), "sizes")], json, error).await }
            }));
        }
    }
    // service names of all lengths, and with characters of several bytes, move the frame boundary
    let mut names: Vec<String> = t.pick(vec![0usize, 1, 2, 100, 254, 255], (0..=255).collect()).into_iter().map(|n| text(n, 5)).collect();
    for c in ["\u{e9}", "\u{65e5}", "\u{1f600}"] {
        for n in t.pick(vec![1usize, 20, 255 / c.len()], (1..=255 / c.len()).collect()) {
            names.push(c.repeat(n));
        }
    }
    names.push("s\u{e9}rv ic\u{0}e\n".into());
    for (i, svc) in names.into_iter().enumerate() {
        let n = svc.len();
        let (req, res, cont) = (r.req, r.res, r.cont);
        let what = format!("{i} of {n} bytes, {} characters", svc.chars().count());
        let name = svc.clone();
        v.push(case(format!("service name {what}"), Bounds::none(), move || {
            let svc = name.clone();
            async move {
            let l = Listener::bind(0).await?;
            let (_c, csub) = cfg().port(1).sub(&svc).await?;
            // the service name appears twice in the first frame
            let first = req + 6 - 2 * n;
            let a1 = first - 2 - 6 + free(12, "size");
            let m = sized([a1, 3, cont - 9]);
            let want = m.clone();
            let peer = peer_task(async move {
                let mut p = l.serve().await?;
                let (id, a) = p.message("request").await?;
                check_request(&a, &svc, "raw")?;
                check_same("request on the wire", &message_of(&a)?, &want)?;
                p.send(&wire::simple_response(id, "e", "", b"")).await?;
                let _ = p.recv().await;
                Ok(a.frames)
            });
            let r = within(EVENTUALLY, "call", send(&csub, addr(0), m)).await?;
            expect_ok("call", &r, &raw("e", "", b""))?;
            drop((_c, csub));
            let n = join("peer", peer).await?;
            Ok(format!("{n} frames"))
            }
        }));
        v.push(case(format!("responses of service name {what}"), Bounds::none(), move || {
            let svc = svc.clone();
            async move {
            let srv = cfg().channel()?;
            let sub = srv.subchannel(&svc).await.map_err(|e| e.to_string())?;
            // here it appears once
            let a1 = res + 3 - n - 2 - 6 + free(12, "size");
            register_sync(&sub, "e", move |_| Ok(sized([a1, 3, cont - 9]))).await?;
            srv.start_server().map_err(|e| e.to_string())?;
            settle().await;
            let peer = peer_task(async move {
                let mut p = Peer::client(addr(0)).await?;
                let args = vec![b"e".to_vec(), vec![], vec![]];
                p.send_all(&wire::request(77, &wire::ReqHead::new(&svc, "raw"), &[args])).await?;
                let (id, a) = p.message("response").await?;
                ensure!(id == 77, "response {id} to request 77");
                check_response(&a, 0, "raw")?;
                check_same("response on the wire", &message_of(&a)?, &sized([a1, 3, cont - 9]))?;
                Ok(a.frames)
            });
            let n = join("peer", peer).await?;
            drop(srv);
            Ok(format!("{n} frames"))
            }
        }));
    }
    // concurrent multi-frame requests: frames of each message in order under its id
    for buf in [1usize, 3] {
        v.push(case(format!("concurrent requests buf={buf}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let l = Listener::bind(0).await?;
            let (_c, csub) = cfg().buf(buf).port(1).sub("svc").await?;
            let msgs: Vec<RawMessage> = (0..2).map(|i| RawMessage::new(format!("e{i}"), text(70_000, i), blob(70_000, i).into())).collect();
            let want = msgs.clone();
            let peer = peer_task(async move {
                let mut p = l.serve().await?;
                let mut col = wire::Collector::default();
                let mut done = 0;
                let mut order = String::new();
                while done < 2 {
                    let f = p.expect("request").await?;
                    order += &f.id.to_string();
                    if let Some((id, a)) = col.feed(&f)? {
                        check_request(&a, "svc", "raw")?;
                        let m = message_of(&a)?;
                        let i: usize = m.endpoint()[1..].parse().map_err(|_| "endpoint".to_string())?;
                        check_same("request on the wire", &m, &want[i])?;
                        p.send(&wire::simple_response(id, m.endpoint(), "t/", b"t")).await?;
                        done += 1;
                    }
                }
                Ok(order)
            });
            explore_on();
            let calls: Vec<_> = msgs.into_iter().map(|m| {
                let ep = m.endpoint().clone();
                (spawn_call(&csub, addr(0), m, "t"), ep)
            }).collect();
            for (c, ep) in calls {
                let r = c.result().await?;
                expect_ok("call", &r, &raw(&ep, "t/", b"t"))?;
            }
            join("peer", peer).await
        }));
        v.push(case(format!("concurrent responses buf={buf}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let (_srv, sub) = server(cfg().buf(buf)).await?;
            for i in 0..2 {
                register_async(&sub, &format!("e{i}"), move |_| Box::pin(async move {
                    tokio::task::yield_now().await;
                    Ok(RawMessage::new(format!("e{i}"), text(70_000, i), blob(70_000, i).into()))
                })).await?;
            }
            let peer = peer_task(async move {
                let mut p = Peer::client(addr(0)).await?;
                explore_on();
                for i in 0..2 {
                    p.send(&wire::simple_request(10 + i, "svc", &format!("e{i}"), "h", b"")).await?;
                }
                let mut col = wire::Collector::default();
                let mut order = String::new();
                let mut done = 0;
                while done < 2 {
                    let f = p.expect("response").await?;
                    order += &f.id.to_string();
                    if let Some((id, a)) = col.feed(&f)? {
                        let i = (id - 10) as usize;
                        check_response(&a, 0, "raw")?;
                        let want = RawMessage::new(format!("e{i}"), text(70_000, i), blob(70_000, i).into());
                        check_same("response on the wire", &message_of(&a)?, &want)?;
                        done += 1;
                    }
                }
                Ok(order)
            });
            join("peer", peer).await
        }));
    }
    // error frames, ping responses and the init frames
    for (i, what) in ["unknown service", "unknown endpoint", "wrong scheme", "handler error"].into_iter().enumerate() {
        v.push(case(format!("error frame: {what}"), Bounds::none(), move || async move {
            let (_srv, sub) = server(cfg()).await?;
            register_sync(&sub, "e", move |_| {
                Err(HandlerError::InternalError(TChannelError::Error("internal \u{00e9}".into())))
            }).await?;
            let peer = peer_task(async move {
                let mut p = Peer::client(addr(0)).await?;
                let f = match i {
                    0 => wire::simple_request(9, "other", "e", "h", b""),
                    1 => wire::simple_request(9, "svc", "f", "h", b""),
                    2 => wire::request(9, &wire::ReqHead::new("svc", "json"), &[vec![b"e".to_vec(), vec![], vec![]]]).remove(0),
                    _ => wire::simple_request(9, "svc", "e", "h", b""),
                };
                p.send(&f).await?;
                let f = p.expect("error frame").await?;
                ensure!(f.ty == wire::ERROR && f.id == 9, "expected an error frame for 9, got {:#x} for {}", f.ty, f.id);
                let e = wire::parse_error(&f)?;
                Ok(format!("{} {}", e.code, e.message))
            });
            join("peer", peer).await
        }));
    }
    v
}
