//! C09: the caller learns exactly what the handler decided.

use super::sizes::{blob, text};
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame};
use mccore::explore::{Bounds, Case};
use serde_json::json;
use std::sync::Arc;
use tchannel_rs::errors::{CodecError, ConnectionError, HandlerError, TChannelError};
use tchannel_rs::messages::{JsonMessage, RawMessage};
use tchannel_rs::SubChannel;
use tokio::net::mc::CutKind;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "handler kind (sync, async) x message type (raw, JSON) x every outcome (message, error message, each kind of failure, missing handler) x response sizes from empty to several frames, over the real client and over the wire, histories of outcomes, concurrent mixed outcomes with schedules, and raw servers answering with every code; a violation is a caller that learns anything else",
    }
}

pub const FAILURES: usize = 6;

pub fn failure<M: tchannel_rs::messages::Message>(k: usize) -> HandlerError<M> {
    match k {
        0 => HandlerError::GeneralError("g".into()),
        1 => HandlerError::GeneralError(String::new()),
        2 => HandlerError::InternalError(TChannelError::Error("t".into())),
        3 => HandlerError::InternalError(TChannelError::CodecError(CodecError::Error("c".into()))),
        4 => HandlerError::InternalError(TChannelError::ConnectionError(ConnectionError::Error("n".into()))),
        _ => HandlerError::GeneralError("x".repeat(100_000)),
    }
}

/// The request's header tells the outcome: "ok", "err" or "f<k>".
fn raw_outcome(r: RawMessage) -> RawResult {
    let m = RawMessage::new(format!("{}'", r.endpoint()), format!("re {}", r.header()), r.body().clone());
    match r.header().split(' ').next().unwrap_or("") {
        "ok" => Ok(m),
        "err" => Err(HandlerError::MessageError(m)),
        f => Err(failure(f[1..].parse().unwrap_or(0))),
    }
}

fn json_outcome(r: JsonMessage) -> JsonResult {
    let o = r.headers().get("o").and_then(|v| v.as_str()).unwrap_or("ok").to_string();
    let mut h = r.headers().clone();
    h.insert("re".into(), json!(true));
    let m = JsonMessage::new(format!("{}'", r.method_name()), h, r.body().clone());
    match o.as_str() {
        "ok" => Ok(m),
        "err" => Err(HandlerError::MessageError(m)),
        f => Err(failure(f[1..].parse().unwrap_or(0))),
    }
}

async fn handlers(sub: &SubChannel, suspend: usize) -> Res {
    register_sync(sub, "rs", raw_outcome).await?;
    register_async(sub, "ra", move |r| {
        Box::pin(async move {
            for _ in 0..suspend {
                tokio::task::yield_now().await;
            }
            raw_outcome(r)
        })
    })
    .await?;
    sub.register("js", JsonSyncFn(json_outcome)).await.map_err(|e| e.to_string())?;
    let j = JsonAsyncFn(move |r: JsonMessage| -> BoxFut<JsonResult> {
        Box::pin(async move {
            for _ in 0..suspend {
                tokio::task::yield_now().await;
            }
            json_outcome(r)
        })
    });
    sub.register_async("ja", j).await.map_err(|e| e.to_string())?;
    Ok(())
}

fn outcomes() -> Vec<String> {
    let mut v = vec!["ok".to_string(), "err".into()];
    v.extend((0..FAILURES).map(|k| format!("f{k}")));
    v
}

fn json_text(r: &JsonResult) -> String {
    match r {
        Ok(m) => format!("ok {:.80}", format!("{m:?}")),
        Err(HandlerError::MessageError(m)) => format!("message error {:.80}", format!("{m:?}")),
        Err(HandlerError::GeneralError(m)) => format!("general error {m:.80}"),
        Err(HandlerError::InternalError(m)) => format!("internal error {:.80}", m.to_string()),
    }
}

/// One call whose outcome is known; `ep` may also be "nothing".
async fn probe(sub: &Arc<SubChannel>, to: u16, ep: &str, o: &str, i: usize, body: usize) -> Res {
    let what = format!("{ep} {o} {i} {body}");
    if ep.starts_with('j') {
        let h = json_map(json!({"o": o, "i": i}));
        let b = json_map(json!({"text": text(body, i)}));
        let r = within(EVENTUALLY, &what, send_json(sub, addr(to), JsonMessage::new(ep.into(), h.clone(), b.clone()))).await?;
        let mut want = h;
        want.insert("re".into(), json!(true));
        let same = |m: &JsonMessage| {
            m.method_name() == &format!("{ep}'") && m.headers() == &want && m.body() == &b
        };
        let good = match (&r, o) {
            (Ok(m), "ok") => same(m),
            (Err(HandlerError::MessageError(m)), "err") => same(m),
            (Err(HandlerError::MessageError(_)) | Ok(_), _) => false,
            (Err(_), o) => o != "ok" && o != "err",
        };
        ensure!(good, "{what}: the caller learns {}", json_text(&r));
    } else {
        let m = RawMessage::new(ep.into(), format!("{o} {i}"), blob(body, i).into());
        let r = within(EVENTUALLY, &what, send(sub, addr(to), m.clone())).await?;
        let want = RawMessage::new(format!("{ep}'"), format!("re {o} {i}"), m.body().clone());
        let good = match (&r, o) {
            (Ok(m), "ok") => same(m, &want) && ep != "nothing",
            (Err(HandlerError::MessageError(m)), "err") => same(m, &want) && ep != "nothing",
            (Err(HandlerError::MessageError(_)) | Ok(_), _) => false,
            (Err(_), o) => o != "ok" && o != "err" || ep == "nothing",
        };
        ensure!(good, "{what}: the caller learns {}", res_text(&r));
    }
    Ok(())
}

const EPS: [&str; 5] = ["rs", "ra", "js", "ja", "nothing"];

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for body in [0usize, 1, 100, 65_000, 65_440, 65_460, 65_470, 65_480, 65_536, 140_000] {
        for buf in [1usize, 4] {
            v.push(case(format!("outcomes body={body} buf={buf}"), Bounds::sched(t.pick(0, u32::from(body < 2))), move || async move {
                let (_s, sub) = server(cfg().buf(buf)).await?;
                handlers(&sub, 1).await?;
                let (_c, csub) = cfg().buf(buf).port(1).sub("svc").await?;
                let ep = EPS[free(EPS.len(), "handler")];
                let os = outcomes();
                let o = &os[free(os.len(), "outcome")];
                explore_on();
                probe(&csub, 0, ep, o, 1, body).await?;
                Ok(format!("{ep} {o}"))
            }));
        }
    }
    // histories of outcomes on one connection
    let len = t.pick(3, 4);
    v.push(case("histories", Bounds::none(), move || async move {
        let (_s, sub) = server(cfg().tasks(1).buf(1)).await?;
        handlers(&sub, 1).await?;
        let (_c, csub) = cfg().buf(1).port(1).sub("svc").await?;
        let mut h = vec![];
        for i in 0..len {
            let ep = EPS[free(EPS.len(), "handler")];
            let o = ["ok", "err", "f0"][free(3, "outcome")];
            h.push((ep, o));
            probe(&csub, 0, ep, o, i, [1, 66_000][i % 2]).await.map_err(|e| format!("{h:?}: {e}"))?;
        }
        Ok(format!("{h:?}"))
    }));
    // concurrent calls with different outcomes
    for tasks in [1usize, 3] {
        for same_handler in [false, true] {
            v.push(case(
                format!("concurrent outcomes tasks={tasks} same handler={same_handler}"),
                Bounds::sched(t.pick(2, 3)),
                move || async move {
                    let (_s, sub) = server(cfg().tasks(tasks).buf(1)).await?;
                    handlers(&sub, 1).await?;
                    let (_c, csub) = cfg().buf(1).port(1).sub("svc").await?;
                    probe(&csub, 0, "rs", "ok", 0, 1).await?;
                    settle().await;
                    explore_on();
                    let mut hs = vec![];
                    for (i, (ep, o)) in [("ra", "ok"), ("rs", "err"), ("ra", "f0")].into_iter().enumerate() {
                        let csub = csub.clone();
                        let ep = if same_handler { "ra" } else { ep };
                        hs.push(tokio::task::spawn_named("call", async move {
                            probe(&csub, 0, ep, o, i + 1, 1).await
                        }));
                    }
                    for h in hs {
                        join("call", h).await?;
                    }
                    Ok("ok".into())
                },
            ));
        }
    }
    // what is on the wire
    v.push(case("codes on the wire", Bounds::none(), || async {
        let (_s, sub) = server(cfg()).await?;
        handlers(&sub, 0).await?;
        let peer = peer_task(async move {
            let mut p = Peer::client(addr(0)).await?;
            let ep = EPS[free(EPS.len(), "handler")];
            let os = outcomes();
            let o = &os[free(os.len(), "outcome")];
            let body = [0usize, 70_000][free(2, "size")];
            let j = ep.starts_with('j');
            let (h, b) = if j {
                (json!({"o": o}).to_string(), json!({"t": text(body, 1)}).to_string().into_bytes())
            } else {
                (format!("{o} 1"), blob(body, 1))
            };
            let args: [&[u8]; 3] = [ep.as_bytes(), h.as_bytes(), &b];
            let head = wire::ReqHead::new("svc", if j { "json" } else { "raw" });
            p.send_all(&wire::request(8, &head, &wire::fill(&args, 60_000, 60_000))).await?;
            let f = p.expect("answer").await?;
            ensure!(f.id == 8, "answer {}", f.id);
            if ep == "nothing" || o.starts_with('f') {
                ensure!(f.ty == wire::ERROR, "frame {:#x} for outcome {o}", f.ty);
                wire::parse_error(&f)?;
            } else {
                let (_, a) = p.message_from(f, "response").await?;
                let want = u8::from(o == "err");
                let wire::Head::Res { code, headers } = &a.head else { return Err("no response".into()) };
                ensure!(*code == want, "response code {code} for outcome {o}");
                let scheme = wire::get(headers, "as");
                ensure!(scheme == Some(if j { "json" } else { "raw" }), "scheme {scheme:?}");
                ensure!(a.args.len() == 3 && a.args[0] == format!("{ep}'").as_bytes(), "arguments");
                ensure!(a.args[2].len() == b.len(), "body of {} bytes", a.args[2].len());
            }
            // exactly one answer
            settle().await;
            let more = tokio::time::timeout(std::time::Duration::from_secs(1), p.recv()).await;
            ensure!(more.is_err(), "more than one answer: {more:?}");
            Ok(format!("{ep} {o} {body}"))
        });
        join("peer", peer).await
    }));
    // raw servers: every code and frame, at once or in the middle of a response
    const ANSWERS: usize = 14;
    for multi in [false, true] {
        v.push(case(format!("raw server multi={multi}"), Bounds::none(), move || async move {
            let l = Listener::bind(0).await?;
            let (_c, csub) = cfg().buf(1).port(1).sub("svc").await?;
            let k = free(ANSWERS, "answer");
            let peer = peer_task(async move {
                let mut p = l.serve().await?;
                let (id, a) = p.message("request").await?;
                let m = message_of(&a)?;
                let frames = |code: u8, scheme: &str| -> Vec<Frame> {
                    let (e, h, b) = (m.endpoint().as_bytes().to_vec(), m.header().as_bytes().to_vec(), m.body().to_vec());
                    let f = if multi { vec![vec![e, h], vec![vec![], b.clone()], vec![b]] } else { vec![vec![e, h, [&b[..], &b[..]].concat()]] };
                    wire::response(id, &wire::ResHead::new(code, scheme), &f)
                };
                let mut f = match k {
                    0 => frames(0, "raw"),
                    1 => frames(1, "raw"),
                    2 => frames(2, "raw"),
                    3 => frames(255, "raw"),
                    4 => frames(0, "json"),
                    5 => frames(1, "json"),
                    6 => frames(0, "thrift"),
                    7..=9 => frames((k - 7) as u8 % 2, "raw"),
                    _ => vec![wire::error(id, [1u8, 3, 5, 7][k - 10], "no")],
                };
                // an error in place of the last frame, a wrong frame, or a cut
                match k {
                    7 => *f.last_mut().unwrap() = wire::error(id, 5, "in the middle"),
                    8 => f.last_mut().unwrap().ty = wire::CALL_REQ,
                    9 => {
                        f.pop();
                    }
                    _ => (),
                }
                p.send_all(&f).await?;
                settle().await;
                if k == 9 {
                    tokio::net::mc::kill_conn(0, CutKind::Close);
                    return Ok(());
                }
                echo_peer(p, "t").await.map(|_| ())
            });
            let m = raw("e", "h", b"body");
            let r = within(EVENTUALLY, "call", send(&csub, addr(0), m.clone())).await?;
            let want = raw("e", "h", b"bodybody");
            match (k, &r) {
                (0, Ok(x)) | (1, Err(HandlerError::MessageError(x))) => {
                    ensure!(same(x, &want), "answer {k}: {}", show(x))
                }
                (0 | 1, _) | (_, Ok(_) | Err(HandlerError::MessageError(_))) => {
                    return Err(format!("answer {k}: the caller learns {}", res_text(&r)))
                }
                _ => (),
            }
            if k != 9 {
                call_echo(&csub, addr(0), raw("e", "next", b"b"), "t").await?;
            }
            drop(csub);
            drop(_c);
            join("peer", peer).await?;
            Ok(format!("{k}"))
        }));
    }
    v
}
