//! C02: messages arrive exactly as sent, whatever their size.

use super::sizes::*;
use super::Property;
use crate::ensure;
use crate::util::*;
use mccore::explore::{Bounds, Case};
use serde_json::json;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::messages::{JsonMessage, RawMessage};

pub fn property() -> Property {
    Property {
        cases,
        level: "bounded_exhaustive",
        rule: "all argument sizes in windows around the ends of the first three frames, both directions, raw and JSON; small messages over all stream segmentations within the bound; a violation is any difference between the message sent and received",
    }
}

async fn raw_request(s: [usize; 3], c: Cfg) -> Res<String> {
    request(sized(s), c).await?;
    Ok(format!("{s:?}"))
}

async fn request(m: RawMessage, c: Cfg) -> Res {
    let (_srv, sub) = server(c).await?;
    let got: Record<RawMessage> = Record::new();
    let g = got.clone();
    register_sync(&sub, m.endpoint(), move |r| {
        g.push(r);
        Ok(raw("done", "", b""))
    })
    .await?;
    let (_c, csub) = c.port(1).sub("svc").await?;
    let r = within(EVENTUALLY, "call", send(&csub, addr(0), m.clone())).await?;
    expect_ok("call", &r, &raw("done", "", b""))?;
    let got = got.get();
    ensure!(got.len() == 1, "handler called {} times", got.len());
    check_same("request", &got[0], &m)
}

async fn raw_response(s: [usize; 3], c: Cfg, error: bool) -> Res<String> {
    response(sized(s), c, error).await?;
    Ok(format!("{s:?}"))
}

async fn response(m: RawMessage, c: Cfg, error: bool) -> Res {
    let (_srv, sub) = server(c).await?;
    let reply = m.clone();
    register_sync(&sub, "e", move |_| {
        if error {
            Err(HandlerError::MessageError(reply.clone()))
        } else {
            Ok(reply.clone())
        }
    })
    .await?;
    let (_c, csub) = c.port(1).sub("svc").await?;
    let r = within(EVENTUALLY, "call", send(&csub, addr(0), raw("e", "h", b"b"))).await?;
    match (&r, error) {
        (Ok(r), false) => check_same("response", r, &m)?,
        (Err(HandlerError::MessageError(r)), true) => check_same("error response", r, &m)?,
        _ => return Err(format!("call: {}", res_text(&r))),
    }
    Ok(())
}

async fn json_both(s: [usize; 3], c: Cfg, response: bool) -> Res<String> {
    json_message(sized_json(s), c, response).await?;
    Ok(format!("{s:?}"))
}

async fn json_message(m: JsonMessage, c: Cfg, response: bool) -> Res {
    let small = JsonMessage::new("e".into(), json_map(json!({"a": [1, null, "x"]})), json_map(json!({})));
    let (req, rep) = if response { (small.clone(), m.clone()) } else { (m.clone(), small.clone()) };
    let (_srv, sub) = server(c).await?;
    let got: Record<JsonMessage> = Record::new();
    let g = got.clone();
    let r2 = rep.clone();
    sub.register(
        req.method_name().clone(),
        JsonSyncFn(move |r| {
            g.push(r);
            Ok(r2.clone())
        }),
    )
    .await
    .map_err(|e| e.to_string())?;
    let (_c, csub) = c.port(1).sub("svc").await?;
    let r = within(EVENTUALLY, "call", send_json(&csub, addr(0), req.clone())).await?;
    let r = r.map_err(|e| format!("call: {e}"))?;
    check_same_json("response", &r, &rep)?;
    ensure!(got.len() == 1, "handler called {} times", got.len());
    check_same_json("request", &got.get()[0], &req)
}

/// Values JSON can represent, each as (part of) an argument.
fn json_values() -> Vec<serde_json::Value> {
    let mut v = vec![
        json!(null), json!(true), json!(false), json!(0), json!(-1), json!(u64::MAX), json!(i64::MIN), json!(i64::MAX),
        json!(1.5), json!(-0.1), json!(1e300), json!(1e-300), json!(f64::MAX), json!(5e-324),
        json!(9007199254740993u64),
        json!(""), json!("\u{0}\u{1}\u{1f}\"\\/\u{7f}"), json!("\u{e9}\u{20ac}\u{1f980}\u{ffff}"), json!(" \t\r\n"),
        json!([]), json!({}), json!([[], {}, [[]], [null, {"": null}]]), json!({"a": {"b": {"c": [1, {"d": "e"}]}}}),
        json!({"": "", " ": 1, "A": 2, "a": 3, "\"": 4, "\u{1f980}": 5, "as": "raw", "cn": 0}),
        json!((0..300).collect::<Vec<i32>>()),
        json!(text(70_000, 1)), json!(wide_text(70_000, 1)),
    ];
    let mut deep = json!(1);
    for i in 0..100 {
        deep = if i % 2 == 0 { json!([deep]) } else { json!({ "k": deep }) };
    }
    v.push(deep);
    let mut many = serde_json::Map::new();
    for i in 0..3000 {
        many.insert(format!("key {i}"), json!(i));
    }
    v.push(serde_json::Value::Object(many));
    v
}

fn cases(t: Tier) -> Vec<Case> {
    let r = rooms();
    let mut v = vec![];
    let bufs: &[usize] = t.pick(&[1, 4], &[1, 2, 4, 100]);
    for &buf in bufs {
        let req = sizes(r.req, r.cont, t);
        v.push(case(format!("raw requests buf={buf}"), Bounds::none(), move || {
            let req = req.clone();
            async move { raw_request(req[free(req.len(), "sizes")], cfg().buf(buf)).await }
        }));
        let res = sizes(r.res, r.cont, t);
        v.push(case(format!("raw responses buf={buf}"), Bounds::none(), move || {
            let res = res.clone();
            async move { raw_response(res[free(res.len(), "sizes")], cfg().buf(buf), false).await }
        }));
    }
    let res = sizes(r.res, r.cont, t);
    v.push(case("raw error responses", Bounds::none(), move || {
        let res = res.clone();
        async move { raw_response(res[free(res.len(), "sizes")], cfg(), true).await }
    }));
    for response in [false, true] {
        let s = sizes(if response { r.res } else { r.req }, r.cont, t);
        v.push(case(format!("json response={response}"), Bounds::none(), move || {
            let s = s.clone();
            async move { json_both(s[free(s.len(), "sizes")], cfg(), response).await }
        }));
    }
    // away from the boundaries, many frames, other contents
    for response_ in [false, true] {
        let s = plain_sizes(t);
        v.push(case(format!("plain sizes response={response_}"), Bounds::none(), move || {
            let s = s.clone();
            async move {
                let s = s[free(s.len(), "sizes")];
                if response_ { raw_response(s, cfg(), false).await } else { raw_request(s, cfg()).await }
            }
        }));
        for buf in [1usize, 100] {
            let s = many_frames(if response_ { r.res } else { r.req }, r.cont, t);
            v.push(case(format!("many frames response={response_} buf={buf}"), Bounds::none(), move || {
                let s = s.clone();
                async move {
                    let s = s[free(s.len(), "sizes")];
                    let c = cfg().buf(buf);
                    if response_ { raw_response(s, c, false).await } else { raw_request(s, c).await }
                }
            }));
        }
        for kind in 0..4usize {
            let s = sizes(if response_ { r.res } else { r.req }, r.cont, t);
            let few: Vec<_> = s.into_iter().enumerate().filter(|(i, s)| t.thorough() || i % 5 == kind || s[0] < 4).map(|x| x.1).collect();
            v.push(case(format!("contents {kind} response={response_}"), Bounds::none(), move || {
                let s = few.clone();
                async move {
                    let s = s[free(s.len(), "sizes")];
                    let m = sized_as(s, kind);
                    if response_ { response(m, cfg(), false).await? } else { request(m, cfg()).await? }
                    Ok(format!("{s:?}"))
                }
            }));
        }
        v.push(case(format!("json values response={response_}"), Bounds::none(), move || async move {
            let all = json_values();
            let n = free(all.len(), "value");
            let x = all[n].clone();
            let key = ["k", "", "\u{1f980}"][free(3, "key")];
            let obj = json_map(match &x {
                serde_json::Value::Object(_) if free(2, "whole") == 0 => x.clone(),
                _ => json!({ key: x }),
            });
            let m = match free(3, "where") {
                0 => JsonMessage::new("m".into(), obj, json_map(json!({}))),
                1 => JsonMessage::new("m".into(), json_map(json!({})), obj),
                _ => JsonMessage::new("m".into(), obj.clone(), obj),
            };
            json_message(m, cfg(), response_).await?;
            Ok(format!("{n}"))
        }));
    }
    for x in [0.1 + 0.2, 0.1, 1.0 / 3.0, 100.0, 2.5e-8, 1.7976931348623157e308, 123456789.12345679] {
        v.push(case(format!("json number {x}"), Bounds::none(), move || async move {
            let (_srv, sub) = server(cfg()).await?;
            let got: Record<JsonMessage> = Record::new();
            let g = got.clone();
            sub.register("m", JsonSyncFn(move |r: JsonMessage| { g.push(r.clone()); Ok(r) })).await.map_err(|e| e.to_string())?;
            let (_c, csub) = cfg().port(1).sub("svc").await?;
            let m = JsonMessage::new("m".into(), json_map(json!({})), json_map(json!({ "x": x })));
            let r = within(EVENTUALLY, "call", send_json(&csub, addr(0), m)).await?;
            let r = r.map_err(|e| format!("call: {e}"))?;
            ensure!(got.len() == 1, "handler called {} times", got.len());
            for (m, what) in [(&got.get()[0], "handler"), (&r, "caller")] {
                let y = m.body().get("x").and_then(|y| y.as_f64()).ok_or(format!("{what}: number is missing"))?;
                ensure!(y == x, "{what} gets {y:?} for {x:?}");
            }
            Ok("ok".into())
        }));
    }
    // tight transport: every capacity of the pipes, partial reads and writes
    for cap in [1usize, 2, 3, 5, 16, 17, 64, 1000] {
        v.push(case(format!("transport capacity {cap}"), Bounds::none().with_env(t.pick(1, 2)), move || async move {
            tokio::net::mc::set_capacity(cap);
            explore_on();
            let a = raw_request([1, 2, 3], cfg()).await?;
            Ok(a)
        }).short_reads());
    }
    for cap in [100usize, 4096, 65534, 65535, 65536] {
        v.push(case(format!("transport capacity {cap}, many frames"), Bounds::none(), move || async move {
            tokio::net::mc::set_capacity(cap);
            raw_request([10, 70_000, 140_000], cfg()).await
        }));
    }
    // every segmentation of the stream within the bound, multi-frame both ways
    v.push(case("short reads", Bounds::none().with_env(t.pick(2, 3)), || async {
        explore_on();
        let a = raw_request([1, 2, 3], cfg()).await?;
        Ok(a)
    }).short_reads());
    v.push(case("short reads, multi-frame", Bounds::none().with_env(t.pick(1, 2)), || async {
        explore_on();
        let a = raw_request([1, 2, 140_000], cfg()).await?;
        Ok(a)
    }).short_reads());
    // concurrent multi-frame messages on one connection
    v.push(case("two multi-frame calls", Bounds::sched(t.pick(1, 2)), || async {
        let (_srv, sub) = server(cfg().buf(1)).await?;
        echo(&sub, "e", "t").await?;
        let (_c, csub) = cfg().buf(1).port(1).sub("svc").await?;
        call_echo(&csub, addr(0), raw("e", "w", b""), "t").await?;
        explore_on();
        let mut calls = vec![];
        for i in 0..2 {
            let m = RawMessage::new("e".into(), text(3, i), blob(70_000, i).into());
            calls.push(spawn_call(&csub, addr(0), m, "t"));
        }
        for c in calls {
            c.echoed().await?;
        }
        Ok("ok".into())
    }));
    v
}
