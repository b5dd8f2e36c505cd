//! C04: any valid encoding of a message by a peer is understood.

use super::enc::*;
use super::sizes::check_same;
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame};
use mccore::explore::{Bounds, Case};
use tchannel_rs::errors::HandlerError;
use tchannel_rs::messages::RawMessage;

pub fn property() -> Property {
    Property {
        cases,
        level: "bounded_exhaustive",
        rule: "all splits of small messages into at most 3-5 frames (chunks of every length, empty ones included), all two-cut segmentations of the byte stream, all interleavings of the frames of two messages, lists of headers and of field values; both directions; a violation is any argument not received as encoded",
    }
}

fn args_of(m: &RawMessage) -> [&[u8]; 3] {
    [m.endpoint().as_bytes(), m.header().as_bytes(), m.body()]
}

async fn recording(sub: &tchannel_rs::SubChannel, eps: &[&str]) -> Res<Record<RawMessage>> {
    let got: Record<RawMessage> = Record::new();
    for ep in eps {
        let g = got.clone();
        register_sync(sub, ep, move |r| {
            let a = echo_reply("t", &r);
            g.push(r);
            Ok(a)
        })
        .await?;
    }
    Ok(got)
}

async fn expect_echo(p: &mut Peer, id: u32, m: &RawMessage) -> Res {
    let (rid, a) = p.message("response").await?;
    ensure!(rid == id, "response {rid} instead of {id}");
    check_same("response", &message_of(&a)?, &echo_reply("t", m))
}

/// Sends the frames of one request to the server and checks what the handler got.
async fn to_server(m: RawMessage, id: u32, frames: Vec<Frame>, segments: &[usize]) -> Res {
    let (_s, sub) = server(cfg().buf(2)).await?;
    let got = recording(&sub, &[m.endpoint()]).await?;
    let segments = segments.to_vec();
    let want = m.clone();
    let peer = peer_task(async move {
        let mut p = Peer::client(addr(0)).await?;
        let bytes: Vec<u8> = frames.iter().flat_map(|f| f.encode()).collect();
        let mut at = 0;
        for s in segments {
            p.send_bytes(&bytes[at..s]).await?;
            settle().await;
            at = s;
        }
        p.send_bytes(&bytes[at..]).await?;
        expect_echo(&mut p, id, &m).await
    });
    join("peer", peer).await?;
    let got = got.get();
    ensure!(got.len() == 1, "handler called {} times", got.len());
    check_same("request", &got[0], &want)
}

/// Answers one call of the client with the frames made by `f` and checks the result.
async fn to_client<F>(m: RawMessage, error: bool, segments: &[usize], f: F) -> Res
where
    F: FnOnce(u32) -> Vec<Frame> + 'static,
{
    let l = Listener::bind(0).await?;
    let (_c, csub) = cfg().buf(2).port(1).sub("svc").await?;
    let segments = segments.to_vec();
    let peer = peer_task(async move {
        let mut p = l.serve().await?;
        let (id, _) = p.message("request").await?;
        let bytes: Vec<u8> = f(id).iter().flat_map(|f| f.encode()).collect();
        let mut at = 0;
        for s in segments {
            p.send_bytes(&bytes[at..s]).await?;
            settle().await;
            at = s;
        }
        p.send_bytes(&bytes[at..]).await?;
        let _ = p.recv().await;
        Ok(())
    });
    let r = within(EVENTUALLY, "call", send(&csub, addr(0), raw("e", "h", b"b"))).await?;
    match (&r, error) {
        (Ok(r), false) => check_same("response", r, &m)?,
        (Err(HandlerError::MessageError(r)), true) => check_same("error response", r, &m)?,
        _ => return Err(format!("call: {}", res_text(&r))),
    }
    drop((_c, csub));
    join("peer", peer).await
}

fn messages() -> Vec<RawMessage> {
    vec![
        raw("e", "", b""),
        raw("e", "", b"x"),
        raw("e", "h", b""),
        raw("", "", b""),
        raw("", "h", b"b"),
        raw("ep", "h", b"bo"),
        raw("ep", "hd", b"bod"),
    ]
}

fn header_sets() -> Vec<Vec<(&'static str, &'static str)>> {
    let long: &'static str = Box::leak("k".repeat(255).into_boxed_str());
    vec![
        vec![],
        vec![("cn", "caller")],
        vec![("cn", ""), ("re", "c"), ("se", "2"), ("fd", "x"), ("sk", "key"), ("rd", "del"), ("caS", "h"), ("caF", "h")],
        vec![("unknown", "\u{e9}\u{4e2d}")],
        vec![("", "")],
        vec![(long, long)],
        vec![(long, "")],
    ]
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let frames = t.pick(4, 5);
    for (i, m) in messages().into_iter().enumerate() {
        let m2 = m.clone();
        v.push(case(format!("request splits {i} {}", show(&m)), Bounds::none(), move || {
            let m = m.clone();
            async move {
                let e = free_encoding(&args_of(&m), frames);
                let f = wire::request(9, &wire::ReqHead::new("svc", "raw"), &e);
                to_server(m, 9, f, &[]).await?;
                Ok(show_encoding(&e))
            }
        }));
        for error in [false, true] {
            let m2 = m2.clone();
            let frames = if error { frames - 1 } else { frames };
            v.push(case(format!("response splits {i} {} error={error}", show(&m2)), Bounds::none(), move || {
                let m = m2.clone();
                async move {
                    let e = free_encoding(&args_of(&m), frames);
                    let s = show_encoding(&e);
                    to_client(m, error, &[], move |id| {
                        wire::response(id, &wire::ResHead::new(u8::from(error), "raw"), &e)
                    })
                    .await?;
                    Ok(s)
                }
            }));
        }
    }
    // long messages of many small frames, and of frames of the maximal size
    for (name, chunk, total) in [("one byte frames", 1usize, 300usize), ("largest frames", 65_000, 200_000)] {
        for response in [false, true] {
            v.push(case(format!("{name} response={response}"), Bounds::none(), move || async move {
                let body = super::sizes::blob(total, 4);
                let m = raw("e", "h", &body);
                let mut e: Vec<Vec<Vec<u8>>> = vec![vec![b"e".to_vec(), b"h".to_vec(), vec![]]];
                e.extend(body.chunks(chunk).map(|c| vec![c.to_vec()]));
                if response {
                    to_client(m, false, &[], move |id| {
                        wire::response(id, &wire::ResHead::new(0, "raw"), &e)
                    })
                    .await?;
                } else {
                    to_server(m, 3, wire::request(3, &wire::ReqHead::new("svc", "raw"), &e), &[]).await?;
                }
                Ok("ok".into())
            }));
        }
    }
    // frames that fill the protocol's maximum of 65535 bytes exactly, and nearly
    v.push(case("full frames", Bounds::none(), || async {
        let response = free(2, "response") == 1;
        let size = wire::MAX_FRAME - free(3, "below");
        // room of the first frame's chunks
        let head = wire::ReqHead::new("svc", "raw").bytes().len();
        let rhead = wire::ResHead::new(0, "raw").bytes().len();
        let first = size - wire::HEADER - 2 - if response { rhead } else { head };
        let cont = size - wire::HEADER - 2;
        let body = super::sizes::blob(first - 8 + cont - 2, 9);
        let m = raw("e", "h", &body);
        let e = wire::fill(&args_of(&m), first, cont);
        ensure!(e.len() == 2, "reference made {} frames", e.len());
        if response {
            to_client(m, false, &[], move |id| wire::response(id, &wire::ResHead::new(0, "raw"), &e)).await?;
        } else {
            to_server(m, 3, wire::request(3, &wire::ReqHead::new("svc", "raw"), &e), &[]).await?;
        }
        Ok(format!("{response} {size}"))
    }));
    // all two-cut segmentations of the stream
    for response in [false, true] {
        let step = t.pick(1usize, 1);
        v.push(case(format!("segments response={response}"), Bounds::none(), move || async move {
            let m = raw("e", "h", b"body");
            let e = vec![
                vec![b"e".to_vec(), b"h".to_vec(), b"b".to_vec()],
                vec![b"od".to_vec()],
                vec![b"y".to_vec()],
            ];
            let make = move |id: u32| {
                if response {
                    wire::response(id, &wire::ResHead::new(0, "raw"), &e)
                } else {
                    wire::request(id, &wire::ReqHead::new("svc", "raw"), &e)
                }
            };
            let n: usize = make(1).iter().map(|f| f.encode().len()).sum();
            let a = free(n / step + 1, "first cut") * step;
            let b = a + free((n - a) / step + 1, "second cut") * step;
            if response {
                to_client(m, false, &[a, b], make).await?;
            } else {
                let f = make(0x0100_0203);
                to_server(m, 0x0100_0203, f, &[a, b]).await?;
            }
            Ok(format!("{a} {b}"))
        }));
    }
    // field values
    v.push(case("request fields", Bounds::none(), || async {
        let mut head = wire::ReqHead::new("svc", "raw");
        let sets = header_sets();
        let set = free(sets.len(), "headers");
        let pos = free(sets[set].len() + 1, "position of the scheme");
        head.headers = sets[set].clone();
        head.headers.insert(pos, ("as", "raw"));
        head.ttl = [0, 1, 255, 60_000, 1 << 31, u32::MAX][free(6, "ttl")];
        let tr = free(3, "tracing");
        head.tracing = [[0; 25], [0xff; 25], [0x80; 25]][tr];
        head.tracing[24] = u8::from(tr == 1);
        let id = [0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe][free(6, "id")];
        let m = raw("e", "h", b"b");
        let f = wire::request(id, &head, &[args_of(&m).iter().map(|a| a.to_vec()).collect()]);
        to_server(m, id, f, &[]).await?;
        Ok(format!("{set} {pos} {tr}"))
    }));
    v.push(case("response fields", Bounds::none(), || async {
        let sets = header_sets();
        let set = free(sets.len(), "headers");
        let pos = free(sets[set].len() + 1, "position of the scheme");
        let code = free(2, "code") as u8;
        let tr = free(3, "tracing");
        let m = raw("x", "y", b"z");
        let m2 = m.clone();
        to_client(m, code == 1, &[], move |id| {
            let mut head = wire::ResHead::new(code, "raw");
            head.headers = sets[set].clone();
            head.headers.insert(pos, ("as", "raw"));
            head.tracing = [[0; 25], [0xff; 25], [0x80; 25]][tr];
            head.tracing[24] = u8::from(tr == 1);
            wire::response(id, &head, &[args_of(&m2).iter().map(|a| a.to_vec()).collect()])
        })
        .await?;
        Ok(format!("{set} {pos} {code} {tr}"))
    }));
    // 255 headers; text that is not ASCII
    v.push(case("many headers and other texts", Bounds::none(), || async {
        let names: Vec<String> = (0..254).map(|i| format!("h{i}")).collect();
        let k = free(4, "what");
        let mut head = wire::ReqHead::new("svc", "raw");
        let mut m = raw("e", "h", b"b");
        match k {
            0 => head.headers.extend(names[..253].iter().map(|n| (n.as_str(), "v"))),
            1 => m = raw("\u{4e2d}\u{e9}", "\u{1f600}", &[0, 255, 128]),
            2 => m = raw("e\0", "\n", &[]),
            _ => m = raw(&"e".repeat(3000), &"\u{e9}".repeat(3000), &[9; 3000]),
        }
        let f = wire::request(6, &head, &[args_of(&m).iter().map(|a| a.to_vec()).collect()]);
        to_server(m, 6, f, &[]).await?;
        Ok(k.to_string())
    }));
    // a character of several bytes split between two frames
    v.push(case("characters split between frames", Bounds::none(), || async {
        let m = raw("\u{4e2d}\u{e9}", "\u{1f600}", b"");
        let e = free_encoding(&args_of(&m), 3);
        let s = show_encoding(&e);
        if free(2, "response") == 1 {
            to_client(m, false, &[], move |id| wire::response(id, &wire::ResHead::new(0, "raw"), &e)).await?;
        } else {
            to_server(m, 3, wire::request(3, &wire::ReqHead::new("svc", "raw"), &e), &[]).await?;
        }
        Ok(s)
    }));
    // interleaved frames of two requests, each split in every way into 2-3 frames
    for tasks in [0usize, 1, 4] {
        v.push(case(format!("interleaved requests tasks={tasks}"), Bounds::sched(0), move || async move {
            let (_s, sub) = server(cfg().buf(1).tasks(tasks)).await?;
            let got = recording(&sub, &["e", "f"]).await?;
            let m = [raw("e", "", b"x"), raw("f", "h", b"")];
            let m2 = m.clone();
            let peer = peer_task(async move {
                let mut p = Peer::client(addr(0)).await?;
                let ids = [4u32, 9];
                let enc: Vec<_> = m.iter().map(|m| free_encoding(&args_of(m), 3)).collect();
                let frames: Vec<Vec<Frame>> = (0..2)
                    .map(|i| wire::request(ids[i], &wire::ReqHead::new("svc", "raw"), &enc[i]))
                    .collect();
                let order = free_merge(&[frames[0].len(), frames[1].len()], "order");
                let mut next = [0, 0];
                for i in order {
                    p.send(&frames[i][next[i]]).await?;
                    next[i] += 1;
                }
                let mut col = wire::Collector::default();
                let mut seen = vec![];
                while seen.len() < 2 {
                    if let Some((id, a)) = col.feed(&p.expect("response").await?)? {
                        ensure!(!seen.contains(&id), "second response {id}");
                        let i = ids.iter().position(|x| *x == id).ok_or(format!("response {id}"))?;
                        check_same("response", &message_of(&a)?, &echo_reply("t", &m[i]))?;
                        seen.push(id);
                    }
                }
                Ok(format!("{} {}", show_encoding(&enc[0]), show_encoding(&enc[1])))
            });
            let s = join("peer", peer).await?;
            let got = got.get();
            ensure!(got.len() == 2, "handlers called {} times", got.len());
            for m in &m2 {
                ensure!(got.iter().any(|g| same(g, m)), "request {} did not arrive", show(m));
            }
            Ok(s)
        }));
    }
    // schedules while a split message arrives
    for response in [false, true] {
        v.push(case(format!("schedules response={response}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let m = raw("e", "h", b"bo");
            let e = vec![
                vec![b"e".to_vec()],
                vec![vec![], b"".to_vec()],
                vec![b"h".to_vec(), b"b".to_vec()],
                vec![b"o".to_vec()],
                vec![vec![]],
            ];
            explore_on();
            if response {
                to_client(m, false, &[], move |id| wire::response(id, &wire::ResHead::new(0, "raw"), &e)).await?;
            } else {
                to_server(m, 3, wire::request(3, &wire::ReqHead::new("svc", "raw"), &e), &[]).await?;
            }
            Ok("ok".into())
        }));
    }
    v
}
