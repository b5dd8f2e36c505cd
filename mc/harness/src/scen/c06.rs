//! C06: a lost connection fails its pending calls and never fakes a success.

use super::sizes::blob;
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame};
use mccore::explore::{Bounds, Case};
use std::sync::Arc;
use tchannel_rs::messages::RawMessage;
use tchannel_rs::SubChannel;
use tokio::io::AsyncWriteExt;
use tokio::net::mc::{self, CutKind};

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "the connection is closed or reset at every byte of the exchange (handshake, request, response; single and multi-frame; one to three pending calls), and at every scheduling point of a task that kills it; a violation is a call that does not return promptly, succeeds without its complete response, or fails although it was received completely",
    }
}

const KINDS: [CutKind; 2] = [CutKind::Close, CutKind::Reset];

/// The call must have returned promptly: with its response if `complete`, with an
/// error otherwise.
async fn judge(c: Call, complete: Option<bool>) -> Res<&'static str> {
    let (what, want) = (c.what.clone(), c.want.clone());
    let r = within(PROMPT, &what, c.h).await?.map_err(|e| format!("{what}: task failed: {e}"))?;
    match (&r, complete) {
        (Ok(_), Some(true) | None) => expect_ok(&what, &r, &want).map(|_| "ok"),
        (Err(_), Some(false) | None) => expect_err(&what, &r).map(|_| "err"),
        (Ok(_), _) => Err(format!("{what}: succeeds without its complete response: {}", res_text(&r))),
        (Err(_), _) => Err(format!("{what}: fails although the response was received: {}", res_text(&r))),
    }
}

async fn usable(sub: &Arc<SubChannel>, tag: &str) -> Res {
    call_echo(sub, addr(0), raw("e", "later", b"call"), tag).await
}

/// Encodings of a response in one or several frames.
fn encodings(id: u32, m: &RawMessage, enc: usize) -> Vec<Frame> {
    let (e, h, b) = (m.endpoint().as_bytes().to_vec(), m.header().as_bytes().to_vec(), m.body().to_vec());
    let frames = match enc {
        0 => vec![vec![e, h, b]],
        1 => {
            let (b1, b2) = b.split_at(b.len() / 2);
            vec![vec![e, h, b1.to_vec()], vec![b2.to_vec()]]
        }
        2 => vec![vec![e], vec![vec![], h], vec![vec![], b]],
        3 => vec![vec![e, h, b], vec![vec![]]],
        _ => {
            let mut f = vec![vec![e, h, vec![]]];
            f.extend(b.iter().map(|x| vec![vec![*x]]));
            f
        }
    };
    wire::response(id, &wire::ResHead::new(0, "raw"), &frames)
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // the response stream ends at every byte
    for n in 1..=t.pick(2usize, 3) {
        for enc in 0..5usize {
            for interleave in [false, true] {
                if interleave && (n == 1 || enc == 0) {
                    continue;
                }
                for kind in KINDS {
                    for half in [false, true] {
                        if half && kind == CutKind::Reset {
                            continue;
                        }
                        v.push(case(
                            format!("response cut n={n} encoding={enc} interleaved={interleave} {kind:?} half={half}"),
                            Bounds::none(),
                            move || async move {
                                let l = Listener::bind(0).await?;
                                let (_c, csub) = cfg().buf(1).port(1).sub("svc").await?;
                                let peer = peer_task(async move {
                                    let mut p = l.serve().await?;
                                    let mut reqs = vec![];
                                    for _ in 0..n {
                                        reqs.push(p.message("request").await?);
                                    }
                                    let mut seqs = vec![];
                                    for (id, a) in &reqs {
                                        let r = echo_reply("t", &message_of(a)?);
                                        seqs.push((r.header().clone(), encodings(*id, &r, enc)));
                                    }
                                    // (bytes, position of the end of each response)
                                    let mut bytes = vec![];
                                    let mut ends = vec![];
                                    if interleave {
                                        let k = seqs[0].1.len();
                                        for j in 0..k {
                                            for (h, s) in &seqs {
                                                bytes.extend(s[j].encode());
                                                if j + 1 == k {
                                                    ends.push((h.clone(), bytes.len()));
                                                }
                                            }
                                        }
                                    } else {
                                        for (h, s) in &seqs {
                                            for f in s {
                                                bytes.extend(f.encode());
                                            }
                                            ends.push((h.clone(), bytes.len()));
                                        }
                                    }
                                    let at = free(bytes.len() + 1, "cut at byte");
                                    p.send_bytes(&bytes[..at]).await?;
                                    if half {
                                        // only the sending side ends, the peer goes on reading
                                        p.s.shutdown().await.map_err(|e| e.to_string())?;
                                        let q = tokio::time::timeout(std::time::Duration::from_secs(20), p.recv()).await;
                                        if let Ok(Ok(Some(f))) = q {
                                            return Err(format!("frame {:#x} on a closed connection", f.ty));
                                        }
                                    } else if kind == CutKind::Reset {
                                        p.reset();
                                    } else {
                                        drop(p);
                                    }
                                    Ok((ends, at, l))
                                });
                                let calls: Vec<Call> = (0..n)
                                    .map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), b"bodies"), "t"))
                                    .collect();
                                if half {
                                    for c in calls {
                                        judge(c, None).await?;
                                    }
                                    join("peer", peer).await?;
                                    return Ok("half".into());
                                }
                                let (ends, at, l) = join("peer", peer).await?;
                                let mut out = vec![];
                                for c in calls {
                                    let h = c.want.header().clone();
                                    let end = ends.iter().find(|e| e.0 == h).ok_or("request did not arrive")?.1;
                                    out.push(judge(c, Some(end <= at)).await?);
                                }
                                let next = peer_task(async move { echo_peer(l.serve().await?, "t").await });
                                usable(&csub, "t").await?;
                                drop((next, csub));
                                Ok(format!("{out:?}"))
                            },
                        ));
                    }
                }
            }
        }
    }
    // both real sides: the connection ends at every byte of either direction
    for kind in KINDS {
        for dir in 0..2usize {
            for n in 1..=2usize {
                v.push(case(format!("exchange cut dir={dir} {kind:?} calls={n}"), Bounds::sched(t.pick(0, 1)), move || async move {
                    let (_s, sub) = server(cfg()).await?;
                    echo(&sub, "e", "t").await?;
                    let (_c, csub) = cfg().port(1).sub("svc").await?;
                    let total = if dir == 0 { 21 + 16 + 81 * n } else { 47 + 16 + 65 * n };
                    let at = free(total + 4, "cut at byte") as u64;
                    mc::cut(0, dir, at, kind);
                    explore_on();
                    let mut calls = vec![];
                    for i in 0..n {
                        calls.push(spawn_call(&csub, addr(0), raw("e", &i.to_string(), b"b"), "t"));
                    }
                    let mut out = vec![];
                    for c in calls {
                        out.push(judge(c, None).await?);
                    }
                    explore_off();
                    settle().await;
                    // a cut that was not reached yet hits this call
                    judge(spawn_call(&csub, addr(0), raw("e", "cut", &[0; 60]), "t"), None).await?;
                    settle().await;
                    usable(&csub, "t").await?;
                    Ok(format!("{out:?}"))
                }));
                // the handshake is over, many frames each way
                v.push(case(format!("large exchange cut dir={dir} {kind:?} calls={n}"), Bounds::none(), move || async move {
                    let (_s, sub) = server(cfg().buf(2)).await?;
                    echo(&sub, "e", "t").await?;
                    let (_c, csub) = cfg().buf(2).port(1).sub("svc").await?;
                    usable(&csub, "t").await?;
                    settle().await;
                    // around the headers and ends of all frames
                    let frame = 65534u64;
                    let near: Vec<u64> = (0..n as u64 * 3 + 1)
                        .flat_map(|i| (0..t.pick(40, 90)).map(move |d| (i * frame + d).saturating_sub(8)))
                        .collect();
                    let at = near[free(near.len(), "cut at byte")];
                    mc::cut_after(0, dir, at, kind);
                    let mut calls = vec![];
                    for i in 0..n {
                        calls.push(spawn_call(&csub, addr(0), raw("e", &i.to_string(), &blob(140_000, i)), "t"));
                    }
                    let mut out = vec![];
                    for c in calls {
                        out.push(judge(c, None).await?);
                    }
                    settle().await;
                    judge(spawn_call(&csub, addr(0), raw("e", "cut", &[0; 70_000]), "t"), None).await?;
                    settle().await;
                    usable(&csub, "t").await?;
                    Ok(format!("{out:?}"))
                }));
            }
        }
    }
    // a task kills the connection at any scheduling point
    for kind in KINDS {
        for n in 1..=2usize {
            for size in [1usize, 70_000] {
                for buf in [1usize, 4] {
                    let d = if size == 1 { t.pick(2, 3) } else { t.pick(1, 2) };
                    v.push(case(format!("killed {kind:?} calls={n} size={size} buf={buf}"), Bounds::sched(d), move || async move {
                        let (_s, sub) = server(cfg().buf(buf)).await?;
                        echo(&sub, "e", "t").await?;
                        let (_c, csub) = cfg().buf(buf).port(1).sub("svc").await?;
                        usable(&csub, "t").await?;
                        settle().await;
                        explore_on();
                        let calls: Vec<Call> = (0..n)
                            .map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), &blob(size, i)), "t"))
                            .collect();
                        let k = tokio::task::spawn_named("killer", async move { mc::kill_conn(0, kind) });
                        let mut out = vec![];
                        for c in calls {
                            out.push(judge(c, None).await?);
                        }
                        let _ = k.await;
                        explore_off();
                        settle().await;
                        usable(&csub, "t").await?;
                        Ok(format!("{out:?}"))
                    }));
                }
            }
        }
    }
    // the first connection dies while it is being made
    for kind in KINDS {
        v.push(case(format!("killed while connecting {kind:?}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let (_s, sub) = server(cfg()).await?;
            echo(&sub, "e", "t").await?;
            let (_c, csub) = cfg().port(1).sub("svc").await?;
            explore_on();
            let a = spawn_call(&csub, addr(0), raw("e", "1", b""), "t");
            let k = tokio::task::spawn_named("killer", async move { mc::kill_conn(0, kind) });
            let out = judge(a, None).await?;
            let _ = k.await;
            explore_off();
            settle().await;
            usable(&csub, "t").await?;
            Ok(out.into())
        }));
    }
    // the transport is stuck in the middle of a request when the connection ends
    for kind in KINDS {
        for cap in [10usize, 100, 70_000] {
            v.push(case(format!("stuck request {kind:?} capacity={cap}"), Bounds::sched(t.pick(1, 2)), move || async move {
                mc::set_capacity(cap);
                let l = Listener::bind(0).await?;
                let (_c, csub) = cfg().buf(1).port(1).sub("svc").await?;
                let peer = peer_task(async move {
                    let p = l.serve().await?;
                    settle().await;
                    if kind == CutKind::Reset {
                        p.reset()
                    } else {
                        drop(p)
                    }
                    echo_peer(l.serve().await?, "t").await
                });
                explore_on();
                let a = spawn_call(&csub, addr(0), raw("e", "1", &blob(300_000, 1)), "t");
                let b = spawn_call(&csub, addr(0), raw("e", "2", &blob(300_000, 2)), "t");
                judge(a, Some(false)).await?;
                judge(b, Some(false)).await?;
                explore_off();
                usable(&csub, "t").await?;
                drop(peer);
                Ok("ok".into())
            }));
        }
    }
    // only the calls of the lost connection fail
    for kind in KINDS {
        for lost in 0..2usize {
            v.push(case(format!("one of two connections {kind:?} lost={lost}"), Bounds::sched(t.pick(1, 2)), move || async move {
                let l = Listener::bind(0).await?;
                let (_c, csub) = cfg().conns(2).port(1).sub("svc").await?;
                let arrived: Record<(usize, String)> = Record::new();
                let go = Gate::new();
                let (rec, g) = (arrived.clone(), go.clone());
                let peer = peer_task(async move {
                    for c in 0..3usize {
                        let mut p = l.serve().await?;
                        let (rec, g) = (rec.clone(), g.clone());
                        peer_task(async move {
                            let mut reqs = vec![];
                            while let Ok(Ok(Some(f))) = within(1, "", p.recv()).await {
                                let (id, a) = p.message_from(f, "request").await?;
                                rec.push((c, message_of(&a)?.header().clone()));
                                if c == 2 {
                                    p.send_all(&echo_frames(id, &a, "t")?).await?;
                                } else {
                                    reqs.push((id, a));
                                }
                            }
                            g.enter();
                            if c == lost {
                                g.wait().await;
                                if kind == CutKind::Reset {
                                    p.reset()
                                }
                                return Ok(());
                            }
                            g.wait().await;
                            for (id, a) in reqs {
                                p.send_all(&echo_frames(id, &a, "t")?).await?;
                            }
                            echo_peer(p, "t").await.map(|_| ())
                        });
                    }
                    Ok::<(), String>(())
                });
                explore_on();
                let calls: Vec<Call> =
                    (0..4).map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), b""), "t")).collect();
                tokio::time::sleep(std::time::Duration::from_secs(3)).await;
                let used = arrived.get();
                ensure!(used.len() == 4, "{} requests arrived", used.len());
                go.open();
                go.open();
                let mut out = vec![];
                for (i, c) in calls.into_iter().enumerate() {
                    let on = used.iter().find(|u| u.1 == i.to_string()).ok_or("request did not arrive")?.0;
                    out.push((on, judge(c, Some(on != lost)).await?));
                }
                explore_off();
                settle().await;
                usable(&csub, "t").await?;
                drop(peer);
                Ok(format!("{out:?}"))
            }));
        }
    }
    v
}
