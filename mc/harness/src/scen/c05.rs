//! C05: calls always complete.

use super::sizes::{blob, text};
use super::Property;
use crate::ensure;
use crate::util::*;
use crate::wire::{self, Frame};
use mccore::explore::{Bounds, Case};
use tchannel_rs::messages::RawMessage;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "all executions with at most the stated number of scheduling deviations over a matrix of configurations (frame buffer, server tasks, connections, message sizes, number of calls), and all interleavings of the frames of several requests; a violation is a call that does not return its response",
    }
}

fn big(ep: &str, i: usize, body: usize) -> RawMessage {
    RawMessage::new(ep.to_string(), text(3 + i, i), blob(body, i).into())
}

/// `n` concurrent echoed calls over a fresh client, in the given configuration.
async fn calls(c: Cfg, conns: u32, n: usize, body: usize, warm: bool) -> Res<String> {
    let (_s, sub) = server(c).await?;
    for i in 0..n {
        slow_echo(&sub, &format!("e{i}"), "t", 1).await?;
    }
    let (_c, csub) = c.conns(conns).port(1).sub("svc").await?;
    if warm {
        call_echo(&csub, addr(0), raw("e0", "w", b""), "t").await?;
        settle().await;
    }
    explore_on();
    let calls: Vec<Call> =
        (0..n).map(|i| spawn_call(&csub, addr(0), big(&format!("e{i}"), i, body), "t")).collect();
    for c in calls {
        c.echoed().await?;
    }
    explore_off();
    // and the connection is as good as new
    call_echo(&csub, addr(0), raw("e0", "after", b""), "t").await?;
    Ok(format!("connections {}", tokio::net::mc::connections_to(addr(0))))
}

/// `lens[i]`: numbers of frames of the requests sent under id `5 + i`, one after the
/// other: the next one begins when the response to the one before has been received.
async fn reuse(lens: [Vec<usize>; 2]) -> Res<String> {
    let mut p = Peer::client(addr(0)).await?;
    let mut frames: Vec<Vec<(Frame, bool)>> = vec![];
    for i in 0..2 {
        let mut of_id = vec![];
        for (r, n) in lens[i].iter().enumerate() {
            let mut e = vec![vec![b"e".to_vec(), format!("{i}.{r}").into_bytes(), vec![0]]];
            e.extend((1..*n).map(|j| vec![vec![j as u8; 3]]));
            let fs = wire::request(i as u32 + 5, &wire::ReqHead::new("svc", "raw"), &e);
            of_id.extend(fs.into_iter().enumerate().map(|(j, f)| (f, j == 0)));
        }
        frames.push(of_id);
    }
    let order = free_merge(&[frames[0].len(), frames[1].len()], "order");
    let mut next = [0; 2];
    let mut begun = [0; 2];
    let mut answered = [0; 2];
    let mut col = wire::Collector::default();
    let mut receive = async |p: &mut Peer, answered: &mut [usize; 2], want: [usize; 2]| -> Res {
        while answered[0] < want[0] || answered[1] < want[1] {
            if let Some((id, a)) = col.feed(&p.expect("response").await?)? {
                ensure!(id == 5 || id == 6, "response to {id}");
                let i = id as usize - 5;
                let r = answered[i];
                ensure!(r < lens[i].len(), "second response {id}");
                ensure!(a.args[1] == format!("t/{i}.{r}").as_bytes(), "response {:?} to request {i}.{r}", a.args[1]);
                ensure!(a.args[2].len() == 1 + 3 * (lens[i][r] - 1) + 1, "response of {} bytes", a.args[2].len());
                answered[i] += 1;
            }
        }
        Ok(())
    };
    for i in &order {
        let (f, first) = &frames[*i][next[*i]];
        if *first {
            let mut want = [0; 2];
            want[*i] = begun[*i];
            receive(&mut p, &mut answered, want).await?;
            begun[*i] += 1;
        }
        p.send(f).await?;
        next[*i] += 1;
    }
    receive(&mut p, &mut answered, [lens[0].len(), lens[1].len()]).await?;
    Ok(format!("{order:?}"))
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for buf in [1usize, 2, 3] {
        for tasks in [0usize, 1, 2] {
            for conns in [1u32, 2] {
                for (n, body) in [(2usize, 1usize), (2, 140_000), (3, 1), (3, 70_000)] {
                    let deep = buf == 1 && n == 2 && conns == 1;
                    let d = if body == 1 {
                        t.pick(1, 2) + u32::from(deep)
                    } else {
                        t.pick(0, 1) + u32::from(deep && tasks == 1)
                    };
                    v.push(case(
                        format!("calls buf={buf} tasks={tasks} conns={conns} n={n} body={body}"),
                        Bounds::sched(d),
                        move || calls(cfg().buf(buf).tasks(tasks), conns, n, body, true),
                    ));
                }
            }
        }
    }
    // the first calls of a client, which also make the connections
    for conns in [1u32, 2] {
        for n in [2usize, 3] {
            v.push(case(format!("first calls conns={conns} n={n}"), Bounds::sched(t.pick(1, 2)), move || {
                calls(cfg().buf(1).tasks(1), conns, n, 1, false)
            }));
        }
    }
    // many calls at once through everything that is narrow
    for n in [5usize, 20] {
        v.push(case(format!("many calls n={n}"), Bounds::sched(t.pick(0, 1)), move || {
            calls(cfg().buf(1).tasks(1), 1, n, 1, true)
        }));
    }
    v.push(case("many large calls", Bounds::none(), || calls(cfg().buf(1).tasks(1), 1, 8, 200_000, true)));
    // a slow transport
    for cap in [1usize, 100, 5000, 66_000] {
        let body = if cap == 1 { 3 } else { 140_000 };
        v.push(case(format!("transport capacity {cap}"), Bounds::sched(t.pick(0, 1)), move || async move {
            tokio::net::mc::set_capacity(cap);
            calls(cfg().buf(1).tasks(1), 1, 2, body, true).await
        }));
    }
    // every operation may be made to yield once more (cooperative budget)
    v.push(case("forced yields", Bounds::none().with_env(t.pick(2, 3)).total(t.pick(2, 3)), || {
        calls(cfg().buf(1).tasks(1), 1, 2, 70_000, true)
    }).coop_yields());

    // a raw client interleaves the frames of several requests
    for lens in [vec![2usize, 2], vec![4, 4], vec![5, 3], vec![2, 2, 2], vec![3, 3, 2]] {
        for tasks in [0usize, 1, 2] {
            for buf in [1usize, 2] {
                let lens = lens.clone();
                v.push(case(format!("interleaved {lens:?} tasks={tasks} buf={buf}"), Bounds::none(), move || {
                    let lens = lens.clone();
                    async move {
                        let (_s, sub) = server(cfg().tasks(tasks).buf(buf)).await?;
                        for i in 0..lens.len() {
                            echo(&sub, &format!("e{i}"), "t").await?;
                        }
                        let peer = peer_task(async move {
                            let mut p = Peer::client(addr(0)).await?;
                            let n = lens.len();
                            let frames: Vec<Vec<Frame>> = (0..n)
                                .map(|i| {
                                    let mut e = vec![vec![format!("e{i}").into_bytes(), b"h".to_vec(), vec![0]]];
                                    e.extend((1..lens[i]).map(|j| vec![vec![j as u8; 3]]));
                                    wire::request(i as u32 + 5, &wire::ReqHead::new("svc", "raw"), &e)
                                })
                                .collect();
                            let order = free_merge(&lens, "order");
                            let mut next = vec![0; n];
                            for i in &order {
                                p.send(&frames[*i][next[*i]]).await?;
                                next[*i] += 1;
                            }
                            let mut col = wire::Collector::default();
                            let mut seen = vec![];
                            while seen.len() < n {
                                if let Some((id, a)) = col.feed(&p.expect("response").await?)? {
                                    ensure!(!seen.contains(&id), "second response {id}");
                                    let i = id as usize - 5;
                                    ensure!(a.args[0] == format!("e{i}").as_bytes(), "response of another request");
                                    ensure!(a.args[2].len() == 1 + 3 * (lens[i] - 1) + 1, "response of {} bytes", a.args[2].len());
                                    seen.push(id);
                                }
                            }
                            Ok(format!("{seen:?}"))
                        });
                        join("peer", peer).await
                    }
                }));
            }
        }
    }
    // a raw client uses two message ids again and again, in every order of the frames
    let lens: Vec<[Vec<usize>; 2]> = t.pick(
        vec![[vec![2, 2], vec![2]], [vec![1, 3], vec![2, 1]], [vec![3, 2, 2], vec![]], [vec![2, 2], vec![3, 1]]],
        vec![[vec![2, 2], vec![2, 2]], [vec![1, 3, 2], vec![2, 1]], [vec![3, 2, 2, 1, 2], vec![]], [vec![2, 2, 2], vec![3, 1]], [vec![2, 1, 2], vec![2, 1, 2]]],
    );
    for (k, lens) in lens.into_iter().enumerate() {
        for tasks in [0usize, 1] {
            for buf in [1usize, 4] {
                let lens = lens.clone();
                v.push(case(format!("ids used again {k} tasks={tasks} buf={buf}"), Bounds::none(), move || {
                    let lens = lens.clone();
                    async move {
                        let (_s, sub) = server(cfg().tasks(tasks).buf(buf)).await?;
                        slow_echo(&sub, "e", "t", 1).await?;
                        let peer = peer_task(reuse(lens));
                        join("peer", peer).await
                    }
                }));
            }
        }
    }
    // handlers that call other services, through the same channel, and back
    for tasks in [1usize, 2] {
        for body in [1usize, 70_000] {
            v.push(case(format!("nested calls tasks={tasks} body={body}"), Bounds::sched(t.pick(1, 2)), move || async move {
                let c = cfg().buf(1).tasks(tasks);
                let (_a, asub) = server(c).await?;
                let (_b, bsub) = server(c.port(1)).await?;
                let chain = |sub: &std::sync::Arc<tchannel_rs::SubChannel>, to: u16, ep: &'static str| {
                    let sub = sub.clone();
                    move |r: RawMessage| -> BoxFut<RawResult> {
                        let sub = sub.clone();
                        Box::pin(async move {
                            let m = RawMessage::new(ep.into(), r.header().clone(), r.body().clone());
                            let r = send(&sub, addr(to), m).await?;
                            Ok(echo_reply(ep, &r))
                        })
                    }
                };
                register_async(&asub, "one", chain(&asub, 1, "two")).await?;
                register_async(&bsub, "two", chain(&bsub, 0, "three")).await?;
                echo(&asub, "three", "t").await?;
                let (_c, csub) = c.port(2).sub("svc").await?;
                explore_on();
                let m = big("one", 1, body);
                let r = within(EVENTUALLY, "nested call", send(&csub, addr(0), m.clone())).await?;
                let m3 = RawMessage::new("three".into(), m.header().clone(), m.body().clone());
                let want = echo_reply("two", &echo_reply("three", &echo_reply("t", &m3)));
                expect_ok("nested call", &r, &want)?;
                Ok("ok".into())
            }));
        }
    }
    // time passes: in handlers, between the frames of a message, before the handshake is answered, between calls
    for lifetime in [Some(60), None] {
        for place in ["handler", "request", "response", "handshake", "idle client", "idle peer"] {
            v.push(case(format!("time passes: {place} lifetime={lifetime:?}"), Bounds::none(), move || async move {
                const WITHIN: [u64; 13] = [1, 2, 5, 9, 10, 11, 15, 20, 25, 30, 31, 45, 55];
                const IDLE: [u64; 16] = [1, 5, 10, 15, 20, 25, 30, 31, 45, 59, 60, 61, 90, 119, 121, 150];
                let n = match place {
                    "idle client" | "idle peer" => IDLE.len(),
                    // the pool waits half a minute for a connection
                    "handshake" => 9,
                    _ => WITHIN.len(),
                };
                let k = free(n, "wait");
                let secs = if place.starts_with("idle") { IDLE[k] } else { WITHIN[k] };
                let pause = move || tokio::time::sleep(std::time::Duration::from_secs(secs));
                let c = cfg().buf(1).tasks(1).lifetime(lifetime);
                match place {
                    "handler" | "idle client" => {
                        let (_s, sub) = server(c).await?;
                        register_async(&sub, "slow", move |r| {
                            Box::pin(async move {
                                pause().await;
                                Ok(echo_reply("t", &r))
                            })
                        })
                        .await?;
                        echo(&sub, "e", "t").await?;
                        let (_c, csub) = c.port(1).sub("svc").await?;
                        for i in 0..3usize {
                            if place == "handler" {
                                call_echo(&csub, addr(0), big("slow", i, 1 + i * 35_000), "t").await?;
                            } else {
                                pause().await;
                                call_echo(&csub, addr(0), big("e", i, 1 + i * 35_000), "t").await?;
                            }
                        }
                    }
                    "request" | "idle peer" => {
                        let (_s, sub) = server(c).await?;
                        echo(&sub, "e", "t").await?;
                        let peer = peer_task(async move {
                            let mut p = Peer::client(addr(0)).await?;
                            for i in 0..3u32 {
                                let m = big("e", 1, 70_000);
                                if place == "idle peer" {
                                    pause().await;
                                }
                                for f in request_frames(10 + i, "svc", &m) {
                                    p.send(&f).await?;
                                    if place == "request" && f.payload[0] & 1 == 1 {
                                        pause().await;
                                    }
                                }
                                let (id, a) = within(EVENTUALLY, "response", p.message("response")).await??;
                                ensure!(id == 10 + i && same(&message_of(&a)?, &echo_reply("t", &m)), "wrong response");
                            }
                            Ok(())
                        });
                        peer.await.map_err(|e| format!("peer: {e}"))??;
                    }
                    _ => {
                        let l = Listener::bind(0).await?;
                        let peer: tokio::task::JoinHandle<Res> = peer_task(async move {
                            loop {
                                let mut p = l.accept().await?;
                                let _c: tokio::task::JoinHandle<Res> = peer_task(async move {
                                    let init = p.expect("init request").await?;
                                    if place == "handshake" {
                                        pause().await;
                                    }
                                    p.send(&Frame { ty: wire::INIT_RES, id: init.id, ..init }).await?;
                                    let mut col = wire::Collector::default();
                                    while let Some(f) = p.recv().await? {
                                        if let Some((id, a)) = col.feed(&f)? {
                                            for f in echo_frames(id, &a, "t")? {
                                                p.send(&f).await?;
                                                if place == "response" && f.payload[0] & 1 == 1 {
                                                    pause().await;
                                                }
                                            }
                                        }
                                    }
                                    Ok(())
                                });
                            }
                        });
                        let (_c, csub) = c.port(1).sub("svc").await?;
                        for i in 0..3usize {
                            call_echo(&csub, addr(0), big("e", i, 1 + i * 35_000), "t").await?;
                        }
                        drop(peer);
                    }
                }
                Ok(format!("{secs}"))
            })
            .opts(|o| o.horizon = 1000 * SEC));
        }
    }
    // two channels that are server and client of each other
    v.push(case("both directions", Bounds::sched(t.pick(1, 2)), || async {
        let c = cfg().buf(1).tasks(1);
        let (_a, asub) = server(c).await?;
        let (_b, bsub) = server(c.port(1)).await?;
        slow_echo(&asub, "e", "a", 1).await?;
        slow_echo(&bsub, "e", "b", 1).await?;
        explore_on();
        let x = spawn_call(&asub, addr(1), raw("e", "x", b"1"), "b");
        let y = spawn_call(&bsub, addr(0), raw("e", "y", b"2"), "a");
        x.echoed().await?;
        y.echoed().await?;
        Ok("ok".into())
    }));
    v
}
