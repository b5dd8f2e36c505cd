//! C15: handler registration is atomic and takes effect at once.

use super::Property;
use crate::ensure;
use crate::util::*;
use mccore::explore::{Bounds, Case};
use std::collections::BTreeMap;
use std::sync::Arc;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::SubChannel;

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "all sequences of register, unregister and call over endpoints and handlers up to the stated length; concurrent registrations, unregistrations and calls in every schedule within the bounds, judged by linearizability; a violation is a result no order of the operations explains, a call that misses a finished registration, or a running call that is disturbed",
    }
}

const EPS: [&str; 3] = ["e", "E", "e2"];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Register(usize, usize),
    Unregister(usize),
    Call(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Out {
    Done,
    Failed,
    Handler(usize),
}

async fn perform(op: Op, sub: &SubChannel, client: &SubChannel) -> Res<Out> {
    match op {
        Op::Register(e, h) => {
            let tag = format!("{h}");
            let r = if h % 2 == 0 {
                echo(sub, EPS[e], &tag).await
            } else {
                slow_echo(sub, EPS[e], &tag, 1).await
            };
            Ok(if r.is_ok() { Out::Done } else { Out::Failed })
        }
        Op::Unregister(e) => Ok(if sub.unregister(EPS[e]).await.is_ok() { Out::Done } else { Out::Failed }),
        Op::Call(e) => {
            let m = raw(EPS[e], "h", b"b");
            match within(PROMPT, "call", send(client, addr(0), m.clone())).await? {
                Ok(r) => {
                    for h in 0..8 {
                        if same(&r, &echo_reply(&h.to_string(), &m)) {
                            return Ok(Out::Handler(h));
                        }
                    }
                    Err(format!("unknown answer {}", show(&r)))
                }
                Err(HandlerError::MessageError(r)) => Err(format!("message error {}", show(&r))),
                Err(_) => Ok(Out::Failed),
            }
        }
    }
}

type State = BTreeMap<usize, usize>;

/// The specification.
fn apply(s: &mut State, op: Op) -> Out {
    match op {
        Op::Register(e, h) => {
            if s.contains_key(&e) {
                return Out::Failed;
            }
            s.insert(e, h);
            Out::Done
        }
        Op::Unregister(e) => s.remove(&e).map(|_| Out::Done).unwrap_or(Out::Failed),
        Op::Call(e) => s.get(&e).map(|h| Out::Handler(*h)).unwrap_or(Out::Failed),
    }
}

/// Finished operation with the times it started and ended.
#[derive(Clone, Debug)]
struct Event {
    op: Op,
    out: Out,
    start: i64,
    end: i64,
}

fn linearizable(init: &State, ev: &[Event]) -> bool {
    fn go(s: &State, left: &mut Vec<Event>) -> bool {
        if left.is_empty() {
            return true;
        }
        let first_end = left.iter().map(|e| e.end).min().unwrap();
        for i in 0..left.len() {
            if left[i].start > first_end {
                continue;
            }
            let mut s2 = s.clone();
            if apply(&mut s2, left[i].op) == left[i].out {
                let e = left.remove(i);
                let ok = go(&s2, left);
                left.insert(i, e);
                if ok {
                    return true;
                }
            }
        }
        false
    }
    go(init, &mut ev.to_vec())
}

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // sequences
    {
        let ops: Vec<Op> = vec![
            Op::Register(0, 0),
            Op::Register(0, 1),
            Op::Unregister(0),
            Op::Call(0),
            Op::Register(1, 2),
            Op::Unregister(1),
            Op::Call(1),
        ];
        let len = t.pick(5usize, 6);
        v.push(case(format!("sequences length={len}"), Bounds::none(), move || {
            let ops = ops.clone();
            async move {
                let (_s, sub) = server(cfg()).await?;
                let (_c, csub) = cfg().port(1).sub("svc").await?;
                let mut s = State::new();
                let mut h = vec![];
                for _ in 0..len {
                    let op = ops[free(ops.len(), "op")];
                    let want = apply(&mut s, op);
                    let got = perform(op, &sub, &csub).await?;
                    h.push(op);
                    ensure!(got == want, "{h:?}: {got:?}, expected {want:?}");
                }
                for e in 0..3 {
                    let want = apply(&mut s, Op::Call(e));
                    let got = perform(Op::Call(e), &sub, &csub).await?;
                    ensure!(got == want, "{h:?}, call {e}: {got:?}, expected {want:?}");
                }
                Ok(format!("{h:?}"))
            }
        }));
    }
    // concurrent operations
    let groups: Vec<(&str, State, Vec<Vec<Op>>)> = {
        let none = State::new;
        let one = || State::from([(0usize, 4usize)]);
        use Op::*;
        vec![
            ("two registrations", none(), vec![vec![Register(0, 0)], vec![Register(0, 1)]]),
            ("three registrations", none(), vec![vec![Register(0, 0)], vec![Register(0, 1)], vec![Register(0, 2)]]),
            ("registrations of two endpoints", none(), vec![vec![Register(0, 0)], vec![Register(1, 1)], vec![Register(2, 2)]]),
            ("two unregistrations", one(), vec![vec![Unregister(0)], vec![Unregister(0)]]),
            ("replace twice", one(), vec![vec![Unregister(0), Register(0, 0)], vec![Unregister(0), Register(0, 1)]]),
            ("replace while calling", one(), vec![vec![Unregister(0), Register(0, 1)], vec![Call(0), Call(0)]]),
            ("register and call", none(), vec![vec![Register(0, 0), Call(0)], vec![Register(0, 1), Call(0)]]),
            ("register while calling", none(), vec![vec![Register(0, 0)], vec![Call(0)], vec![Call(0)]]),
            ("unregister while calling", one(), vec![vec![Unregister(0)], vec![Call(0)], vec![Call(0)]]),
            ("unregister, register and call", one(), vec![vec![Unregister(0)], vec![Register(0, 0)], vec![Call(0)]]),
            ("other endpoint", one(), vec![vec![Register(1, 1), Unregister(1)], vec![Call(0)], vec![Call(1)]]),
        ]
    };
    for (name, init, tasks) in groups {
        let calls = tasks.iter().flatten().any(|o| matches!(o, Op::Call(_)));
        let d = if calls { t.pick(2, 3) } else { t.pick(4, 6) };
        v.push(case(format!("concurrent: {name}"), Bounds::sched(d), move || {
            let (init, tasks) = (init.clone(), tasks.clone());
            async move {
                let (_s, sub) = server(cfg().buf(2).tasks(0)).await?;
                let (_c, csub) = cfg().buf(2).port(1).sub("svc").await?;
                for (e, h) in &init {
                    perform(Op::Register(*e, *h), &sub, &csub).await?;
                }
                // connect
                perform(Op::Call(2), &sub, &csub).await?;
                settle().await;
                let clock = Num::new();
                let events: Record<Event> = Record::new();
                explore_on();
                let mut hs = vec![];
                for ops in tasks {
                    let (sub, csub, clock, events) = (sub.clone(), csub.clone(), clock.clone(), events.clone());
                    hs.push(tokio::task::spawn_named("ops", async move {
                        for op in ops {
                            let start = clock.add(1);
                            let out = perform(op, &sub, &csub).await?;
                            events.push(Event { op, out, start, end: clock.add(1) });
                        }
                        Ok(())
                    }));
                }
                for h in hs {
                    join("operations", h).await?;
                }
                explore_off();
                // the state they left
                for e in 0..2 {
                    let start = clock.add(1);
                    let out = perform(Op::Call(e), &sub, &csub).await?;
                    events.push(Event { op: Op::Call(e), out, start, end: clock.add(1) });
                }
                let ev = events.get();
                ensure!(linearizable(&init, &ev), "no order of the operations explains {ev:?}");
                Ok(format!("{:?}", ev.iter().map(|e| (e.op, e.out)).collect::<Vec<_>>()))
            }
        }));
    }
    // running and waiting calls are not disturbed by registrations
    for gone in [false, true] {
        for waiting in [0usize, 1, 2] {
            v.push(case(format!("running call, unregister={gone} waiting={waiting}"), Bounds::sched(t.pick(2, 3)), move || async move {
                let (_s, sub) = server(cfg().buf(2).tasks(0)).await?;
                let gate = Gate::new();
                gated_echo(&sub, "e", "old", &gate).await?;
                echo(&sub, "f", "f").await?;
                let (_c, csub) = cfg().buf(2).port(1).sub("svc").await?;
                let first = spawn_call(&csub, addr(0), raw("e", "first", b"b"), "old");
                settle().await;
                ensure!(gate.entered() == 1, "handler did not start");
                let mut calls: Vec<Call> = (0..waiting)
                    .map(|i| spawn_call(&csub, addr(0), raw("e", &i.to_string(), b"b"), "old"))
                    .collect();
                settle().await;
                explore_on();
                if gone {
                    within(PROMPT, "unregister", sub.unregister("e")).await?.map_err(|e| e.to_string())?;
                    // a call that starts now does not find it
                    let c = spawn_call(&csub, addr(0), raw("e", "late", b"b"), "new");
                    within(PROMPT, "late call", c.fails()).await??;
                    within(PROMPT, "register", echo(&sub, "e", "new")).await??;
                    call_echo(&csub, addr(0), raw("e", "later", b"b"), "new").await?;
                } else {
                    within(PROMPT, "register", echo(&sub, "g", "g")).await??;
                    ensure!(
                        sub.register("e", SyncFn(|r| Ok(echo_reply("new", &r)))).await.is_err(),
                        "second registration succeeded"
                    );
                    call_echo(&csub, addr(0), raw("g", "h", b"b"), "g").await?;
                }
                within(PROMPT, "call of another handler", call_echo(&csub, addr(0), raw("f", "h", b"b"), "f")).await??;
                for _ in 0..=waiting {
                    gate.open();
                }
                calls.push(first);
                for c in calls {
                    c.echoed().await?;
                }
                Ok("ok".into())
            }));
        }
    }
    // an unregistered handler is dropped when its last call is done
    for running in [false, true] {
        v.push(case(format!("handler is dropped running={running}"), Bounds::sched(t.pick(2, 3)), move || async move {
            let (_s, sub) = server(cfg()).await?;
            let gate = Gate::new();
            let alive = Arc::new(());
            let weak = Arc::downgrade(&alive);
            let g = gate.clone();
            register_async(&sub, "e", move |r| {
                let (g, alive) = (g.clone(), alive.clone());
                Box::pin(async move {
                    let _alive = alive;
                    g.enter();
                    g.wait().await;
                    Ok(echo_reply("t", &r))
                })
            })
            .await?;
            let (_c, csub) = cfg().port(1).sub("svc").await?;
            let c = running.then(|| spawn_call(&csub, addr(0), raw("e", "h", b"b"), "t"));
            settle().await;
            explore_on();
            sub.unregister("e").await.map_err(|e| e.to_string())?;
            if let Some(c) = c {
                gate.open();
                c.echoed().await?;
            }
            settle().await;
            ensure!(weak.upgrade().is_none(), "unregistered handler is not dropped");
            Ok("ok".into())
        }));
    }
    // handlers that use the subchannel they are registered with, and their channel
    for len in [1usize, 2] {
        let d = if len == 1 { t.pick(1, 2) } else { t.pick(0, 1) };
        v.push(case(format!("handler uses its subchannel acts={len}"), Bounds::sched(d), move || async move {
            let (s, sub) = server(cfg().buf(1).tasks(2)).await?;
            let s = Arc::new(s);
            let acts: Vec<usize> = (0..len).map(|_| free(8, "act")).collect();
            let (a2, sub2, s2) = (acts.clone(), sub.clone(), s.clone());
            register_async(&sub, "self", move |r| {
                let (acts, sub, s) = (a2.clone(), sub2.clone(), s2.clone());
                Box::pin(async move {
                    let mut said = String::new();
                    for a in acts {
                        let done = match a {
                            0 => echo(&sub, "x", "x").await.is_ok(),
                            1 => sub.unregister("x").await.is_ok(),
                            2 => sub.unregister("self").await.is_ok(),
                            3 => sub.register("self", SyncFn(|r| Ok(echo_reply("new", &r)))).await.is_ok(),
                            4 => matches!(s.subchannel("svc").await, Ok(s) if Arc::ptr_eq(&s, &sub)),
                            5 => match s.subchannel("other").await {
                                Ok(o) => echo(&o, "y", "y").await.is_ok(),
                                Err(_) => false,
                            },
                            6 => s.start_server().is_ok(),
                            _ => match send(&sub, addr(0), raw("f", "h", b"b")).await {
                                Ok(m) => same(&m, &echo_reply("f", &raw("f", "h", b"b"))),
                                Err(_) => false,
                            },
                        };
                        said.push(if done { 'y' } else { 'n' });
                    }
                    Ok(echo_reply(&said, &r))
                })
            })
            .await?;
            echo(&sub, "f", "f").await?;
            let (_c, csub) = cfg().buf(1).port(1).sub("svc").await?;
            explore_on();
            let c = spawn_call(&csub, addr(0), raw("self", "h", b"b"), &model(&acts));
            let o = spawn_call(&csub, addr(0), raw("f", "h", b"b"), "f");
            within(PROMPT, "call", c.echoed()).await?.map_err(|e| format!("{acts:?}: {e}"))?;
            o.echoed().await?;
            explore_off();
            call_echo(&csub, addr(0), raw("f", "h", b"b"), "f").await?;
            // handlers keep the subchannel, break the cycle
            let _ = sub.unregister("self").await;
            Ok(format!("{acts:?}"))
        }));
    }
    // replaced many times
    v.push(case("many replacements", Bounds::none(), move || async move {
        let (_s, sub) = server(cfg()).await?;
        let (_c, csub): (_, Arc<SubChannel>) = cfg().port(1).sub("svc").await?;
        for i in 0..t.pick(300usize, 3000) {
            let tag = i.to_string();
            echo(&sub, "e", &tag).await?;
            call_echo(&csub, addr(0), raw("e", "h", b"b"), &tag).await?;
            ensure!(sub.register("e", SyncFn(|r| Ok(r))).await.is_err(), "second registration succeeded");
            call_echo(&csub, addr(0), raw("e", "h", b"b"), &tag).await?;
            sub.unregister("e").await.map_err(|e| e.to_string())?;
            ensure!(sub.unregister("e").await.is_err(), "second unregistration succeeded");
            spawn_call(&csub, addr(0), raw("e", "h", b"b"), "").fails().await?;
        }
        Ok("ok".into())
    })
    .opts(|o| o.max_steps = 30_000_000));
    v
}

/// What the acts of "handler uses its subchannel" must say.
fn model(acts: &[usize]) -> String {
    let (mut x, mut me, mut other) = (false, true, false);
    acts.iter()
        .map(|a| {
            let ok = match a {
                0 => !std::mem::replace(&mut x, true),
                1 => std::mem::replace(&mut x, false),
                2 => std::mem::replace(&mut me, false),
                3 => !std::mem::replace(&mut me, true),
                5 => !std::mem::replace(&mut other, true),
                6 => false,
                _ => true,
            };
            if ok {
                'y'
            } else {
                'n'
            }
        })
        .collect()
}
