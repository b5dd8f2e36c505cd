//! C14: one subchannel per service name.

use super::Property;
use crate::ensure;
use crate::util::*;
use mccore::explore::{Bounds, Case};
use std::collections::BTreeMap;
use std::sync::Arc;
use tchannel_rs::{SubChannel, TChannel};

pub fn property() -> Property {
    Property {
        cases,
        level: "model_checking",
        rule: "concurrent first lookups of equal and different names with registrations behind them, also while the server is looking the service up, in every schedule within the bounds; all sequences of lookups and registrations over several names and channels; many and confusable names; a violation is two subchannels for one name, one for two, a lost handler, or an answer of another service's or channel's handler",
    }
}

type Look = (String, Arc<SubChannel>);

fn distinct(all: &[Look]) -> Res {
    for (i, a) in all.iter().enumerate() {
        for b in &all[..i] {
            ensure!(
                (a.0 == b.0) == Arc::ptr_eq(&a.1, &b.1),
                "{:?} and {:?}: {}",
                a.0,
                b.0,
                if a.0 == b.0 { "two subchannels for one name" } else { "one subchannel for two names" }
            );
        }
    }
    Ok(())
}

const NAMES: [&str; 9] = ["a", "b", "", "A", "a ", "aa", "é", "a\0", "e\u{301}"];

fn cases(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    // concurrent lookups followed by registrations
    for names in [vec![0, 0], vec![0, 1], vec![0, 0, 0], vec![0, 0, 1], vec![0, 1, 0, 1]] {
        for known in [false, true] {
            let d = match names.len() {
                2 => t.pick(3, 6),
                3 => t.pick(2, 4),
                _ => t.pick(2, 3),
            };
            let nn = names.clone();
            v.push(case(format!("concurrent lookups {names:?} known={known}"), Bounds::sched(d), move || {
                let names = nn.clone();
                async move {
                    let s = Arc::new(cfg().channel()?);
                    if known {
                        // some other name is there
                        let other = subchannel(&s, "other").await?;
                        echo(&other, "e", "other").await?;
                    }
                    start(&s)?;
                    settle().await;
                    let all: Record<Look> = Record::new();
                    explore_on();
                    let mut hs = vec![];
                    for (i, n) in names.iter().enumerate() {
                        let (s, all, name) = (s.clone(), all.clone(), NAMES[*n].to_string());
                        hs.push(tokio::task::spawn_named("lookup", async move {
                            let sub = subchannel(&s, &name).await?;
                            all.push((name.clone(), sub.clone()));
                            echo(&sub, &format!("e{i}"), &format!("t{i}")).await?;
                            let again = subchannel(&s, &name).await?;
                            all.push((name, again));
                            Ok(())
                        }));
                    }
                    for h in hs {
                        join("lookup", h).await?;
                    }
                    explore_off();
                    distinct(&all.get())?;
                    // every handler is there, and only under its service
                    let (_c, _) = cfg().port(1).sub("x").await?;
                    for (i, n) in names.iter().enumerate() {
                        for m in 0..2 {
                            let csub = subchannel(&_c, NAMES[m]).await?;
                            let c = spawn_call(&csub, addr(0), raw(&format!("e{i}"), "h", b"b"), &format!("t{i}"));
                            if m == *n {
                                c.echoed().await?;
                            } else {
                                c.fails().await?;
                            }
                        }
                    }
                    if known {
                        let csub = subchannel(&_c, "other").await?;
                        call_echo(&csub, addr(0), raw("e", "h", b"b"), "other").await?;
                    }
                    Ok("ok".into())
                }
            }));
        }
    }
    // lookups and registrations while requests arrive
    for same in [true, false] {
        for n in [1usize, 2] {
            v.push(case(format!("lookups while serving same={same} n={n}"), Bounds::sched(t.pick(2, 3)), move || async move {
                let s = Arc::new(cfg().buf(1).tasks(0).channel()?);
                let a = subchannel(&s, "a").await?;
                echo(&a, "e", "a").await?;
                start(&s)?;
                let (_c, ca) = cfg().buf(1).port(1).sub("a").await?;
                call_echo(&ca, addr(0), raw("e", "warm", b"b"), "a").await?;
                settle().await;
                explore_on();
                let calls: Vec<Call> =
                    (0..2).map(|i| spawn_call(&ca, addr(0), raw("e", &i.to_string(), b"b"), "a")).collect();
                let mut hs = vec![];
                for i in 0..n {
                    let s = s.clone();
                    hs.push(tokio::task::spawn_named("lookup", async move {
                        let name = if same { "b".to_string() } else { format!("b{i}") };
                        let b = subchannel(&s, &name).await?;
                        echo(&b, &format!("e{i}"), "b").await?;
                        Ok((name, b))
                    }));
                }
                let mut all = vec![("a".to_string(), a)];
                for h in hs {
                    all.push(join("lookup", h).await?);
                }
                for c in calls {
                    c.echoed().await?;
                }
                distinct(&all)?;
                for i in 0..n {
                    let cb = subchannel(&_c, &all[1 + i].0).await?;
                    call_echo(&cb, addr(0), raw(&format!("e{i}"), "h", b"b"), "b").await?;
                }
                Ok("ok".into())
            }));
        }
    }
    // a call that starts after the registration returned finds the handler
    v.push(case("call behind a racing registration", Bounds::sched(t.pick(3, 4)), move || async move {
        let s = Arc::new(cfg().buf(1).channel()?);
        start(&s)?;
        let (_c, ca) = cfg().buf(1).port(1).sub("a").await?;
        // the connection is there, the service is not
        spawn_call(&ca, addr(0), raw("e0", "h", b""), "a").fails().await?;
        settle().await;
        explore_on();
        let mut hs = vec![];
        for i in 0..2 {
            let (s, ca) = (s.clone(), ca.clone());
            hs.push(tokio::task::spawn_named("register and call", async move {
                let a = subchannel(&s, "a").await?;
                echo(&a, &format!("e{i}"), "a").await?;
                call_echo(&ca, addr(0), raw(&format!("e{i}"), "h", b"b"), "a").await
            }));
        }
        for h in hs {
            join("register and call", h).await?;
        }
        Ok("ok".into())
    }));
    // all sequences of lookups over names and channels
    let len = t.pick(5usize, 6);
    v.push(case(format!("sequences length={len}"), Bounds::none(), move || async move {
        let chans = [cfg().port(0).channel()?, cfg().port(1).channel()?];
        let mut have: BTreeMap<(usize, usize), Arc<SubChannel>> = BTreeMap::new();
        let mut h = vec![];
        for i in 0..len {
            let (c, n) = (free(2, "channel"), free(3, "name"));
            h.push((c, n));
            let sub = subchannel(&chans[c], NAMES[n]).await?;
            for ((c2, n2), s2) in &have {
                ensure!(((c, n) == (*c2, *n2)) == Arc::ptr_eq(&sub, s2), "{h:?}: channel {c2} name {n2}");
            }
            have.insert((c, n), sub.clone());
            echo(&sub, &format!("e{i}"), &format!("{i}")).await?;
        }
        for c in &chans {
            start(c)?;
        }
        let (cl, _) = cfg().port(2).sub("x").await?;
        for (i, (c, n)) in h.iter().enumerate() {
            for c2 in 0..2 {
                for n2 in 0..3 {
                    let csub = subchannel(&cl, NAMES[n2]).await?;
                    let call = spawn_call(&csub, addr(c2 as u16), raw(&format!("e{i}"), "h", b"b"), &format!("{i}"));
                    if (c2, n2) == (*c, *n) {
                        call.echoed().await?;
                    } else {
                        call.fails().await?;
                    }
                }
            }
        }
        Ok(format!("{h:?}"))
    }));
    // the same endpoint in every service, of two servers in one process
    v.push(case("same endpoint everywhere", Bounds::none(), || async {
        let mut chans: Vec<TChannel> = vec![];
        for c in 0..2u16 {
            let ch = cfg().port(c).channel()?;
            let mut all = vec![];
            for (i, n) in NAMES.iter().enumerate() {
                let sub = subchannel(&ch, n).await?;
                echo(&sub, "e", &format!("{c}.{i}")).await?;
                all.push((n.to_string(), sub));
            }
            for n in NAMES {
                all.push((n.to_string(), ch.subchannel(n.to_string()).await.map_err(|e| e.to_string())?));
            }
            distinct(&all)?;
            start(&ch)?;
            chans.push(ch);
        }
        let c = free(2, "server");
        let i = free(NAMES.len(), "service");
        // a client channel of its own, or one of the servers'
        let from = free(3, "from");
        let own = cfg().port(2).channel()?;
        let csub = subchannel(if from < 2 { &chans[from] } else { &own }, NAMES[i]).await?;
        call_echo(&csub, addr(c as u16), raw("e", "h", b"b"), &format!("{c}.{i}")).await?;
        Ok(format!("{c} {i} {from}"))
    }));
    // very many names
    v.push(case("many names", Bounds::none(), move || async move {
        let s = cfg().channel()?;
        let n = t.pick(1000usize, 70_000);
        let mut all = vec![];
        for i in 0..n {
            let sub = subchannel(&s, &format!("n{i}")).await?;
            echo(&sub, "e", &i.to_string()).await?;
            all.push(sub);
        }
        for (i, sub) in all.iter().enumerate() {
            ensure!(Arc::ptr_eq(sub, &subchannel(&s, &format!("n{i}")).await?), "another subchannel for n{i}");
        }
        start(&s)?;
        let (cl, _) = cfg().port(2).sub("x").await?;
        for i in (0..n).step_by(n / 50) {
            let csub = subchannel(&cl, &format!("n{i}")).await?;
            call_echo(&csub, addr(0), raw("e", "h", b"b"), &i.to_string()).await?;
        }
        Ok("ok".into())
    })
    .opts(|o| o.max_steps = 30_000_000));
    v
}
