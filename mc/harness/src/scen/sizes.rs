//! Argument sizes around the frame boundaries.

use super::*;
use crate::ensure;
use crate::util::*;
use crate::wire;
use bytes::Bytes;
use mccore::explore::{run_plan, Bounds};
use serde_json::{json, Value};
use std::sync::OnceLock;
use tchannel_rs::messages::{JsonMessage, RawMessage};

/// Bytes for arguments (their lengths included) in the first frame of a request, of
/// a response, and in a continuation frame, as observed on the wire.
#[derive(Copy, Clone, Debug)]
pub struct Rooms {
    pub req: usize,
    pub res: usize,
    pub cont: usize,
}

/// What the protocol leaves in frames of 65534 bytes for service "svc".
const EXPECTED: Rooms = Rooms { req: 65469, res: 65470, cont: 65516 };

pub fn rooms() -> Rooms {
    static R: OnceLock<Rooms> = OnceLock::new();
    *R.get_or_init(|| {
        let c = case("probe", Bounds::none(), || async {
            let l = Listener::bind(0).await?;
            let (_c, csub) = cfg().port(1).sub("svc").await?;
            let peer = peer_task(async move {
                let mut p = l.serve().await?;
                let a = wire::parse_part(&p.expect("first").await?)?;
                let b = wire::parse_part(&p.expect("second").await?)?;
                let len = |p: &wire::Part| -> usize { p.chunks.iter().map(|c| c.len() + 2).sum() };
                Ok((len(&a), len(&b)))
            });
            let m = raw("e", "h", &[7; 200_000]);
            let c = tokio::task::spawn_named("call", async move { send(&csub, addr(0), m).await });
            let (req, cont) = join("peer", peer).await?;
            drop(c);

            let (_s, sub) = server(cfg().port(2)).await?;
            register_sync(&sub, "e", |r| Ok(raw(r.endpoint(), "h", &[7; 200_000]))).await?;
            let peer = peer_task(async move {
                let mut p = Peer::client(addr(2)).await?;
                p.send(&wire::simple_request(5, "svc", "e", "h", b"b")).await?;
                let a = wire::parse_part(&p.expect("first").await?)?;
                Ok(a.chunks.iter().map(|c| c.len() + 2).sum::<usize>())
            });
            let res = join("peer", peer).await?;
            Ok(format!("{req} {res} {cont}"))
        });
        let e = run_plan(&c, &vec![], false, &mut vec![]);
        let parsed = e.outcome.as_ref().ok().and_then(|o| {
            let v: Vec<usize> = o.split(' ').filter_map(|x| x.parse().ok()).collect();
            (v.len() == 3 && v.iter().all(|x| *x > 1000 && *x < 65536))
                .then(|| Rooms { req: v[0], res: v[1], cont: v[2] })
        });
        parsed.unwrap_or(EXPECTED)
    })
}

/// Lengths of the three arguments; `first`/`cont`: room in the frames.
pub fn sizes(first: usize, cont: usize, t: Tier) -> Vec<[usize; 3]> {
    let (lo, hi) = t.pick((-5i64, 3i64), (-12, 10));
    let d = |base: usize, d: i64| (base as i64 + d) as usize;
    let mut v = vec![];
    for a in 0..3 {
        for b in 0..4 {
            for c in 0..4 {
                v.push([a, b, c]);
            }
        }
    }
    for x in lo..=hi {
        // first argument ends around the end of the first frame
        for b in 0..4 {
            for c in [0, 1, 3] {
                v.push([d(first - 2, x), b, c]);
            }
        }
        // second, third
        for a in [0usize, 1] {
            for c in 0..3 {
                v.push([a, d(first - 2 - a - 2, x), c]);
            }
            for b in [0usize, 1] {
                v.push([a, b, d(first - 2 - a - 2 - b - 2, x)]);
            }
        }
        // around the end of the second frame
        for b in 0..3 {
            for c in 0..3 {
                v.push([d(first - 2 + cont - 2, x), b, c]);
            }
            v.push([1, d(first - 5 + cont - 2, x), b]);
        }
        v.push([1, 1, d(first - 8 + cont - 2, x)]);
        // and of the third
        v.push([1, 1, d(first - 8 + 2 * (cont - 2), x)]);
        v.push([d(first - 2 + 2 * (cont - 2), x), 1, 1]);
        for y in t.pick(-3..=2, -6..=6) {
            // first argument around the first boundary, second around the second
            for c in [0, 2] {
                v.push([d(first - 2, y), d(cont - 4, x), c]);
            }
            v.push([d(first - 2, y), 0, d(cont - 6, x)]);
            v.push([1, d(first - 5, y), d(cont - 4, x)]);
        }
    }
    v.push([300_000, 3, 3]);
    v.push([3, 300_000, 3]);
    v.push([3, 3, 300_000]);
    v.push([70_000, 140_000, 210_000]);
    v.sort();
    v.dedup();
    v
}

/// Lengths away from the boundaries: all small ones, and around every power of two.
pub fn plain_sizes(t: Tier) -> Vec<[usize; 3]> {
    let mut n: Vec<usize> = (0..=t.pick(300, 2000)).collect();
    for k in 8..=t.pick(18, 21) {
        for d in -t.pick(1isize, 3)..=t.pick(1, 3) {
            n.push(((1isize << k) + d) as usize);
        }
    }
    n.sort();
    n.dedup();
    let mut v = vec![];
    for n in n {
        v.extend([[n, 1, 1], [1, n, 1], [1, 1, n]]);
    }
    v
}

/// Messages of many frames: about `f` of them, for numbers of frames around those
/// at which counters overflow or buffers fill up.
pub fn many_frames(first: usize, cont: usize, t: Tier) -> Vec<[usize; 3]> {
    let mut v = vec![];
    let counts: Vec<usize> = t.pick(
        vec![4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257, 258, 300],
        (4..=140).chain(250..=270).chain([300, 511, 512, 513, 1023, 1024, 1025]).collect(),
    );
    for f in counts {
        let full = first + (f - 1) * cont;
        for d in -1..=1 {
            // third argument fills the frames; first one or second one do
            let n = |lens: usize| (full - lens - 2 * (f - 1)) as isize + d;
            v.push([1, 1, n(8) as usize]);
            if d == 0 || f < 20 {
                v.push([n(2) as usize, 1, 1]);
                v.push([1, n(5) as usize, 2]);
            }
        }
    }
    v
}

pub fn text(n: usize, salt: usize) -> String {
    let mut s = String::with_capacity(n);
    for i in 0..n {
        s.push((b'a' + ((i * 7 + i / 251 + salt) % 26) as u8) as char);
    }
    s
}
pub fn blob(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + i / 253 + salt) as u8).collect()
}

pub fn sized(s: [usize; 3]) -> RawMessage {
    RawMessage::new(text(s[0], 1), text(s[1], 2), Bytes::from(blob(s[2], 3)))
}

/// Texts of characters of 1 to 4 bytes in turn, so that frames end within characters.
pub fn wide_text(n: usize, salt: usize) -> String {
    const C: [char; 5] = ['\u{0}', 'z', '\u{e9}', '\u{20ac}', '\u{1f980}'];
    let mut s = String::with_capacity(n);
    let mut i = salt;
    while s.len() < n {
        let c = C[i % C.len()];
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('.');
        }
        i += 1;
    }
    s
}
/// Messages of the same lengths and of contents a codec may be tempted to treat specially.
pub fn sized_as(s: [usize; 3], kind: usize) -> RawMessage {
    let body = |b: u8| Bytes::from(vec![b; s[2]]);
    match kind {
        0 => RawMessage::new(wide_text(s[0], 1), wide_text(s[1], 2), body(0)),
        1 => RawMessage::new(wide_text(s[0], 3), wide_text(s[1], 4), body(0xff)),
        2 => RawMessage::new("\u{0}".repeat(s[0]), "\u{1f}".repeat(s[1]), body(1)),
        _ => RawMessage::new(" ".repeat(s[0]), "\n".repeat(s[1]), body(b' ')),
    }
}

/// JSON message whose encoded arguments have about the given lengths.
pub fn sized_json(s: [usize; 3]) -> JsonMessage {
    let obj = |n: usize, salt: usize| -> serde_json::Map<String, Value> {
        if n < 8 {
            json_map(json!({}))
        } else {
            json_map(json!({ "k": text(n - 8, salt) }))
        }
    };
    JsonMessage::new(text(s[0], 1), obj(s[1], 2), obj(s[2], 3))
}

pub fn check_same(what: &str, got: &RawMessage, want: &RawMessage) -> Res {
    let cmp = |name: &str, a: &[u8], b: &[u8]| -> Res {
        if a == b {
            return Ok(());
        }
        let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        Err(format!("{what}: {name} differs: {} bytes instead of {}, from byte {at}", a.len(), b.len()))
    };
    cmp("endpoint", got.endpoint().as_bytes(), want.endpoint().as_bytes())?;
    cmp("header", got.header().as_bytes(), want.header().as_bytes())?;
    cmp("body", got.body(), want.body())
}

pub fn check_same_json(what: &str, got: &JsonMessage, want: &JsonMessage) -> Res {
    ensure!(got.method_name() == want.method_name(), "{what}: method name differs");
    ensure!(got.headers() == want.headers(), "{what}: headers differ");
    ensure!(got.body() == want.body(), "{what}: body differs");
    Ok(())
}
