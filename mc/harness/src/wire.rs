//! Reference codec of the TChannel protocol, written from the protocol
//! specification only (nothing of tchannel_rs is used here).
//!
//! frame:      size:2 type:1 reserved:1 id:4 reserved:8 payload
//! init req/res: version:2 nh:2 (key~2 value~2){nh}
//! call req:   flags:1 ttl:4 tracing:25 service~1 nh:1 (hk~1 hv~1){nh} csumtype:1 (csum:4)? arg~2 ...
//! call res:   flags:1 code:1 tracing:25 nh:1 (hk~1 hv~1){nh} csumtype:1 (csum:4)? arg~2 ...
//! continue:   flags:1 csumtype:1 (csum:4)? arg~2 ...
//! error:      code:1 tracing:25 message~2

pub const INIT_REQ: u8 = 0x01;
pub const INIT_RES: u8 = 0x02;
pub const CALL_REQ: u8 = 0x03;
pub const CALL_RES: u8 = 0x04;
pub const CALL_REQ_CONT: u8 = 0x13;
pub const CALL_RES_CONT: u8 = 0x14;
pub const CANCEL: u8 = 0xc0;
pub const CLAIM: u8 = 0xc1;
pub const PING_REQ: u8 = 0xd0;
pub const PING_RES: u8 = 0xd1;
pub const ERROR: u8 = 0xff;
pub const ALL_TYPES: [u8; 11] = [
    INIT_REQ, INIT_RES, CALL_REQ, CALL_RES, CALL_REQ_CONT, CALL_RES_CONT, CANCEL, CLAIM, PING_REQ,
    PING_RES, ERROR,
];

pub const HEADER: usize = 16;
pub const MAX_FRAME: usize = 65535;
pub const MORE: u8 = 0x01;

pub type Headers = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame {
    pub ty: u8,
    pub id: u32,
    pub payload: Vec<u8>,
}

impl Frame {
    pub fn new(ty: u8, id: u32, payload: Vec<u8>) -> Frame {
        Frame { ty, id, payload }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(HEADER + self.payload.len());
        let size = HEADER + self.payload.len();
        assert!(size <= MAX_FRAME, "reference frame too long");
        v.extend((size as u16).to_be_bytes());
        v.push(self.ty);
        v.push(0);
        v.extend(self.id.to_be_bytes());
        v.extend([0u8; 8]);
        v.extend(&self.payload);
        v
    }
}

/// Takes one frame off the front of `buf`, checking the frame header strictly.
pub fn take_frame(buf: &mut Vec<u8>) -> Result<Option<Frame>, String> {
    if buf.len() < 2 {
        return Ok(None);
    }
    let size = u16::from_be_bytes([buf[0], buf[1]]) as usize;
    if size < HEADER {
        return Err(format!("frame size {size} is smaller than the frame header"));
    }
    if buf.len() < size {
        return Ok(None);
    }
    let rest = buf.split_off(size);
    let f = std::mem::replace(buf, rest);
    if f[3] != 0 || f[8..16].iter().any(|b| *b != 0) {
        return Err(format!("reserved bytes are not zero: {:?}", &f[..16]));
    }
    if !ALL_TYPES.contains(&f[2]) {
        return Err(format!("unknown frame type {:#x}", f[2]));
    }
    let id = u32::from_be_bytes([f[4], f[5], f[6], f[7]]);
    Ok(Some(Frame { ty: f[2], id, payload: f[16..].to_vec() }))
}

// ------------------------------------------------------------------ encoding

pub fn str1(v: &mut Vec<u8>, s: &str) {
    assert!(s.len() < 256);
    v.push(s.len() as u8);
    v.extend(s.as_bytes());
}
pub fn str2(v: &mut Vec<u8>, s: &str) {
    v.extend((s.len() as u16).to_be_bytes());
    v.extend(s.as_bytes());
}
pub fn chunk(v: &mut Vec<u8>, c: &[u8]) {
    v.extend((c.len() as u16).to_be_bytes());
    v.extend(c);
}
pub fn headers1(v: &mut Vec<u8>, h: &[(&str, &str)]) {
    v.push(h.len() as u8);
    for (k, x) in h {
        str1(v, k);
        str1(v, x);
    }
}

pub fn init_payload(version: u16, h: &[(&str, &str)]) -> Vec<u8> {
    let mut v = vec![];
    v.extend(version.to_be_bytes());
    v.extend((h.len() as u16).to_be_bytes());
    for (k, x) in h {
        str2(&mut v, k);
        str2(&mut v, x);
    }
    v
}

pub const INIT_HEADERS: [(&str, &str); 3] = [
    ("host_port", "0.0.0.0:0"),
    ("process_name", "reference"),
    ("tchannel_language", "reference"),
];

pub fn init_req(id: u32) -> Frame {
    Frame::new(INIT_REQ, id, init_payload(2, &INIT_HEADERS))
}
pub fn init_res(id: u32) -> Frame {
    Frame::new(INIT_RES, id, init_payload(2, &INIT_HEADERS))
}

pub const TRACING: [u8; 25] = [0; 25];

#[derive(Clone, Debug)]
pub struct ReqHead<'a> {
    pub ttl: u32,
    pub tracing: [u8; 25],
    pub service: &'a str,
    pub headers: Vec<(&'a str, &'a str)>,
}

impl<'a> ReqHead<'a> {
    pub fn new(service: &'a str, scheme: &'a str) -> ReqHead<'a> {
        ReqHead {
            ttl: 60_000,
            tracing: TRACING,
            service,
            headers: vec![("as", scheme), ("cn", "reference")],
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend(self.ttl.to_be_bytes());
        v.extend(self.tracing);
        str1(&mut v, self.service);
        headers1(&mut v, &self.headers);
        v
    }
}

#[derive(Clone, Debug)]
pub struct ResHead<'a> {
    pub code: u8,
    pub tracing: [u8; 25],
    pub headers: Vec<(&'a str, &'a str)>,
}

impl<'a> ResHead<'a> {
    pub fn new(code: u8, scheme: &'a str) -> ResHead<'a> {
        ResHead { code, tracing: TRACING, headers: vec![("as", scheme)] }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![self.code];
        v.extend(self.tracing);
        headers1(&mut v, &self.headers);
        v
    }
}

fn with_chunks(flags: u8, head: &[u8], chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![flags];
    v.extend(head);
    v.push(0); // checksum none
    for c in chunks {
        chunk(&mut v, c);
    }
    v
}

/// Frames of a message whose chunks per frame are given.
pub fn message(first: u8, cont: u8, id: u32, head: &[u8], frames: &[Vec<Vec<u8>>]) -> Vec<Frame> {
    frames
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let flags = if i + 1 < frames.len() { MORE } else { 0 };
            if i == 0 {
                Frame::new(first, id, with_chunks(flags, head, c))
            } else {
                Frame::new(cont, id, with_chunks(flags, &[], c))
            }
        })
        .collect()
}

pub fn request(id: u32, head: &ReqHead, frames: &[Vec<Vec<u8>>]) -> Vec<Frame> {
    message(CALL_REQ, CALL_REQ_CONT, id, &head.bytes(), frames)
}
pub fn response(id: u32, head: &ResHead, frames: &[Vec<Vec<u8>>]) -> Vec<Frame> {
    message(CALL_RES, CALL_RES_CONT, id, &head.bytes(), frames)
}

/// A plain single frame request / response.
pub fn simple_request(id: u32, service: &str, endpoint: &str, header: &str, body: &[u8]) -> Frame {
    request(
        id,
        &ReqHead::new(service, "raw"),
        &[vec![endpoint.into(), header.into(), body.to_vec()]],
    )
    .remove(0)
}
pub fn simple_response(id: u32, endpoint: &str, header: &str, body: &[u8]) -> Frame {
    response(id, &ResHead::new(0, "raw"), &[vec![endpoint.into(), header.into(), body.to_vec()]])
        .remove(0)
}

pub fn error_payload(code: u8, msg: &str) -> Vec<u8> {
    let mut v = vec![code];
    v.extend(TRACING);
    str2(&mut v, msg);
    v
}
pub fn error(id: u32, code: u8, msg: &str) -> Frame {
    Frame::new(ERROR, id, error_payload(code, msg))
}
pub fn cancel(id: u32) -> Frame {
    let mut v = 1000u32.to_be_bytes().to_vec();
    v.extend(TRACING);
    str2(&mut v, "why");
    Frame::new(CANCEL, id, v)
}
pub fn claim(id: u32) -> Frame {
    let mut v = 1000u32.to_be_bytes().to_vec();
    v.extend(TRACING);
    Frame::new(CLAIM, id, v)
}
pub fn ping_req(id: u32) -> Frame {
    Frame::new(PING_REQ, id, vec![])
}
pub fn ping_res(id: u32) -> Frame {
    Frame::new(PING_RES, id, vec![])
}

/// Splits the arguments into as few frames as possible, maximal chunks.
pub fn fill(args: &[&[u8]], first_room: usize, room: usize) -> Vec<Vec<Vec<u8>>> {
    let mut frames: Vec<Vec<Vec<u8>>> = vec![];
    let mut cur: Vec<Vec<u8>> = vec![];
    let mut left = first_room;
    for a in args {
        let mut a: &[u8] = a;
        loop {
            if left < 2 {
                // no room to begin a chunk: continue the previous argument with an
                // empty chunk in the next frame, then go on
                frames.push(std::mem::take(&mut cur));
                left = room - 2;
                cur.push(vec![]);
                continue;
            }
            let n = a.len().min(left - 2);
            cur.push(a[..n].to_vec());
            left -= 2 + n;
            a = &a[n..];
            if a.is_empty() {
                break;
            }
            frames.push(std::mem::take(&mut cur));
            left = room;
        }
    }
    frames.push(cur);
    frames
}

// ------------------------------------------------------------------ decoding

pub struct Rd<'a>(pub &'a [u8]);

impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("payload too short: {} of {n} bytes left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    pub fn s1(&mut self) -> Result<String, String> {
        let n = self.u8()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    pub fn s2(&mut self) -> Result<String, String> {
        let n = self.u16()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    pub fn h1(&mut self) -> Result<Headers, String> {
        let n = self.u8()?;
        let mut h = vec![];
        for _ in 0..n {
            h.push((self.s1()?, self.s1()?));
        }
        no_dup(&h)?;
        Ok(h)
    }
    pub fn h2(&mut self) -> Result<Headers, String> {
        let n = self.u16()?;
        let mut h = vec![];
        for _ in 0..n {
            h.push((self.s2()?, self.s2()?));
        }
        no_dup(&h)?;
        Ok(h)
    }
    pub fn end(&self) -> Result<(), String> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{} bytes behind the end of the payload", self.0.len()))
        }
    }
}

fn no_dup(h: &Headers) -> Result<(), String> {
    for (i, a) in h.iter().enumerate() {
        if h[..i].iter().any(|b| b.0 == a.0) {
            return Err(format!("duplicate header {}", a.0));
        }
    }
    Ok(())
}

pub fn get<'a>(h: &'a Headers, k: &str) -> Option<&'a str> {
    h.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
}

#[derive(Clone, Debug)]
pub struct Init {
    pub version: u16,
    pub headers: Headers,
}

pub fn parse_init(p: &[u8]) -> Result<Init, String> {
    let mut r = Rd(p);
    let i = Init { version: r.u16()?, headers: r.h2()? };
    r.end()?;
    Ok(i)
}

#[derive(Clone, Debug)]
pub enum Head {
    Req { ttl: u32, service: String, headers: Headers },
    Res { code: u8, headers: Headers },
    Cont,
}

#[derive(Clone, Debug)]
pub struct Part {
    pub head: Head,
    pub flags: u8,
    pub chunks: Vec<Vec<u8>>,
}

/// Parses a call request, call response or continuation frame strictly.
pub fn parse_part(f: &Frame) -> Result<Part, String> {
    let mut r = Rd(&f.payload);
    let flags = r.u8()?;
    if flags & !MORE != 0 {
        return Err(format!("unknown flags {flags:#x}"));
    }
    let tracing = |r: &mut Rd| -> Result<(), String> {
        r.take(24)?;
        let t = r.u8()?;
        if t > 1 {
            return Err(format!("unknown trace flags {t:#x}"));
        }
        Ok(())
    };
    let head = match f.ty {
        CALL_REQ => {
            let ttl = r.u32()?;
            if ttl == 0 {
                return Err("time to live of zero".into());
            }
            tracing(&mut r)?;
            Head::Req { ttl, service: r.s1()?, headers: r.h1()? }
        }
        CALL_RES => {
            let code = r.u8()?;
            if code > 1 {
                return Err(format!("unknown response code {code}"));
            }
            tracing(&mut r)?;
            Head::Res { code, headers: r.h1()? }
        }
        CALL_REQ_CONT | CALL_RES_CONT => Head::Cont,
        t => return Err(format!("frame type {t:#x} is not part of a call")),
    };
    let cs = r.u8()?;
    if cs != 0 {
        return Err(format!("checksum type {cs} announced, none supported"));
    }
    let mut chunks = vec![];
    while !r.0.is_empty() {
        let n = r.u16()? as usize;
        chunks.push(r.take(n)?.to_vec());
    }
    if chunks.is_empty() || chunks.len() > 3 {
        return Err(format!("{} argument chunks in one frame", chunks.len()));
    }
    Ok(Part { head, flags, chunks })
}

/// Parses a part of a call as tolerantly as any reader might: unknown flags, tracing
/// values, repeated headers, any number of chunks, checksums not verified. What does
/// not even pass here is malformed.
pub fn parse_part_leniently(f: &Frame) -> Result<Part, String> {
    let mut r = Rd(&f.payload);
    let flags = r.u8()?;
    let headers = |r: &mut Rd| -> Result<Headers, String> {
        let n = r.u8()?;
        let mut h = vec![];
        for _ in 0..n {
            h.push((r.s1()?, r.s1()?));
        }
        Ok(h)
    };
    let head = match f.ty {
        CALL_REQ => {
            let ttl = r.u32()?;
            r.take(25)?;
            Head::Req { ttl, service: r.s1()?, headers: headers(&mut r)? }
        }
        CALL_RES => {
            let code = r.u8()?;
            r.take(25)?;
            Head::Res { code, headers: headers(&mut r)? }
        }
        CALL_REQ_CONT | CALL_RES_CONT => Head::Cont,
        t => return Err(format!("frame type {t:#x} is not part of a call")),
    };
    if r.u8()? != 0 {
        r.take(4)?;
    }
    let mut chunks = vec![];
    while !r.0.is_empty() {
        let n = r.u16()? as usize;
        chunks.push(r.take(n)?.to_vec());
    }
    Ok(Part { head, flags, chunks })
}

/// The message with this id in a sequence of frames, read leniently; None if it is
/// incomplete or malformed.
pub fn assemble_leniently(frames: &[Frame], id: u32, first: u8) -> Option<(Head, Vec<Vec<u8>>)> {
    let mut head = None;
    let mut args: Vec<Vec<u8>> = vec![];
    for f in frames.iter().filter(|f| f.id == id) {
        let is_first = head.is_none();
        if is_first && f.ty != first {
            continue;
        }
        let cont = matches!(f.ty, CALL_REQ_CONT | CALL_RES_CONT);
        if !is_first && !cont {
            return None;
        }
        let p = parse_part_leniently(f).ok()?;
        if is_first {
            head = Some(p.head);
        }
        for (i, c) in p.chunks.into_iter().enumerate() {
            match args.last_mut() {
                Some(a) if i == 0 => a.extend(c),
                _ => args.push(c),
            }
        }
        if p.flags & MORE == 0 {
            return head.map(|h| (h, args));
        }
    }
    None
}

/// Takes apart a stream of arbitrary bytes: the frames a reader can delimit.
pub fn frames_leniently(mut b: &[u8]) -> Vec<Frame> {
    let mut v = vec![];
    while b.len() >= HEADER {
        let n = u16::from_be_bytes([b[0], b[1]]) as usize;
        if n < HEADER || n > b.len() {
            break;
        }
        let id = u32::from_be_bytes([b[4], b[5], b[6], b[7]]);
        v.push(Frame { ty: b[2], id, payload: b[HEADER..n].to_vec() });
        b = &b[n..];
    }
    v
}

#[derive(Clone, Debug)]
pub struct ErrorMsg {
    pub code: u8,
    pub message: String,
}

pub fn parse_error(f: &Frame) -> Result<ErrorMsg, String> {
    let mut r = Rd(&f.payload);
    let code = r.u8()?;
    if !matches!(code, 1..=8 | 0xff) {
        return Err(format!("unknown error code {code}"));
    }
    r.take(25)?;
    let message = r.s2()?;
    r.end()?;
    Ok(ErrorMsg { code, message })
}

/// A message being reassembled by the rules of the protocol.
#[derive(Clone, Debug)]
pub struct Assembly {
    pub head: Head,
    pub args: Vec<Vec<u8>>,
    pub complete: bool,
    pub frames: usize,
    cont: u8,
}

impl Assembly {
    pub fn begin(f: &Frame) -> Result<Assembly, String> {
        let p = parse_part(f)?;
        let cont = match f.ty {
            CALL_REQ => CALL_REQ_CONT,
            CALL_RES => CALL_RES_CONT,
            t => return Err(format!("message {} begins with frame type {t:#x}", f.id)),
        };
        Ok(Assembly {
            head: p.head,
            complete: p.flags & MORE == 0,
            args: p.chunks,
            frames: 1,
            cont,
        })
    }
    pub fn add(&mut self, f: &Frame) -> Result<(), String> {
        if self.complete {
            return Err(format!("frame {:#x} behind the last frame of message {}", f.ty, f.id));
        }
        if f.ty != self.cont {
            return Err(format!("message {}: frame type {:#x} as continuation", f.id, f.ty));
        }
        let p = parse_part(f)?;
        self.complete = p.flags & MORE == 0;
        self.frames += 1;
        for (i, c) in p.chunks.into_iter().enumerate() {
            if i == 0 {
                self.args.last_mut().unwrap().extend(c);
            } else {
                self.args.push(c);
            }
        }
        Ok(())
    }
}

/// Collects messages by id from a stream of frames.
#[derive(Default, Debug)]
pub struct Collector {
    pub open: std::collections::BTreeMap<u32, Assembly>,
}

impl Collector {
    /// Returns the message completed by `f`.
    pub fn feed(&mut self, f: &Frame) -> Result<Option<(u32, Assembly)>, String> {
        match self.open.get_mut(&f.id) {
            Some(a) => a.add(f)?,
            None => {
                self.open.insert(f.id, Assembly::begin(f)?);
            }
        }
        if self.open[&f.id].complete {
            Ok(self.open.remove(&f.id).map(|a| (f.id, a)))
        } else {
            Ok(None)
        }
    }
}
