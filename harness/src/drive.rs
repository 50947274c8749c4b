//! Random generation and the drivers around the real encoder and decoder.
use crate::refm::{self, Outcome, Val};
use crate::sets::*;
use bytecodec::{ByteCount, Decode, Encode, Eos, SizedEncode};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV6};
use stun_codec::{BrokenMessage, MessageClass, MessageDecoder, MessageEncoder, Method, TransactionId};

#[derive(Clone)]
pub struct Rng(pub u64);
/// characters that text processing tends to treat specially: white space, quotes, escapes, separators, case, normalisation
pub const EDGES: [char; 48] = [
    '\0', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{1b}', ' ', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', '\u{1680}', '\u{2003}', '\u{200b}', '\u{2028}',
    '\u{202f}', '\u{2060}', '\u{3000}', '\u{feff}', '\u{fffd}', '"', '\'', '`', '\\', '/', '<', '>', '(', '{', '%', '&', '#', '$', '*', '+', ',', '.', ':', ';', '=', '@',
    'A', 'ß', 'İ', '\u{301}', 'Ａ', 'ﬁ',
];
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
        z ^ z >> 31
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(6) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => (0..n).map(|_| self.next() as u8).collect(),
        }
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn u64b(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => !(1u64 << self.below(64)),
            _ => self.next(),
        }
    }
    pub fn bits(&mut self, n: u32) -> u64 {
        let m = if n == 64 { u64::MAX } else { (1 << n) - 1 };
        match self.below(8) {
            0 => 0,
            1 => m,
            2 => 1 << self.below(n as usize),
            3 => (1u64 << self.below(n as usize)) - 1,
            _ => self.next() & m,
        }
    }
    pub fn txid(&mut self) -> [u8; 12] {
        let mut t = [0; 12];
        t.copy_from_slice(&self.bytes(12));
        t
    }
    pub fn size(&mut self) -> usize {
        match self.below(10) {
            0 => 0,
            1..=5 => self.below(9),
            6..=8 => self.below(40),
            _ => self.below(300),
        }
    }
    pub fn text(&mut self, max_chars: usize, max_bytes: usize) -> String {
        const C: [char; 14] =
            ['a', 'Z', '0', ' ', ':', '\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '漢', '\u{ffff}', '😀'];
        if self.one_in(5) {
            // content with something at its ends
            let inner = self.text(max_chars.saturating_sub(4).min(10), max_bytes.saturating_sub(16));
            let (n, k) = (self.below(3), self.below(3));
            let (x, y) = (*self.pick(&EDGES), *self.pick(&EDGES));
            let s: String = std::iter::repeat(x).take(n).chain(inner.chars()).chain(std::iter::repeat(y).take(k)).collect();
            if s.chars().count() <= max_chars && s.len() <= max_bytes {
                return s;
            }
        }
        let n = match self.below(8) {
            0 => 0,
            1 => max_chars,
            2 => max_chars.saturating_sub(1),
            3 => self.below(max_chars + 1),
            _ => self.below(12).min(max_chars),
        };
        let uniform = if self.one_in(3) { Some(*self.pick(&C)) } else { None };
        let mut s = String::new();
        for _ in 0..n {
            let c = uniform.unwrap_or_else(|| match self.below(4) {
                0 => (b'a' + self.below(26) as u8) as char,
                1 if self.one_in(2) => *self.pick(&EDGES),
                1 => char::from_u32(self.below(0x110000) as u32).unwrap_or('x'),
                _ => *self.pick(&C),
            });
            if s.len() + c.len_utf8() > max_bytes {
                break;
            }
            s.push(c);
        }
        s
    }
    pub fn ip(&mut self) -> IpAddr {
        if self.one_in(2) {
            IpAddr::V4(Ipv4Addr::from(self.bits(32) as u32))
        } else {
            let mut o = [0; 16];
            o.copy_from_slice(&self.bytes(16));
            if self.one_in(8) {
                // IPv4-mapped
                o = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, o[12], o[13], o[14], o[15]];
            }
            IpAddr::V6(Ipv6Addr::from(o))
        }
    }
    pub fn addr(&mut self) -> SocketAddr {
        SocketAddr::new(self.ip(), self.bits(16) as u16)
    }
}

/// A random value of the attribute `code` that its constructor accepts.
pub fn gen_val(r: &mut Rng, code: u16) -> Val {
    use Val::*;
    match code {
        c if refm::ADDR_PLAIN.contains(&c) || refm::ADDR_XOR.contains(&c) => Addr(c, r.addr()),
        6 => Text(6, r.text(512, 512)),
        c @ (0x14 | 0x15 | 0x8022) => Text(c, r.text(127, 1000)),
        9 => ErrorCode(300 + r.below(300) as u16, r.text(130, 600)),
        8 => Mi([0; 20]),
        0x8028 => Fp(0),
        0xa => Unknowns((0..r.size() / 2).map(|_| r.bits(16) as u16).collect()),
        0xc => Channel(0x4000 + *r.pick(&[0, 1, 0xffe, 0xfff, 0x0aa, 0x800])),
        0xd => Lifetime(r.bits(32)),
        0x13 => {
            let n = r.size();
            Data(r.bytes(n))
        }
        0x18 => EvenPort(r.one_in(2)),
        0x19 => Transport(r.bits(8) as u8),
        0x1a => DontFragment,
        0x22 => Token(r.u64b()),
        0x24 => Priority(r.bits(32) as u32),
        0x25 => UseCandidate,
        0x8029 => Controlled(r.u64b()),
        0x802a => Controlling(r.u64b()),
        3 => ChangeReq(r.one_in(2), r.one_in(2)),
        0x27 => RespPort(r.bits(16) as u16),
        c @ (0x17 | 0x8000) => Family(c, 1 + r.below(2) as u8),
        refm::TICKET => {
            let n = r.size();
            Ticket(r.bytes(n))
        }
        c => {
            let n = r.size();
            Raw(c, r.bytes(n))
        }
    }
}

/// What to put in a locally built message.
#[derive(Debug, Clone)]
pub enum Plan {
    V(Val),
    MiShort(String),
    MiLong(String, String, String),
    Fp,
}
#[derive(Debug, Clone)]
pub struct MsgPlan {
    pub class: u8,
    pub method: u16,
    pub txid: [u8; 12],
    pub attrs: Vec<Plan>,
}
impl MsgPlan {
    pub fn key(&self) -> Vec<u8> {
        format!("{self:?}").into_bytes()
    }
}
pub fn gen_plan<S: Set>(r: &mut Rng, max: usize) -> MsgPlan {
    let codes = S::codes();
    let n = r.below(max + 1);
    let mut attrs = vec![];
    for _ in 0..n {
        attrs.push(if S::RAW {
            Plan::V(gen_val_raw(r))
        } else {
            match *r.pick(&codes) {
                8 if r.one_in(2) => Plan::MiShort(r.text(80, 400)),
                8 => Plan::MiLong(r.text(20, 100), r.text(20, 100), r.text(20, 100)),
                0x8028 => Plan::Fp,
                c => Plan::V(gen_val(r, c)),
            }
        });
    }
    MsgPlan { class: r.below(4) as u8, method: r.bits(12) as u16, txid: r.txid(), attrs }
}
fn gen_val_raw(r: &mut Rng) -> Val {
    let c = if r.one_in(2) { *r.pick(&refm::ALL_CODES) } else { r.bits(16) as u16 };
    let n = r.size();
    Val::Raw(c, r.bytes(n))
}

pub fn class_of(c: u8) -> MessageClass {
    [MessageClass::Request, MessageClass::Indication, MessageClass::SuccessResponse, MessageClass::ErrorResponse]
        [c as usize & 3]
}
pub fn class_no(c: MessageClass) -> u8 {
    match c {
        MessageClass::Request => 0,
        MessageClass::Indication => 1,
        MessageClass::SuccessResponse => 2,
        MessageClass::ErrorResponse => 3,
    }
}

/// Builds the message through the public constructors, together with the values its attributes report.
/// Attributes the constructors refuse are left out.
pub fn build<S: Set>(p: &MsgPlan) -> Result<(Message<S>, Vec<Val>), String> {
    let method = Method::new(p.method).map_err(|e| format!("Method::new({:#x}) failed: {e}", p.method))?;
    let mut m = Message::<S>::new(class_of(p.class), method, TransactionId::new(p.txid));
    let mut vals = vec![];
    for a in &p.attrs {
        let a = match a {
            Plan::V(v) => S::build(v).and_then(|r| r.ok()),
            Plan::MiShort(pw) => MessageIntegrity::new_short_term_credential(&m, pw).ok().and_then(S::mi),
            Plan::MiLong(u, r, pw) => match (Username::new(u.clone()), Realm::new(r.clone())) {
                (Ok(u), Ok(r)) => {
                    MessageIntegrity::new_long_term_credential(&m, &u, &r, pw).ok().and_then(S::mi)
                }
                _ => None,
            },
            Plan::Fp => Fingerprint::new(&m).ok().and_then(S::fp),
        };
        if let Some(a) = a {
            vals.push(a.view());
            m.add_attribute(a);
        }
    }
    Ok((m, vals))
}

/// What can be observed of one decoding.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Obs {
    Error,
    Broken { class: u8, method: u16, txid: [u8; 12], consumed: usize },
    Msg { class: u8, method: u16, txid: [u8; 12], known: Vec<Val>, unknown: Vec<Val>, consumed: usize },
}
pub fn obs_of(o: &Outcome) -> Obs {
    match o {
        Outcome::Error => Obs::Error,
        Outcome::Broken { class, method, txid, consumed } => {
            Obs::Broken { class: *class, method: *method, txid: *txid, consumed: *consumed }
        }
        Outcome::Msg { class, method, txid, attrs, consumed } => Obs::Msg {
            class: *class,
            method: *method,
            txid: *txid,
            known: attrs.iter().filter(|a| a.known).map(|a| a.val.clone()).collect(),
            unknown: attrs.iter().filter(|a| !a.known).map(|a| a.val.clone()).collect(),
            consumed: *consumed,
        },
    }
}
pub fn view_msg<S: Set>(m: &Message<S>, consumed: usize) -> Obs {
    Obs::Msg {
        class: class_no(m.class()),
        method: m.method().as_u16(),
        txid: *m.transaction_id().as_bytes(),
        known: m.attributes().map(|a| a.view()).collect(),
        unknown: m.unknown_attributes().map(|a| Val::Raw(a.get_type().as_u16(), a.value().to_vec())).collect(),
        consumed,
    }
}

/// How a byte stream is cut into slices.
#[derive(Debug, Clone)]
pub enum Cuts {
    Whole,
    Bytes,
    /// sizes, repeated; a zero is an empty slice
    Sizes(Vec<usize>),
    /// exactly what the decoder asks for
    Exact,
    /// whole, with the end of input only announced on a further empty slice
    LateEos,
}
impl Cuts {
    pub fn random(r: &mut Rng) -> Cuts {
        match r.below(6) {
            0 => Cuts::Bytes,
            1 => Cuts::Exact,
            2 => Cuts::LateEos,
            _ => {
                let big = r.one_in(2);
                let n = 1 + r.below(6);
                let mut v: Vec<usize> = (0..n).map(|_| if big { r.below(40) } else { r.below(5) }).collect();
                v.push(1 + r.below(7));
                Cuts::Sizes(v)
            }
        }
    }
}

pub struct Run<S: Set> {
    pub obs: Obs,
    pub msg: Option<Message<S>>,
    pub consumed: usize,
}
fn need(b: ByteCount) -> String {
    match b {
        ByteCount::Finite(n) => n.to_string(),
        ByteCount::Infinite => "infinite".into(),
        ByteCount::Unknown => "unknown".into(),
    }
}
pub fn err_obs<S: Set>(consumed: usize) -> Run<S> {
    Run { obs: Obs::Error, msg: None, consumed }
}
/// Feeds one message from the front of `b` (at whose end the input ends) to `dec`.
/// `req`: also check the reported requirement at every step (C09).
pub fn decode_one<S: Set>(
    dec: &mut MessageDecoder<S>,
    b: &[u8],
    cuts: &Cuts,
    req: bool,
) -> Result<Run<S>, String> {
    let mut pos = 0;
    let mut k = 0;
    let mut idle_steps = 0;
    let expect = |pos: usize| -> usize {
        let t = if pos >= 20 { 20 + u16::from_be_bytes([b[2], b[3]]) as usize } else { 20 };
        t.saturating_sub(pos)
    };
    loop {
        if req {
            let got = dec.requiring_bytes();
            let want = expect(pos);
            if got != ByteCount::Finite(want as u64) {
                return Err(format!("after {pos} bytes requiring_bytes() is {}, but {want} bytes are missing", need(got)));
            }
            if dec.is_idle() != (want == 0) {
                return Err(format!("after {pos} bytes is_idle() is {}, but {want} bytes are missing", dec.is_idle()));
            }
        }
        if dec.is_idle() && pos > 0 {
            break;
        }
        if dec.is_idle() && pos == 0 && k > 0 {
            return Err("decoder is idle before anything was decoded".into());
        }
        let left = b.len() - pos;
        let (n, eos) = match cuts {
            Cuts::Whole => (left, true),
            Cuts::Bytes => (left.min(1), left <= 1),
            Cuts::Sizes(v) => {
                let n = v[k % v.len()].min(left);
                (n, n == left)
            }
            Cuts::Exact => match dec.requiring_bytes() {
                ByteCount::Finite(n) => ((n as usize).min(left), n as usize >= left),
                _ => (left.min(1), left <= 1),
            },
            Cuts::LateEos => (left, left == 0),
        };
        k += 1;
        match dec.decode(&b[pos..pos + n], Eos::new(eos)) {
            Err(_) => return Ok(err_obs(pos)),
            Ok(m) => {
                if m > n {
                    return Err(format!("decode() of {n} bytes reports {m} consumed"));
                }
                pos += m;
                if m < n && !dec.is_idle() {
                    return Err(format!("decode() consumed {m} of {n} bytes after {} without being complete", pos - m));
                }
                if req && n > 0 && pos > expect(0).max(if pos >= 20 { 20 + u16::from_be_bytes([b[2], b[3]]) as usize } else { 20 }) {
                    return Err(format!("decode() read past the message: {pos} bytes"));
                }
                idle_steps = if m == 0 { idle_steps + 1 } else { 0 };
                if eos && !dec.is_idle() {
                    // the input has ended and the decoder is not complete: finishing must fail
                    // (or report what arrived of a broken message)
                    return match dec.finish_decoding() {
                        Err(_) => Ok(err_obs(pos)),
                        Ok(Err(b)) => Ok(Run { obs: broken_obs(&b, pos), msg: None, consumed: pos }),
                        Ok(Ok(_)) => Err(format!("a message was delivered after {pos} bytes although the input ended early")),
                    };
                }
                if idle_steps > 50 {
                    return Err(format!("no progress after {pos} bytes"));
                }
            }
        }
    }
    Ok(match dec.finish_decoding() {
        Err(_) => err_obs(pos),
        Ok(Ok(m)) => Run { obs: view_msg(&m, pos), msg: Some(m), consumed: pos },
        Ok(Err(b)) => Run { obs: broken_obs(&b, pos), msg: None, consumed: pos },
    })
}
fn broken_obs(b: &BrokenMessage, consumed: usize) -> Obs {
    Obs::Broken {
        class: class_no(b.class()),
        method: b.method().as_u16(),
        txid: *b.transaction_id().as_bytes(),
        consumed,
    }
}
pub fn decode_new<S: Set>(b: &[u8], cuts: &Cuts) -> Result<Run<S>, String> {
    decode_one(&mut MessageDecoder::<S>::new(), b, cuts, false)
}

/// Output buffer sizes for draining an encoder.
#[derive(Debug, Clone)]
pub enum Bufs {
    Whole,
    Sizes(Vec<usize>),
}
impl Bufs {
    pub fn random(r: &mut Rng) -> Bufs {
        let big = r.one_in(2);
        let n = 1 + r.below(6);
        let mut v: Vec<usize> = (0..n).map(|_| if big { r.below(40) } else { r.below(5) }).collect();
        v.push(1 + r.below(7));
        if r.one_in(6) {
            v = vec![1];
        }
        Bufs::Sizes(v)
    }
}
/// Drains an encoder that has been started. `req`: check the reported requirement at every step.
pub fn drain<S: Set>(enc: &mut MessageEncoder<S>, bufs: &Bufs, req: bool) -> Result<(Vec<u8>, Vec<u64>), String> {
    let mut out = vec![];
    let mut reqs = vec![];
    let mut k = 0;
    let mut stuck = 0;
    while !enc.is_idle() {
        let ex = enc.exact_requiring_bytes();
        reqs.push(ex + out.len() as u64);
        if req && enc.requiring_bytes() != ByteCount::Finite(ex) {
            return Err(format!("requiring_bytes() {} differs from exact_requiring_bytes() {ex}", need(enc.requiring_bytes())));
        }
        let n = match bufs {
            Bufs::Whole => 80_000,
            Bufs::Sizes(v) => v[k % v.len()],
        };
        k += 1;
        let mut buf = vec![0xA5; n];
        let m = enc
            .encode(&mut buf, Eos::new(false))
            .map_err(|e| format!("encode() failed after {} bytes: {e}", out.len()))?;
        if m > n {
            return Err(format!("encode() into {n} bytes reports {m}"));
        }
        if m < n && !enc.is_idle() {
            return Err(format!("encode() filled {m} of {n} bytes after {} without finishing", out.len()));
        }
        if buf[m..].iter().any(|b| *b != 0xA5) {
            return Err(format!("encode() wrote beyond the {m} bytes it reports"));
        }
        stuck = if m == 0 { stuck + 1 } else { 0 };
        if stuck > 50 {
            return Err("encoder makes no progress".into());
        }
        out.extend(&buf[..m]);
    }
    reqs.push(enc.exact_requiring_bytes() + out.len() as u64);
    if req && enc.requiring_bytes() != ByteCount::Finite(enc.exact_requiring_bytes()) {
        return Err("requiring_bytes() differs from exact_requiring_bytes() when idle".into());
    }
    Ok((out, reqs))
}
/// Encodes with a new encoder; `None`: refused.
pub fn encode_new<S: Set>(m: Message<S>, bufs: &Bufs) -> Result<Option<Vec<u8>>, String> {
    let mut e = MessageEncoder::<S>::new();
    if e.start_encoding(m).is_err() {
        return Ok(None);
    }
    drain(&mut e, bufs, false).map(|x| Some(x.0))
}

/// A received byte string: well-formed, slightly or badly damaged.
pub fn gen_wire<S: Set>(r: &mut Rng, clean: bool) -> Vec<u8> {
    let codes = S::codes();
    let txid = r.txid();
    let mut body: Vec<u8> = vec![];
    let (class, method) = (r.below(4) as u8, r.bits(12) as u16);
    for _ in 0..r.below(6) {
        let known = !codes.is_empty() && !r.one_in(4);
        let code = if known {
            *r.pick(&codes)
        } else if r.one_in(3) {
            *r.pick(&refm::ALL_CODES)
        } else {
            r.bits(16) as u16
        };
        let mut v = refm::enc(&gen_val(r, code), &txid);
        if code == 8 {
            v = r.bytes(20);
        }
        if code == 0x8028 {
            let mut pre = refm::header(class, method, 0, &txid);
            pre.extend(&body);
            v = refm::fingerprint(&mut pre).to_be_bytes().to_vec();
        }
        if !clean {
            match r.below(16) {
                0 => {
                    let n = r.size();
                    v = r.bytes(n)
                }
                1 if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] ^= 1 << r.below(8)
                }
                2 if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] = r.next() as u8
                }
                3 => {
                    v.pop();
                }
                4 => v.push(r.next() as u8),
                _ => (),
            }
        }
        body.extend(code.to_be_bytes());
        let mut l = v.len() as u16;
        if !clean && r.one_in(30) {
            l = if r.one_in(2) { r.bits(16) as u16 } else { l.wrapping_add(r.below(9) as u16).wrapping_sub(4) };
        }
        body.extend(l.to_be_bytes());
        body.extend(&v);
        let zero = r.one_in(2);
        while body.len() % 4 != 0 {
            body.push(if zero { 0 } else { r.next() as u8 });
        }
    }
    let mut len = body.len() as u16;
    if !clean {
        match r.below(16) {
            0 => len = r.bits(16) as u16,
            1 => len = len.wrapping_add(r.below(9) as u16).wrapping_sub(4),
            2 => {
                let n = r.below(body.len() + 1);
                body.truncate(n)
            }
            3 => {
                let n = r.below(body.len() + 1);
                body.truncate(n);
                len = n as u16
            }
            4 => {
                let n = r.size();
                body = r.bytes(n);
                len = n as u16
            }
            _ => (),
        }
    }
    let mut m = refm::header(class, method, len, &txid);
    m.extend(body);
    if !clean {
        if r.one_in(12) {
            let n = r.size();
            let g = r.bytes(n);
            m.extend(g);
        }
        if r.one_in(12) {
            let i = r.below(m.len());
            m[i] ^= 1 << r.below(8);
        }
        if r.one_in(25) {
            let i = r.below(20.min(m.len()));
            m[i] = r.next() as u8;
        }
        if r.one_in(25) {
            let n = r.below(m.len() + 1);
            m.truncate(n);
        }
    }
    m
}
/// header + one attribute carrying `value`
pub fn wire1(code: u16, value: &[u8], txid: &[u8; 12]) -> Vec<u8> {
    let t = refm::tlv(code, value);
    let mut m = refm::header(0, 1, t.len() as u16, txid);
    m.extend(t);
    m
}
pub fn v6_with_scope(r: &mut Rng) -> SocketAddr {
    let mut o = [0; 16];
    o.copy_from_slice(&r.bytes(16));
    SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::from(o), r.bits(16) as u16, r.bits(32) as u32, r.bits(32) as u32))
}
