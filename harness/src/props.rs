use crate::drive::*;
use crate::refm::{self, hex, Cover, Val};
use crate::sets::*;
use crate::{enums, leaves, Ctx};
use bytecodec::io::{IoDecodeExt, IoEncodeExt};
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};
use stun_codec::convert::TryAsRef;
use stun_codec::net::socket_addr_xor;
use stun_codec::{MessageDecoder, MessageEncoder, Method, TransactionId};

pub fn run(c: &mut Ctx) {
    match c.prop.as_str() {
        "C01" => c01(c),
        "C02" => c02(c),
        "C03" => c03(c),
        "C04" => c04(c),
        "C05" => c05(c),
        "C06" => c06(c),
        "C07" => c07(c),
        "C08" => c08(c),
        "C09" => c09(c),
        "C10" => c10(c),
        "C11" => c11(c),
        "C12" => c12(c),
        "C13" => c13(c),
        "C14" => c14(c),
        "C15" => c15(c),
        "C16" => c16(c),
        "C17" => c17(c),
        p => panic!("no property {p}"),
    }
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        let mut s = format!("{what}: got {got:?}, want {want:?}");
        if s.len() > 3000 {
            let mut n = 3000;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
        }
        Err(s)
    }
}
fn some<T>(what: &str, x: Option<T>) -> Result<T, String> {
    x.ok_or_else(|| what.to_string())
}
fn invalid<T>(r: bytecodec::Result<T>, what: &str) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("{what}: accepted")),
        Err(e) => eq(what, *e.kind(), ErrorKind::InvalidInput),
    }
}
fn ok<T>(r: bytecodec::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what}: refused: {e}"))
}
fn ms(c: &Ctx, n: usize) -> usize {
    (n * c.scale + 99) / 100
}

// ---------------------------------------------------------------- C01
fn c01(c: &mut Ctx) {
    c.part("encode every class and method");
    for class in 0..4u8 {
        for method in 0..0x1000u16 {
            let t = c.rng.txid();
            c.case(&[class, (method >> 8) as u8, method as u8], || format!("class {class} method {method:#x}"), || {
                let p = MsgPlan { class, method, txid: t, attrs: vec![] };
                let (m, _) = build::<T5389>(&p)?;
                let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
                eq("type field", hex(&b[..2.min(b.len())]), hex(&refm::msg_type(class, method).to_be_bytes()))?;
                let r = decode_new::<T5389>(&b, &Cuts::Whole)?;
                match r.obs {
                    Obs::Msg { class: c2, method: m2, .. } => eq("decoded", (c2, m2), (class, method)),
                    o => Err(format!("decodes to {o:?}")),
                }
            });
        }
    }
    c.part("decode every type field");
    for t in 0..=0xffffu16 {
        let txid = c.rng.txid();
        let cuts = if c.rng.one_in(4) { Cuts::Bytes } else { Cuts::Whole };
        let bad = c.rng.one_in(3);
        c.case(&t.to_be_bytes(), || format!("type field {t:#06x} {cuts:?} broken={bad}"), || {
            let mut h = refm::header(0, 0, if bad { 4 } else { 0 }, &txid);
            h[..2].copy_from_slice(&t.to_be_bytes());
            if bad {
                h.extend([0, 1, 0, 9]);
            }
            let r = decode_new::<T5389>(&h, &cuts)?;
            match (refm::type_parts(t), r.obs) {
                (None, Obs::Error) => Ok(()),
                (Some(x), Obs::Msg { class, method, .. }) if !bad => eq("class, method", (class, method), x),
                (Some(x), Obs::Broken { class, method, .. }) if bad => eq("class, method", (class, method), x),
                (x, o) => Err(format!("want {x:?}, got {o:?}")),
            }
        });
    }
    c.part("decode then re-encode every accepted type field");
    for t in 0..0x4000u16 {
        let txid = c.rng.txid();
        c.case(&t.to_be_bytes(), || format!("type field {t:#06x}"), || {
            let mut h = refm::header(0, 0, 0, &txid);
            h[..2].copy_from_slice(&t.to_be_bytes());
            let m = some("not a message", decode_new::<RawAttribute>(&h, &Cuts::Whole)?.msg)?;
            eq("re-encoded", encode_new(m, &Bufs::Whole)?.map(|b| hex(&b)), Some(hex(&h)))
        });
    }
    c.part("method constructors");
    for n in 0..=0xffffu16 {
        c.case(&n.to_be_bytes(), || format!("Method::new({n:#x})"), || match Method::new(n) {
            Ok(m) => eq("as_u16 (and < 0x1000)", (m.as_u16(), n < 0x1000), (n, true)),
            Err(_) => eq("refused", n >= 0x1000, true),
        });
    }
    for n in 0..=255u8 {
        c.case(&[n], || format!("Method::from({n:#x})"), || eq("as_u16", Method::from(n).as_u16(), n as u16));
    }
}

// ---------------------------------------------------------------- C02
fn c02(c: &mut Ctx) {
    fn hdr<S: Set>(c: &mut Ctx) {
        c.part("header bytes and their decoding");
        for _ in 0..ms(c, 400) {
            let p = gen_plan::<S>(&mut c.rng, 4);
            let bufs = if c.rng.one_in(2) { Bufs::Whole } else { Bufs::random(&mut c.rng) };
            let cuts = Cuts::random(&mut c.rng);
            c.case(&p.key(), || format!("{} {p:?} {bufs:?} {cuts:?}", S::name()), || {
                let (m, _) = build::<S>(&p)?;
                let b = match encode_new(m, &bufs)? {
                    None => return Ok(()),
                    Some(b) => b,
                };
                let want = refm::header(p.class, p.method, (b.len() - 20) as u16, &p.txid);
                eq("header", hex(&b[..20]), hex(&want))?;
                match decode_new::<S>(&b, &cuts)?.obs {
                    Obs::Msg { class, method, txid, .. } | Obs::Broken { class, method, txid, .. } => {
                        eq("decoded", (class, method, hex(&txid)), (p.class, p.method, hex(&p.txid)))
                    }
                    Obs::Error => Err("its own encoding is rejected".into()),
                }
            });
        }
        c.part("damaged headers");
        for i in 0..ms(c, 400) {
            let mut w = gen_wire::<S>(&mut c.rng, true);
            match i % 3 {
                0 => {
                    let k = c.rng.below(32);
                    w[4 + k / 8] ^= 1 << (k % 8);
                }
                1 => w[0] |= [0x40, 0x80, 0xc0][c.rng.below(3)],
                _ => {
                    let b = c.rng.bytes(4);
                    w[4..8].copy_from_slice(&b);
                }
            }
            let good = w[4..8] == refm::COOKIE && w[0] & 0xc0 == 0;
            let cuts = Cuts::random(&mut c.rng);
            c.case(&w, || format!("{} {} {cuts:?}", S::name(), hex(&w)), || match decode_new::<S>(&w, &cuts)?.obs {
                Obs::Error => eq("accepted", false, good),
                _ if good => Ok(()),
                o => Err(format!("bad header gives {o:?}")),
            });
        }
        c.part("header of received messages");
        for _ in 0..ms(c, 300) {
            let w = gen_wire::<S>(&mut c.rng, false);
            let cuts = Cuts::random(&mut c.rng);
            c.case(&w, || format!("{} {} {cuts:?}", S::name(), hex(&w)), || {
                let r = refm::dec_msg(&w, &S::codes(), S::RAW, Cover::Received);
                match decode_new::<S>(&w, &cuts)?.obs {
                    Obs::Error => Ok(()),
                    Obs::Msg { class, method, txid, .. } | Obs::Broken { class, method, txid, .. } => {
                        some("item from a bad header", r.total)?;
                        eq("class, method, id", (Some((class, method)), hex(&txid)), (
                            refm::type_parts(u16::from_be_bytes([w[0], w[1]])),
                            hex(&w[8..20]),
                        ))
                    }
                }
            });
        }
    }
    c.part("every one-bit damage of cookie and top bits");
    for len in [0usize, 4] {
        for k in (0..2).chain(32..64) {
            for cuts in [Cuts::Whole, Cuts::Bytes, Cuts::Exact, Cuts::LateEos] {
                let t = c.rng.txid();
                let class = c.rng.below(4) as u8;
                let method = c.rng.bits(12) as u16;
                c.case(&[len as u8, k as u8], || format!("bit {k} length {len} {cuts:?}"), || {
                    let mut h = refm::header(class, method, len as u16, &t);
                    h[k / 8] ^= 0x80 >> (k % 8);
                    h.extend([0x7f, 0xff, 0, 0].iter().take(len));
                    eq("outcome", decode_new::<T5389>(&h, &cuts)?.obs, Obs::Error)
                });
            }
        }
    }
    enums!(hdr, c);
    hdr::<RawAttribute>(c);
    c.part("transaction ids");
    for _ in 0..200 {
        let t = c.rng.txid();
        c.case(&t, || hex(&t), || {
            let id = TransactionId::new(t);
            eq("as_bytes", *id.as_bytes(), t)?;
            eq("as_ref", id.as_ref(), &t[..])
        });
    }
}

// ---------------------------------------------------------------- C03
fn tlv_check(b: &[u8], want: &[Val], txid: &[u8; 12]) -> Result<(), String> {
    eq("length field", u16::from_be_bytes([b[2], b[3]]) as usize, b.len() - 20)?;
    eq("length modulo 4", b.len() % 4, 0)?;
    let mut p = 20;
    for v in want {
        if b.len() < p + 4 {
            return Err(format!("attribute {v:?} is missing at offset {p}"));
        }
        eq("attribute type", u16::from_be_bytes([b[p], b[p + 1]]), v.code())?;
        let l = u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize;
        eq("value length", l, refm::enc(v, txid).len())?;
        let end = p + 4 + (l + 3) / 4 * 4;
        if b.len() < end {
            return Err(format!("attribute {v:?} at {p} does not fit"));
        }
        eq("padding", hex(&b[p + 4 + l..end]), "00".repeat(end - p - 4 - l))?;
        p = end;
    }
    eq("end of attributes", p, b.len())
}
fn c03(c: &mut Ctx) {
    fn go<S: Set>(c: &mut Ctx) {
        c.part("structure of encoded messages");
        for _ in 0..ms(c, 300) {
            let p = gen_plan::<S>(&mut c.rng, 6);
            let bufs = if c.rng.one_in(2) { Bufs::Whole } else { Bufs::random(&mut c.rng) };
            c.case(&p.key(), || format!("{} {p:?} {bufs:?}", S::name()), || {
                let (m, vals) = build::<S>(&p)?;
                match encode_new(m, &bufs)? {
                    None => Err("refused".into()),
                    Some(b) => tlv_check(&b, &vals, &p.txid),
                }
            });
        }
    }
    enums!(go, c);
    leaves!(go, c);
    go::<RawAttribute>(c);
    c.part("size limits");
    let mut plans: Vec<Vec<Val>> = vec![];
    for n in [0, 1, 3, 4, 65503, 65504, 65520, 65523, 65524, 65525, 65526, 65527, 65528, 65529, 65530, 65531, 65532, 65533,
        65534, 65535, 65536, 65537, 65540, 65600, 70000, 131068, 131072, 131073, 200000]
    {
        plans.push(vec![Val::Raw(0x7777, vec![7; n])]);
        plans.push(vec![Val::Raw(1, vec![1; 3]), Val::Raw(0x7777, vec![7; n])]);
        plans.push(vec![Val::Raw(0x7777, vec![7; n]), Val::Raw(1, vec![1; 3])]);
        plans.push(vec![Val::Raw(0x7777, vec![7; n / 2]), Val::Raw(0x7778, vec![7; n / 2])]);
        plans.push(vec![Val::Raw(0x7777, vec![7; n / 3]); 3]);
        plans.push(vec![Val::Raw(1, vec![]); n / 40]);
    }
    for k in [16382, 16383, 16384, 16385] {
        plans.push(vec![Val::Raw(1, vec![]); k]);
    }
    for vals in plans {
        let t = c.rng.txid();
        let sizes: Vec<usize> = vals.iter().map(|v| refm::enc(v, &t).len()).collect();
        let d = format!("{} raw attributes, first sizes {:?}", sizes.len(), &sizes[..sizes.len().min(4)]);
        c.case(d.as_bytes(), || d.clone(), || {
            let p = MsgPlan { class: 0, method: 1, txid: t, attrs: vals.iter().cloned().map(Plan::V).collect() };
            let (m, _) = build::<RawAttribute>(&p)?;
            match (refm::enc_msg(0, 1, &t, &vals), encode_new(m, &Bufs::Whole)?) {
                (None, None) => Ok(()),
                (Some(_), Some(b)) => tlv_check(&b, &vals, &t),
                (Some(_), None) => Err("refused although it fits".into()),
                (None, Some(b)) => Err(format!("encoded in {} bytes with length field {} although it does not fit", b.len(), hex(&b[2..4]))),
            }
        });
    }
    for n in [65519usize, 65520, 65523, 65524, 65525, 65527, 65528, 65529, 65531, 65532, 65535, 65536, 65537, 70000, 131072] {
        for which in 0..4 {
            let t = c.rng.txid();
            let v = match which {
                0 => Val::Data(vec![1; n]),
                1 => Val::Ticket(vec![1; n]),
                2 => Val::Unknowns(vec![1; n / 2]),
                _ => Val::ErrorCode(400, "x".repeat(n - 4)),
            };
            let d = format!("value of {n} bytes in attribute {:#x}", v.code());
            c.case(d.as_bytes(), || d.clone(), || {
                let p = MsgPlan { class: 0, method: 1, txid: t, attrs: vec![Plan::V(v.clone())] };
                let (m, vals) = build::<All>(&p)?;
                if vals.is_empty() {
                    return eq("constructible", matches!(v, Val::Data(_)) && n > 65535, true);
                }
                match (refm::enc_msg(0, 1, &t, &vals), encode_new(m, &Bufs::Whole)?) {
                    (None, None) => Ok(()),
                    (Some(_), Some(b)) => tlv_check(&b, &vals, &t),
                    (a, b) => Err(format!("fits: {}, encoded: {}", a.is_some(), b.is_some())),
                }
            });
        }
    }
    c.part("decoded messages keep their length");
    for _ in 0..ms(c, 2000) {
        let w = gen_wire::<All>(&mut c.rng, true);
        c.case(&w, || hex(&w), || {
            let r = decode_new::<All>(&w, &Cuts::Whole)?;
            if let Some(m) = r.msg {
                let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
                eq("length", (b.len(), u16::from_be_bytes([b[2], b[3]]) as usize), (r.consumed, b.len() - 20))?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C04
fn c04(c: &mut Ctx) {
    fn go<S: Set>(c: &mut Ctx) {
        c.part("round trip");
        for i in 0..ms(c, 400) {
            let p = gen_plan::<S>(&mut c.rng, if i % 8 == 0 { 30 } else { 5 });
            let cuts = if c.rng.one_in(2) { Cuts::Whole } else { Cuts::random(&mut c.rng) };
            let bufs = if c.rng.one_in(2) { Bufs::Whole } else { Bufs::random(&mut c.rng) };
            c.case(&p.key(), || format!("{} {p:?} {cuts:?} {bufs:?}", S::name()), || {
                let (m, vals) = build::<S>(&p)?;
                let b = match encode_new(m, &bufs)? {
                    None => return Ok(()),
                    Some(b) => b,
                };
                let want = Obs::Msg {
                    class: p.class,
                    method: p.method,
                    txid: p.txid,
                    known: vals,
                    unknown: vec![],
                    consumed: b.len(),
                };
                eq("decoded", decode_new::<S>(&b, &cuts)?.obs, want)
            });
        }
    }
    enums!(go, c);
    leaves!(go, c);
    go::<RawAttribute>(c);
    c.part("round trip of each attribute value, alone and between others");
    for code in refm::ALL_CODES.into_iter().chain([refm::TICKET]) {
        for i in 0..ms(c, 150) {
            let mut attrs = vec![match code {
                8 => Plan::MiShort(c.rng.text(20, 80)),
                0x8028 => Plan::Fp,
                _ => Plan::V(gen_val(&mut c.rng, code)),
            }];
            if i % 2 == 0 {
                attrs.insert(0, Plan::V(gen_val(&mut c.rng, *[0x6, 0x20, 0x13].get(i % 3).unwrap())));
                attrs.push(Plan::V(gen_val(&mut c.rng, 0x12)));
            }
            if i % 5 == 0 {
                attrs.push(attrs[0].clone());
            }
            let p = MsgPlan { class: c.rng.below(4) as u8, method: c.rng.bits(12) as u16, txid: c.rng.txid(), attrs };
            c.case(&p.key(), || format!("{p:?}"), || {
                let (m, vals) = build::<All>(&p)?;
                let b = some("refused", encode_new(m.clone(), &Bufs::Whole)?)?;
                let r = decode_new::<All>(&b, &Cuts::Whole)?;
                let want = Obs::Msg { class: p.class, method: p.method, txid: p.txid, known: vals, unknown: vec![], consumed: b.len() };
                eq("decoded", r.obs, want)?;
                let d = r.msg.unwrap();
                eq("equal by PartialEq", d.attributes().eq(m.attributes()), true)
            });
        }
    }
    c.part("addresses with flow label and scope");
    for _ in 0..ms(c, 100) {
        let a = v6_with_scope(&mut c.rng);
        let t = c.rng.txid();
        c.case(format!("{a:?}{t:?}").as_bytes(), || format!("{a:?} {}", hex(&t)), || {
            let mut m = Message::<All>::new(class_of(0), Method::new(1).unwrap(), TransactionId::new(t));
            m.add_attribute(MappedAddress::new(a));
            m.add_attribute(XorMappedAddress::new(a));
            let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
            let d = some("not decoded", decode_new::<All>(&b, &Cuts::Whole)?.msg)?;
            for v in d.attributes().map(|x| x.view()) {
                match v {
                    Val::Addr(_, x) => eq("ip and port", (x.ip(), x.port()), (a.ip(), a.port()))?,
                    v => return Err(format!("{v:?}")),
                }
            }
            Ok(())
        });
    }
    c.part("large values");
    for n in [65519usize, 65524, 65525, 65526, 65527, 65528] {
        for which in 0..3 {
            let v = match which {
                0 => Val::Data(c.rng.bytes(n)),
                1 => Val::Ticket(c.rng.bytes(n)),
                _ => Val::Unknowns((0..n / 2).map(|i| i as u16).collect()),
            };
            let t = c.rng.txid();
            c.case(&[which as u8, n as u8, (n >> 8) as u8], || format!("{n} bytes in {:#x}", v.code()), || {
                let p = MsgPlan { class: 1, method: 6, txid: t, attrs: vec![Plan::V(v.clone())] };
                let (m, _) = build::<All>(&p)?;
                let b = match encode_new(m, &Bufs::Whole)? {
                    None => return Ok(()),
                    Some(b) => b,
                };
                match decode_new::<All>(&b, &Cuts::Whole)?.obs {
                    Obs::Msg { known, .. } => eq("same value", known == vec![v.clone()], true),
                    o => Err(format!("{o:?}")),
                }
            });
        }
    }
}

// ---------------------------------------------------------------- C05
fn c05(c: &mut Ctx) {
    fn go<S: Set>(c: &mut Ctx) {
        c.part("re-encoding received messages");
        for i in 0..ms(c, 1200) {
            let w = gen_wire::<S>(&mut c.rng, i % 3 != 0);
            let cuts = if c.rng.one_in(2) { Cuts::Whole } else { Cuts::random(&mut c.rng) };
            let bufs = if c.rng.one_in(2) { Bufs::Whole } else { Bufs::random(&mut c.rng) };
            c.case(&w, || format!("{} {} {cuts:?} {bufs:?}", S::name(), hex(&w)), || {
                let r = refm::dec_msg(&w, &S::codes(), S::RAW, Cover::Received);
                if !r.canonical {
                    return Ok(());
                }
                let d = decode_new::<S>(&w, &cuts)?;
                match d.msg {
                    Some(m) => eq("re-encoded", encode_new(m, &bufs)?.map(|b| hex(&b)), Some(hex(&w[..d.consumed]))),
                    None => Ok(()),
                }
            });
        }
    }
    enums!(go, c);
    leaves!(go, c);
    go::<RawAttribute>(c);
    c.part("every padding length and content");
    for n in 0..9usize {
        for last in [0u8, 1, 0x20, 0xff] {
            for code in [0x6u16, 0x13, 0x7ff1, 0xfff1] {
                let t = c.rng.txid();
                c.case(&[n as u8, last, code as u8], || format!("value of {n} bytes, padding {last:#x}, type {code:#x}"), || {
                    let mut w = wire1(code, &vec![b'x'; n], &t);
                    let l = w.len();
                    for k in 24 + n..l {
                        w[k] = last.wrapping_add((k - 24 - n) as u8);
                    }
                    w.extend(refm::tlv(0x20, &refm::enc(&Val::Addr(0x20, "[::1]:7".parse().unwrap()), &t)));
                    let l = w.len() as u16 - 20;
                    w[2..4].copy_from_slice(&l.to_be_bytes());
                    let m = some("not decoded", decode_new::<All>(&w, &Cuts::Whole)?.msg)?;
                    eq("re-encoded", encode_new(m, &Bufs::Whole)?.map(|b| hex(&b)), Some(hex(&w)))
                });
            }
        }
    }
}

// ---------------------------------------------------------------- C06
/// The two readings of FINGERPRINT coverage differ only in the known finding (decided by C12).
fn check_decode<S: Set>(w: &[u8], cuts: &Cuts) -> Result<(), String> {
    let a = obs_of(&refm::dec_msg(w, &S::codes(), S::RAW, Cover::Received).outcome);
    let b = obs_of(&refm::dec_msg(w, &S::codes(), S::RAW, Cover::Reencoded).outcome);
    let got = decode_new::<S>(w, cuts)?.obs;
    if got == b {
        return Ok(());
    }
    eq("outcome", got, a)
}
/// Only what C06 says: totality, consumption, report of broken messages, early end.
fn check_total<S: Set>(w: &[u8], cuts: &Cuts) -> Result<(), String> {
    let a = refm::dec_msg(w, &S::codes(), S::RAW, Cover::Received);
    let got = decode_new::<S>(w, cuts)?.obs;
    match (&got, a.total) {
        (Obs::Msg { consumed, .. }, Some(t)) => {
            eq("bytes consumed by a message", *consumed, t)?;
            if let refm::Outcome::Broken { .. } = obs_shape(&a) {
                let b = refm::dec_msg(w, &S::codes(), S::RAW, Cover::Reencoded);
                if let refm::Outcome::Broken { .. } = b.outcome {
                    return Err(format!("a malformed attribute part is delivered as {got:?}"));
                }
            }
            Ok(())
        }
        (Obs::Broken { class, method, txid, consumed }, Some(t)) => {
            eq("class, method, id", (Some((*class, *method)), hex(txid)), (
                refm::type_parts(u16::from_be_bytes([w[0], w[1]])),
                hex(&w[8..20]),
            ))?;
            if w.len() >= t {
                eq("bytes consumed by a broken message", *consumed, t)?;
            }
            Ok(())
        }
        (Obs::Error, Some(t)) if w.len() >= t => Err(format!("an error although the header is good and all {t} bytes arrived")),
        (Obs::Error, _) => Ok(()),
        (o, None) => Err(format!("header is bad, but {o:?}")),
    }
}
fn obs_shape(d: &refm::Decoded) -> refm::Outcome {
    d.outcome.clone()
}
fn c06(c: &mut Ctx) {
    fn go<S: Set>(c: &mut Ctx) {
        c.part("arbitrary input");
        for _ in 0..ms(c, 1500) {
            let w = gen_wire::<S>(&mut c.rng, false);
            let cuts = if c.rng.one_in(2) { Cuts::Whole } else { Cuts::random(&mut c.rng) };
            c.case(&w, || format!("{} {} {cuts:?}", S::name(), hex(&w)), || {
                check_total::<S>(&w, &cuts)?;
                let _ = MessageDecoder::<S>::new().decode_from_bytes(&w);
                Ok(())
            });
        }
        c.part("random bytes behind a good header");
        for _ in 0..ms(c, 200) {
            let n = c.rng.below(60);
            let mut w = refm::header(0, 1, n as u16, &[9; 12]);
            let t = if S::RAW || c.rng.one_in(3) { c.rng.next() as u16 } else { *c.rng.pick(&S::codes()) };
            let mut b = c.rng.bytes(n);
            if n >= 4 {
                b[..2].copy_from_slice(&t.to_be_bytes());
                b[2..4].copy_from_slice(&(c.rng.below(n) as u16).to_be_bytes());
            }
            w.extend(b);
            c.case(&w, || format!("{} {}", S::name(), hex(&w)), || check_total::<S>(&w, &Cuts::Whole));
        }
        c.part("early end of input");
        for _ in 0..ms(c, 12) {
            let w = gen_wire::<S>(&mut c.rng, true);
            let cuts = Cuts::random(&mut c.rng);
            for n in 0..w.len() {
                let v = &w[..n];
                c.case(v, || format!("{} {} {cuts:?}", S::name(), hex(v)), || {
                    for cuts in [&Cuts::Whole, &cuts] {
                        check_total::<S>(v, cuts)?;
                        if let Obs::Msg { .. } = decode_new::<S>(v, cuts)?.obs {
                            return Err("a message although the input ended early".into());
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    enums!(go, c);
    leaves!(go, c);
    go::<RawAttribute>(c);
    c.part("each attribute with every value length 0..=40");
    for code in refm::ALL_CODES.into_iter().chain([refm::TICKET, 0x7fff, 0xffff]) {
        for n in 0..=40usize {
            for fill in 0..4 {
                let t = c.rng.txid();
                let v = match fill {
                    0 => vec![0; n],
                    1 => vec![0xff; n],
                    2 => [0, 1, 3, 20].iter().cycle().take(n).cloned().collect(),
                    _ => c.rng.bytes(n),
                };
                let w = wire1(code, &v, &t);
                c.case(&w, || hex(&w), || {
                    check_total::<All>(&w, &Cuts::Whole)?;
                    check_total::<All>(&w, &Cuts::Bytes)?;
                    check_decode::<All>(&w, &Cuts::Whole)
                });
            }
        }
    }
    c.part("length field beyond and below the attributes");
    for l in (0..=64u16).chain([0x100, 0x7fff, 0x8000, 0xfffc, 0xffff]) {
        for alen in [0u16, 1, 4, 8, 60, 0xffff] {
            let mut w = refm::header(2, 3, l, &[1; 12]);
            w.extend([0x12, 0x34]);
            w.extend(alen.to_be_bytes());
            w.resize(20 + l as usize, 0x5a);
            c.case(&[l as u8, (l >> 8) as u8, alen as u8], || format!("length field {l}, attribute length {alen}"), || {
                check_total::<All>(&w, &Cuts::Whole)?;
                check_total::<All>(&w, &Cuts::Sizes(vec![7]))?;
                check_decode::<All>(&w, &Cuts::Whole)?;
                check_decode::<RawAttribute>(&w, &Cuts::Exact)
            });
        }
    }
    c.part("malformed part is held until the message ends");
    for cut in 0..40usize {
        let t = c.rng.txid();
        c.case(&[cut as u8], || format!("broken attribute first, cut at {cut}"), || {
            let mut w = wire1(0x000c, &[0, 0, 0, 0], &t); // channel number out of range
            w.extend(refm::tlv(0x13, &[5; 24]));
            let l = w.len() as u16 - 20;
            w[2..4].copy_from_slice(&l.to_be_bytes());
            let want = Obs::Broken { class: 0, method: 1, txid: t, consumed: w.len() };
            let total = w.len();
            w.extend([1, 2, 3]);
            eq("outcome", decode_new::<All>(&w, &Cuts::Sizes(vec![cut, 1000]))?.obs, want)?;
            eq("total", total, 20 + l as usize)
        });
    }
}

// ---------------------------------------------------------------- C07
/// KF2: for an input that ends before the declared length, whether the rejection is an error or a
/// broken-message report depends on the slices. Anything else that depends on them is a violation.
fn same_outcome<S: Set>(w: &[u8], what: &str, got: Obs, want: Obs) -> Result<bool, String> {
    let short = matches!(refm::dec_msg(w, &S::codes(), S::RAW, Cover::Received).total, Some(t) if w.len() < t);
    let rejected = |o: &Obs| !matches!(o, Obs::Msg { .. });
    let head = |o: &Obs| match o {
        Obs::Broken { class, method, txid, .. } => Some((*class, *method, *txid)),
        _ => None,
    };
    if short && rejected(&got) && rejected(&want) && got != want {
        if let (Some(a), Some(b)) = (head(&got), head(&want)) {
            eq(what, a, b)?;
        }
        return Ok(true);
    }
    eq(what, got, want)?;
    Ok(false)
}
fn c07(c: &mut Ctx) {
    use std::cell::Cell;
    thread_local!(static KF2: Cell<u64> = Cell::new(0));
    fn go<S: Set>(c: &mut Ctx) {
        c.part("decoding in slices");
        for i in 0..ms(c, 700) {
            let w = gen_wire::<S>(&mut c.rng, i % 2 == 0);
            let cuts: Vec<Cuts> = [Cuts::Bytes, Cuts::LateEos, Cuts::Exact]
                .into_iter()
                .chain((0..4).map(|_| Cuts::random(&mut c.rng)))
                .collect();
            c.case(&w, || format!("{} {} {cuts:?}", S::name(), hex(&w)), || {
                let whole = decode_new::<S>(&w, &Cuts::Whole)?;
                let wb = whole.msg.map(|m| encode_new(m, &Bufs::Whole));
                for k in &cuts {
                    let r = decode_new::<S>(&w, k)?;
                    if same_outcome::<S>(&w, &format!("fed as {k:?} versus at once"), r.obs, whole.obs.clone())? {
                        KF2.with(|k| k.set(k.get() + 1));
                    }
                    let b = r.msg.map(|m| encode_new(m, &Bufs::Whole));
                    eq(&format!("re-encoding after feeding as {k:?} versus at once"), b, wb.clone())?;
                }
                Ok(())
            });
        }
        c.part("encoding into buffers");
        for _ in 0..ms(c, 150) {
            let p = gen_plan::<S>(&mut c.rng, 5);
            let bufs: Vec<Bufs> =
                (0..5).map(|_| Bufs::random(&mut c.rng)).chain([Bufs::Sizes(vec![1])]).collect();
            c.case(&p.key(), || format!("{} {p:?} {bufs:?}", S::name()), || {
                let (m, _) = build::<S>(&p)?;
                let whole = encode_new(m.clone(), &Bufs::Whole)?;
                for k in &bufs {
                    eq(&format!("drained through {k:?} versus at once"), encode_new(m.clone(), k)?, whole.clone())?;
                }
                eq("encode_into_bytes", MessageEncoder::<S>::new().encode_into_bytes(m.clone()).ok(), whole.clone())?;
                if let Some(w) = whole {
                    // exactly fitting buffer with end of stream
                    let mut e = MessageEncoder::<S>::new();
                    e.start_encoding(m).map_err(|e| e.to_string())?;
                    let mut b = vec![0; w.len()];
                    let n = e.encode(&mut b, Eos::new(true)).map_err(|e| format!("exactly fitting buffer: {e}"))?;
                    eq("exactly fitting buffer", (n, b, e.is_idle()), (w.len(), w, true))?;
                }
                Ok(())
            });
        }
        c.part("every single cut of a message");
        for _ in 0..ms(c, 6) {
            let w = gen_wire::<S>(&mut c.rng, true);
            for cut in 0..=w.len().min(400) {
                let z = c.rng.one_in(2);
                c.case(&[&w[..], &[cut as u8, z as u8]].concat(), || format!("{} {} cut at {cut} empty={z}", S::name(), hex(&w)), || {
                    let whole = decode_new::<S>(&w, &Cuts::Whole)?;
                    let mut v = vec![cut];
                    if z {
                        v.push(0);
                    }
                    v.push(w.len());
                    same_outcome::<S>(&w, "cut versus whole", decode_new::<S>(&w, &Cuts::Sizes(v))?.obs, whole.obs).map(|_| ())
                });
            }
        }
    }
    enums!(go, c);
    leaves!(go, c);
    go::<RawAttribute>(c);
    c.part("streams of several messages");
    for _ in 0..ms(c, 600) {
        let mut s = vec![];
        let mut n = 0;
        while n < 4 {
            let clean = c.rng.one_in(2);
            let w = gen_wire::<All>(&mut c.rng, clean);
            let r = refm::dec_msg(&w, &All::codes(), false, Cover::Received);
            if let Some(t) = r.total {
                if w.len() >= t {
                    s.extend(&w[..t]);
                    n += 1;
                }
            }
        }
        let cuts = Cuts::random(&mut c.rng);
        c.case(&s, || format!("{} {cuts:?}", hex(&s)), || {
            let all = |cuts: &Cuts| -> Result<Vec<Obs>, String> {
                let mut d = MessageDecoder::<All>::new();
                let mut p = 0;
                let mut v = vec![];
                while p < s.len() {
                    let r = decode_one(&mut d, &s[p..], cuts, false)?;
                    v.push(r.obs.clone());
                    if r.obs == Obs::Error {
                        break;
                    }
                    p += r.consumed;
                }
                Ok(v)
            };
            eq("items of the stream", all(&cuts)?, all(&Cuts::Whole)?)
        });
    }
    c.part("known finding KF2");
    let mut w = refm::header(0, 1, 12, &[3; 12]);
    w.extend([0, 1, 0, 8, 0, 1, 0, 80, 127, 0, 1]);
    c.case(&w, || hex(&w), || {
        let a = decode_new::<T5389>(&w, &Cuts::Whole)?.obs;
        let b = decode_new::<T5389>(&w, &Cuts::Bytes)?.obs;
        if same_outcome::<T5389>(&w, "byte by byte versus at once", b, a)? {
            KF2.with(|k| k.set(k.get() + 1));
        }
        Ok(())
    });
    let n = KF2.with(|k| k.get());
    if n > 0 {
        c.known.push(format!("KF2 {n} inputs: when the input ends before the declared length, whether it is rejected by an error or by a broken-message report depends on the slices it is fed in (11 of 12 declared bytes at once: broken message; byte by byte: error)"));
    }
}

// ---------------------------------------------------------------- C08
fn c08(c: &mut Ctx) {
    fn bad_header(r: &mut Rng) -> Vec<u8> {
        let mut h = refm::header(r.below(4) as u8, r.bits(12) as u16, (r.below(16) * 4) as u16, &r.txid());
        match r.below(3) {
            0 => h[0] |= [0x40, 0x80, 0xc0][r.below(3)],
            1 => h[4 + r.below(4)] ^= 1 << r.below(8),
            _ => {
                h[0] |= 0x80;
                h[7] ^= 1;
            }
        }
        if r.one_in(3) {
            let n = r.below(20);
            let b = r.bytes(n);
            h.extend(b);
        }
        h
    }
    fn go<S: Set>(c: &mut Ctx) {
        c.part("decoder histories");
        for _ in 0..ms(c, 350) {
            let n = 2 + c.rng.below(5);
            let mut hist: Vec<(Vec<u8>, Cuts)> = vec![];
            while hist.len() < n {
                let w = match c.rng.below(4) {
                    0 => bad_header(&mut c.rng),
                    1 => gen_wire::<S>(&mut c.rng, true),
                    _ => gen_wire::<S>(&mut c.rng, false),
                };
                // complete messages (good or broken) and rejected headers only
                let r = refm::dec_msg(&w, &S::codes(), S::RAW, Cover::Received);
                let w = match r.total {
                    Some(t) if w.len() >= t => w,
                    None if w.len() >= 20 => w,
                    _ => continue,
                };
                hist.push((w, Cuts::random(&mut c.rng)));
            }
            c.case(format!("{hist:?}").as_bytes(), || {
                format!("{} history {:?}", S::name(), hist.iter().map(|(w, k)| (hex(w), k)).collect::<Vec<_>>())
            }, || {
                let mut d = MessageDecoder::<S>::new();
                for (i, (w, k)) in hist.iter().enumerate() {
                    let used = decode_one(&mut d, w, k, false)?;
                    let fresh = decode_new::<S>(w, k)?;
                    eq(&format!("message {i} with the used decoder versus a new one"), used.obs, fresh.obs)?;
                    let b = |m: Option<Message<S>>| m.map(|m| encode_new(m, &Bufs::Whole));
                    eq(&format!("re-encoding of message {i}"), b(used.msg), b(fresh.msg))?;
                }
                Ok(())
            });
        }
        c.part("encoder histories");
        for _ in 0..ms(c, 250) {
            let n = 2 + c.rng.below(4);
            let mut hist = vec![];
            for _ in 0..n {
                let p = gen_plan::<S>(&mut c.rng, 4);
                let big = if c.rng.one_in(60) { 0 } else { 1 + c.rng.below(5) }; // make some of them impossible to encode
                hist.push((p, big, Bufs::random(&mut c.rng)));
            }
            c.case(format!("{hist:?}").as_bytes(), || format!("{} {hist:?}", S::name()), || {
                let mut e = MessageEncoder::<S>::new();
                for (i, (p, big, bufs)) in hist.iter().enumerate() {
                    let (mut m, _) = build::<S>(p)?;
                    if *big == 0 {
                        // too long as a whole
                        let first = m.attributes().next().cloned();
                        if let Some(a) = first {
                            for _ in 0..16_400 {
                                m.add_attribute(a.clone());
                            }
                        }
                    }
                    if *big == 1 {
                        // a value that is too long, where the set has one
                        for v in [Val::Ticket(vec![1; 70_000]), Val::Unknowns(vec![1; 40_000]), Val::Raw(1, vec![1; 66_000]),
                            Val::ErrorCode(400, "x".repeat(65_600))]
                        {
                            if let Some(Ok(a)) = S::build(&v) {
                                m.add_attribute(a);
                            }
                        }
                    }
                    let fresh = encode_new(m.clone(), bufs)?;
                    let used = match e.start_encoding(m.clone()) {
                        Err(_) => {
                            eq("idle after refusing", e.is_idle(), true)?;
                            eq("requirement after refusing", e.exact_requiring_bytes(), 0)?;
                            None
                        }
                        Ok(()) => {
                            // starting another while busy must not disturb this one
                            if i % 2 == 1 && !e.is_idle() && e.start_encoding(m).is_ok() {
                                return Err("started a second message before the first was emitted".into());
                            }
                            Some(drain(&mut e, bufs, false)?.0)
                        }
                    };
                    eq(&format!("message {i} with the used encoder versus a new one"), used, fresh)?;
                }
                Ok(())
            });
        }
    }
    enums!(go, c);
    leaves!(go, c);
    go::<RawAttribute>(c);
    c.part("after a rejected header, cut everywhere");
    for cut in 0..=20usize {
        for kind in 0..2 {
            let t = c.rng.txid();
            let b = c.rng.bytes(4);
            c.case(&[cut as u8, kind], || format!("rejected header (kind {kind}) fed in two parts cut at {cut}"), || {
                let mut bad = refm::header(3, 0xfff, 8, &[0xee; 12]);
                if kind == 0 {
                    bad[0] |= 0x80;
                } else {
                    bad[5] ^= 0x10;
                }
                let mut d = MessageDecoder::<All>::new();
                eq("rejected", decode_one(&mut d, &bad, &Cuts::Sizes(vec![cut, 100]), false)?.obs, Obs::Error)?;
                let w = wire1(0x24, &b, &t);
                let used = decode_one(&mut d, &w, &Cuts::Sizes(vec![cut, 100]), true)?.obs;
                eq("next message", used, decode_new::<All>(&w, &Cuts::Whole)?.obs)
            });
        }
    }
}

// ---------------------------------------------------------------- C09
fn c09(c: &mut Ctx) {
    fn go<S: Set>(c: &mut Ctx) {
        c.part("decoder requirement at every step");
        for i in 0..ms(c, 500) {
            let mut s = vec![];
            let mut n = 0;
            for _ in 0..200 {
                let w = gen_wire::<S>(&mut c.rng, i % 2 == 0);
                if let Some(t) = refm::dec_msg(&w, &S::codes(), S::RAW, Cover::Received).total {
                    if w.len() >= t {
                        s.extend(&w[..t]);
                        n += 1;
                    }
                }
                if n == 2 {
                    break;
                }
            }
            let cuts = Cuts::random(&mut c.rng);
            c.case(&s, || format!("{} {} {cuts:?}", S::name(), hex(&s)), || {
                for cuts in [&cuts, &Cuts::Exact] {
                    let mut d = MessageDecoder::<S>::new();
                    let mut p = 0;
                    while p < s.len() {
                        p += decode_one(&mut d, &s[p..], cuts, true)?.consumed.max(1);
                    }
                }
                // a reader that asks for exactly what is required stops at the end of each message
                let mut d = MessageDecoder::<S>::new();
                let mut rd = &s[..];
                let mut p = 0;
                while !rd.is_empty() {
                    let t = 20 + u16::from_be_bytes([s[p + 2], s[p + 3]]) as usize;
                    let _ = d.decode_exact(&mut rd).map_err(|e| format!("decode_exact: {e}"))?;
                    eq("bytes read by decode_exact", s.len() - rd.len(), p + t)?;
                    p += t;
                }
                Ok(())
            });
        }
        c.part("encoder requirement at every step");
        for _ in 0..ms(c, 150) {
            let p = gen_plan::<S>(&mut c.rng, 5);
            let bufs = Bufs::random(&mut c.rng);
            c.case(&p.key(), || format!("{} {p:?} {bufs:?}", S::name()), || {
                let (m, _) = build::<S>(&p)?;
                let mut e = MessageEncoder::<S>::new();
                eq("requirement of a new encoder", e.exact_requiring_bytes(), 0)?;
                if e.start_encoding(m.clone()).is_err() {
                    return Ok(());
                }
                let (b, reqs) = drain(&mut e, &bufs, true)?;
                for (i, r) in reqs.iter().enumerate() {
                    eq(&format!("bytes emitted plus requirement at step {i}"), *r, b.len() as u64)?;
                }
                let mut v = vec![];
                let mut e = MessageEncoder::<S>::new();
                e.start_encoding(m).map_err(|e| e.to_string())?;
                e.encode_all(&mut v).map_err(|e| format!("encode_all: {e}"))?;
                eq("encode_all", v, b)
            });
        }
    }
    enums!(go, c);
    leaves!(go, c);
    go::<RawAttribute>(c);
    c.part("every length field");
    for l in (0..=0xffffusize).step_by(if c.scale > 100 { 1 } else { 97 }) {
        c.case(&(l as u32).to_be_bytes(), || format!("length {l}"), || {
            let mut d = MessageDecoder::<All>::new();
            let h = refm::header(0, 1, l as u16, &[5; 12]);
            let n = d.decode(&h, Eos::new(false)).map_err(|e| e.to_string())?;
            eq("consumed", n, 20)?;
            eq("requirement after the header", d.requiring_bytes(), bytecodec::ByteCount::Finite(l as u64))?;
            eq("idle", d.is_idle(), l == 0)
        });
    }
}

// ---------------------------------------------------------------- one value through the message codec
fn value_bytes<S: Set>(v: &Val, t: &[u8; 12]) -> Result<Vec<u8>, String> {
    let a = S::build(v).ok_or("not in the set")?.map_err(|e| format!("constructor refuses {v:?}: {e}"))?;
    eq("value of the constructed attribute", a.view(), v.clone())?;
    eq("type", a.get_type().as_u16(), v.code())?;
    let mut m = Message::<S>::new(class_of(0), Method::new(1).unwrap(), TransactionId::new(*t));
    m.add_attribute(a);
    let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
    if b.len() < 24 {
        return Err(format!("encoded as {}", hex(&b)));
    }
    let l = u16::from_be_bytes([b[22], b[23]]) as usize;
    Ok(b[24..].iter().take(l).cloned().collect())
}
/// decoding of one value: `None` if the message is reported as broken
fn value_of<S: Set>(code: u16, v: &[u8], t: &[u8; 12]) -> Result<Option<Val>, String> {
    let mut out = vec![];
    for cuts in [Cuts::Whole, Cuts::Bytes, Cuts::Sizes(vec![25, 2, 3])] {
        out.push(match decode_new::<S>(&wire1(code, v, t), &cuts)?.obs {
            Obs::Broken { .. } => None,
            Obs::Msg { known, .. } if known.len() == 1 => Some(known[0].clone()),
            o => return Err(format!("{o:?}")),
        });
    }
    eq("decoded in one piece versus byte by byte", &out[0], &out[1])?;
    eq("decoded in one piece versus in slices", &out[0], &out[2])?;
    Ok(out[0].clone())
}
fn both_ways<S: Set>(c: &mut Ctx, v: Val) {
    let t = c.rng.txid();
    c.case(format!("{v:?}{t:?}").as_bytes(), || format!("{} {v:?} id {}", S::name(), hex(&t)), || {
        let want = refm::enc(&v, &t);
        eq("encoded value", hex(&value_bytes::<S>(&v, &t)?), hex(&want))?;
        eq("decoded value", value_of::<S>(v.code(), &want, &t)?, Some(v.clone()))
    });
}
fn from_wire<S: Set>(c: &mut Ctx, code: u16, b: Vec<u8>) {
    let t = c.rng.txid();
    c.case(&[&code.to_be_bytes()[..], &b, &t].concat(), || format!("{} type {code:#06x} value {} id {}", S::name(), hex(&b), hex(&t)), || {
        eq("decoded value", value_of::<S>(code, &b, &t)?, refm::dec(code, &b, &t))
    });
}

// ---------------------------------------------------------------- C10
fn c10(c: &mut Ctx) {
    fn go<S: Set>(c: &mut Ctx) {
        for code in S::codes() {
            if !refm::ADDR_PLAIN.contains(&code) && !refm::ADDR_XOR.contains(&code) {
                continue;
            }
            c.part("layout of address values, both ways");
            for _ in 0..ms(c, 600) {
                let v = Val::Addr(code, c.rng.addr());
                both_ways::<S>(c, v);
            }
            for ip in ["0.0.0.0", "255.255.255.255", "33.18.164.66", "::", "::1", "2112:a442::", "::ffff:1.2.3.4", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"] {
                for port in [0, 1, 0x2112, 0xffff, 0x1221, 80] {
                    both_ways::<S>(c, Val::Addr(code, std::net::SocketAddr::new(ip.parse().unwrap(), port)));
                }
            }
            c.part("received address values");
            for fam in 0..=255u8 {
                for n in [4usize, 8, 20] {
                    let mut b = c.rng.bytes(n);
                    b[0] = 0;
                    b[1] = fam;
                    from_wire::<S>(c, code, b);
                }
            }
            for n in 0..=30usize {
                for fam in [1, 2] {
                    let mut b = c.rng.bytes(n);
                    if n > 0 {
                        b[0] = 0
                    }
                    if n > 1 {
                        b[1] = fam
                    }
                    from_wire::<S>(c, code, b);
                }
            }
            for first in 0..=255u8 {
                let mut b = c.rng.bytes(if first % 2 == 0 { 8 } else { 20 });
                b[0] = first;
                b[1] = 1 + first % 2;
                from_wire::<S>(c, code, b);
            }
        }
    }
    enums!(go, c);
    leaves!(go, c);
    c.part("address attributes among others");
    for _ in 0..ms(c, 1500) {
        let mut p = gen_plan::<All>(&mut c.rng, 2);
        p.attrs.retain(|a| !matches!(a, Plan::Fp));
        for _ in 0..3 {
            let k = c.rng.below(8);
            let code = if k < 4 { refm::ADDR_PLAIN[k] } else { refm::ADDR_XOR[k - 4] };
            let at = c.rng.below(p.attrs.len() + 1);
            p.attrs.insert(at, Plan::V(Val::Addr(code, c.rng.addr())));
        }
        c.case(&p.key(), || format!("{p:?}"), || {
            let (m, vals) = build::<All>(&p)?;
            let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
            let d = some("not decoded", decode_new::<All>(&b, &Cuts::Whole)?.msg)?;
            let mut q = 20;
            for (v, got) in vals.iter().zip(d.attributes()) {
                let e = refm::enc(v, &p.txid);
                if let Val::Addr(..) = v {
                    eq("address value on the wire", hex(&b[q + 4..q + 4 + e.len()]), hex(&e))?;
                    eq("address decoded", got.view(), v.clone())?;
                }
                q += 4 + (e.len() + 3) / 4 * 4;
            }
            eq("attributes", d.attributes().count(), vals.len())
        });
    }
    c.part("socket_addr_xor");
    for _ in 0..ms(c, 20000) {
        let a = c.rng.addr();
        let t = c.rng.txid();
        c.case(format!("{a}{t:?}").as_bytes(), || format!("{a} id {}", hex(&t)), || {
            let x = socket_addr_xor(a, TransactionId::new(t));
            eq("xor", x, refm::xor_addr(a, &t))?;
            eq("xor twice", socket_addr_xor(x, TransactionId::new(t)), a)
        });
    }
}

// ---------------------------------------------------------------- C11
fn mi_of<S: Set>(m: &Message<S>, k: usize) -> Result<&MessageIntegrity, String> {
    some("no MESSAGE-INTEGRITY", m.attributes().filter_map(|a| a.as_mi()).nth(k))
}
fn unauthorized(r: Result<(), ErrorCode>, what: &str) -> Result<(), String> {
    match r {
        Ok(()) => Err(format!("{what}: accepted")),
        Err(e) => eq(what, (e.code(), e.reason_phrase()), (401, "Unauthorized")),
    }
}
fn c11(c: &mut Ctx) {
    c.part("computed over the preceding part, accepted iff equal");
    for i in 0..ms(c, 2500) {
        let mut p = gen_plan::<All>(&mut c.rng, 5);
        let (u, r, pw) = if i % 3 == 0 {
            (c.rng.text(512, 512), c.rng.text(127, 600), c.rng.text(200, 800))
        } else {
            (c.rng.text(9, 40), c.rng.text(9, 40), c.rng.text(9, 40))
        };
        let long = i % 2 == 0;
        p.attrs.push(if long { Plan::MiLong(u.clone(), r.clone(), pw.clone()) } else { Plan::MiShort(pw.clone()) });
        let at = p.attrs.len() - 1;
        for _ in 0..c.rng.below(3) {
            let q = gen_plan::<All>(&mut c.rng, 1);
            p.attrs.extend(q.attrs);
        }
        let flip = c.rng.below(160);
        c.case(&p.key(), || format!("{p:?} flip {flip}"), || {
            let (m, vals) = build::<All>(&p)?;
            if vals.len() != p.attrs.len() {
                return Ok(()); // a constructor refused: not this property's business
            }
            let key = if long { refm::long_key(&u, &r, &pw).to_vec() } else { pw.as_bytes().to_vec() };
            let mut pre = some("too long", refm::enc_msg(p.class, p.method, &p.txid, &vals[..at]))?;
            let want = refm::integrity(&mut pre, &key);
            eq("HMAC", vals[at].clone(), Val::Mi(want))?;
            let b = some("refused", encode_new(m.clone(), &Bufs::Whole)?)?;
            let d = match decode_new::<All>(&b, &Cuts::Whole)?.msg {
                Some(d) => d,
                None => return Err("its own encoding is not delivered".into()),
            };
            let k = vals[..at].iter().filter(|v| matches!(v, Val::Mi(_))).count();
            let un = Username::new(u.clone()).unwrap();
            let re = Realm::new(r.clone()).unwrap();
            for mi in [mi_of(&d, k)?, mi_of(&m, k)?] {
                eq("hmac_sha1()", mi.hmac_sha1(), want)?;
                if long {
                    mi.check_long_term_credential(&un, &re, &pw).map_err(|e| format!("right long-term credential: {e:?}"))?;
                    unauthorized(mi.check_long_term_credential(&un, &re, &format!("{pw}x")), "wrong password")?;
                    unauthorized(mi.check_long_term_credential(&Username::new(format!("y{}", &u.chars().take(50).collect::<String>())).unwrap(), &re, &pw), "wrong user")?;
                    unauthorized(mi.check_long_term_credential(&un, &Realm::new(format!("y{}", &r.chars().take(50).collect::<String>())).unwrap(), &pw), "wrong realm")?;
                    unauthorized(mi.check_short_term_credential(&pw), "short instead of long")?;
                } else {
                    mi.check_short_term_credential(&pw).map_err(|e| format!("right short-term credential: {e:?}"))?;
                    unauthorized(mi.check_short_term_credential(&format!("{pw}x")), "wrong password")?;
                    unauthorized(mi.check_long_term_credential(&un, &re, &pw), "long instead of short")?;
                }
            }
            // the attribute with one bit changed
            let off = 20 + refm::enc_msg(p.class, p.method, &p.txid, &vals[..at]).unwrap().len() - 20 + 4;
            let mut w = b.clone();
            w[off + flip / 8] ^= 1 << (flip % 8);
            if let Some(d) = decode_new::<All>(&w, &Cuts::Whole)?.msg {
                let mi = mi_of(&d, k)?;
                unauthorized(
                    if long { mi.check_long_term_credential(&un, &re, &pw) } else { mi.check_short_term_credential(&pw) },
                    "one bit of the attribute changed",
                )?;
            }
            Ok(())
        });
    }
    c.part("received messages");
    for _ in 0..ms(c, 3000) {
        // any well-formed preceding part, padding and unknown attributes included
        let mut w = loop {
            let w = gen_wire::<All>(&mut c.rng, true);
            if let refm::Outcome::Msg { .. } = refm::dec_msg(&w, &All::codes(), false, Cover::Received).outcome {
                break w;
            }
        };
        let pw = c.rng.text(30, 120);
        let own = c.rng.one_in(4);
        let cut = c.rng.below(w.len() - 20 + 1) + 20;
        let bit = c.rng.below(8);
        let n_mi = match refm::dec_msg(&w, &All::codes(), false, Cover::Received).outcome {
            refm::Outcome::Msg { attrs, .. } => attrs.iter().filter(|a| matches!(a.val, Val::Mi(_))).count(),
            _ => 0,
        };
        let mut h = refm::integrity(&mut w.clone(), pw.as_bytes());
        if own {
            h.copy_from_slice(&c.rng.bytes(20));
        }
        let right = h == refm::integrity(&mut w.clone(), pw.as_bytes());
        let pre = w.clone();
        w.extend(refm::tlv(8, &h));
        let v = gen_val(&mut c.rng, 0x8022);
        let after = c.rng.one_in(2);
        if after {
            w.extend(refm::tlv(0x8022, &refm::enc(&v, &[0; 12])));
        }
        let l = (w.len() - 20) as u16;
        w[2..4].copy_from_slice(&l.to_be_bytes());
        let cuts = Cuts::random(&mut c.rng);
        c.case(&w, || format!("{} password {pw:?} {cuts:?}", hex(&w)), || {
            let d = some("not delivered", decode_new::<All>(&w, &cuts)?.msg)?;
            let mi = mi_of(&d, n_mi)?;
            eq("hmac_sha1()", mi.hmac_sha1(), h)?;
            match mi.check_short_term_credential(&pw) {
                Ok(()) => eq("accepted", true, right)?,
                Err(e) => {
                    eq("code", e.code(), 401)?;
                    eq("accepted", false, right)?
                }
            }
            // a change in the preceding part is noticed
            if cut < pre.len() && right {
                let mut t = w.clone();
                t[cut] ^= 1 << bit;
                let r = refm::dec_msg(&t, &All::codes(), false, Cover::Received);
                if !r.canonical {
                    return Ok(());
                }
                if let (refm::Outcome::Msg { attrs, .. }, Some(d)) = (r.outcome, decode_new::<All>(&t, &cuts)?.msg) {
                    let i = attrs.iter().filter(|a| matches!(a.val, Val::Mi(_))).position(|a| a.val == Val::Mi(h));
                    if let Some(i) = i {
                        unauthorized(mi_of(&d, i)?.check_short_term_credential(&pw), &format!("byte {cut} changed"))?;
                    }
                }
            }
            Ok(())
        });
    }
    c.part("credentials are taken literally");
    {
        let base = ["user", "realm.example", "pass"];
        for field in 0..3 {
            for (n, e) in EDGES.iter().enumerate() {
                for form in 0..6 {
                    let b = base[field];
                    let t = match form {
                        0 => format!("{e}{b}"),
                        1 => format!("{b}{e}"),
                        2 => format!("{e}{b}{e}"),
                        3 => format!("{}{e}{}", &b[..2], &b[2..]),
                        4 => e.to_string(),
                        _ => format!("{e}{e}"),
                    };
                    let mut f = base.map(str::to_owned);
                    f[field] = t;
                    let received = (n + form) % 2 == 0;
                    c.case(format!("{f:?}").as_bytes(), || format!("user, realm, password {f:?}"), || {
                        let (un, re) = (ok(Username::new(f[0].clone()), "user")?, ok(Realm::new(f[1].clone()), "realm")?);
                        let plan = MsgPlan { class: 0, method: 1, txid: [7; 12], attrs: vec![] };
                        let (m, _) = build::<T5389>(&plan)?;
                        let mut pre = some("too long", refm::enc_msg(0, 1, &[7; 12], &[]))?;
                        let want = refm::integrity(&mut pre.clone(), &refm::long_key(&f[0], &f[1], &f[2]));
                        let short = refm::integrity(&mut pre, f[2].as_bytes());
                        let check = |tag: [u8; 20], long: bool| -> Result<(), String> {
                            let mi = if received {
                                let mut w = refm::enc_msg(0, 1, &[7; 12], &[]).unwrap();
                                w.extend(refm::tlv(8, &tag));
                                w[3] = 24;
                                let d = some("not delivered", decode_new::<T5389>(&w, &Cuts::Whole)?.msg)?;
                                mi_of(&d, 0)?.clone()
                            } else if long {
                                ok(MessageIntegrity::new_long_term_credential(&m, &un, &re, &f[2]), "long")?
                            } else {
                                ok(MessageIntegrity::new_short_term_credential(&m, &f[2]), "short")?
                            };
                            eq("HMAC", mi.hmac_sha1(), tag)?;
                            if long {
                                mi.check_long_term_credential(&un, &re, &f[2]).map_err(|e| format!("right long-term credential: {e:?}"))
                            } else {
                                mi.check_short_term_credential(&f[2]).map_err(|e| format!("right short-term credential: {e:?}"))
                            }
                        };
                        check(want, true)?;
                        check(short, false)
                    });
                }
            }
        }
    }
    c.part("only this set's own attributes matter");
    for _ in 0..ms(c, 300) {
        let mut p = gen_plan::<T5389>(&mut c.rng, 4);
        let pw = c.rng.text(30, 100);
        p.attrs.push(Plan::MiShort(pw.clone()));
        c.case(&p.key(), || format!("{p:?}"), || {
            let (m, vals) = build::<T5389>(&p)?;
            if vals.len() != p.attrs.len() {
                return Ok(());
            }
            let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
            let k = vals.iter().filter(|v| matches!(v, Val::Mi(_))).count() - 1;
            let d = some("not delivered", decode_new::<T5389>(&b, &Cuts::Whole)?.msg)?;
            mi_of(&d, k)?.check_short_term_credential(&pw).map_err(|e| format!("{e:?}"))?;
            // decoded as a set that only knows MESSAGE-INTEGRITY: everything else is unknown
            let d = some("not delivered", decode_new::<MessageIntegrity>(&b, &Cuts::Whole)?.msg)?;
            mi_of(&d, k)?.check_short_term_credential(&pw).map_err(|e| format!("as MessageIntegrity only: {e:?}"))
        });
    }
    c.part("message too long to carry the attribute");
    for n in [65500usize, 65504, 65508, 65528, 65532, 65536, 70000] {
        c.case(&(n as u32).to_be_bytes(), || format!("preceding attribute of {n} bytes"), || {
            let p = MsgPlan { class: 0, method: 1, txid: [1; 12], attrs: vec![Plan::V(Val::Raw(9, vec![1; n]))] };
            let (m, _) = build::<RawAttribute>(&p)?;
            let r = MessageIntegrity::new_short_term_credential(&m, "x");
            match refm::enc_msg(0, 1, &[1; 12], &[Val::Raw(9, vec![1; n])]) {
                None => eq("made for a message that cannot be encoded", r.is_ok(), false),
                Some(mut b) if b.len() - 20 + 24 <= 65535 => {
                    eq("HMAC", ok(r, "new")?.hmac_sha1(), refm::integrity(&mut b, b"x"))
                }
                Some(_) => Ok(()),
            }
        });
    }
    known_integrity(c);
}
/// KF1: coverage is computed over the re-encoding of the preceding attributes.
fn known_integrity(c: &mut Ctx) {
    c.part("known finding KF1");
    let mut seen = 0;
    for (code, v) in kf1_values() {
        let t = [7; 12];
        let mut w = wire1(code, &v, &t);
        let h = refm::integrity(&mut w.clone(), b"pw");
        w.extend(refm::tlv(8, &h));
        let l = (w.len() - 20) as u16;
        w[2..4].copy_from_slice(&l.to_be_bytes());
        c.case(&w, || hex(&w), || {
            let d = some("not delivered", decode_new::<All>(&w, &Cuts::Whole)?.msg)?;
            if mi_of(&d, 0)?.check_short_term_credential("pw").is_err() {
                seen += 1;
            }
            Ok(())
        });
    }
    if seen > 0 {
        c.known.push(format!("KF1 {seen} of {} probes: MESSAGE-INTEGRITY of a received message is checked over a re-encoding of the preceding attributes, so it fails when a preceding known attribute has non-zero reserved bits", kf1_values().len()));
    }
}
fn kf1_values() -> Vec<(u16, Vec<u8>)> {
    vec![
        (0x0001, vec![1, 1, 0, 80, 1, 2, 3, 4]),
        (0x0009, vec![0xff, 0xff, 4, 0, b'x', b'x', b'x', b'x']),
        (0x000c, vec![0x40, 0, 0, 1]),
        (0x0018, vec![0x81]),
        (0x0019, vec![17, 0, 0, 1]),
        (0x0017, vec![1, 0, 0, 1]),
        (0x0003, vec![1, 0, 0, 0]),
        (0x0027, vec![0, 80, 0, 1]),
    ]
}

// ---------------------------------------------------------------- C12
fn c12(c: &mut Ctx) {
    c.part("computed value");
    for _ in 0..ms(c, 3000) {
        let mut p = gen_plan::<All>(&mut c.rng, 5);
        p.attrs.push(Plan::Fp);
        let at = p.attrs.len() - 1;
        if c.rng.one_in(3) {
            let q = gen_plan::<All>(&mut c.rng, 2);
            p.attrs.extend(q.attrs);
        }
        let bit = c.rng.below(32);
        c.case(&p.key(), || format!("{p:?} bit {bit}"), || {
            let (m, vals) = build::<All>(&p)?;
            if vals.len() != p.attrs.len() {
                return Ok(());
            }
            let mut pre = some("too long", refm::enc_msg(p.class, p.method, &p.txid, &vals[..at]))?;
            let off = pre.len() + 4;
            eq("CRC", vals[at].clone(), Val::Fp(refm::fingerprint(&mut pre)))?;
            let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
            match decode_new::<All>(&b, &Cuts::Whole)?.obs {
                Obs::Msg { .. } => (),
                o => return Err(format!("its own encoding gives {o:?}")),
            }
            let mut w = b;
            w[off + bit / 8] ^= 1 << (bit % 8);
            match decode_new::<All>(&w, &Cuts::Whole)?.obs {
                Obs::Broken { .. } => Ok(()),
                o => Err(format!("with a bit of the fingerprint changed: {o:?}")),
            }
        });
    }
    fn recv<S: Set>(c: &mut Ctx) {
        c.part("received messages");
        for _ in 0..ms(c, 1500) {
            let mut w = loop {
                let w = gen_wire::<S>(&mut c.rng, true);
                if let refm::Outcome::Msg { .. } = refm::dec_msg(&w, &S::codes(), S::RAW, Cover::Received).outcome {
                    break w;
                }
            };
            let mut f = refm::fingerprint(&mut w.clone());
            match c.rng.below(6) {
                0 => f ^= 1 << c.rng.below(32),
                1 => f = c.rng.bits(32) as u32,
                2 => f ^= 0x5354_554e,
                3 => f = f.swap_bytes(),
                _ => (),
            }
            w.extend(refm::tlv(0x8028, &f.to_be_bytes()));
            if c.rng.one_in(2) {
                let b = c.rng.bytes(6);
                w.extend(refm::tlv(0x7abc, &b));
            }
            if c.rng.one_in(3) {
                // a second one
                let g = refm::fingerprint(&mut w.clone()) ^ if c.rng.one_in(2) { 1 << c.rng.below(32) } else { 0 };
                w.extend(refm::tlv(0x8028, &g.to_be_bytes()));
            }
            let l = (w.len() - 20) as u16;
            w[2..4].copy_from_slice(&l.to_be_bytes());
            let cuts = Cuts::random(&mut c.rng);
            c.case(&w, || format!("{} {} {cuts:?}", S::name(), hex(&w)), || {
                let want = refm::dec_msg(&w, &S::codes(), S::RAW, Cover::Received);
                match (want.outcome, decode_new::<S>(&w, &cuts)?.obs) {
                    (refm::Outcome::Broken { .. }, Obs::Broken { .. }) | (refm::Outcome::Msg { .. }, Obs::Msg { .. }) => Ok(()),
                    (x, o) => Err(format!("want {:?}, got {o:?}", obs_of(&x))),
                }
            });
        }
    }
    recv::<T5389>(c);
    recv::<All>(c);
    recv::<Fingerprint>(c);
    c.part("any change to the preceding part is noticed");
    for _ in 0..ms(c, 40) {
        let mut p = gen_plan::<All>(&mut c.rng, 3);
        p.attrs.push(Plan::Fp);
        if let Ok((m, vals)) = build::<All>(&p) {
            if vals.len() != p.attrs.len() {
                continue;
            }
            if let Ok(Some(b)) = encode_new(m, &Bufs::Whole) {
                for i in (8..20).chain(20..b.len().min(60) - 8) {
                    let mut w = b.clone();
                    w[i] ^= 1 << c.rng.below(8);
                    c.case(&w, || hex(&w), || {
                        // reserved bits aside (KF1), a message with a wrong fingerprint is never delivered
                        let r = refm::dec_msg(&w, &All::codes(), false, Cover::Received);
                        let q = refm::dec_msg(&w, &All::codes(), false, Cover::Reencoded);
                        match (r.outcome, decode_new::<All>(&w, &Cuts::Whole)?.obs) {
                            (refm::Outcome::Broken { .. }, Obs::Msg { .. }) if matches!(q.outcome, refm::Outcome::Broken { .. }) => {
                                Err("delivered with a wrong fingerprint".into())
                            }
                            _ => Ok(()),
                        }
                    });
                }
            }
        }
    }
    c.part("message too long");
    for n in [65500usize, 65516, 65520, 65524, 65528, 65532, 65536, 70000] {
        c.case(&(n as u32).to_be_bytes(), || format!("preceding attribute of {n} bytes"), || {
            let p = MsgPlan { class: 0, method: 1, txid: [1; 12], attrs: vec![Plan::V(Val::Raw(9, vec![1; n]))] };
            let (m, _) = build::<RawAttribute>(&p)?;
            let r = Fingerprint::new(&m);
            match refm::enc_msg(0, 1, &[1; 12], &[Val::Raw(9, vec![1; n])]) {
                None => eq("made for a message that cannot be encoded", r.is_ok(), false),
                Some(mut b) if b.len() - 20 + 8 <= 65535 => eq("CRC", ok(r, "new")?.crc32(), refm::fingerprint(&mut b)),
                Some(_) => Ok(()),
            }
        });
    }
    c.part("known finding KF1");
    let mut seen = 0;
    for (code, v) in kf1_values() {
        let mut w = wire1(code, &v, &[7; 12]);
        let f = refm::fingerprint(&mut w.clone());
        w.extend(refm::tlv(0x8028, &f.to_be_bytes()));
        let l = (w.len() - 20) as u16;
        w[2..4].copy_from_slice(&l.to_be_bytes());
        c.case(&w, || hex(&w), || {
            if let Obs::Broken { .. } = decode_new::<All>(&w, &Cuts::Whole)?.obs {
                seen += 1;
            }
            Ok(())
        });
    }
    if seen > 0 {
        c.known.push(format!("KF1 {seen} of {} probes: FINGERPRINT of a received message is checked over a re-encoding of the preceding attributes, so it fails when a preceding known attribute has non-zero reserved bits", kf1_values().len()));
    }
}

// ---------------------------------------------------------------- C13
const FIXED: [u16; 16] =
    [0xc, 0xd, 0x18, 0x19, 0x1a, 0x22, 0x24, 0x25, 0x8029, 0x802a, 3, 0x27, 0x17, 0x8000, 9, 0x8028];
fn c13(c: &mut Ctx) {
    fn go<S: Set>(c: &mut Ctx) {
        for code in S::codes() {
            if !FIXED.contains(&code) || code == 0x8028 {
                continue;
            }
            c.part("values both ways");
            for _ in 0..ms(c, 300) {
                let v = gen_val(&mut c.rng, code);
                both_ways::<S>(c, v);
            }
            c.part("received values, wrong sizes and reserved bits");
            for n in 0..=24usize {
                for _ in 0..4 {
                    let b = c.rng.bytes(n);
                    from_wire::<S>(c, code, b);
                }
            }
            let t = c.rng.txid();
            for _ in 0..ms(c, 300) {
                let mut b = refm::enc(&gen_val(&mut c.rng, code), &t);
                if !b.is_empty() {
                    let n = b.len();
                    for _ in 0..1 + c.rng.below(3) {
                        b[c.rng.below(n.min(8))] ^= 1 << c.rng.below(8);
                    }
                }
                from_wire::<S>(c, code, b);
            }
        }
    }
    enums!(go, c);
    leaves!(go, c);
    c.part("small domains in full");
    for class in 0..=255u8 {
        for number in (0..=255u8).step_by(if class < 8 { 1 } else { 17 }) {
            let hi = c.rng.next() as u8;
            from_wire::<T5389>(c, 9, vec![hi, hi, class, number, b'a', b'b']);
        }
    }
    for code in 300..600u16 {
        both_ways::<T5389>(c, Val::ErrorCode(code, "e".into()));
    }
    for n in 0..=0xffffu32 {
        let lo = c.rng.next() as u8;
        let mut b = (n << 16 | lo as u32).to_be_bytes().to_vec();
        from_wire::<T5766>(c, 0xc, b.clone());
        b[2] = lo;
        from_wire::<T5780>(c, 0x27, b.clone());
    }
    for n in 0x4000..=0x4fff {
        both_ways::<T5766>(c, Val::Channel(n));
    }
    for n in (0..=0xffffu16).step_by(7) {
        both_ways::<T5780>(c, Val::RespPort(n));
    }
    for b in 0..=255u8 {
        from_wire::<T5766>(c, 0x18, vec![b]);
        for code in [0x17, 0x8000, 0x19] {
            let r = c.rng.bytes(3);
            from_wire::<All>(c, code, [&[b][..], &r].concat());
        }
        both_ways::<T5766>(c, Val::Transport(b));
    }
    for bit in 0..32 {
        from_wire::<T5780>(c, 3, (1u32 << bit).to_be_bytes().to_vec());
        from_wire::<T5780>(c, 3, (!(1u32 << bit)).to_be_bytes().to_vec());
    }
    for a in [false, true] {
        for b in [false, true] {
            both_ways::<T5780>(c, Val::ChangeReq(a, b));
        }
    }
    for s in [0u64, 1, 59, 600, 0xffff_fffe, 0xffff_ffff] {
        both_ways::<T5766>(c, Val::Lifetime(s));
        let t = c.rng.txid();
        let ns = 1 + c.rng.below(999_999_999) as u32;
        c.case(&s.to_be_bytes(), || format!("Lifetime of {s} s and {ns} ns"), || {
            let l = ok(Lifetime::new(std::time::Duration::new(s, ns)), "new")?;
            eq("whole seconds", l.lifetime(), std::time::Duration::from_secs(s))?;
            eq("from_u32", Lifetime::from_u32(s as u32), l.clone())?;
            let mut m = Message::<T5766>::new(class_of(0), Method::new(1).unwrap(), TransactionId::new(t));
            m.add_attribute(l);
            let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
            eq("value", hex(&b[24..28]), hex(&(s as u32).to_be_bytes()))
        });
    }
    c.part("fingerprint value");
    for _ in 0..ms(c, 300) {
        let mut w = gen_wire::<T5389>(&mut c.rng, true);
        let f = refm::fingerprint(&mut w.clone());
        w.extend(refm::tlv(0x8028, &f.to_be_bytes()));
        let l = (w.len() - 20) as u16;
        w[2..4].copy_from_slice(&l.to_be_bytes());
        c.case(&w, || hex(&w), || {
            if let Some(m) = decode_new::<T5389>(&w, &Cuts::Whole)?.msg {
                eq("crc32()", m.attributes().last().map(|a| a.view()), Some(Val::Fp(f)))?;
                let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
                eq("value", hex(&b[b.len() - 4..]), hex(&f.to_be_bytes()))?;
            }
            Ok(())
        });
    }
    for n in 0..12usize {
        if n != 4 {
            let b = c.rng.bytes(n);
            from_wire::<T5389>(c, 0x8028, b);
        }
    }
}

// ---------------------------------------------------------------- C14
const CONTENT: [u16; 8] = [0x6, 0x14, 0x15, 0x8022, 0x9, 0x13, 0x8030, 0xa];
fn c14(c: &mut Ctx) {
    fn go<S: Set>(c: &mut Ctx) {
        for code in S::codes() {
            if !CONTENT.contains(&code) {
                continue;
            }
            c.part("content both ways");
            for _ in 0..ms(c, 800) {
                let v = gen_val(&mut c.rng, code);
                both_ways::<S>(c, v);
            }
            c.part("received content, invalid UTF-8 and odd lengths included");
            for n in 0..=40usize {
                for _ in 0..6 {
                    let mut b = c.rng.bytes(n);
                    if c.rng.one_in(2) {
                        b.iter_mut().for_each(|x| *x &= 0x7f);
                    }
                    if code == 9 {
                        b = [&[0, 0, 4, 1][..], &b].concat();
                    }
                    from_wire::<S>(c, code, b);
                }
            }
            let odd: [&[u8]; 14] = [
                b"\x80", b"\xc0\x80", b"\xc3", b"\xc3\xa9", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf0\x9f\x98\x80",
                b"\xf0\x9f\x98", b"\xff", b"a\xfe", b"\xe2\x82\xac!", b"\0", b"ok\xc3\x28",
            ];
            for o in odd {
                for pre in ["", "x", "xyz"] {
                    let mut b = [pre.as_bytes(), o].concat();
                    if code == 9 {
                        b = [&[0, 0, 4, 1][..], &b].concat();
                    }
                    from_wire::<S>(c, code, b);
                }
            }
        }
    }
    enums!(go, c);
    leaves!(go, c);
    c.part("limits of received text");
    for code in [0x6u16, 0x14, 0x15, 0x8022] {
        for ch in ['a', 'é', '漢', '😀'] {
            for n in [1usize, 42, 126, 127, 128, 129, 170, 171, 172, 255, 256, 257, 511, 512, 513, 600] {
                from_wire::<T5389>(c, code, ch.to_string().repeat(n).into_bytes());
            }
        }
    }
    c.part("long content");
    for n in [1000usize, 4096, 65519, 65520, 65523, 65524, 65527, 65528] {
        let b = c.rng.bytes(n);
        for v in [Val::Data(b.clone()), Val::Ticket(b.clone()), Val::Unknowns(b.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect()),
            Val::ErrorCode(420, "é".repeat((n - 4) / 2))]
        {
            let t = c.rng.txid();
            c.case(&[v.code() as u8, n as u8, (n >> 8) as u8], || format!("{n} bytes in {:#x}", v.code()), || {
                let want = refm::enc(&v, &t);
                eq("encoded content", value_bytes::<All>(&v, &t)? == want, true)?;
                eq("decoded content", value_of::<All>(v.code(), &want, &t)? == Some(v.clone()), true)
            });
        }
    }
    c.part("among other attributes");
    for _ in 0..ms(c, 800) {
        let p = gen_plan::<All>(&mut c.rng, 6);
        c.case(&p.key(), || format!("{p:?}"), || {
            let (m, vals) = build::<All>(&p)?;
            let b = match encode_new(m, &Bufs::Whole)? {
                None => return Ok(()),
                Some(b) => b,
            };
            let mut q = 20;
            for v in &vals {
                let e = refm::enc(v, &p.txid);
                if CONTENT.contains(&v.code()) {
                    eq("content on the wire", b.get(q + 4..q + 4 + e.len()).map(hex), Some(hex(&e)))?;
                }
                q += 4 + (e.len() + 3) / 4 * 4;
            }
            if let Some(d) = decode_new::<All>(&b, &Cuts::Whole)?.msg {
                let f = |v: Vec<Val>| v.into_iter().filter(|v| CONTENT.contains(&v.code())).collect::<Vec<_>>();
                eq("content decoded", f(d.attributes().map(|a| a.view()).collect()), f(vals))?;
            }
            Ok(())
        });
    }
    c.part("static software text");
    for s in ["", "a", "0123456789", "é漢😀"] {
        c.case(s.as_bytes(), || s.into(), || {
            let x = Software::new_static(Box::leak(s.to_owned().into_boxed_str()));
            eq("description", x.description(), s)?;
            eq("same as new", x, Software::new(s.to_owned()).unwrap())
        });
    }
}

// ---------------------------------------------------------------- C15
fn c15(c: &mut Ctx) {
    c.part("methods");
    for n in 0..=0xffffu16 {
        c.case(&n.to_be_bytes(), || format!("Method::new({n:#x})"), || {
            if n < 0x1000 {
                eq("as_u16", ok(Method::new(n), "new")?.as_u16(), n)
            } else {
                invalid(Method::new(n), "new")
            }
        });
    }
    c.part("error codes");
    for n in 0..=0xffffu16 {
        let s = if n % 3 == 0 { String::new() } else { "reason".to_string() };
        c.case(&n.to_be_bytes(), || format!("ErrorCode::new({n})"), || {
            if (300..600).contains(&n) {
                let e = ok(ErrorCode::new(n, s.clone()), "new")?;
                eq("value", (e.code(), e.reason_phrase().to_owned()), (n, s.clone()))
            } else {
                invalid(ErrorCode::new(n, s.clone()), "new")
            }
        });
    }
    c.part("channel numbers");
    for n in 0..=0xffffu16 {
        c.case(&n.to_be_bytes(), || format!("ChannelNumber::new({n:#x})"), || {
            if (0x4000..=0x4fff).contains(&n) {
                let x = ok(ChannelNumber::new(n), "new")?;
                eq("value", x.value(), n)?;
                eq("next", x.wrapping_increment().value(), if n == 0x4fff { 0x4000 } else { n + 1 })
            } else {
                invalid(ChannelNumber::new(n), "new")
            }
        });
    }
    c.case(b"minmax", || "ChannelNumber::min/max".into(), || {
        eq("min, max", (ChannelNumber::min().value(), ChannelNumber::max().value()), (0x4000, 0x4fff))?;
        eq("MIN, MAX", (ChannelNumber::MIN, ChannelNumber::MAX), (0x4000, 0x4fff))
    });
    c.part("text lengths");
    for ch in ['a', '\0', 'é', '漢', '😀'] {
        for n in (0..140usize).chain([170, 171, 200, 255, 256, 257, 384, 500, 511, 512, 513, 514, 600, 1000, 70_000]) {
            let s: String = std::iter::repeat(ch).take(n).collect();
            let k = c.rng.below(5);
            c.case(&[ch as u8, n as u8, (n >> 8) as u8], || format!("{n} times {ch:?}"), || {
                let s = if k == 0 && n > 0 { format!("{}é", &s[ch.len_utf8()..]) } else { s };
                let n = s.chars().count();
                macro_rules! t {
                    ($t:ident, $get:ident, $lim:expr) => {
                        if $lim {
                            eq(stringify!($t), ok($t::new(s.clone()), stringify!($t))?.$get(), &s[..])?
                        } else {
                            invalid($t::new(s.clone()), stringify!($t))?
                        }
                    };
                }
                t!(Username, name, s.len() < 513);
                t!(Realm, text, n < 128);
                t!(Nonce, value, n < 128);
                t!(Software, description, n < 128);
                Ok(())
            });
        }
    }
    c.part("static software text");
    for n in [0usize, 1, 126, 127, 128, 129, 200] {
        c.case(&[n as u8], || format!("{n} bytes"), || {
            let s: &'static str = Box::leak("a".repeat(n).into_boxed_str());
            let r = std::panic::catch_unwind(|| Software::new_static(s));
            eq("accepted", r.is_ok(), n < 128)
        });
    }
    c.part("data sizes");
    for n in [0usize, 1, 1000, 65534, 65535, 65536, 65537, 70_000, 131_071, 131_072] {
        c.case(&(n as u32).to_be_bytes(), || format!("Data::new of {n} bytes"), || {
            let d = vec![3u8; n];
            if n <= 65535 {
                eq("data", ok(Data::new(d.clone()), "new")?.data() == &d[..], true)
            } else {
                invalid(Data::new(d), "new")
            }
        });
    }
    c.part("lifetimes");
    for s in [0u64, 1, 600, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_0000_0258, u64::MAX, 1 << 33, 1 << 63] {
        for ns in [0u32, 1, 999_999_999] {
            c.case(format!("{s}.{ns}").as_bytes(), || format!("Lifetime::new({s} s {ns} ns)"), || {
                let d = std::time::Duration::new(s, ns);
                if s <= 0xffff_ffff {
                    eq("lifetime", ok(Lifetime::new(d), "new")?.lifetime().as_secs(), s)
                } else {
                    invalid(Lifetime::new(d), "new")
                }
            });
        }
    }
    for _ in 0..ms(c, 2000) {
        let s = c.rng.u64b();
        c.case(&s.to_be_bytes(), || format!("Lifetime::new({s} s)"), || {
            let r = Lifetime::new(std::time::Duration::from_secs(s));
            if s <= 0xffff_ffff {
                eq("lifetime", ok(r, "new")?.lifetime().as_secs(), s)
            } else {
                invalid(r, "new")
            }
        });
    }
    c.part("decoded values satisfy the limits");
    fn within(v: &Val) -> bool {
        match v {
            Val::Text(6, s) => s.len() < 513,
            Val::Text(_, s) => s.chars().count() < 128,
            Val::ErrorCode(c, _) => (300..600).contains(c),
            Val::Channel(c) => (0x4000..=0x4fff).contains(c),
            Val::Lifetime(s) => *s <= 0xffff_ffff,
            Val::Data(d) => d.len() <= 65535,
            _ => true,
        }
    }
    fn dec1<S: Set>(c: &mut Ctx, code: u16, b: Vec<u8>) {
        c.case(&[&code.to_be_bytes()[..], &b].concat(), || format!("{} type {code:#x} value {}", S::name(), hex(&b)), || {
            match value_of::<S>(code, &b, &[3; 12])? {
                None => Ok(()),
                Some(v) if within(&v) => Ok(()),
                Some(v) => Err(format!("decoded {v:?}")),
            }
        });
    }
    for n in 0..=0xffffu32 {
        dec1::<T5766>(c, 0xc, (n << 16).to_be_bytes().to_vec());
    }
    for class in 0..=255u8 {
        for number in 0..=255u8 {
            if class < 8 || number % 16 == 3 {
                dec1::<T5389>(c, 9, vec![0, 0, class, number]);
            }
        }
    }
    for code in [0x6u16, 0x14, 0x15, 0x8022] {
        for ch in ['a', 'é', '漢', '😀'] {
            for n in [1usize, 127, 128, 129, 170, 171, 255, 256, 257, 511, 512, 513, 600] {
                let s = ch.to_string().repeat(n).into_bytes();
                dec1::<T5389>(c, code, s.clone());
                dec1::<All>(c, code, s);
            }
        }
    }
    for _ in 0..ms(c, 500) {
        let b = c.rng.bytes(4);
        dec1::<T5766>(c, 0xd, b);
    }
    fn wild<S: Set>(c: &mut Ctx) {
        for _ in 0..ms(c, 500) {
            let w = gen_wire::<S>(&mut c.rng, false);
            c.case(&w, || format!("{} {}", S::name(), hex(&w)), || {
                if let Obs::Msg { known, method, .. } = decode_new::<S>(&w, &Cuts::Whole)?.obs {
                    eq("method below 0x1000", method < 0x1000, true)?;
                    for v in known {
                        if !within(&v) {
                            return Err(format!("decoded {v:?}"));
                        }
                    }
                }
                Ok(())
            });
        }
    }
    enums!(wild, c);
}

// ---------------------------------------------------------------- C16
fn c16(c: &mut Ctx) {
    fn types<S: Set>(c: &mut Ctx) {
        c.part("every type code");
        let codes = S::codes();
        for code in 0..=0xffffu16 {
            if !(codes.contains(&code) || refm::ALL_CODES.contains(&code) || code % 5 == (c.rng.0 % 5) as u16 || c.scale > 100) {
                continue;
            }
            let t = c.rng.txid();
            let known = codes.contains(&code);
            let v = if known && code != 0x8028 && code != 8 {
                refm::enc(&gen_val(&mut c.rng, code), &t)
            } else if code == 8 {
                c.rng.bytes(20)
            } else if code == 0x8028 && known {
                refm::fingerprint(&mut refm::header(0, 1, 0, &t)).to_be_bytes().to_vec()
            } else {
                let n = c.rng.below(12);
                c.rng.bytes(n)
            };
            let w = wire1(code, &v, &t);
            c.case(&w, || format!("{} {}", S::name(), hex(&w)), || {
                let m = some("not delivered", decode_new::<S>(&w, &Cuts::Whole)?.msg)?;
                let k: Vec<_> = m.attributes().collect();
                let u: Vec<_> = m.unknown_attributes().collect();
                if S::RAW {
                    eq("known", (k.len(), u.len()), (1, 0))?;
                    eq("value", k[0].view(), Val::Raw(code, v.clone()))?;
                } else if known {
                    eq("counts", (k.len(), u.len()), (1, 0))?;
                    eq("type", (k[0].get_type().as_u16(), k[0].view().code()), (code, code))?;
                    eq("value", Some(k[0].view()), refm::dec(code, &v, &t))?;
                } else {
                    eq("counts", (k.len(), u.len()), (0, 1))?;
                    eq("type", u[0].get_type().as_u16(), code)?;
                    eq("value", hex(u[0].value()), hex(&v))?;
                }
                Ok(())
            });
        }
    }
    fn lists<S: Set>(c: &mut Ctx) {
        c.part("order, partition and first occurrence");
        for _ in 0..ms(c, 1200) {
            let w = gen_wire::<S>(&mut c.rng, true);
            let cuts = if c.rng.one_in(2) { Cuts::Whole } else { Cuts::random(&mut c.rng) };
            c.case(&w, || format!("{} {} {cuts:?}", S::name(), hex(&w)), || {
                let r = refm::dec_msg(&w, &S::codes(), S::RAW, Cover::Reencoded).outcome;
                let m = match decode_new::<S>(&w, &cuts)?.msg {
                    Some(m) => m,
                    None => return Ok(()),
                };
                let attrs = match &r {
                    refm::Outcome::Msg { attrs, .. } => attrs,
                    _ => return Ok(()),
                };
                eq("lists", view_msg(&m, 0), match obs_of(&r) {
                    Obs::Msg { class, method, txid, known, unknown, .. } => Obs::Msg { class, method, txid, known, unknown, consumed: 0 },
                    o => o,
                })?;
                for a in m.attributes() {
                    eq("get_type() and value", a.get_type().as_u16(), a.view().code())?;
                }
                for (code, got) in S::firsts(&m) {
                    let want = attrs.iter().find(|a| a.known && a.code == code).map(|a| a.val.clone());
                    eq(&format!("get_attribute of type {code:#x}"), got, want)?;
                }
                Ok(())
            });
        }
        c.part("locally built messages");
        for _ in 0..ms(c, 400) {
            let p = gen_plan::<S>(&mut c.rng, 8);
            c.case(&p.key(), || format!("{} {p:?}", S::name()), || {
                let (m, vals) = build::<S>(&p)?;
                eq("attributes", m.attributes().map(|a| a.view()).collect::<Vec<_>>(), vals.clone())?;
                eq("unknown attributes", m.unknown_attributes().count(), 0)?;
                for (code, got) in S::firsts(&m) {
                    eq("get_attribute", got, vals.iter().find(|v| v.code() == code).cloned())?;
                }
                for (a, v) in m.attributes().zip(&vals) {
                    eq("type", a.get_type().as_u16(), v.code())?;
                }
                Ok(())
            });
        }
    }
    enums!(types, c);
    types::<RawAttribute>(c);
    enums!(lists, c);
    leaves!(lists, c);
    lists::<RawAttribute>(c);
    c.part("comprehension");
    for n in 0..=0xffffu16 {
        c.case(&n.to_be_bytes(), || format!("type {n:#x}"), || {
            let t = AttributeType::new(n);
            eq("required, optional", (t.is_comprehension_required(), t.is_comprehension_optional()), (n < 0x8000, n >= 0x8000))?;
            eq("as_u16", (t.as_u16(), AttributeType::from(n).as_u16()), (n, n))
        });
    }
    c.part("conversions");
    c.case(b"try_as_ref", || "TryAsRef of every variant".into(), || {
        let a: All = Priority::new(5).into();
        eq("same", TryAsRef::<Priority>::try_as_ref(&a), Some(&Priority::new(5)))?;
        eq("other", TryAsRef::<Lifetime>::try_as_ref(&a).is_none(), true)?;
        let r = RawAttribute::new(AttributeType::new(7), vec![1, 2]);
        eq("raw", (r.get_type().as_u16(), r.value().to_vec(), r.into_value()), (7, vec![1, 2], vec![1, 2]))
    });
}

// ---------------------------------------------------------------- C17
fn c17(c: &mut Ctx) {
    c.part("predefined errors");
    macro_rules! e {
        ($($m:ident :: $t:ident = $code:expr, $text:expr;)*) => { $(
            c.case(stringify!($m $t).as_bytes(), || stringify!($m::$t).into(), || {
                let x = ErrorCode::from(stun_codec::$m::errors::$t);
                eq("CODEPOINT", stun_codec::$m::errors::$t::CODEPOINT, $code)?;
                eq("code", x.code(), $code)?;
                eq("reason phrase", x.reason_phrase().to_lowercase(), $text.to_lowercase())?;
                // and it survives the wire
                both(&x)
            });
        )* };
    }
    fn both(x: &ErrorCode) -> Result<(), String> {
        let mut m = Message::<T5389>::new(class_of(3), Method::new(1).unwrap(), TransactionId::new([1; 12]));
        m.add_attribute(x.clone());
        let b = some("refused", encode_new(m, &Bufs::Whole)?)?;
        let d = some("not decoded", decode_new::<T5389>(&b, &Cuts::Whole)?.msg)?;
        let y = some("no ERROR-CODE", d.get_attribute::<ErrorCode>())?;
        eq("after a round trip", (y.code(), y.reason_phrase()), (x.code(), x.reason_phrase()))
    }
    e! {
        rfc5389::TryAlternate = 300, "Try Alternate";
        rfc5389::BadRequest = 400, "Bad Request";
        rfc5389::Unauthorized = 401, "Unauthorized";
        rfc5389::UnknownAttribute = 420, "Unknown Attribute";
        rfc5389::StaleNonce = 438, "Stale Nonce";
        rfc5389::ServerError = 500, "Server Error";
        rfc5766::Forbidden = 403, "Forbidden";
        rfc5766::AllocationMismatch = 437, "Allocation Mismatch";
        rfc5766::WrongCredentials = 441, "Wrong Credentials";
        rfc5766::UnsupportedTransportProtocol = 442, "Unsupported Transport Protocol";
        rfc5766::AllocationQuotaReached = 486, "Allocation Quota Reached";
        rfc5766::InsufficientCapacity = 508, "Insufficient Capacity";
        rfc5245::RoleConflict = 487, "Role Conflict";
        rfc8016::MobilityForbidden = 405, "Mobility Forbidden";
        rfc8656::AddressFamilyNotSupported = 440, "Address Family not Supported";
        rfc8656::PeerAddressFamilyMismatch = 443, "Peer Address Family Mismatch";
    }
    c.part("codec errors");
    for k in [ErrorKind::InvalidInput, ErrorKind::EncoderFull, ErrorKind::UnexpectedEos, ErrorKind::InconsistentState,
        ErrorKind::IncompleteDecoding, ErrorKind::DecoderTerminated, ErrorKind::Other]
    {
        c.case(format!("{k:?}").as_bytes(), || format!("{k:?}"), || {
            let x = ErrorCode::from(bytecodec::Error::from(k));
            let want = if k == ErrorKind::InvalidInput { (400, "Bad Request") } else { (500, "Server Error") };
            eq("code, reason", (x.code(), x.reason_phrase()), want)
        });
    }
    c.part("errors met while decoding");
    for _ in 0..ms(c, 3000) {
        let w = gen_wire::<All>(&mut c.rng, false);
        c.case(&w, || hex(&w), || {
            let e = match MessageDecoder::<All>::new().decode_from_bytes(&w) {
                Ok(Ok(_)) => return Ok(()),
                Ok(Err(b)) => {
                    let k = *b.error().kind();
                    let _ = format!("{b:?}");
                    let e = bytecodec::Error::from(b.clone());
                    eq("BrokenMessage as an error", *e.kind(), ErrorKind::InvalidInput)?;
                    let _ = k;
                    e
                }
                Err(e) => e,
            };
            let bad = *e.kind() == ErrorKind::InvalidInput;
            let x = ErrorCode::from(e);
            eq("code", x.code(), if bad { 400 } else { 500 })?;
            both(&x)
        });
    }
}
