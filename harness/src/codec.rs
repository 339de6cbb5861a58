//! C20: what the bundled codecs do with values, short buffers, trailing data,
//! truncated and arbitrary bytes; and the Feeds foca packs with them.
use crate::id::*;
use crate::inst::*;
use crate::util::*;
use crate::Args;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use foca::{BincodeCodec, Codec, Header, Member, Message, PostcardCodec, State};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Val: Serialize + for<'a> Deserialize<'a> + Debug + Clone + PartialEq {}
impl<T: Serialize + for<'a> Deserialize<'a> + Debug + Clone + PartialEq> Val for T {}

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Std,
    StdLimit,
    Legacy,
    Big,
    BigFix,
    Tiny,
    Post,
    PostRef,
    StdRef,
}
const KS: [K; 9] = [
    K::Std,
    K::StdLimit,
    K::Legacy,
    K::Big,
    K::BigFix,
    K::Tiny,
    K::Post,
    K::PostRef,
    K::StdRef,
];
impl K {
    /// nothing bounds what a length prefix may claim
    fn unlimited(self) -> bool {
        matches!(self, K::Std | K::Legacy | K::Big | K::BigFix | K::StdRef)
    }
}

macro_rules! with {
    ($k:expr, $c:ident, $e:expr) => {
        match $k {
            K::Std => {
                let mut $c = BincodeCodec(bincode::config::standard());
                $e
            }
            K::StdRef => {
                let mut x = BincodeCodec(bincode::config::standard());
                let mut $c = &mut x;
                $e
            }
            K::StdLimit => {
                let mut $c = BincodeCodec(bincode::config::standard().with_limit::<65536>());
                $e
            }
            K::Legacy => {
                let mut $c = BincodeCodec(bincode::config::legacy());
                $e
            }
            K::Big => {
                let mut $c = BincodeCodec(bincode::config::standard().with_big_endian());
                $e
            }
            K::BigFix => {
                let mut $c = BincodeCodec(
                    bincode::config::standard()
                        .with_big_endian()
                        .with_fixed_int_encoding(),
                );
                $e
            }
            K::Tiny => {
                let mut $c = BincodeCodec(bincode::config::legacy().with_limit::<4096>());
                $e
            }
            K::Post => {
                let mut $c = PostcardCodec;
                $e
            }
            K::PostRef => {
                let mut x = PostcardCodec;
                let mut $c = &mut x;
                $e
            }
        }
    };
}

#[derive(Clone, Debug, PartialEq)]
enum V<T> {
    H(Header<T>),
    M(Member<T>),
}

fn enc<T: Val>(k: K, v: &V<T>, b: impl BufMut) -> Result<(), String> {
    with!(
        k,
        c,
        match v {
            V::H(h) => Codec::<T>::encode_header(&mut c, h, b).map_err(|e| e.to_string()),
            V::M(m) => Codec::<T>::encode_member(&mut c, m, b).map_err(|e| e.to_string()),
        }
    )
}
fn dec<T: Val>(k: K, hdr: bool, b: impl Buf) -> Result<V<T>, String> {
    with!(
        k,
        c,
        if hdr {
            Codec::<T>::decode_header(&mut c, b)
                .map(V::H)
                .map_err(|e| e.to_string())
        } else {
            Codec::<T>::decode_member(&mut c, b)
                .map(V::M)
                .map_err(|e| e.to_string())
        }
    )
}

fn show<T: Debug>(t: &T) -> String {
    let mut o = String::new();
    for c in format!("{t:?}").chars() {
        if c.is_ascii() {
            o.push(c)
        } else {
            o.extend(c.escape_unicode())
        }
    }
    quote(&o)
}

/// the value as the specification sees it
fn js<T: Val>(v: &V<T>) -> String {
    match v {
        V::H(h) => {
            let (k, pn, tgt) = match &h.message {
                Message::Ping(n) => ("ping", *n as i32, None),
                Message::Ack(n) => ("ack", *n as i32, None),
                Message::PingReq {
                    target,
                    probe_number,
                } => ("pingreq", *probe_number as i32, Some(target)),
                Message::IndirectPing {
                    origin,
                    probe_number,
                } => ("indping", *probe_number as i32, Some(origin)),
                Message::IndirectAck {
                    target,
                    probe_number,
                } => ("indack", *probe_number as i32, Some(target)),
                Message::ForwardedAck {
                    origin,
                    probe_number,
                } => ("fwdack", *probe_number as i32, Some(origin)),
                Message::Announce => ("announce", -1, None),
                Message::Feed => ("feed", -1, None),
                Message::Gossip => ("gossip", -1, None),
                Message::Broadcast => ("broadcast", -1, None),
                Message::TurnUndead => ("turnundead", -1, None),
            };
            J::obj()
                .raw("src", &show(&h.src))
                .n("inc", h.src_incarnation)
                .raw("dst", &show(&h.dst))
                .s("msg", k)
                .n("pn", pn)
                .raw("tgt", &tgt.map(|t| show(t)).unwrap_or("\"-\"".into()))
                .end()
        }
        V::M(m) => J::obj()
            .raw("id", &show(m.id()))
            .n("inc", m.incarnation())
            .n("st", st_n(m.state()))
            .end(),
    }
}

/// 0: Ok, 1: Err, 2: panic
fn outcome<R>(f: impl FnOnce() -> Result<R, String>) -> (u8, Option<R>, String) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(r)) => (0, Some(r), String::new()),
        Ok(Err(e)) => (1, None, e),
        Err(p) => (2, None, crate::inst::panic_text(&*p)),
    }
}

/// (outcome, value, bytes consumed)
fn decode<T: Val>(
    k: K,
    hdr: bool,
    mode: u8,
    b: &[u8],
    hidden: &[u8],
) -> (u8, Option<V<T>>, usize, String) {
    match mode {
        0 => {
            let mut s = b;
            let (o, v, m) = outcome(|| dec::<T>(k, hdr, &mut s));
            (o, v, b.len() - s.len(), m)
        }
        1 => {
            let mut s = Bytes::copy_from_slice(b);
            let (o, v, m) = outcome(|| dec::<T>(k, hdr, &mut s));
            (o, v, b.len() - s.len(), m)
        }
        _ => {
            // more bytes behind the end of the input
            let mut all = b.to_vec();
            all.extend_from_slice(hidden);
            let mut s = (&all[..]).take(b.len());
            let (o, v, m) = outcome(|| dec::<T>(k, hdr, &mut s));
            (o, v, b.len() - s.remaining(), m)
        }
    }
}

fn dj<T: Val>(d: &(u8, Option<V<T>>, usize, String)) -> String {
    format!(
        "{{\"res\":{},\"val\":{},\"used\":{}}}",
        d.0,
        d.1.as_ref().map(js).unwrap_or("[]".into()),
        d.2
    )
}

fn value<T: Val>(k: K, ty: &str, v: &V<T>, r: &mut Rg) -> Vec<String> {
    let hdr = matches!(v, V::H(_));
    let mut e: Vec<u8> = vec![];
    let (res, _, msg) = outcome(|| enc(k, v, &mut e));
    let mut j = J::obj();
    j.s("op", "val")
        .s("codec", &format!("{k:?}"))
        .s("ty", ty)
        .b("hdr", hdr)
        .raw("val", &js(v))
        .n("res", res)
        .n("len", e.len())
        .s("msg", &msg);
    let l = e.len();
    let mut room = vec![];
    if res == 0 {
        for n in 0..=l + 2 {
            for mode in 0..3u8 {
                if mode > 0 && l > 100 && n % 9 != 0 && n + 3 < l {
                    continue;
                }
                let (o, w, same) = match mode {
                    0 => {
                        let mut mem = vec![0xC3u8; n];
                        let (o, left) = {
                            let mut s: &mut [u8] = &mut mem;
                            let o = outcome(|| enc(k, v, &mut s)).0;
                            (o, s.len())
                        };
                        let w = n - left;
                        (
                            o,
                            w,
                            mem[..w] == e[..w.min(l)] && mem[w..].iter().all(|x| *x == 0xC3),
                        )
                    }
                    1 => {
                        let mut mem = vec![1u8, 2, 3];
                        let o = {
                            let mut b = (&mut mem).limit(n);
                            outcome(|| enc(k, v, &mut b)).0
                        };
                        let w = mem.len() - 3;
                        (o, w, mem[..3] == [1, 2, 3] && mem[3..] == e[..w.min(l)])
                    }
                    _ => {
                        let mut mem = BytesMut::new();
                        let o = {
                            let b = (&mut mem).limit(n);
                            outcome(|| enc(k, v, b)).0
                        };
                        let w = mem.len();
                        (o, w, mem[..] == e[..w.min(l)])
                    }
                };
                room.push(format!("[{mode},{n},{o},{w},{}]", same as u8));
            }
        }
    }
    j.raw("room", &arr(room));
    // what follows the item
    let mut decs = vec![];
    if res == 0 {
        let mut junk = vec![0u8; r.range(1, 40)];
        for x in junk.iter_mut() {
            *x = r.next() as u8;
        }
        for t in [vec![], vec![0u8], vec![0xFF; 9], e.clone(), junk] {
            let mut b = e.clone();
            b.extend_from_slice(&t);
            for mode in 0..3 {
                decs.push(dj(&decode::<T>(k, hdr, mode, &b, &[0, 0xFF, 1])));
            }
        }
        // two items in a row, one cursor
        let mut b = e.clone();
        b.extend_from_slice(&e);
        let mut s = &b[..];
        let one = outcome(|| dec::<T>(k, hdr, &mut s));
        let mid = b.len() - s.len();
        let two = outcome(|| dec::<T>(k, hdr, &mut s));
        decs.push(dj(&(one.0, one.1, mid, String::new())));
        decs.push(dj(&(two.0, two.1, b.len() - s.len() - mid, String::new())));
    }
    j.raw("dec", &arr(decs));
    let mut trunc = vec![];
    if res == 0 {
        for n in 0..l {
            let a = decode::<T>(k, hdr, 0, &e[..n], &[]);
            let b = decode::<T>(k, hdr, 2, &e[..n], &e[n..]);
            trunc.push(format!("[{n},{},{},{},{}]", a.0, a.2, b.0, b.2));
        }
    }
    j.raw("trunc", &arr(trunc));
    vec![j.end()]
}

fn junk<T: Val>(k: K, ty: &str, hdr: bool, b: &[u8], prefixed: bool) -> String {
    let mut j = J::obj();
    let d = decode::<T>(k, hdr, 0, b, &[]);
    let c = decode::<T>(k, hdr, 1, b, &[]);
    let x = decode::<T>(k, hdr, 2, b, &[0, 1, 2, 3, 4, 5, 6, 7]);
    j.s("op", "junk")
        .s("codec", &format!("{k:?}"))
        .s("ty", ty)
        .b("hdr", hdr)
        .n("len", b.len());
    j.raw("all", &arr([&d, &c, &x].into_iter().map(dj)));
    // only what was consumed matters
    let mut again = vec![];
    if d.0 == 0 {
        let n = d.2.min(b.len());
        again.push(dj(&decode::<T>(k, hdr, 0, &b[..n], &[])));
        let mut o = b[..n].to_vec();
        o.extend_from_slice(&[0x5A; 7]);
        again.push(dj(&decode::<T>(k, hdr, 0, &o, &[])));
    }
    j.raw("again", &arr(again));
    let mut re = vec![];
    if let Some(v) = &d.1 {
        let mut e = vec![];
        let o = outcome(|| enc(k, v, &mut e)).0;
        re.push(format!(
            "{{\"enc\":{o},\"len\":{},\"dec\":{}}}",
            e.len(),
            dj(&decode::<T>(k, hdr, 0, &e, &[]))
        ));
    }
    j.raw("re", &arr(re));
    let m = [&d, &c, &x]
        .iter()
        .find(|x| x.0 == 2)
        .map(|x| x.3.clone())
        .unwrap_or_default();
    j.b("unlimited", k.unlimited())
        .b("prefixed", prefixed)
        .s("msg", &m);
    j.end()
}

const INCS: [u16; 14] = [
    0, 1, 127, 128, 250, 251, 252, 255, 256, 16383, 16384, 32768, 65534, 65535,
];
const PNS: [u8; 9] = [0, 1, 127, 128, 249, 250, 251, 254, 255];

fn any_value<T: Val>(r: &mut Rg, id: &dyn Fn(&mut Rg) -> T) -> V<T> {
    let inc = if r.chance(70) {
        *r.pick(&INCS)
    } else {
        r.next() as u16
    };
    if r.chance(35) {
        return V::M(Member::new(
            id(r),
            inc,
            *r.pick(&[State::Alive, State::Suspect, State::Down]),
        ));
    }
    let pn = if r.chance(70) {
        *r.pick(&PNS)
    } else {
        r.next() as u8
    };
    let message = match r.below(11) {
        0 => Message::Ping(pn),
        1 => Message::Ack(pn),
        2 => Message::PingReq {
            target: id(r),
            probe_number: pn,
        },
        3 => Message::IndirectPing {
            origin: id(r),
            probe_number: pn,
        },
        4 => Message::IndirectAck {
            target: id(r),
            probe_number: pn,
        },
        5 => Message::ForwardedAck {
            origin: id(r),
            probe_number: pn,
        },
        6 => Message::Announce,
        7 => Message::Feed,
        8 => Message::Gossip,
        9 => Message::Broadcast,
        _ => Message::TurnUndead,
    };
    V::H(Header {
        src: id(r),
        src_incarnation: inc,
        dst: id(r),
        message,
    })
}

/// Values of one identity type, and bytes that are almost (or not at all) one
fn experiments<T: Val>(
    r: &mut Rg,
    k: K,
    ty: &str,
    prefixed: bool,
    id: &dyn Fn(&mut Rg) -> T,
) -> Vec<String> {
    let mut out = vec![];
    let mut encs: Vec<(bool, Vec<u8>)> = vec![];
    for _ in 0..3 {
        let v = any_value(r, id);
        let mut e = vec![];
        if outcome(|| enc(k, &v, &mut e)).0 == 0 {
            encs.push((matches!(v, V::H(_)), e));
        }
        out.extend(value(k, ty, &v, r));
    }
    // no unbounded claims, except for those that certainly exceed what any
    // allocation may take
    let wild = !(k.unlimited() && prefixed);
    for _ in 0..12 {
        let Some((hdr, e)) = (if encs.is_empty() {
            None
        } else {
            Some(r.pick(&encs).clone())
        }) else {
            break;
        };
        let b = match r.below(6) {
            0 if wild => {
                let mut b = vec![0u8; r.below(60)];
                for x in b.iter_mut() {
                    *x = if r.chance(50) {
                        *r.pick(&[0, 1, 2, 10, 11, 127, 128, 250, 251, 252, 253, 254, 255])
                    } else {
                        r.next() as u8
                    };
                }
                b
            }
            1 if wild => vec![*r.pick(&[0u8, 1, 0x80, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]); r.below(80)],
            2 | 3 if wild => {
                let mut b = e.clone();
                for _ in 0..r.range(1, 3) {
                    if !b.is_empty() {
                        let i = r.below(b.len());
                        b[i] = if r.chance(50) {
                            *r.pick(&[0, 1, 3, 11, 128, 250, 251, 252, 253, 254, 255])
                        } else {
                            r.next() as u8
                        };
                    }
                }
                b
            }
            4 if wild => {
                let mut b = e.clone();
                let i = r.below(b.len() + 1);
                if r.chance(50) || i == b.len() {
                    b.insert(i, r.next() as u8);
                } else {
                    b.remove(i);
                }
                b
            }
            _ => e[..r.below(e.len() + 1)].to_vec(),
        };
        // the other kind of item as well
        let h = if wild && r.chance(20) { !hdr } else { hdr };
        out.push(junk::<T>(k, ty, h, &b, prefixed));
    }
    out
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum E {
    A,
    B(u32),
    C { x: String, y: Vec<u16> },
    D(Box<E>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct S {
    host: String,
    port: u16,
    extra: Option<Vec<u8>>,
    flag: bool,
    c: char,
}

fn text(r: &mut Rg) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => *r.pick(&[1usize, 126, 127, 128, 250, 251, 252, 256]),
        _ => r.below(12),
    };
    (0..n)
        .map(|_| *r.pick(&['a', '.', '0', '-', 'é', '字', '🦀']))
        .collect()
}
fn int(r: &mut Rg) -> u64 {
    match r.below(5) {
        0 => *r.pick(&[
            0u64, 1, 127, 128, 250, 251, 255, 256, 16383, 16384, 65535, 65536,
        ]),
        1 => *r.pick(&[
            u32::MAX as u64,
            u32::MAX as u64 + 1,
            u64::MAX,
            u64::MAX - 1,
            1 << 63,
            1 << 35,
        ]),
        2 => r.next(),
        3 => r.next() >> (r.below(64)),
        _ => r.below(300) as u64,
    }
}
fn enumv(r: &mut Rg, d: u8) -> E {
    match r.below(if d > 3 { 3 } else { 4 }) {
        0 => E::A,
        1 => E::B(int(r) as u32),
        2 => E::C {
            x: text(r),
            y: (0..r.below(5)).map(|_| int(r) as u16).collect(),
        },
        _ => E::D(Box::new(enumv(r, d + 1))),
    }
}

/// A Feed from an instance that knows `n` members, at every packet size from
/// too small for the header to more than enough.
fn feeds(r: &mut Rg, thorough: bool) -> Vec<String> {
    let codec = *r.pick(&[1u8, 2, 3]);
    let var = r.below(3) as u8;
    set_var(var);
    let me = Id::new(var, 0, 1);
    let peer = Id::new(var, 1, 0);
    let n = r.range(1, if thorough { 24 } else { 10 }) as u32;
    let ms: Vec<Member<Id>> = (1..=n)
        .map(|a| {
            Member::new(
                Id::new(
                    var,
                    if a > 1 && r.chance(30) { a * 5000 } else { a },
                    (a == 1) as u16 * 0 + if a == 1 { 0 } else { *r.pick(&INCS) },
                ),
                *r.pick(&INCS),
                *r.pick(&[State::Alive, State::Suspect, State::Down]),
            )
        })
        .collect();
    let h = Header {
        src: me,
        src_incarnation: 0,
        dst: peer,
        message: Message::Feed,
    };
    let hl = ind_header(codec, &h).len();
    let full = hl + 2 + ms.iter().map(|m| ind_member(codec, m).len()).sum::<usize>();
    let a = Header {
        src: peer,
        src_incarnation: 0,
        dst: me,
        message: Message::Announce,
    };
    let d = craft(codec, &a, None, &[]);
    let mut out = vec![];
    let seed = r.next() & !(15 << 60);
    let lo = d.len().min(hl) - 1;
    for mps in lo.max(1)..=full + 3 {
        let cfg = Cfg {
            mps,
            mtx: 3,
            ..Cfg::default()
        };
        let mut x = Inst::new(me, cfg, codec, seed, 0, 0, 1, LogOpt::default());
        x.nolog = true;
        x.run(Op::Apply(ms.clone(), false));
        x.last.clear();
        x.run(Op::Data(d.clone()));
        let mut sends = vec![];
        for e in &x.last {
            if let Eff::Send(to, b) = e {
                let p = parse(codec, b);
                let mut j = J::obj();
                j.raw("to", &jid(to)).n("len", b.len());
                dg_fields(&mut j, &p);
                sends.push(j.end());
            }
        }
        out.push(
            J::obj()
                .s("op", "feed")
                .n("codec", codec)
                .n("mps", mps)
                .n("in", d.len())
                .n("need", hl + 2)
                .n("full", full)
                .s("res", &x.last_res)
                .raw(
                    "known",
                    &arr(ms.iter().map(|m| {
                        format!(
                            "[{},{},{},{}]",
                            m.id().addr,
                            m.id().gen,
                            m.incarnation(),
                            st_n(m.state())
                        )
                    })),
                )
                .raw("sends", &arr(sends))
                .end(),
        );
        if x.dead {
            break;
        }
    }
    out
}

/// Claims no allocation can satisfy, to a codec without a limit
fn claims() -> Vec<String> {
    let mut out = vec![];
    for k in [
        K::Std,
        K::Legacy,
        K::Big,
        K::BigFix,
        K::StdRef,
        K::StdLimit,
        K::Tiny,
        K::Post,
        K::PostRef,
    ] {
        for fill in [0xFDu8, 0xFF, 0xFE, 0xFC] {
            // bincode: 253 announces a u64
            if fill == 0xFC && k.unlimited() {
                continue; // 252: a u32, which would be allocated
            }
            let b = match k {
                K::Legacy => vec![0xFF; 24],
                K::BigFix => vec![0xFF; 24],
                _ => {
                    let mut b = vec![0xFFu8; 24];
                    b[0] = fill;
                    b
                }
            };
            out.push(junk::<String>(k, "String", true, &b, true));
            out.push(junk::<Vec<u8>>(k, "bytes", false, &b, true));
        }
    }
    out
}

const NCLAIMS: usize = 62;

pub fn run(a: &Args, n: usize) {
    assert_eq!(claims().len(), NCLAIMS);
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    for t in 0..n as u64 {
        if a.skip(t) {
            continue;
        }
        let mut r = Rg::sub(a.seed ^ 0xC0DEC20, t);
        let k = *r.pick(&KS);
        let ev = if (t as usize) < NCLAIMS {
            vec![claims().swap_remove(t as usize)]
        } else if t % 8 == 0 {
            feeds(&mut r, a.thorough)
        } else {
            let r = &mut r;
            match t % 14 {
                0 => experiments::<u8>(r, k, "u8", false, &|r| int(r) as u8),
                1 => experiments::<u32>(r, k, "u32", false, &|r| int(r) as u32),
                2 => experiments::<(u64, u16)>(r, k, "(u64,u16)", false, &|r| {
                    (int(r), int(r) as u16)
                }),
                3 => experiments::<String>(r, k, "String", true, &text),
                4 => experiments::<Vec<u8>>(r, k, "bytes", true, &|r| text(r).into_bytes()),
                5 => experiments::<[u8; 16]>(r, k, "[u8;16]", false, &|r| {
                    (int(r) as u128 * 0x1_0000_0001_u128).to_le_bytes()
                }),
                6 => experiments::<std::net::SocketAddr>(r, k, "SocketAddr", false, &|r| {
                    if r.chance(50) {
                        (std::net::Ipv4Addr::from(int(r) as u32), int(r) as u16).into()
                    } else {
                        (
                            std::net::Ipv6Addr::from(int(r) as u128 * 0x1_0000_0001_u128),
                            int(r) as u16,
                        )
                            .into()
                    }
                }),
                7 => experiments::<E>(r, k, "enum", true, &|r| enumv(r, 0)),
                8 => experiments::<S>(r, k, "struct", true, &|r| S {
                    host: text(r),
                    port: int(r) as u16,
                    extra: if r.chance(50) {
                        Some(text(r).into_bytes())
                    } else {
                        None
                    },
                    flag: r.chance(50),
                    c: *r.pick(&['a', 'é', '字', '🦀', '\u{0}']),
                }),
                9 => experiments::<()>(r, k, "unit", false, &|_| ()),
                10 => experiments::<i64>(r, k, "i64", false, &|r| int(r) as i64),
                11 => experiments::<Option<(u128, i32)>>(r, k, "option", false, &|r| {
                    if r.chance(30) {
                        None
                    } else {
                        Some((int(r) as u128 * int(r) as u128, int(r) as i32))
                    }
                }),
                12 => experiments::<(bool, char, i8)>(r, k, "tuple", false, &|r| {
                    (r.chance(50), *r.pick(&['a', 'é', '字', '🦀']), int(r) as i8)
                }),
                _ => experiments::<Id>(r, k, "Id", true, &|r| {
                    Id::new(2, int(r) as u32 % MAX_ADDR, int(r) as u16)
                }),
            }
        };
        let ev: Vec<String> = ev.into_iter().collect();
        writeln!(
            f,
            "{{\"kind\":\"codec\",\"tid\":{t},\"h\":{{\"k\":\"{k:?}\"}},\"ev\":[{}]}}",
            ev.join(",")
        )
        .unwrap();
    }
}
