//! Identity, codecs and broadcast handler used by every driver.
use bytes::{Buf, BufMut};
use foca::{BroadcastHandler, Codec, Header, Identity, Invalidates, Member, Message, State};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// `renew` selects what Identity::renew does; it is neither part of equality
/// nor of the wire format.
#[derive(Clone, Copy, Debug)]
pub struct Id {
    pub addr: u32,
    pub gen: u16,
    pub pad: u8,
    pub renew: u8,
}

/// what TLC's integers can take
pub const MAX_ADDR: u32 = 1 << 24;
pub const RENEW_NONE: u8 = 0;
pub const RENEW_NEXT: u8 = 1;
pub const RENEW_SAME: u8 = 2;
pub const RENEW_LOWER: u8 = 3;
pub const RENEW_JUMP: u8 = 4;
/// C06 only: another address, possibly one of a known member
pub const RENEW_OTHER: u8 = 5;

impl PartialEq for Id {
    fn eq(&self, o: &Self) -> bool {
        self.addr == o.addr && self.gen == o.gen
    }
}
impl Eq for Id {}
impl std::hash::Hash for Id {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        (self.addr, self.gen).hash(s)
    }
}
impl PartialOrd for Id {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Id {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.addr, self.gen).cmp(&(o.addr, o.gen))
    }
}

/// Padding is a function of (addr, gen): 0 in fixed mode, varied otherwise.
pub fn pad_of(var: u8, addr: u32, gen: u16) -> u8 {
    match var {
        0 => 0,
        1 => (addr.wrapping_mul(5).wrapping_add(gen as u32 * 3) % 7) as u8,
        _ => (addr.wrapping_mul(37).wrapping_add(gen as u32 * 11) % 61) as u8,
    }
}

impl Id {
    pub fn new(var: u8, addr: u32, gen: u16) -> Self {
        Id {
            addr,
            gen,
            pad: pad_of(var, addr, gen),
            renew: 0,
        }
    }
    pub fn with_renew(mut self, r: u8) -> Self {
        self.renew = r;
        self
    }
    fn var(&self) -> u8 {
        // recover the mode: only used by renew on the local identity
        for v in 0..3 {
            if pad_of(v, self.addr, self.gen) == self.pad {
                return v;
            }
        }
        0
    }
}

thread_local! {
    /// how address conflicts are decided; 0 is the lawful way
    pub static LAW: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    /// C06's degenerate codec decodes every header as addressed to this
    pub static SELF: std::cell::Cell<(u32, u16)> = const { std::cell::Cell::new((0, 0)) };
    pub static VAR: RefCell<u8> = const { RefCell::new(0) };
}
pub fn cur_var() -> u8 {
    VAR.with(|v| *v.borrow())
}
pub fn set_var(x: u8) {
    VAR.with(|v| *v.borrow_mut() = x)
}

impl Identity for Id {
    type Addr = u32;
    fn renew(&self) -> Option<Self> {
        let _ = self.var();
        let var = cur_var();
        let g = match self.renew {
            RENEW_NEXT => self.gen.checked_add(1)?,
            RENEW_SAME => self.gen,
            RENEW_LOWER => self.gen.checked_sub(1)?,
            RENEW_JUMP => self.gen.checked_add(3)?,
            RENEW_OTHER => {
                let a = (self.addr + 1) % 5;
                return Some(Id::new(var, a, self.gen.wrapping_add(1)).with_renew(self.renew));
            }
            _ => return None,
        };
        Some(Id::new(var, self.addr, g).with_renew(self.renew))
    }
    fn addr(&self) -> u32 {
        self.addr
    }
    fn win_addr_conflict(&self, other: &Self) -> bool {
        match LAW.with(|l| l.get()) {
            0 => self.gen > other.gen,
            1 => true,
            2 => false,
            3 => self.gen < other.gen,
            _ => (self.gen ^ other.gen) & 1 == 1,
        }
    }
}

impl serde::Serialize for Id {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let p: String = "x".repeat(self.pad as usize);
        (self.addr, self.gen, p).serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Id {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (addr, gen, p) = <(u32, u16, String)>::deserialize(d)?;
        if addr > MAX_ADDR {
            return Err(serde::de::Error::custom("addr"));
        }
        if p.len() > 255 {
            return Err(serde::de::Error::custom("pad too long"));
        }
        Ok(Id {
            addr,
            gen,
            pad: p.len() as u8,
            renew: 0,
        })
    }
}

#[derive(Debug)]
pub struct CErr(pub String);
impl std::fmt::Display for CErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CErr {}
fn ce(s: &str) -> CErr {
    CErr(s.to_string())
}

/// 0: hand-written codec, 1: bincode standard, 2: postcard,
/// 3: bincode legacy (fixed int), 4: hand-written codec that leaves the
/// buffer dirty when it runs out of space mid-item.
#[derive(Clone, Copy, Debug)]
pub struct AnyCodec(pub u8);

fn put_id(id: &Id, b: &mut impl BufMut) {
    b.put_u32(id.addr);
    b.put_u16(id.gen);
    b.put_u8(id.pad);
    for _ in 0..id.pad {
        b.put_u8(0xA5);
    }
}
pub fn id_len(id: &Id) -> usize {
    7 + id.pad as usize
}
fn get_id(b: &mut impl Buf) -> Result<Id, CErr> {
    if b.remaining() < 7 {
        return Err(ce("short id"));
    }
    let addr = b.get_u32();
    if addr > MAX_ADDR {
        return Err(ce("addr"));
    }
    let gen = b.get_u16();
    let pad = b.get_u8();
    if b.remaining() < pad as usize {
        return Err(ce("short pad"));
    }
    for _ in 0..pad {
        if b.get_u8() != 0xA5 {
            return Err(ce("bad pad"));
        }
    }
    Ok(Id {
        addr,
        gen,
        pad,
        renew: 0,
    })
}

pub fn raw_header(h: &Header<Id>) -> Vec<u8> {
    let mut v = Vec::new();
    put_id(&h.src, &mut v);
    v.put_u16(h.src_incarnation);
    put_id(&h.dst, &mut v);
    match &h.message {
        Message::Ping(n) => {
            v.put_u8(1);
            v.put_u8(*n)
        }
        Message::Ack(n) => {
            v.put_u8(2);
            v.put_u8(*n)
        }
        Message::PingReq {
            target,
            probe_number,
        } => {
            v.put_u8(3);
            put_id(target, &mut v);
            v.put_u8(*probe_number)
        }
        Message::IndirectPing {
            origin,
            probe_number,
        } => {
            v.put_u8(4);
            put_id(origin, &mut v);
            v.put_u8(*probe_number)
        }
        Message::IndirectAck {
            target,
            probe_number,
        } => {
            v.put_u8(5);
            put_id(target, &mut v);
            v.put_u8(*probe_number)
        }
        Message::ForwardedAck {
            origin,
            probe_number,
        } => {
            v.put_u8(6);
            put_id(origin, &mut v);
            v.put_u8(*probe_number)
        }
        Message::Announce => v.put_u8(7),
        Message::Feed => v.put_u8(8),
        Message::Gossip => v.put_u8(9),
        Message::Broadcast => v.put_u8(10),
        Message::TurnUndead => v.put_u8(11),
    }
    v
}
pub fn raw_member(m: &Member<Id>) -> Vec<u8> {
    let mut v = Vec::new();
    put_id(m.id(), &mut v);
    v.put_u16(m.incarnation());
    v.put_u8(match m.state() {
        State::Alive => 0,
        State::Suspect => 1,
        State::Down => 2,
    });
    v
}
fn tag_of(m: &Message<Id>) -> u8 {
    match m {
        Message::Ping(_) => 1,
        Message::Ack(_) => 2,
        Message::PingReq { .. } => 3,
        Message::IndirectPing { .. } => 4,
        Message::IndirectAck { .. } => 5,
        Message::ForwardedAck { .. } => 6,
        Message::Announce => 7,
        Message::Feed => 8,
        Message::Gossip => 9,
        Message::Broadcast => 10,
        Message::TurnUndead => 11,
    }
}
/// one-byte headers (codec 5): the sender is a function of the byte
fn degenerate(t: u8) -> Header<Id> {
    let (a, g) = SELF.with(|s| s.get());
    let var = cur_var();
    let src = Id::new(var, a + 1 + (t as u32 / 16) % 4, (t as u16 / 64) % 2);
    let tgt = Id::new(var, a + (t as u32 / 16) % 5, 0);
    let message = match t % 12 {
        1 => Message::Ping(0),
        2 => Message::Ack(1),
        3 => Message::PingReq {
            target: tgt,
            probe_number: 1,
        },
        4 => Message::IndirectPing {
            origin: tgt,
            probe_number: 1,
        },
        5 => Message::IndirectAck {
            target: tgt,
            probe_number: 1,
        },
        6 => Message::ForwardedAck {
            origin: tgt,
            probe_number: 1,
        },
        0 | 7 => Message::Announce,
        8 => Message::Feed,
        9 => Message::Gossip,
        10 => Message::Broadcast,
        _ => Message::TurnUndead,
    };
    Header {
        src,
        src_incarnation: 0,
        dst: Id::new(var, a, g),
        message,
    }
}
pub fn dec_header(b: &mut impl Buf) -> Result<Header<Id>, CErr> {
    let src = get_id(b)?;
    if b.remaining() < 2 {
        return Err(ce("short inc"));
    }
    let src_incarnation = b.get_u16();
    let dst = get_id(b)?;
    if b.remaining() < 1 {
        return Err(ce("short tag"));
    }
    let tag = b.get_u8();
    let pn = |b: &mut dyn Buf| -> Result<u8, CErr> {
        if b.remaining() < 1 {
            Err(ce("short pn"))
        } else {
            Ok(b.get_u8())
        }
    };
    let message = match tag {
        1 => Message::Ping(pn(b)?),
        2 => Message::Ack(pn(b)?),
        3 => Message::PingReq {
            target: get_id(b)?,
            probe_number: pn(b)?,
        },
        4 => Message::IndirectPing {
            origin: get_id(b)?,
            probe_number: pn(b)?,
        },
        5 => Message::IndirectAck {
            target: get_id(b)?,
            probe_number: pn(b)?,
        },
        6 => Message::ForwardedAck {
            origin: get_id(b)?,
            probe_number: pn(b)?,
        },
        7 => Message::Announce,
        8 => Message::Feed,
        9 => Message::Gossip,
        10 => Message::Broadcast,
        11 => Message::TurnUndead,
        _ => return Err(ce("bad tag")),
    };
    Ok(Header {
        src,
        src_incarnation,
        dst,
        message,
    })
}
pub fn dec_member(b: &mut impl Buf) -> Result<Member<Id>, CErr> {
    let id = get_id(b)?;
    if b.remaining() < 3 {
        return Err(ce("short member"));
    }
    let inc = b.get_u16();
    let st = match b.get_u8() {
        0 => State::Alive,
        1 => State::Suspect,
        2 => State::Down,
        _ => return Err(ce("bad state")),
    };
    Ok(Member::new(id, inc, st))
}

impl AnyCodec {
    fn put(&self, v: &[u8], buf: &mut impl BufMut) -> Result<(), CErr> {
        if buf.remaining_mut() >= v.len() {
            buf.put_slice(v);
            Ok(())
        } else {
            if self.0 == 4 {
                let n = buf.remaining_mut();
                buf.put_slice(&v[..n]);
            }
            Err(ce("full"))
        }
    }
}

impl Codec<Id> for AnyCodec {
    type Error = CErr;
    fn encode_header(&mut self, h: &Header<Id>, mut buf: impl BufMut) -> Result<(), CErr> {
        match self.0 {
            0 | 4 => self.put(&raw_header(h), &mut buf),
            5 => self.put(&[tag_of(&h.message)], &mut buf),
            1 => foca::BincodeCodec(crate::id::bstd())
                .encode_header(h, buf)
                .map_err(|e| CErr(e.to_string())),
            3 => foca::BincodeCodec(crate::id::bleg())
                .encode_header(h, buf)
                .map_err(|e| CErr(e.to_string())),
            _ => foca::PostcardCodec
                .encode_header(h, buf)
                .map_err(|e| CErr(e.to_string())),
        }
    }
    fn decode_header(&mut self, mut buf: impl Buf) -> Result<Header<Id>, CErr> {
        match self.0 {
            0 | 4 => dec_header(&mut buf),
            5 => {
                if buf.remaining() == 0 {
                    return Err(ce("empty"));
                }
                let t = buf.get_u8();
                Ok(degenerate(t))
            }
            1 => foca::BincodeCodec(crate::id::bstd())
                .decode_header(buf)
                .map_err(|e| CErr(e.to_string())),
            3 => foca::BincodeCodec(crate::id::bleg())
                .decode_header(buf)
                .map_err(|e| CErr(e.to_string())),
            _ => foca::PostcardCodec
                .decode_header(buf)
                .map_err(|e| CErr(e.to_string())),
        }
    }
    fn encode_member(&mut self, m: &Member<Id>, mut buf: impl BufMut) -> Result<(), CErr> {
        match self.0 {
            0 | 4 | 5 => self.put(&raw_member(m), &mut buf),
            1 => foca::BincodeCodec(crate::id::bstd())
                .encode_member(m, buf)
                .map_err(|e| CErr(e.to_string())),
            3 => foca::BincodeCodec(crate::id::bleg())
                .encode_member(m, buf)
                .map_err(|e| CErr(e.to_string())),
            _ => foca::PostcardCodec
                .encode_member(m, buf)
                .map_err(|e| CErr(e.to_string())),
        }
    }
    fn decode_member(&mut self, mut buf: impl Buf) -> Result<Member<Id>, CErr> {
        match self.0 {
            0 | 4 | 5 => dec_member(&mut buf),
            1 => foca::BincodeCodec(crate::id::bstd())
                .decode_member(buf)
                .map_err(|e| CErr(e.to_string())),
            3 => foca::BincodeCodec(crate::id::bleg())
                .decode_member(buf)
                .map_err(|e| CErr(e.to_string())),
            _ => foca::PostcardCodec
                .decode_member(buf)
                .map_err(|e| CErr(e.to_string())),
        }
    }
}

/// Independent (not via foca's Codec impls) encoders/decoders, used to craft
/// inputs and to parse what foca emits.
pub fn ind_header(codec: u8, h: &Header<Id>) -> Vec<u8> {
    match codec {
        0 | 4 => raw_header(h),
        5 => vec![tag_of(&h.message)],
        1 => bincode::serde::encode_to_vec(h, crate::id::bstd()).unwrap(),
        3 => bincode::serde::encode_to_vec(h, crate::id::bleg()).unwrap(),
        _ => postcard_vec(h),
    }
}
pub fn ind_member(codec: u8, m: &Member<Id>) -> Vec<u8> {
    match codec {
        0 | 4 | 5 => raw_member(m),
        1 => bincode::serde::encode_to_vec(m, crate::id::bstd()).unwrap(),
        3 => bincode::serde::encode_to_vec(m, crate::id::bleg()).unwrap(),
        _ => postcard_vec(m),
    }
}
fn postcard_vec<T: serde::Serialize>(t: &T) -> Vec<u8> {
    let mut buf = vec![0u8; 4096];
    let n = postcard::to_slice(t, &mut buf).unwrap().len();
    buf.truncate(n);
    buf
}
pub fn ind_dec_header(codec: u8, b: &[u8]) -> Option<(Header<Id>, usize)> {
    match codec {
        5 => None,
        0 | 4 => {
            let mut s = b;
            let h = dec_header(&mut s).ok()?;
            Some((h, b.len() - s.len()))
        }
        1 => bincode::serde::decode_from_slice(b, crate::id::bstd()).ok(),
        3 => bincode::serde::decode_from_slice(b, crate::id::bleg()).ok(),
        _ => postcard::take_from_bytes::<Header<Id>>(b)
            .ok()
            .map(|(h, r)| (h, b.len() - r.len())),
    }
}
pub fn ind_dec_member(codec: u8, b: &[u8]) -> Option<(Member<Id>, usize)> {
    match codec {
        0 | 4 | 5 => {
            let mut s = b;
            let h = dec_member(&mut s).ok()?;
            Some((h, b.len() - s.len()))
        }
        1 => bincode::serde::decode_from_slice(b, crate::id::bstd()).ok(),
        3 => bincode::serde::decode_from_slice(b, crate::id::bleg()).ok(),
        _ => postcard::take_from_bytes::<Member<Id>>(b)
            .ok()
            .map(|(h, r)| (h, b.len() - r.len())),
    }
}

// ---------------------------------------------------------------- broadcasts

/// Key of a custom broadcast item: data[0] is the key, data[1] the version.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Key {
    pub k: u8,
    pub v: u8,
    pub mode: u8,
}
/// Invalidation relations (mirrored by Inval in spec/P_C16.tla)
pub fn inval(mode: u8, a: (u8, u8), b: (u8, u8)) -> bool {
    match mode {
        0 => a.0 == b.0,
        1 => a.0 == b.0 && a.1 > b.1,
        2 => false,
        3 => true,
        4 => a.0 % 2 == b.0 % 2,
        _ => a.0 > b.0,
    }
}
impl Invalidates for Key {
    fn invalidates(&self, o: &Self) -> bool {
        inval(self.mode, (self.k, self.v), (o.k, o.v))
    }
}
pub fn eligible(mode: u8, addr: u32) -> bool {
    match mode {
        0 => true,
        1 => addr % 2 == 0,
        2 => false,
        _ => addr % 3 != 0,
    }
}
#[derive(Clone, Debug)]
pub struct Rx {
    pub sender: Option<Id>,
    pub data: Vec<u8>,
    pub res: u8, // 0 rejected, 1 accepted, 2 error
}
#[derive(Default)]
pub struct HandlerState {
    pub seen: BTreeMap<u8, u8>,
    pub log: Vec<Rx>,
}
pub struct Handler {
    pub inval: u8,
    pub elig: u8,
    /// 0: accept newer versions per key, 1: accept everything,
    /// 2: reject everything
    pub accept: u8,
    pub st: Rc<RefCell<HandlerState>>,
}
impl BroadcastHandler<Id> for Handler {
    type Key = Key;
    type Error = CErr;
    fn receive_item(&mut self, data: &[u8], sender: Option<&Id>) -> Result<Option<Key>, CErr> {
        let mut st = self.st.borrow_mut();
        let k = data.first().copied().unwrap_or(0);
        let v = data.get(1).copied().unwrap_or(0);
        let res = if k == 0xEE {
            2
        } else {
            match self.accept {
                0 => match st.seen.get(&k) {
                    Some(o) if *o >= v => 0,
                    _ => 1,
                },
                1 => 1,
                _ => 0,
            }
        };
        if res == 1 {
            st.seen.insert(k, v);
        }
        st.log.push(Rx {
            sender: sender.copied(),
            data: data.to_vec(),
            res,
        });
        match res {
            2 => Err(ce("handler error")),
            1 => Ok(Some(Key {
                k,
                v,
                mode: self.inval,
            })),
            _ => Ok(None),
        }
    }
    fn should_add_broadcast_data(&self, m: &Id) -> bool {
        eligible(self.elig, m.addr)
    }
}

/// bincode configurations carry a limit: without one, bincode allocates
/// whatever length prefix a datagram claims (recorded finding, see C20).
pub fn bstd() -> bincode::config::Configuration<
    bincode::config::LittleEndian,
    bincode::config::Varint,
    bincode::config::Limit<1048576>,
> {
    bincode::config::standard().with_limit::<1048576>()
}
pub fn bleg() -> bincode::config::Configuration<
    bincode::config::LittleEndian,
    bincode::config::Fixint,
    bincode::config::Limit<1048576>,
> {
    bincode::config::legacy().with_limit::<1048576>()
}
