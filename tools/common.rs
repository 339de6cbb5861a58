#![allow(dead_code)]
pub use bytes::{Buf, BufMut};
pub use foca::*;
pub use rand::{rngs::SmallRng, SeedableRng};
pub use std::num::{NonZeroU8, NonZeroUsize};
pub use std::time::Duration;

#[derive(Clone, Copy, Debug)]
pub struct Id {
    pub addr: u32,
    pub gen: u16,
    pub renew: bool,
}
pub fn id(addr: u32, gen: u16) -> Id {
    Id { addr, gen, renew: false }
}
pub fn idr(addr: u32, gen: u16) -> Id {
    Id { addr, gen, renew: true }
}
impl PartialEq for Id {
    fn eq(&self, o: &Self) -> bool {
        (self.addr, self.gen) == (o.addr, o.gen)
    }
}
impl Eq for Id {}
impl Identity for Id {
    type Addr = u32;
    fn renew(&self) -> Option<Self> {
        self.renew.then(|| Id { gen: self.gen + 1, ..*self })
    }
    fn addr(&self) -> u32 {
        self.addr
    }
    fn win_addr_conflict(&self, o: &Self) -> bool {
        self.gen > o.gen
    }
}
#[derive(Debug)]
pub struct CErr;
impl std::fmt::Display for CErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "codec")
    }
}
impl std::error::Error for CErr {}

/// plain codec; with `dirty`, running out of space leaves a partial item
#[derive(Clone, Copy, Default)]
pub struct C {
    pub dirty: bool,
}
fn pid(i: &Id, b: &mut Vec<u8>) {
    b.put_u32(i.addr);
    b.put_u16(i.gen);
}
fn gid(b: &mut impl Buf) -> Result<Id, CErr> {
    if b.remaining() < 6 {
        return Err(CErr);
    }
    Ok(id(b.get_u32(), b.get_u16()))
}
impl C {
    fn put(&self, v: Vec<u8>, mut b: impl BufMut) -> Result<(), CErr> {
        if b.remaining_mut() < v.len() {
            if self.dirty {
                let n = b.remaining_mut();
                b.put_slice(&v[..n]);
            }
            return Err(CErr);
        }
        b.put_slice(&v);
        Ok(())
    }
}
pub fn enc_header(h: &Header<Id>) -> Vec<u8> {
    let mut v = vec![];
    pid(&h.src, &mut v);
    v.put_u16(h.src_incarnation);
    pid(&h.dst, &mut v);
    match &h.message {
        Message::Ping(n) => v.extend([1, *n]),
        Message::Ack(n) => v.extend([2, *n]),
        Message::PingReq { target, probe_number } => {
            v.extend([3, *probe_number]);
            pid(target, &mut v)
        }
        Message::IndirectPing { origin, probe_number } => {
            v.extend([4, *probe_number]);
            pid(origin, &mut v)
        }
        Message::IndirectAck { target, probe_number } => {
            v.extend([5, *probe_number]);
            pid(target, &mut v)
        }
        Message::ForwardedAck { origin, probe_number } => {
            v.extend([6, *probe_number]);
            pid(origin, &mut v)
        }
        Message::Announce => v.push(7),
        Message::Feed => v.push(8),
        Message::Gossip => v.push(9),
        Message::Broadcast => v.push(10),
        Message::TurnUndead => v.push(11),
    }
    v
}
pub fn dec_header(b: &mut impl Buf) -> Result<Header<Id>, CErr> {
    let src = gid(b)?;
    if b.remaining() < 9 {
        return Err(CErr);
    }
    let src_incarnation = b.get_u16();
    let dst = gid(b)?;
    let t = b.get_u8();
    let mut n = 0;
    if t <= 6 {
        if b.remaining() < 1 {
            return Err(CErr);
        }
        n = b.get_u8();
    }
    let message = match t {
        1 => Message::Ping(n),
        2 => Message::Ack(n),
        3 => Message::PingReq { target: gid(b)?, probe_number: n },
        4 => Message::IndirectPing { origin: gid(b)?, probe_number: n },
        5 => Message::IndirectAck { target: gid(b)?, probe_number: n },
        6 => Message::ForwardedAck { origin: gid(b)?, probe_number: n },
        7 => Message::Announce,
        8 => Message::Feed,
        9 => Message::Gossip,
        10 => Message::Broadcast,
        11 => Message::TurnUndead,
        _ => return Err(CErr),
    };
    Ok(Header { src, src_incarnation, dst, message })
}
pub fn enc_member(m: &Member<Id>) -> Vec<u8> {
    let mut v = vec![];
    pid(m.id(), &mut v);
    v.put_u16(m.incarnation());
    v.push(match m.state() {
        State::Alive => 0,
        State::Suspect => 1,
        State::Down => 2,
    });
    v
}
pub fn dec_member(b: &mut impl Buf) -> Result<Member<Id>, CErr> {
    let i = gid(b)?;
    if b.remaining() < 3 {
        return Err(CErr);
    }
    let inc = b.get_u16();
    let s = match b.get_u8() {
        0 => State::Alive,
        1 => State::Suspect,
        2 => State::Down,
        _ => return Err(CErr),
    };
    Ok(Member::new(i, inc, s))
}
impl Codec<Id> for C {
    type Error = CErr;
    fn encode_header(&mut self, h: &Header<Id>, b: impl BufMut) -> Result<(), CErr> {
        self.put(enc_header(h), b)
    }
    fn decode_header(&mut self, mut b: impl Buf) -> Result<Header<Id>, CErr> {
        dec_header(&mut b)
    }
    fn encode_member(&mut self, m: &Member<Id>, b: impl BufMut) -> Result<(), CErr> {
        self.put(enc_member(m), b)
    }
    fn decode_member(&mut self, mut b: impl Buf) -> Result<Member<Id>, CErr> {
        dec_member(&mut b)
    }
}

#[derive(Default, Debug)]
pub struct Rt {
    pub sent: Vec<(Id, Vec<u8>)>,
    pub timers: Vec<(Timer<Id>, Duration)>,
    pub notes: Vec<OwnedNotification<Id>>,
}
impl Runtime<Id> for &mut Rt {
    fn notify(&mut self, n: Notification<'_, Id>) {
        self.notes.push(n.to_owned())
    }
    fn send_to(&mut self, to: Id, d: &[u8]) {
        self.sent.push((to, d.to_vec()))
    }
    fn submit_after(&mut self, t: Timer<Id>, d: Duration) {
        self.timers.push((t, d))
    }
}
impl Rt {
    pub fn kinds(&self) -> Vec<(Id, Message<Id>)> {
        self.sent.iter().map(|(t, d)| (*t, dec_header(&mut &d[..]).unwrap().message)).collect()
    }
    pub fn probe(&self) -> Timer<Id> {
        self.timers.iter().rev().find(|t| matches!(t.0, Timer::ProbeRandomMember(_))).unwrap().0.clone()
    }
    pub fn indirect(&self) -> Timer<Id> {
        self.timers.iter().rev().find(|t| matches!(t.0, Timer::SendIndirectProbe { .. })).unwrap().0.clone()
    }
    pub fn pinged(&self) -> Option<(Id, u8)> {
        self.kinds().into_iter().rev().find_map(|(t, m)| match m {
            Message::Ping(n) => Some((t, n)),
            _ => None,
        })
    }
}
pub type F = Foca<Id, C, SmallRng, NoCustomBroadcast>;
pub fn new(me: Id, cfg: Config) -> F {
    Foca::new(me, cfg, SmallRng::seed_from_u64(1), C::default())
}
pub fn al(i: Id) -> Member<Id> {
    Member::new(i, 0, State::Alive)
}
pub fn msg(src: Id, inc: u16, dst: Id, message: Message<Id>, ups: &[Member<Id>]) -> Vec<u8> {
    let piggy = !matches!(message, Message::Announce | Message::TurnUndead | Message::Broadcast);
    let mut v = enc_header(&Header { src, src_incarnation: inc, dst, message });
    if piggy {
        v.put_u16(ups.len() as u16);
        for u in ups {
            v.extend(enc_member(u));
        }
    }
    v
}
pub fn find(f: &F, addr: u32) -> Option<Member<Id>> {
    f.iter_membership_state().find(|m| m.id().addr == addr).cloned()
}
