//! Random histories for a single instance.  A profile says how often each
//! kind of stimulus appears; every choice derives from the seed.
use crate::id::*;
use crate::inst::*;
use crate::util::*;
use foca::*;

#[derive(Clone, Debug)]
pub struct Prof {
    pub steps: (usize, usize),
    /// number of other addresses
    pub addrs: (usize, usize),
    pub gens: usize,
    // weights
    pub w_timer: u32,
    pub w_data: u32,
    pub w_ack: u32, // answer the outstanding probe
    pub w_api: u32,
    pub w_apply: u32,
    pub w_addb: u32,
    pub w_cfg: u32,
    pub w_crafted: u32,
    pub w_junk: u32,
    /// percentage of timers fired in deadline order
    pub inorder: usize,
    pub dup: usize,
    /// percentage of updates that are about ourselves
    pub selfup: usize,
    pub down: usize,
    pub items: usize,
    pub leave: bool,
    pub changeid: bool,
    pub codecs: &'static [u8],
    pub mps: &'static [usize],
    pub renew: &'static [u8],
    pub vars: &'static [u8],
    pub mtx: &'static [u8],
    pub incs: u8, // 0 small, 1 with boundaries
    pub nups: usize,
    pub periodic: usize, // pct of each periodic task enabled
    pub wrong: usize,    // pct of datagrams with a wrong destination / own source
    pub preload: (usize, usize),
    pub self_last: bool, // self updates only as the last thing in a call (C15)
    pub pay: &'static [usize],
    pub late: usize,
    /// percentage of histories with strictly in-order timers
    pub pure: usize,
    /// percentage of histories with a long run of epoch changes
    pub wrap: usize,
    /// percentage of histories that start with a large membership
    pub big: usize,
    /// packet sizes around the length of the headers in use
    pub tight: bool,
    /// hundreds of members, updates and payloads
    /// percentage of updates about other generations of our address
    pub ownaddr: usize,
    pub xl: bool,
    pub xlfan: &'static [usize],
    /// C06: unlawful identities, degenerate codec, absurd configurations
    pub wild: bool,
}

pub const BASE: Prof = Prof {
    steps: (40, 120),
    addrs: (2, 6),
    gens: 3,
    w_timer: 40,
    w_data: 40,
    w_ack: 14,
    w_api: 4,
    w_apply: 6,
    w_addb: 0,
    w_cfg: 1,
    w_crafted: 0,
    w_junk: 0,
    inorder: 85,
    dup: 4,
    selfup: 5,
    down: 15,
    items: 0,
    leave: true,
    changeid: true,
    codecs: &[0, 0, 0, 1, 2, 3, 4],
    mps: &[1400],
    renew: &[0, 1, 1, 2, 3, 4],
    vars: &[0, 1, 2],
    mtx: &[1, 2, 3, 5, 10],
    incs: 1,
    nups: 3,
    periodic: 40,
    wrong: 4,
    preload: (0, 3),
    self_last: false,
    pay: &[1, 2, 3, 10, 40],
    late: 10,
    pure: 0,
    wrap: 0,
    big: 0,
    tight: false,
    ownaddr: 6,
    xl: false,
    xlfan: &[],
    wild: false,
};

pub const MAXI: u16 = u16::MAX;

pub struct Gen {
    pub r: Rg,
    pub p: Prof,
    pub i: Inst,
    pub var: u8,
    pub a: usize,
    pub me_addr: u32,
    pub ver: u8,
    pub keys: usize,
}

/// an empty list stands for the whole range
pub fn pick_mps(r: &mut Rg, p: &Prof) -> usize {
    if !p.mps.is_empty() {
        return *r.pick(p.mps);
    }
    match r.below(10) {
        0..=4 => r.range(14, 140),
        5..=7 => r.range(140, 400),
        8 => 1400,
        _ => *r.pick(&[65535, 65536, 70000]),
    }
}
pub fn wild_cfg(r: &mut Rg) -> Cfg {
    let big = [0u64, 1, 1000, u64::MAX / 1000, u64::MAX];
    let per = |r: &mut Rg| {
        if r.chance(50) {
            Some((*r.pick(&big), *r.pick(&[1usize, 2, 1000, usize::MAX])))
        } else {
            None
        }
    };
    let pa = per(r);
    let pad = per(r);
    let pg = per(r);
    Cfg {
        pp: *r.pick(&big),
        rtt: *r.pick(&big),
        fan: *r.pick(&[1, 2, 1000, usize::MAX / 64, usize::MAX]),
        mtx: *r.pick(&[1, 2, 254, 255]),
        s2d: *r.pick(&big),
        rmd: *r.pick(&big),
        mps: if r.chance(50) {
            1400
        } else {
            *r.pick(&[
                1,
                2,
                10,
                20,
                30,
                30,
                40,
                60,
                100,
                65534,
                65535,
                65536,
                65537,
                65538,
                100_000,
                1 << 32,
                usize::MAX / 2,
                usize::MAX / 2 + 1,
                usize::MAX,
            ])
        },
        nd: r.chance(60),
        pa,
        pad,
        pg,
    }
}
pub fn rand_cfg(r: &mut Rg, p: &Prof) -> Cfg {
    let per = |r: &mut Rg, lo: usize, hi: usize| {
        if r.chance(p.periodic) {
            Some((r.range(lo, hi) as u64, r.range(1, 4)))
        } else {
            None
        }
    };
    let pa = per(r, 500, 3000);
    let pad = per(r, 500, 3000);
    let pg = per(r, 100, 900);
    if p.wild && r.chance(50) {
        return wild_cfg(r);
    }
    Cfg {
        pp: 1000,
        rtt: *r.pick(&[100, 300, 900]),
        fan: if p.xl {
            *r.pick(p.xlfan)
        } else {
            *r.pick(&[1, 2, 3, 3, 5])
        },
        mtx: *r.pick(p.mtx),
        s2d: *r.pick(&[500, 1500, 3000, 7000]),
        rmd: *r.pick(&[2000, 8000, 30000, 100000]),
        mps: pick_mps(r, p),
        nd: r.chance(60),
        pa,
        pad,
        pg,
    }
}

impl Gen {
    pub fn new(seed: u64, tid: u64, p: &Prof, opt: LogOpt) -> Self {
        let mut r = Rg::sub(seed, tid);
        let var = *r.pick(p.vars);
        set_var(var);
        let me_addr = r.range(0, 3) as u32;
        let g0 = if r.chance(70) {
            1
        } else {
            r.range(0, 3) as u16
        };
        let me = Id::new(var, me_addr, g0).with_renew(*r.pick(p.renew));
        let cfg = rand_cfg(&mut r, p);
        let codec = *r.pick(p.codecs);
        let a = r.range(p.addrs.0, p.addrs.1);
        let (inval, elig, accept) = (
            r.below(6) as u8,
            *r.pick(&[0u8, 0, 0, 1, 2, 3]),
            *r.pick(&[0u8, 0, 1, 1, 2]),
        );
        let fseed = r.next();
        let mut p = p.clone();
        if r.chance(p.pure) {
            p.inorder = 100;
        }
        let mut me = me;
        let mut codec = codec;
        LAW.with(|l| l.set(0));
        if p.wild {
            if r.chance(30) {
                LAW.with(|l| l.set(r.range(0, 4) as u8));
                if r.chance(30) {
                    me.renew = RENEW_OTHER;
                }
            }
            if r.chance(6) {
                codec = 5;
            }
            SELF.with(|s| s.set((me.addr, me.gen)));
        }
        let i = Inst::new(me, cfg, codec, fseed, inval, elig, accept, opt);
        let keys = if p.xl { 250 } else { 4 };
        Gen {
            r,
            p,
            i,
            var,
            a,
            me_addr,
            ver: 0,
            keys,
        }
    }

    /// Another member's address (never ours)
    pub fn other_addr(&mut self) -> u32 {
        let x = self.r.below(self.a) as u32;
        if x >= self.i.me().addr {
            x + 1
        } else {
            x
        }
    }
    pub fn rand_id(&mut self) -> Id {
        let a = self.other_addr();
        let g = self.r.below(self.p.gens) as u16;
        Id::new(self.var, a, g)
    }
    pub fn known(&mut self) -> Option<Member<Id>> {
        if self.i.mem.is_empty() {
            None
        } else {
            let k = self.r.below(self.i.mem.len());
            Some(self.i.mem[k].clone())
        }
    }
    pub fn known_active(&mut self) -> Option<Member<Id>> {
        let v: Vec<_> = self
            .i
            .mem
            .iter()
            .filter(|m| m.state() != State::Down)
            .cloned()
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(&v).clone())
        }
    }
    pub fn rand_inc(&mut self, near: Option<u16>) -> u16 {
        if let Some(n) = near {
            if self.r.chance(75) {
                return match self.r.below(6) {
                    0 => n.saturating_add(1),
                    1 => n.saturating_sub(1),
                    2 => n.saturating_add(2),
                    _ => n,
                };
            }
        }
        if self.p.incs == 0 || self.r.chance(80) {
            self.r.below(4) as u16
        } else {
            *self
                .r
                .pick(&[0, 1, 255, 256, 257, 32767, 32768, MAXI - 2, MAXI - 1, MAXI])
        }
    }
    pub fn rand_state(&mut self) -> State {
        if self.r.chance(self.p.down) {
            State::Down
        } else if self.r.chance(40) {
            State::Suspect
        } else {
            State::Alive
        }
    }
    /// an update about somebody else (never our own current identity)
    pub fn rand_update(&mut self) -> Member<Id> {
        let st = self.rand_state();
        if self.r.chance(self.p.ownaddr) {
            // some generation of our own address, not the current one
            let me = self.i.me();
            let mut g = self.r.below(6) as u16;
            if g == me.gen {
                g = g.wrapping_add(1);
            }
            let inc = if self.p.ownaddr > 6 && self.r.chance(30) {
                *self.r.pick(&[1, 255, 256, MAXI - 1, MAXI])
            } else {
                self.rand_inc(None)
            };
            return Member::new(Id::new(self.var, me.addr, g), inc, st);
        }
        if self.r.chance(55) {
            if let Some(m) = self.known() {
                if m.id().addr != self.i.me().addr {
                    let inc = self.rand_inc(Some(m.incarnation()));
                    let mut id = *m.id();
                    if self.r.chance(12) {
                        let g = if self.r.chance(70) {
                            id.gen.saturating_add(1)
                        } else {
                            id.gen.saturating_sub(1)
                        };
                        id = Id::new(self.var, id.addr, g);
                    }
                    return Member::new(id, inc, st);
                }
            }
        }
        let id = self.rand_id();
        let inc = self.rand_inc(None);
        Member::new(id, inc, st)
    }
    pub fn self_update(&mut self) -> Member<Id> {
        let st = match self.r.below(10) {
            0..=1 => State::Alive,
            2..=7 => State::Suspect,
            _ => State::Down,
        };
        let inc = match self.r.below(16) {
            0..=4 => self.r.below(4) as u16,
            5..=9 => self.own_inc(),
            10 => self.own_inc().saturating_add(1),
            11 => self.own_inc().saturating_sub(1),
            12 if self.p.incs == 1 => {
                *self
                    .r
                    .pick(&[255, 256, 32767, 32768, MAXI - 2, MAXI - 1, MAXI])
            }
            _ => self.own_inc(),
        };
        Member::new(self.i.me(), inc, st)
    }
    /// own incarnation as last seen in a header
    pub fn own_inc(&self) -> u16 {
        self.i.own_inc
    }
    pub fn rand_updates(&mut self) -> Vec<Member<Id>> {
        let n = if self.r.chance(6) {
            self.r.range(5, 30)
        } else {
            self.r.below(self.p.nups + 1)
        };
        let mut v: Vec<Member<Id>> = (0..n).map(|_| self.rand_update()).collect();
        if self.r.chance(self.p.selfup) {
            let s = self.self_update();
            if self.p.self_last {
                v.push(s);
            } else {
                let k = self.r.below(v.len() + 1);
                v.insert(k, s);
                if self.r.chance(10) {
                    let s = self.self_update();
                    v.push(s);
                }
            }
        }
        v
    }
    pub fn rand_item(&mut self) -> Vec<u8> {
        let l = *self.r.pick(self.p.pay);
        let k = if self.r.chance(4) {
            0xEE
        } else {
            self.r.below(self.keys) as u8
        };
        self.ver = self.ver.wrapping_add(self.r.below(2) as u8);
        let v = if self.r.chance(75) {
            self.ver
        } else {
            self.r.below(self.ver as usize + 1) as u8
        };
        let mut d = vec![k, v];
        while d.len() < l {
            d.push(self.r.next() as u8);
        }
        d.truncate(l.max(1));
        d
    }
    pub fn rand_kind(&mut self, src: &Id) -> Message<Id> {
        let (ptgt, ppn) = self.i.probing.unwrap_or((*src, 0));
        let pn = match self.r.below(10) {
            0..=6 => ppn,
            7 => ppn.wrapping_add(1),
            8 => ppn.wrapping_sub(1),
            _ => self.r.next() as u8,
        };
        let third = if self.r.chance(4) {
            self.i.me()
        } else if self.r.chance(40) {
            ptgt
        } else {
            self.rand_id()
        };
        match self.r.weighted(&[14, 14, 7, 7, 7, 10, 5, 4, 14, 4, 4]) {
            0 => Message::Ping(pn),
            1 => Message::Ack(pn),
            2 => Message::PingReq {
                target: third,
                probe_number: pn,
            },
            3 => Message::IndirectPing {
                origin: third,
                probe_number: pn,
            },
            4 => Message::IndirectAck {
                target: third,
                probe_number: pn,
            },
            5 => Message::ForwardedAck {
                origin: third,
                probe_number: pn,
            },
            6 => Message::Announce,
            7 => Message::Feed,
            8 => Message::Gossip,
            9 => Message::Broadcast,
            _ => Message::TurnUndead,
        }
    }
    pub fn rand_src(&mut self) -> (Id, u16) {
        let r = self.r.below(100);
        let c = if r < 25 {
            self.i.probing.map(|x| x.0)
        } else if r < 35 && !self.i.helpers.is_empty() {
            Some(*self.r.pick(&self.i.helpers.clone()))
        } else if r < 70 {
            self.known_active().map(|m| *m.id())
        } else if r < 82 {
            self.known().map(|m| *m.id())
        } else {
            None
        };
        let mut id = c.unwrap_or_else(|| self.rand_id());
        if self.p.tight && self.r.chance(40) {
            // a sender with a short identity
            for _ in 0..4 {
                let x = match self.known_active().map(|m| *m.id()) {
                    Some(x) if self.r.chance(70) => x,
                    _ => self.rand_id(),
                };
                if x.pad < id.pad {
                    id = x;
                }
            }
        }
        if id.addr == self.i.me().addr {
            id = self.rand_id();
        }
        if self.r.chance(4) {
            id = Id::new(self.var, id.addr, id.gen.saturating_add(1));
        }
        let known = self
            .i
            .mem
            .iter()
            .find(|m| m.id().addr == id.addr && m.id().gen == id.gen);
        let inc = match known {
            Some(m) => {
                let k = m.incarnation();
                match self.r.below(10) {
                    0 => k.saturating_add(1),
                    1 => k.saturating_sub(1),
                    2 => self.rand_inc(Some(k)),
                    _ => k,
                }
            }
            None => self.rand_inc(None),
        };
        (id, inc)
    }
    pub fn datagram(&mut self) -> Vec<u8> {
        let (src, inc) = self.rand_src();
        let message = self.rand_kind(&src);
        self.datagram_from(src, inc, message)
    }
    pub fn datagram_from(&mut self, src: Id, inc: u16, message: Message<Id>) -> Vec<u8> {
        let mut src = src;
        let mut dst = self.i.me();
        if self.r.chance(self.p.wrong) {
            match self.r.below(5) {
                0 => dst = Id::new(self.var, dst.addr, dst.gen.wrapping_add(1)),
                1 => dst = Id::new(self.var, dst.addr, dst.gen.saturating_sub(1)),
                2 => dst = self.rand_id(),
                3 => src = dst,
                _ => src = Id::new(self.var, dst.addr, dst.gen.wrapping_add(1)),
            }
        }
        let piggy = !matches!(
            message,
            Message::Announce | Message::TurnUndead | Message::Broadcast
        );
        let h = Header {
            src,
            src_incarnation: inc,
            dst,
            message,
        };
        let ups = if piggy && !self.r.chance(5) {
            Some(self.rand_updates())
        } else if matches!(h.message, Message::TurnUndead) && !self.p.self_last && self.r.chance(5)
        {
            Some(self.rand_updates())
        } else {
            None
        };
        let mut items = vec![];
        let may = !matches!(h.message, Message::Announce);
        if may
            && (ups.is_some() || h.message == Message::Broadcast)
            && self.r.chance(if h.message == Message::Broadcast {
                90
            } else {
                self.p.items
            })
            && self.p.items > 0
        {
            for _ in 0..self.r.range(1, 4) {
                items.push(self.rand_item());
            }
        }
        let mut d = craft(self.i.codec, &h, ups.as_deref(), &items);
        if d.len() > self.i.cfg.mps && self.p.tight {
            // keep what matters most
            let me = self.i.me();
            let own: Option<Vec<_>> = ups
                .as_ref()
                .map(|u| u.iter().filter(|m| *m.id() == me).cloned().collect());
            let mut its = items.clone();
            its.truncate(1);
            d = craft(self.i.codec, &h, own.as_deref(), &its);
            if d.len() > self.i.cfg.mps {
                for i in its.iter_mut() {
                    i.truncate(2);
                }
                d = craft(self.i.codec, &h, own.as_deref(), &its);
            }
            if d.len() > self.i.cfg.mps {
                d = craft(self.i.codec, &h, own.as_deref(), &[]);
            }
        }
        if d.len() > self.i.cfg.mps {
            d = craft(self.i.codec, &h, ups.as_ref().map(|_| &[][..]), &[]);
        }
        d
    }
    /// What a healthy peer would answer to the outstanding probe
    pub fn healthy(&mut self) -> Option<Vec<u8>> {
        let (tgt, pn) = self.i.probing?;
        let me = self.i.me();
        let (src, message) = if !self.i.helpers.is_empty() && self.r.chance(60) {
            (
                *self.r.pick(&self.i.helpers.clone()),
                Message::ForwardedAck {
                    origin: tgt,
                    probe_number: pn,
                },
            )
        } else {
            (tgt, Message::Ack(pn))
        };
        let inc = self
            .i
            .mem
            .iter()
            .find(|m| m.id() == &src)
            .map(|m| m.incarnation())
            .unwrap_or(0);
        let inc = if self.r.chance(10) {
            inc.saturating_add(1)
        } else {
            inc
        };
        let h = Header {
            src,
            src_incarnation: inc,
            dst: me,
            message,
        };
        let ups = if self.r.chance(70) {
            Some(self.rand_updates())
        } else {
            None
        };
        let mut items = vec![];
        if ups.is_some() && self.r.chance(self.p.items) {
            items.push(self.rand_item());
        }
        let mut d = craft(self.i.codec, &h, ups.as_deref(), &items);
        if d.len() > self.i.cfg.mps {
            d = craft(self.i.codec, &h, None, &[]);
        }
        Some(d)
    }
    pub fn junk(&mut self) -> Vec<u8> {
        let mut d = self.datagram();
        match self.r.below(10) {
            // lengths and counts that are almost right
            7 | 8 => {
                let p = parse(self.i.codec, &d);
                if p.hdr.is_none() {
                    return d;
                }
                if p.after == 0 {
                    d.extend_from_slice(&[0, 0]);
                }
                for _ in 0..self.r.below(3) {
                    let it = self.rand_item();
                    d.extend_from_slice(&(it.len() as u16).to_be_bytes());
                    d.extend_from_slice(&it);
                }
                let l = self.r.range(0, 6);
                let claim = (l + self.r.below(6)).saturating_sub(2) as u16;
                d.extend_from_slice(&claim.to_be_bytes());
                for _ in 0..l {
                    d.push(self.r.next() as u8);
                }
            }
            9 => {
                let p = parse(self.i.codec, &d);
                if p.after >= 2 {
                    let c = u16::from_be_bytes([d[p.hl], d[p.hl + 1]]);
                    let c = match self.r.below(4) {
                        0 => c.wrapping_add(1),
                        1 => c.wrapping_sub(1),
                        2 => u16::MAX,
                        _ => self.r.below(10) as u16,
                    };
                    d[p.hl..p.hl + 2].copy_from_slice(&c.to_be_bytes());
                }
            }
            0 => {
                let k = self.r.below(d.len() + 1);
                d.truncate(k);
            }
            1 => {
                for _ in 0..self.r.range(1, 4) {
                    let k = self.r.below(d.len());
                    d[k] ^= 1 << self.r.below(8);
                }
            }
            2 => {
                for _ in 0..self.r.range(1, 5) {
                    d.push(self.r.next() as u8);
                }
            }
            3 => {
                let l = self.r.below(64);
                d = (0..l).map(|_| self.r.next() as u8).collect();
            }
            4 => {
                while d.len() <= self.i.cfg.mps.min(70_000) {
                    d.push(self.r.next() as u8);
                }
                if self.r.chance(50) {
                    d.truncate(self.i.cfg.mps);
                }
            }
            5 => {
                let k = self.r.below(d.len());
                d[k] = *self.r.pick(&[0, 1, 127, 128, 250, 251, 252, 253, 254, 255]);
            }
            _ => {
                let k = self.r.below(d.len());
                let x = self.r.next() as u8;
                d.insert(k, x);
            }
        }
        d
    }
    pub fn crafted(&mut self) -> Timer<Id> {
        let token = if self.r.chance(70) {
            // the current epoch, if a timer told us
            self.i
                .timers
                .iter()
                .rev()
                .find_map(|t| match &t.t {
                    Timer::ProbeRandomMember(k) => Some(*k),
                    _ => None,
                })
                .unwrap_or(0)
        } else {
            self.r.next() as u8
        };
        let id = if self.r.chance(5) {
            self.i.me()
        } else if self.r.chance(70) {
            self.known()
                .map(|m| *m.id())
                .unwrap_or_else(|| self.rand_id())
        } else {
            self.rand_id()
        };
        let inc = self
            .i
            .mem
            .iter()
            .find(|m| m.id() == &id)
            .map(|m| m.incarnation())
            .unwrap_or(0);
        let inc = if self.r.chance(70) {
            inc
        } else {
            self.rand_inc(Some(inc))
        };
        match self.r.below(7) {
            0 => Timer::ProbeRandomMember(token),
            1 => Timer::SendIndirectProbe {
                probed_id: id,
                token,
            },
            2 => Timer::ChangeSuspectToDown {
                member_id: id,
                incarnation: inc,
                token,
            },
            3 => Timer::PeriodicAnnounce(token),
            4 => Timer::PeriodicAnnounceDown(token),
            5 => Timer::PeriodicGossip(token),
            _ => Timer::RemoveDown(id),
        }
    }
    pub fn fire_in_order(&mut self) -> bool {
        if let Some(k) = self.i.earliest() {
            let d = self.i.timers[k].deadline;
            let late = if self.r.chance(self.p.late) {
                self.r.below(4000) as u64
            } else {
                0
            };
            self.i.now = self.i.now.max(d.saturating_add(late));
            self.i.run(Op::Fire(k));
            true
        } else {
            false
        }
    }
    pub fn mutate_cfg(&mut self) -> Cfg {
        let mut c = self.i.cfg.clone();
        if self.p.wild {
            let w = wild_cfg(&mut self.r);
            if self.r.chance(50) {
                // legal in any case
                let (pp, rtt) = (c.pp, c.rtt);
                let keep = |a: Option<(u64, usize)>, b: Option<(u64, usize)>| a.and(b);
                c = Cfg {
                    pp,
                    rtt,
                    pa: keep(c.pa, w.pa),
                    pad: keep(c.pad, w.pad),
                    pg: keep(c.pg, w.pg),
                    ..w
                };
                return c;
            }
            if self.r.chance(20) {
                return w;
            }
        }
        match self.r.below(12) {
            0 => c.fan = self.r.range(1, 6),
            1 => c.mtx = *self.r.pick(self.p.mtx),
            2 => c.s2d = *self.r.pick(&[500, 1500, 3000]),
            3 => c.rmd = *self.r.pick(&[2000, 9000]),
            4 => c.nd = !c.nd,
            5 => c.pa = None,
            6 => c.pad = None,
            7 => c.pg = None,
            8 => c.pp = c.pp.saturating_add(1),
            9 => c.rtt = c.rtt.saturating_add(1),
            10 => {
                if let Some(x) = &mut c.pg {
                    x.0 = x.0.saturating_add(10);
                    x.1 = x.1.saturating_add(1)
                } else {
                    c.pg = Some((500, 1))
                }
            }
            _ => c.mps = pick_mps(&mut self.r, &self.p),
        }
        if self.p.tight && self.r.chance(60) {
            // what a message to one of the members needs, give or take
            let dst = self
                .known_active()
                .map(|m| *m.id())
                .unwrap_or_else(|| self.rand_id());
            let third = self.rand_id();
            let me = self.i.me();
            let message = match self.r.below(4) {
                0 => Message::Ping(0),
                1 => Message::IndirectPing {
                    origin: third,
                    probe_number: 0,
                },
                _ => Message::Gossip,
            };
            let h = Header {
                src: me,
                src_incarnation: self.own_inc(),
                dst,
                message,
            };
            let n = craft(self.i.codec, &h, None, &[]).len();
            c.mps = (n + *self.r.pick(&[0, 1, 1, 1, 2, 3, 5, 9, 12, 20]))
                .saturating_sub(*self.r.pick(&[1, 1, 1, 2, 3, 5]))
                .max(2);
        }
        c
    }
    /// any identity at all
    pub fn any_id(&mut self) -> Id {
        let me = self.i.me();
        match self.r.below(6) {
            0 => me,
            1 => Id::new(self.var, me.addr, self.r.below(6) as u16).with_renew(me.renew),
            2 | 3 => self
                .known()
                .map(|m| *m.id())
                .unwrap_or(me)
                .with_renew(me.renew),
            4 => Id::new(
                self.var,
                self.r.below(8) as u32,
                *self.r.pick(&[0, 1, 2, 65534, 65535]),
            )
            .with_renew(me.renew),
            _ => self
                .rand_id()
                .with_renew(*self.r.clone().pick(&[0, 1, 2, 3, 4, 5])),
        }
    }
    pub fn api(&mut self) {
        if self.p.wild && self.r.chance(40) {
            let id = self.any_id();
            let op = match self.r.below(4) {
                0 => Op::Announce(id),
                1 => {
                    let n = self.r.range(0, 4);
                    let v = (0..n)
                        .map(|_| Member::new(self.any_id(), self.rand_inc(None), self.rand_state()))
                        .collect();
                    Op::Apply(v, self.r.chance(50))
                }
                _ => Op::ChangeId(id),
            };
            self.i.run(op);
            return;
        }
        match self.r.below(if self.p.leave { 12 } else { 7 }) {
            0..=1 => {
                let id = self
                    .known()
                    .map(|m| *m.id())
                    .filter(|i| i.addr != self.i.me().addr)
                    .unwrap_or_else(|| self.rand_id());
                self.i.run(Op::Announce(id));
            }
            2..=3 => {
                self.i.run(Op::Gossip);
            }
            4 => {
                self.i.run(Op::Broadcast);
            }
            5..=6 => {
                self.i.run(Op::Reuse);
            }
            7 => {
                self.i.run(Op::Leave);
            }
            _ => {
                if self.p.changeid {
                    let me = self.i.me();
                    let g = match self.r.below(6) {
                        0 => me.gen,
                        1 => me.gen.saturating_sub(1),
                        _ => me.gen.saturating_add(1),
                    };
                    let mut n = Id::new(self.var, me.addr, g).with_renew(me.renew);
                    // a brand-new address, which nobody else uses
                    if self.r.chance(15) {
                        n = Id::new(self.var, 200 + self.r.below(50) as u32, 1)
                            .with_renew(me.renew);
                        if self.i.mem.iter().any(|m| m.id().addr == n.addr) {
                            n = Id::new(self.var, me.addr, me.gen.saturating_add(1))
                                .with_renew(me.renew);
                        }
                    }
                    self.i.run(Op::ChangeId(n));
                } else {
                    self.i.run(Op::Reuse);
                }
            }
        }
    }
    pub fn preload(&mut self) {
        let n = self.r.range(self.p.preload.0, self.p.preload.1);
        if n == 0 {
            return;
        }
        let mut v = vec![];
        for _ in 0..n {
            let id = self.rand_id();
            v.push(Member::new(id, 0, State::Alive));
        }
        let b = self.r.chance(70);
        self.i.run(Op::Apply(v, b));
    }
    pub fn bulk(&mut self) {
        let n = *self.r.pick(if self.p.xl {
            &[40, 70, 130, 260, 300]
        } else {
            &[30, 100, 300]
        });
        let mode = self.r.below(if self.p.xl { 7 } else { 3 });
        let v: Vec<_> = (0..n)
            .map(|k| {
                let st = match mode {
                    0..=1 => self.rand_state(),
                    2 => State::Down,
                    _ => State::Alive,
                };
                Member::new(Id::new(self.var, 300 + k, 0), self.rand_inc(None), st)
            })
            .collect();
        let b = self.r.chance(70);
        self.i.run(Op::Apply(v, b));
        if self.p.xl && self.p.w_addb > 0 {
            for _ in 0..*self.r.pick(&[0, 0, 60, 300]) {
                let d = self.rand_item();
                self.i.run(Op::AddB(d));
            }
        }
    }
    /// a probe round that gets to the indirect stage and is answered by everybody
    pub fn full_round(&mut self) {
        for t in 0..2 {
            let k = self
                .i
                .pending()
                .into_iter()
                .find(|k| match self.i.timers[*k].t {
                    Timer::ProbeRandomMember(_) => t == 0,
                    Timer::SendIndirectProbe { .. } => t == 1,
                    _ => false,
                });
            let Some(k) = k else { return };
            self.i.now = self.i.now.max(self.i.timers[k].deadline);
            self.i.run(Op::Fire(k));
        }
        self.all_helpers(false);
    }
    /// every helper answers for the probe's target
    pub fn all_helpers(&mut self, some: bool) {
        let Some((tgt, pn)) = self.i.probing else {
            return;
        };
        let mut v = self.i.helpers.clone();
        self.r.shuffle(&mut v);
        if v.is_empty() {
            return;
        }
        if some && self.r.chance(30) {
            v.truncate(self.r.range(1, v.len()));
        }
        let me = self.i.me();
        for src in v {
            let inc = self
                .i
                .mem
                .iter()
                .find(|m| m.id() == &src)
                .map(|m| m.incarnation())
                .unwrap_or(0);
            let h = Header {
                src,
                src_incarnation: inc,
                dst: me,
                message: Message::ForwardedAck {
                    origin: tgt,
                    probe_number: pn,
                },
            };
            let d = craft(self.i.codec, &h, None, &[]);
            self.i.run(Op::Data(d));
        }
    }
    pub fn step(&mut self) {
        let p = &self.p;
        let w = [
            p.w_timer,
            p.w_data,
            p.w_ack,
            p.w_api,
            p.w_apply,
            p.w_addb,
            p.w_cfg,
            p.w_crafted,
            p.w_junk,
        ];
        match self.r.weighted(&w) {
            0 => {
                if self.r.chance(self.p.inorder) {
                    if !self.fire_in_order() {
                        let d = self.datagram();
                        self.i.run(Op::Data(d));
                    }
                } else if self.r.chance(self.p.dup) && !self.i.timers.is_empty() {
                    let k = self.r.below(self.i.timers.len());
                    self.i.now = self.i.now.max(self.i.timers[k].deadline);
                    self.i.run(Op::Fire(k));
                } else {
                    let v = self.i.pending();
                    if !v.is_empty() {
                        let k = *self.r.pick(&v);
                        self.i.now = self.i.now.max(self.i.timers[k].deadline);
                        self.i.run(Op::Fire(k));
                    }
                }
            }
            1 => {
                self.tick();
                let d = self.datagram();
                self.i.run(Op::Data(d));
            }
            2 => {
                self.tick();
                if self.p.xl && !self.i.helpers.is_empty() && self.r.chance(60) {
                    self.all_helpers(true);
                } else if let Some(d) = self.healthy() {
                    self.i.run(Op::Data(d));
                }
            }
            3 => {
                self.tick();
                self.api()
            }
            4 => {
                self.tick();
                let u = self.rand_updates();
                let b = self.r.chance(70);
                self.i.run(Op::Apply(u, b));
            }
            5 => {
                let d = if self.r.chance(3) {
                    vec![]
                } else if self.r.chance(3) {
                    vec![7; self.i.cfg.mps.saturating_add(1).min(200_000)]
                } else {
                    self.rand_item()
                };
                self.i.run(Op::AddB(d));
                if self.r.chance(20) {
                    self.i.run(Op::Broadcast);
                }
            }
            6 => {
                let c = self.mutate_cfg();
                self.i.run(Op::SetCfg(c));
            }
            7 => {
                let t = self.crafted();
                self.i.run(Op::Crafted(t));
            }
            _ => {
                let d = self.junk();
                self.i.run(Op::Data(d));
            }
        }
    }
    fn tick(&mut self) {
        // stay below the earliest deadline, so that in-order delivery is
        // possible
        let lim = self
            .i
            .earliest()
            .map(|k| self.i.timers[k].deadline)
            .unwrap_or(self.i.now.saturating_add(100));
        if lim > self.i.now {
            let d = self.r.below(((lim - self.i.now) as usize / 4).max(1)) as u64;
            self.i.now += d;
        }
    }
    /// Many epoch changes in a row, then whatever timers are outstanding
    pub fn wrap(&mut self) {
        let n = *self
            .r
            .pick(&[1, 2, 3, 100, 127, 128, 128, 129, 200, 254, 255, 256, 257]);
        if self.r.chance(50) {
            // leave a suspicion behind
            for _ in 0..15 {
                if self
                    .i
                    .pending()
                    .iter()
                    .any(|k| matches!(self.i.timers[*k].t, Timer::ChangeSuspectToDown { .. }))
                {
                    break;
                }
                self.fire_in_order();
            }
        }
        // epoch changes until now count too: aim at the oldest live ones
        for _ in 0..n {
            let me = self.i.me();
            if self.i.conn == 2 {
                self.i.run(Op::Reuse);
            } else if me.renew == RENEW_NONE && self.r.chance(50) {
                self.i.run(Op::Leave);
            } else {
                let id = Id::new(self.var, me.addr, me.gen.saturating_add(1)).with_renew(me.renew);
                self.i.run(Op::ChangeId(id));
            }
        }
        for _ in 0..self.r.range(0, 3) {
            let d = self.datagram();
            self.i.run(Op::Data(d));
        }
        let v = self.i.pending();
        for k in v {
            self.i.now = self.i.now.max(self.i.timers[k].deadline);
            self.i.run(Op::Fire(k));
        }
    }
    pub fn history(mut self) -> Inst {
        if self.i.opt.lite {
            self.i
                .log
                .push("{\"c\":{\"op\":\"new\"},\"res\":\"Ok\",\"out\":0}".into());
        }
        if self.r.chance(self.p.big) {
            self.bulk();
        }
        self.preload();
        if self.p.xl && self.r.chance(40) {
            self.full_round();
        }
        let n = self.r.range(self.p.steps.0, self.p.steps.1);
        let wrap_at = if self.r.chance(self.p.wrap) {
            self.r.below(n)
        } else {
            n
        };
        for s in 0..n {
            if s == wrap_at {
                self.wrap();
            }
            self.step();
            if self.i.dead {
                break;
            }
        }
        self.i
    }
}
