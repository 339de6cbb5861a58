//! One real Foca instance plus the recording of everything observable.
use crate::id::*;
use crate::util::*;
use foca::*;
use std::cell::RefCell;
use std::num::{NonZeroU8, NonZeroUsize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

use rand::{rngs::SmallRng, RngCore, SeedableRng};

/// A generator that, for some seeds, keeps returning extreme values: choices
/// and shuffles at the edges of what any generator may produce.
pub struct AnyRng {
    g: SmallRng,
    mode: u8,
}
impl AnyRng {
    pub fn new(seed: u64) -> Self {
        let mode = match seed >> 60 {
            0..=11 => 0,
            12 | 13 => 1,
            14 => 2,
            _ => 3,
        };
        AnyRng {
            g: SmallRng::seed_from_u64(seed),
            mode,
        }
    }
}
impl RngCore for AnyRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let x = self.g.next_u64();
        match (self.mode, x % 16) {
            (1, 0..=3) | (2, 0..=13) => 0,
            (1, 4..=7) | (3, 0..=13) => u64::MAX,
            _ => self.g.next_u64(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
}

pub type F = Foca<Id, AnyCodec, AnyRng, Handler>;

#[derive(Clone, Debug, PartialEq)]
pub enum Eff {
    Send(Id, Vec<u8>),
    Timer(Timer<Id>, Duration),
    Note(OwnedNotification<Id>),
}

#[derive(Default)]
pub struct Rt(pub Vec<Eff>);
impl Runtime<Id> for Rt {
    fn notify(&mut self, n: Notification<'_, Id>) {
        self.0.push(Eff::Note(n.to_owned()));
    }
    fn send_to(&mut self, to: Id, data: &[u8]) {
        self.0.push(Eff::Send(to, data.to_vec()));
    }
    fn submit_after(&mut self, t: Timer<Id>, d: Duration) {
        self.0.push(Eff::Timer(t, d));
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub pp: u64,
    pub rtt: u64,
    pub fan: usize,
    pub mtx: u8,
    pub s2d: u64,
    pub rmd: u64,
    pub mps: usize,
    pub nd: bool,
    pub pa: Option<(u64, usize)>,
    pub pad: Option<(u64, usize)>,
    pub pg: Option<(u64, usize)>,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            pp: 1000,
            rtt: 300,
            fan: 3,
            mtx: 10,
            s2d: 3000,
            rmd: 60000,
            mps: 1400,
            nd: false,
            pa: None,
            pad: None,
            pg: None,
        }
    }
}
fn pj(p: &Option<(u64, usize)>) -> String {
    match p {
        None => "[]".into(),
        Some((f, n)) => format!("[{},{}]", f, n),
    }
}
impl Cfg {
    pub fn to(&self) -> Config {
        let pp = |p: &Option<(u64, usize)>| {
            p.map(|(f, n)| PeriodicParams {
                frequency: Duration::from_millis(f),
                num_members: NonZeroUsize::new(n).unwrap(),
            })
        };
        Config {
            probe_period: Duration::from_millis(self.pp),
            probe_rtt: Duration::from_millis(self.rtt),
            num_indirect_probes: NonZeroUsize::new(self.fan).unwrap(),
            max_transmissions: NonZeroU8::new(self.mtx).unwrap(),
            suspect_to_down_after: Duration::from_millis(self.s2d),
            remove_down_after: Duration::from_millis(self.rmd),
            max_packet_size: NonZeroUsize::new(self.mps).unwrap(),
            notify_down_members: self.nd,
            periodic_announce: pp(&self.pa),
            periodic_announce_to_down_members: pp(&self.pad),
            periodic_gossip: pp(&self.pg),
        }
    }
    pub fn json(&self) -> String {
        J::obj()
            .n("pp", self.pp)
            .n("rtt", self.rtt)
            .n("fan", self.fan)
            .n("mtx", self.mtx)
            .n("s2d", self.s2d)
            .n("rmd", self.rmd)
            .n("mps", self.mps)
            .b("nd", self.nd)
            .raw("pa", &pj(&self.pa))
            .raw("pad", &pj(&self.pad))
            .raw("pg", &pj(&self.pg))
            .end()
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Data(Vec<u8>),
    /// index into Inst::timers
    Fire(usize),
    /// a timer that was never issued (C06 only)
    Crafted(Timer<Id>),
    Announce(Id),
    Gossip,
    Broadcast,
    Leave,
    ChangeId(Id),
    Reuse,
    Apply(Vec<Member<Id>>, bool),
    AddB(Vec<u8>),
    SetCfg(Cfg),
}

pub struct TimerRec {
    pub t: Timer<Id>,
    pub deadline: u64,
    pub fired: u32,
}

#[derive(Clone, Copy, Default)]
pub struct LogOpt {
    pub acc: bool,   // twin with AccumulatingRuntime
    pub act: bool,   // log iter_members every time
    pub peer: bool,  // feed every emitted datagram to a peer
    pub lite: bool,  // only operation and result (C06)
    pub nomem: bool, // never log iter_membership_state
    pub order: bool, // log mem in vector order every time
}

pub struct Inst {
    pub foca: F,
    pub twin: Option<F>,
    pub cfg: Cfg,
    pub codec: u8,
    pub now: u64,
    pub hs: Rc<RefCell<HandlerState>>,
    hs2: Rc<RefCell<HandlerState>>,
    pub inval: u8,
    pub elig: u8,
    pub accept: u8,
    pub timers: Vec<TimerRec>,
    pub mem: Vec<Member<Id>>,
    pub log: Vec<String>,
    pub header: String,
    pub opt: LogOpt,
    pub dead: bool,
    pub last: Vec<Eff>,
    pub last_res: String,
    // learned by the harness from observations, to steer generation
    pub probing: Option<(Id, u8)>,
    pub helpers: Vec<Id>,
    pub conn: u8, // 0 idle 1 active 2 defunct
    pub nact: usize,
    pub nolog: bool,
    pub own_inc: u16,
    pub ctor: (Id, Cfg, u8, u64, u8, u8, u8),
    /// every call made so far, when recording
    pub rec: Option<Vec<(Op, u64)>>,
}

pub fn st_n(s: State) -> u8 {
    match s {
        State::Alive => 0,
        State::Suspect => 1,
        State::Down => 2,
    }
}
pub fn st_of(n: u8) -> State {
    match n {
        0 => State::Alive,
        1 => State::Suspect,
        _ => State::Down,
    }
}
pub fn jid(i: &Id) -> String {
    format!("[{},{}]", i.addr, i.gen)
}
pub fn jm(m: &Member<Id>) -> String {
    format!(
        "[{},{},{},{}]",
        m.id().addr,
        m.id().gen,
        m.incarnation(),
        st_n(m.state())
    )
}
pub fn jms<'a>(it: impl IntoIterator<Item = &'a Member<Id>>) -> String {
    arr(it.into_iter().map(jm))
}
pub fn err_name(e: &Error) -> &'static str {
    match e {
        Error::DataTooBig => "DataTooBig",
        Error::NotUndead => "NotUndead",
        Error::SameIdentity => "SameIdentity",
        Error::NotConnected => "NotConnected",
        Error::IncompleteProbeCycle => "IncompleteProbeCycle",
        Error::DataFromOurselves => "DataFromOurselves",
        Error::IndirectForOurselves => "IndirectForOurselves",
        Error::MalformedPacket => "MalformedPacket",
        Error::Encode(_) => "Encode",
        Error::Decode(_) => "Decode",
        Error::CustomBroadcast(_) => "CustomBroadcast",
        Error::InvalidConfig => "InvalidConfig",
    }
}
pub fn msg_parts(m: &Message<Id>) -> (&'static str, i32, Option<Id>) {
    match m {
        Message::Ping(n) => ("ping", *n as i32, None),
        Message::Ack(n) => ("ack", *n as i32, None),
        Message::PingReq {
            target,
            probe_number,
        } => ("pingreq", *probe_number as i32, Some(*target)),
        Message::IndirectPing {
            origin,
            probe_number,
        } => ("indping", *probe_number as i32, Some(*origin)),
        Message::IndirectAck {
            target,
            probe_number,
        } => ("indack", *probe_number as i32, Some(*target)),
        Message::ForwardedAck {
            origin,
            probe_number,
        } => ("fwdack", *probe_number as i32, Some(*origin)),
        Message::Announce => ("announce", -1, None),
        Message::Feed => ("feed", -1, None),
        Message::Gossip => ("gossip", -1, None),
        Message::Broadcast => ("broadcast", -1, None),
        Message::TurnUndead => ("turnundead", -1, None),
    }
}
pub fn timer_parts(t: &Timer<Id>) -> (&'static str, i32, Option<Id>, i32) {
    match t {
        Timer::ProbeRandomMember(k) => ("probe", *k as i32, None, -1),
        Timer::SendIndirectProbe { probed_id, token } => {
            ("ind", *token as i32, Some(*probed_id), -1)
        }
        Timer::ChangeSuspectToDown {
            member_id,
            incarnation,
            token,
        } => ("s2d", *token as i32, Some(*member_id), *incarnation as i32),
        Timer::PeriodicAnnounce(k) => ("pa", *k as i32, None, -1),
        Timer::PeriodicAnnounceDown(k) => ("pad", *k as i32, None, -1),
        Timer::PeriodicGossip(k) => ("pg", *k as i32, None, -1),
        Timer::RemoveDown(id) => ("rm", -1, Some(*id), -1),
    }
}

/// Independent decomposition of a datagram
pub struct Parsed {
    pub hdr: Option<Header<Id>>,
    pub hl: usize,
    pub after: usize,
    pub cnt: i64, // -1: no count field
    pub ups: Vec<(Member<Id>, usize)>,
    pub mok: bool,
    pub items: Vec<Vec<u8>>,
    pub tok: bool,
}
pub fn parse(codec: u8, b: &[u8]) -> Parsed {
    let mut p = Parsed {
        hdr: None,
        hl: 0,
        after: 0,
        cnt: -1,
        ups: vec![],
        mok: true,
        items: vec![],
        tok: true,
    };
    let Some((h, n)) = ind_dec_header(codec, b) else {
        return p;
    };
    p.hl = n;
    let mut r = &b[n..];
    p.after = r.len();
    let is_b = h.message == Message::Broadcast;
    p.hdr = Some(h);
    if r.len() >= 2 && !is_b {
        let c = u16::from_be_bytes([r[0], r[1]]);
        r = &r[2..];
        p.cnt = c as i64;
        for _ in 0..c {
            match ind_dec_member(codec, r) {
                Some((m, n)) => {
                    p.ups.push((m, n));
                    r = &r[n..];
                }
                None => {
                    p.mok = false;
                    p.tok = false;
                    return p;
                }
            }
        }
    }
    while !r.is_empty() {
        if r.len() < 3 {
            p.tok = false;
            break;
        }
        let l = u16::from_be_bytes([r[0], r[1]]) as usize;
        if l == 0 || r.len() < 2 + l {
            p.tok = false;
            break;
        }
        p.items.push(r[2..2 + l].to_vec());
        r = &r[2 + l..];
    }
    p
}

pub fn craft(codec: u8, h: &Header<Id>, ups: Option<&[Member<Id>]>, items: &[Vec<u8>]) -> Vec<u8> {
    let mut v = ind_header(codec, h);
    if let Some(u) = ups {
        v.extend_from_slice(&(u.len() as u16).to_be_bytes());
        for m in u {
            v.extend_from_slice(&ind_member(codec, m));
        }
    }
    for i in items {
        v.extend_from_slice(&(i.len() as u16).to_be_bytes());
        v.extend_from_slice(i);
    }
    v
}

pub fn dg_fields(j: &mut J, p: &Parsed) {
    match &p.hdr {
        None => {
            j.b("hdr", false)
                .raw("src", "[]")
                .n("inc", 0)
                .raw("dst", "[]")
                .s("kind", "?")
                .n("pn", -1)
                .raw("tgt", "[]")
                .n("hl", 0)
                .n("after", 0)
                .n("cnt", -1)
                .raw("ups", "[]")
                .b("mok", false)
                .raw("items", "[]")
                .b("tok", false);
        }
        Some(h) => {
            let (k, pn, tgt) = msg_parts(&h.message);
            j.b("hdr", true)
                .raw("src", &jid(&h.src))
                .n("inc", h.src_incarnation)
                .raw("dst", &jid(&h.dst))
                .s("kind", k)
                .n("pn", pn)
                .raw("tgt", &tgt.map(|t| jid(&t)).unwrap_or("[]".into()))
                .n("hl", p.hl)
                .n("after", p.after)
                .n("cnt", p.cnt)
                .raw(
                    "ups",
                    &arr(p.ups.iter().map(|(m, l)| {
                        format!(
                            "[{},{},{},{},{}]",
                            m.id().addr,
                            m.id().gen,
                            m.incarnation(),
                            st_n(m.state()),
                            l
                        )
                    })),
                )
                .b("mok", p.mok)
                .raw("items", &arr(p.items.iter().map(|i| bytes_arr(i))))
                .b("tok", p.tok);
        }
    }
}

impl Inst {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        me: Id,
        cfg: Cfg,
        codec: u8,
        seed: u64,
        inval: u8,
        elig: u8,
        accept: u8,
        opt: LogOpt,
    ) -> Self {
        let mk = || {
            let hs = Rc::new(RefCell::new(HandlerState::default()));
            let h = Handler {
                inval,
                elig,
                accept,
                st: hs.clone(),
            };
            (
                Foca::with_custom_broadcast(me, cfg.to(), AnyRng::new(seed), AnyCodec(codec), h),
                hs,
            )
        };
        let (foca, hs) = mk();
        let (twin, hs2) = if opt.acc {
            let (a, b) = mk();
            (Some(a), b)
        } else {
            (None, hs.clone())
        };
        let header = J::obj()
            .raw("cfg", &cfg.json())
            .raw("me", &jid(&me))
            .n("ren", me.renew)
            .n("codec", codec)
            .n("var", cur_var())
            .n("inval", inval)
            .n("elig", elig)
            .n("accept", accept)
            .s("fseed", &seed.to_string())
            .end();
        let ctor = (me, cfg.clone(), codec, seed, inval, elig, accept);
        Inst {
            foca,
            twin,
            cfg,
            codec,
            now: 0,
            hs,
            hs2,
            inval,
            elig,
            accept,
            timers: vec![],
            mem: vec![],
            log: vec![],
            header,
            opt,
            dead: false,
            last: vec![],
            last_res: String::new(),
            probing: None,
            helpers: vec![],
            conn: 0,
            nact: 0,
            nolog: false,
            own_inc: 0,
            ctor,
            rec: None,
        }
    }

    pub fn me(&self) -> Id {
        *self.foca.identity()
    }

    fn exec(foca: &mut F, op: &Op, t: Option<Timer<Id>>, rt: impl Runtime<Id>) -> String {
        fn r<T>(x: std::result::Result<T, Error>) -> String {
            match x {
                Ok(_) => "Ok".into(),
                Err(e) => err_name(&e).into(),
            }
        }
        match op {
            Op::Data(d) => r(foca.handle_data(d, rt)),
            Op::Fire(_) => r(foca.handle_timer(t.unwrap(), rt)),
            Op::Crafted(t) => r(foca.handle_timer(t.clone(), rt)),
            Op::Announce(d) => r(foca.announce(*d, rt)),
            Op::Gossip => r(foca.gossip(rt)),
            Op::Broadcast => r(foca.broadcast(rt)),
            Op::Leave => r(foca.leave_cluster(rt)),
            Op::ChangeId(n) => r(foca.change_identity(*n, rt)),
            Op::Reuse => r(foca.reuse_down_identity()),
            Op::Apply(u, b) => r(foca.apply_many(u.iter().cloned(), *b, rt)),
            Op::AddB(d) => match foca.add_broadcast(d) {
                Ok(true) => "OkTrue".into(),
                Ok(false) => "OkFalse".into(),
                Err(e) => err_name(&e).into(),
            },
            Op::SetCfg(c) => r(foca.set_config(c.to())),
        }
    }

    fn op_json(&self, op: &Op) -> String {
        let mut j = J::obj();
        match op {
            Op::Data(d) => {
                j.s("op", "data").n("len", d.len());
                let p = parse(self.codec, d);
                dg_fields(&mut j, &p);
            }
            Op::Fire(i) => {
                let t = &self.timers[*i];
                let (k, tok, id, inc) = timer_parts(&t.t);
                j.s("op", "timer")
                    .s("t", k)
                    .n("tok", tok)
                    .raw("id", &id.map(|x| jid(&x)).unwrap_or("[]".into()))
                    .n("inc", inc)
                    .n("n", *i + 1)
                    .b("dup", t.fired > 0)
                    .n("dl", t.deadline);
            }
            Op::Crafted(t) => {
                let (k, tok, id, inc) = timer_parts(t);
                j.s("op", "crafted")
                    .s("t", k)
                    .n("tok", tok)
                    .raw("id", &id.map(|x| jid(&x)).unwrap_or("[]".into()))
                    .n("inc", inc);
            }
            Op::Announce(d) => {
                j.s("op", "announce").raw("id", &jid(d));
            }
            Op::Gossip => {
                j.s("op", "gossip");
            }
            Op::Broadcast => {
                j.s("op", "broadcast");
            }
            Op::Leave => {
                j.s("op", "leave");
            }
            Op::ChangeId(d) => {
                j.s("op", "changeid").raw("id", &jid(d)).n("ren", d.renew);
            }
            Op::Reuse => {
                j.s("op", "reuse");
            }
            Op::Apply(u, b) => {
                j.s("op", "apply").raw("ups", &jms(u)).b("bc", *b);
            }
            Op::AddB(d) => {
                j.s("op", "addb")
                    .raw("data", &bytes_arr(d))
                    .n("len", d.len());
            }
            Op::SetCfg(c) => {
                j.s("op", "setcfg").raw("cfg", &c.json());
            }
        }
        j.end()
    }

    /// Executes one call against the real code and records it.
    pub fn run(&mut self, op: Op) -> &str {
        if self.dead {
            return "dead";
        }
        if let Some(r) = &mut self.rec {
            r.push((op.clone(), self.now));
        }
        let opj = if self.opt.lite {
            // kept as text: it may hold numbers beyond TLC's
            quote(&format!("{op:?}").chars().take(3000).collect::<String>())
        } else if self.nolog {
            String::new()
        } else {
            self.op_json(&op)
        };
        let t = if let Op::Fire(i) = &op {
            self.timers[*i].fired += 1;
            Some(self.timers[*i].t.clone())
        } else {
            None
        };
        self.hs.borrow_mut().log.clear();
        let mut rt = Rt::default();
        let t2 = t.clone();
        let foca = &mut self.foca;
        let res = catch_unwind(AssertUnwindSafe(|| Self::exec(foca, &op, t2, &mut rt)));
        let res = match res {
            Ok(s) => s,
            Err(e) => {
                self.dead = true;
                let m = panic_text(&*e);
                if !self.nolog {
                    self.log.push(
                        J::obj()
                            .raw("c", &opj)
                            .s("res", "panic")
                            .s("msg", &m)
                            .n("now", self.now.min(1 << 30))
                            .end(),
                    );
                }
                self.last = rt.0;
                self.last_res = "panic".into();
                return "panic";
            }
        };
        // twin
        let mut accj = String::new();
        if let Some(tw) = &mut self.twin {
            let mut ar = AccumulatingRuntime::new();
            self.hs2.borrow_mut().log.clear();
            let r2 = catch_unwind(AssertUnwindSafe(|| Self::exec(tw, &op, t.clone(), &mut ar)));
            if r2.is_err() {
                self.dead = true;
                let o = opj;
                self.log.push(
                    J::obj()
                        .raw("c", &o)
                        .s("res", "panic")
                        .s("msg", "AccumulatingRuntime")
                        .n("now", self.now.min(1 << 30))
                        .end(),
                );
                self.last_res = "panic".into();
                return "panic";
            }
            let backlog = ar.backlog();
            let mut a = vec![];
            while let Some((to, b)) = ar.to_send() {
                a.push(quote(&format!("S{}.{}:{}", to.addr, to.gen, hex(&b))));
            }
            let mut b = vec![];
            while let Some((d, t)) = ar.to_schedule() {
                b.push(quote(&format!("T{:?}@{}", timer_parts(&t), d.as_nanos())));
            }
            let mut c = vec![];
            while let Some(n) = ar.to_notify() {
                c.push(quote(&format!("{:?}", n)));
            }
            let mut d1 = vec![];
            let mut d2 = vec![];
            let mut d3 = vec![];
            for e in &rt.0 {
                match e {
                    Eff::Send(to, b) => {
                        d1.push(quote(&format!("S{}.{}:{}", to.addr, to.gen, hex(b))))
                    }
                    Eff::Timer(t, d) => {
                        d2.push(quote(&format!("T{:?}@{}", timer_parts(t), d.as_nanos())))
                    }
                    Eff::Note(n) => d3.push(quote(&format!("{:?}", n))),
                }
            }
            accj = J::obj()
                .raw("as", &arr(a))
                .raw("at", &arr(b))
                .raw("an", &arr(c))
                .raw("ds", &arr(d1))
                .raw("dt", &arr(d2))
                .raw("dn", &arr(d3))
                .n("bl", backlog)
                .end();
        }
        let first_timer = self.timers.len();
        // bookkeeping
        for e in &rt.0 {
            match e {
                Eff::Timer(t, d) => self.timers.push(TimerRec {
                    t: t.clone(),
                    deadline: self
                        .now
                        .saturating_add(u64::try_from(d.as_millis()).unwrap_or(u64::MAX)),
                    fired: 0,
                }),
                Eff::Send(to, b) => {
                    if let Some((h, _)) = ind_dec_header(self.codec, b) {
                        self.own_inc = h.src_incarnation;
                        match h.message {
                            Message::Ping(n) => {
                                self.probing = Some((*to, n));
                                self.helpers.clear();
                            }
                            Message::PingReq { .. } => self.helpers.push(*to),
                            _ => {}
                        }
                    }
                }
                Eff::Note(n) => match n {
                    OwnedNotification::Active => self.conn = 1,
                    OwnedNotification::Idle => self.conn = 0,
                    OwnedNotification::Rejoin(_) => self.conn = 0,
                    OwnedNotification::Defunct => self.conn = 2,
                    _ => {}
                },
            }
        }
        if res == "Ok" {
            match &op {
                Op::ChangeId(_) | Op::Reuse => self.conn = 0,
                Op::SetCfg(c) => self.cfg = c.clone(),
                _ => {}
            }
        }
        if self.opt.lite {
            SELF.with(|x| x.set((self.me().addr, self.me().gen)));
            let _ = format!("{:?}", rt.0.last());
        }
        let newmem: Vec<Member<Id>> = self.foca.iter_membership_state().cloned().collect();
        let changed = newmem != self.mem;
        self.mem = newmem;
        self.nact = self.foca.num_members();
        if self.opt.lite {
            let mut j = J::obj();
            j.raw("c", &J::obj().s("op", op_name(&op)).end())
                .s("res", &res)
                .n("out", rt.0.len());
            self.log.push(j.end());
        } else if !self.nolog {
            let mut j = J::obj();
            j.raw("c", &opj).s("res", &res).n("now", self.now);
            let mut tn = first_timer;
            let out = arr(rt.0.iter().map(|e| match e {
                Eff::Send(to, b) => {
                    let p = parse(self.codec, b);
                    let mut j = J::obj();
                    j.s("o", "send").raw("to", &jid(to)).n("len", b.len());
                    dg_fields(&mut j, &p);
                    if self.opt.peer {
                        j.s("peer", &peer_accepts(self.codec, self.cfg.mps, to, b));
                    }
                    j.end()
                }
                Eff::Timer(t, d) => {
                    tn += 1;
                    let (k, tok, id, inc) = timer_parts(t);
                    J::obj()
                        .s("o", "timer")
                        .s("t", k)
                        .n("tok", tok)
                        .raw("id", &id.map(|x| jid(&x)).unwrap_or("[]".into()))
                        .n("inc", inc)
                        .n("after", d.as_millis())
                        .n("n", tn)
                        .end()
                }
                Eff::Note(n) => {
                    let (k, a, b) = match n {
                        OwnedNotification::MemberUp(i) => ("up", Some(i), None),
                        OwnedNotification::MemberDown(i) => ("down", Some(i), None),
                        OwnedNotification::Rename(a, b) => ("rename", Some(a), Some(b)),
                        OwnedNotification::Active => ("active", None, None),
                        OwnedNotification::Idle => ("idle", None, None),
                        OwnedNotification::Defunct => ("defunct", None, None),
                        OwnedNotification::Rejoin(i) => ("rejoin", Some(i), None),
                    };
                    J::obj()
                        .s("o", "note")
                        .s("k", k)
                        .raw("a", &a.map(jid).unwrap_or("[]".into()))
                        .raw("b", &b.map(jid).unwrap_or("[]".into()))
                        .end()
                }
            }));
            j.raw("out", &out);
            let rx = arr(self.hs.borrow().log.iter().map(|r| {
                J::obj()
                    .raw("from", &r.sender.map(|x| jid(&x)).unwrap_or("[]".into()))
                    .raw("data", &bytes_arr(&r.data))
                    .n("res", r.res)
                    .end()
            }));
            j.raw("rx", &rx);
            j.raw("me", &jid(self.foca.identity()));
            if !self.opt.nomem && (changed || self.opt.order || self.log.is_empty()) {
                j.raw("mem", &jms(&self.mem));
            }
            if self.opt.act && (!self.opt.nomem || rt.0.iter().any(|e| is_feed(self.codec, e))) {
                j.raw("act", &jms(self.foca.iter_members()));
            }
            j.n("num", self.foca.num_members())
                .n("ub", self.foca.updates_backlog())
                .n("cb", self.foca.custom_broadcast_backlog());
            if self.opt.acc {
                j.raw("acc", &accj);
            }
            self.log.push(j.end());
        }
        self.last = rt.0;
        self.last_res = res;
        &self.last_res
    }

    /// One line of the trace file
    pub fn line(&self, kind: &str, tid: u64, extra: &str) -> String {
        format!(
            "{{\"kind\":\"{}\",\"tid\":{},\"h\":{},\"ev\":[{}]{}}}",
            kind,
            tid,
            self.header,
            self.log.join(","),
            extra
        )
    }

    pub fn pending(&self) -> Vec<usize> {
        (0..self.timers.len())
            .filter(|i| self.timers[*i].fired == 0)
            .collect()
    }
    pub fn earliest(&self) -> Option<usize> {
        // ties are broken by foca's own order among timers, as documented
        self.pending().into_iter().min_by(|i, j| {
            let (a, b) = (&self.timers[*i], &self.timers[*j]);
            a.deadline
                .cmp(&b.deadline)
                .then_with(|| a.t.cmp(&b.t))
                .then(i.cmp(j))
        })
    }
}

fn op_name(op: &Op) -> &'static str {
    match op {
        Op::Data(_) => "data",
        Op::Fire(_) => "timer",
        Op::Crafted(_) => "crafted",
        Op::Announce(_) => "announce",
        Op::Gossip => "gossip",
        Op::Broadcast => "broadcast",
        Op::Leave => "leave",
        Op::ChangeId(_) => "changeid",
        Op::Reuse => "reuse",
        Op::Apply(..) => "apply",
        Op::AddB(_) => "addb",
        Op::SetCfg(_) => "setcfg",
    }
}
fn is_feed(codec: u8, e: &Eff) -> bool {
    match e {
        Eff::Send(_, b) => {
            ind_dec_header(codec, b).is_some_and(|(h, _)| h.message == Message::Feed)
        }
        _ => false,
    }
}
pub fn hex(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

/// Hands the datagram to a fresh instance with the destination identity.
pub fn peer_accepts(codec: u8, mps: usize, to: &Id, b: &[u8]) -> String {
    let cfg = Cfg {
        mps,
        ..Cfg::default()
    };
    let mut p = Inst::new(*to, cfg, codec, 7, 0, 0, 1, LogOpt::default());
    p.nolog = true;
    p.run(Op::Data(b.to_vec())).to_string()
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}
