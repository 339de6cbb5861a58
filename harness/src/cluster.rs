//! Discrete-event simulation of clusters of real instances: a clock, latencies,
//! timers fired on time (ties in foca's order), and injected faults.  Only what
//! is worth judging is logged: state changes, notifications, errors, faults.
use crate::id::*;
use crate::inst::*;
use crate::util::*;
use crate::Args;
use foca::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

#[derive(Clone, Debug)]
pub enum Act {
    /// i announces to j
    Join(usize, usize),
    Crash(usize),
    Leave(usize),
    /// members of the mask on one side, the others on the other
    Split(u32),
    Heal,
    /// i is made to believe that j is down
    FalseDown(usize, usize),
    /// i hears that it is suspected, at its incarnation plus so many
    Accuse(usize, u16),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum When {
    At(u64),
    /// before the k-th event after the cluster formed
    Event(u64),
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub n: usize,
    pub cfg: Cfg,
    pub codec: u8,
    pub var: u8,
    pub seed: u64,
    pub renew: Vec<u8>,
    pub lat: (u64, u64),
    /// latency shape: 0 uniform, 1 one slow link, 2 near the maximum, 3 constant
    pub shape: u8,
    pub acts: Vec<(When, Act)>,
    /// event counting starts here
    pub formed: u64,
    /// datagram number (after `formed`) which is lost
    pub drop: Option<u64>,
    pub end: u64,
    /// how long to go on after the last act (0: until `end`)
    pub tail: u64,
    pub style: String,
    /// packets hold the whole cluster
    pub fits: bool,
}

pub struct Out {
    pub log: Vec<String>,
    pub events: u64,
    pub datagrams: u64,
    pub maxlat: u64,
    pub total: u64,
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct TKey(u64, Timer<Id>, usize);

struct Sim<'a> {
    s: &'a Scn,
    v: Vec<Inst>,
    up: Vec<bool>,
    timers: Vec<BTreeSet<TKey>>,
    taken: Vec<usize>,
    net: BTreeMap<(u64, u64, u64), (usize, Id, Vec<u8>)>,
    seq: u64,
    now: u64,
    split: Option<u32>,
    log: Vec<String>,
    r: Rg,
    sent: u64,
    lost: bool,
    mems: Vec<BTreeMap<u32, (u16, u16, u8)>>,
    left: Vec<bool>,
    total: u64,
}

fn note_json(n: &OwnedNotification<Id>) -> String {
    let (k, a, b) = match n {
        OwnedNotification::MemberUp(i) => ("up", Some(i), None),
        OwnedNotification::MemberDown(i) => ("down", Some(i), None),
        OwnedNotification::Rename(a, b) => ("rename", Some(a), Some(b)),
        OwnedNotification::Active => ("active", None, None),
        OwnedNotification::Idle => ("idle", None, None),
        OwnedNotification::Defunct => ("defunct", None, None),
        OwnedNotification::Rejoin(i) => ("rejoin", Some(i), None),
    };
    J::obj()
        .s("k", k)
        .raw("a", &a.map(jid).unwrap_or("[]".into()))
        .raw("b", &b.map(jid).unwrap_or("[]".into()))
        .end()
}

impl<'a> Sim<'a> {
    fn latency(&mut self, from: usize, to: usize) -> u64 {
        let (a, b) = self.s.lat;
        match self.s.shape {
            1 if (from + to) % 3 == 0 => b,
            2 => self.r.range((a + 3 * b) as usize / 4, b as usize) as u64,
            3 => b,
            _ => self.r.range(a as usize, b as usize) as u64,
        }
    }

    fn call(&mut self, i: usize, op: Op, what: &str, kind: &str, from: &str) {
        self.total += 1;
        self.v[i].now = self.now;
        let before = self.v[i].me();
        self.v[i].run(op);
        let me = self.v[i].me();
        let out = std::mem::take(&mut self.v[i].last);
        // new timers
        for k in self.taken[i]..self.v[i].timers.len() {
            let t = &self.v[i].timers[k];
            self.timers[i].insert(TKey(t.deadline, t.t.clone(), k));
        }
        self.taken[i] = self.v[i].timers.len();
        let mut notes = vec![];
        let mut sends: Vec<String> = vec![];
        // who is told that this instance is down
        let mut told: Vec<String> = vec![];
        for e in out {
            match e {
                Eff::Note(n) => notes.push(note_json(&n)),
                Eff::Timer(..) => {}
                Eff::Send(to, b) => {
                    let kd = ind_dec_header(self.s.codec, &b)
                        .map(|h| msg_parts(&h.0.message).0)
                        .unwrap_or("?");
                    sends.push(format!("[{},{},\"{}\"]", to.addr, to.gen, kd));
                    if self.left[i]
                        && parse(self.s.codec, &b)
                            .ups
                            .iter()
                            .any(|u| *u.0.id() == before && u.0.state() == State::Down)
                    {
                        told.push(to.addr.to_string());
                    }
                    let j = to.addr as usize;
                    let mut lost = false;
                    if self.now >= self.s.formed {
                        if self.s.drop == Some(self.sent) {
                            lost = true;
                            self.lost = true;
                            let d = J::obj()
                                .n("t", self.now)
                                .s("op", "drop")
                                .n("i", i)
                                .n("to", j)
                                .s("kind", kd)
                                .end();
                            self.log.push(d);
                        }
                        self.sent += 1;
                    }
                    if let Some(m) = self.split {
                        lost |= (m >> i) & 1 != (m >> j) & 1;
                    }
                    if j >= self.v.len() {
                        lost = true;
                    }
                    let l = if lost { 0 } else { self.latency(i, j) };
                    let tie = self.r.next();
                    if !lost {
                        self.seq += 1;
                        self.net.insert((self.now + l, tie, self.seq), (i, to, b));
                    }
                }
            }
        }
        let mut new = BTreeMap::new();
        for m in &self.v[i].mem {
            new.insert(m.id().addr, (m.id().gen, m.incarnation(), st_n(m.state())));
        }
        let mut ch = vec![];
        for (a, x) in &new {
            if self.mems[i].get(a) != Some(x) {
                ch.push(format!("[{},{},{},{}]", a, x.0, x.1, x.2));
            }
        }
        for a in self.mems[i].keys() {
            if !new.contains_key(a) {
                ch.push(format!("[{a},0,0,3]"));
            }
        }
        self.mems[i] = new;
        let res = self.v[i].last_res.clone();
        let always = what == "api"
            || kind == "turnundead"
            || (self.left[i] && (what == "data" || !sends.is_empty()));
        if always || !ch.is_empty() || !notes.is_empty() || res != "Ok" || me != before {
            self.log.push(
                J::obj()
                    .n("t", self.now)
                    .s("op", what)
                    .n("i", i)
                    .s("kind", kind)
                    .raw("from", from)
                    .s("res", &res)
                    .raw("was", &jid(&before))
                    .raw("me", &jid(&me))
                    .raw("ch", &arr(ch))
                    .raw("notes", &arr(notes))
                    .raw("to", &arr(sends.into_iter()))
                    .raw("told", &arr(told.into_iter()))
                    .end(),
            );
        }
    }

    fn act(&mut self, a: &Act) {
        let mut j = J::obj();
        j.n("t", self.now);
        match a {
            Act::Join(i, to) => {
                j.s("op", "join").n("i", i).n("to", to);
                self.log.push(j.end());
                let d = self.v[*to].me();
                self.call(*i, Op::Announce(d), "api", "announce", "[]");
            }
            Act::Crash(i) => {
                if !self.up[*i] {
                    return;
                }
                j.s("op", "crash").n("i", i);
                self.up[*i] = false;
                self.timers[*i].clear();
                self.log.push(j.end());
            }
            Act::Leave(i) => {
                if !self.up[*i] || self.left[*i] {
                    return;
                }
                j.s("op", "leaving").n("i", i);
                self.log.push(j.end());
                self.left[*i] = true;
                self.call(*i, Op::Leave, "api", "leave", "[]");
            }
            Act::Split(m) => {
                j.s("op", "split").raw(
                    "side",
                    &arr((0..self.s.n).map(|i| ((m >> i) & 1).to_string())),
                );
                self.split = Some(*m);
                self.log.push(j.end());
                // what is in flight between the sides is lost
                self.net
                    .retain(|_, (f, to, _)| (m >> *f) & 1 == (m >> to.addr) & 1);
            }
            Act::Heal => {
                self.split = None;
                j.s("op", "heal");
                self.log.push(j.end());
            }
            Act::Accuse(i, d) => {
                if !self.up[*i] {
                    return;
                }
                let id = self.v[*i].me();
                let inc = self
                    .v
                    .iter()
                    .flat_map(|x| x.mem.iter())
                    .filter(|m| *m.id() == id)
                    .map(|m| m.incarnation())
                    .max();
                j.s("op", "accuse").n("i", i);
                self.log.push(j.end());
                let m = Member::new(
                    id,
                    inc.unwrap_or(0).saturating_add(*d).min(60_000),
                    State::Suspect,
                );
                self.call(*i, Op::Apply(vec![m], true), "api", "apply", "[]");
            }
            Act::FalseDown(i, v) => {
                j.s("op", "false").n("i", i).n("who", v);
                self.log.push(j.end());
                let id = self.v[*v].me();
                let inc = self.v[*i]
                    .mem
                    .iter()
                    .find(|m| m.id().addr == id.addr)
                    .map(|m| m.incarnation())
                    .unwrap_or(0);
                self.call(
                    *i,
                    Op::Apply(vec![Member::new(id, inc, State::Down)], true),
                    "api",
                    "apply",
                    "[]",
                );
            }
        }
    }
}

pub fn simulate(s: &Scn) -> Out {
    set_var(s.var);
    LAW.with(|l| l.set(0));
    let mut r = Rg::new(s.seed);
    let v: Vec<Inst> = (0..s.n)
        .map(|i| {
            let me = Id::new(s.var, i as u32, 0).with_renew(s.renew[i]);
            let seed = r.next() & !(15 << 60);
            let mut x = Inst::new(me, s.cfg.clone(), s.codec, seed, 0, 0, 1, LogOpt::default());
            x.nolog = true;
            x
        })
        .collect();
    let n = s.n;
    let mut m = Sim {
        s,
        v,
        up: vec![true; n],
        timers: (0..n).map(|_| BTreeSet::new()).collect(),
        taken: vec![0; n],
        net: BTreeMap::new(),
        seq: 0,
        now: 0,
        split: None,
        log: vec![],
        r,
        sent: 0,
        lost: false,
        mems: vec![BTreeMap::new(); n],
        left: vec![false; n],
        total: 0,
    };
    let mut events = 0u64;
    let mut at: Vec<(u64, Act)> = s
        .acts
        .iter()
        .filter_map(|(w, a)| {
            if let When::At(t) = w {
                Some((*t, a.clone()))
            } else {
                None
            }
        })
        .collect();
    at.sort_by_key(|x| x.0);
    let mut at = at.into_iter().peekable();
    let mut idx: Vec<(u64, Act)> = s
        .acts
        .iter()
        .filter_map(|(w, a)| {
            if let When::Event(t) = w {
                Some((*t, a.clone()))
            } else {
                None
            }
        })
        .collect();
    idx.sort_by_key(|x| x.0);
    let mut idx = idx.into_iter().peekable();
    let mut formed = false;
    let mut end = s.end;
    let mut closing = false;
    loop {
        if s.tail > 0
            && !closing
            && formed
            && at.peek().is_none()
            && idx.peek().is_none()
            && (s.drop.is_none() || m.lost)
        {
            closing = true;
            end = end.min(m.now + s.tail);
        }
        let tm = (0..n)
            .filter_map(|i| m.timers[i].first().map(|k| (k.0, i)))
            .min_by_key(|x| x.0)
            .map(|x| x.0);
        let tn = m.net.keys().next().map(|k| k.0);
        let ta = at.peek().map(|x| x.0);
        let t = [tm, tn, ta].into_iter().flatten().min();
        let Some(t) = t else { break };
        if !formed && t >= s.formed {
            formed = true;
            m.log
                .push(J::obj().n("t", s.formed).s("op", "formed").end());
        }
        if t > end {
            break;
        }
        m.now = t;
        if ta == Some(t) {
            let (_, a) = at.next().unwrap();
            m.act(&a);
            continue;
        }
        if formed {
            let mut any = false;
            while idx.peek().is_some_and(|x| x.0 == events) {
                let (_, a) = idx.next().unwrap();
                m.act(&a);
                any = true;
            }
            events += 1;
            if any {
                continue;
            }
        }
        // everything due now, in any order among instances
        let due: Vec<usize> = (0..n)
            .filter(|i| m.timers[*i].first().is_some_and(|k| k.0 == t))
            .collect();
        let k = due.len() + usize::from(tn == Some(t));
        let c = m.r.below(k);
        if c < due.len() {
            let i = due[c];
            let TKey(_, _, k) = m.timers[i].pop_first().unwrap();
            let kind = timer_parts(&m.v[i].timers[k].t).0;
            m.call(i, Op::Fire(k), "timer", kind, "[]");
        } else {
            let (_, (_f, to, b)) = m.net.pop_first().unwrap();
            let i = to.addr as usize;
            if !m.up[i] {
                continue;
            }
            let h = ind_dec_header(s.codec, &b);
            let kind = h.as_ref().map(|h| msg_parts(&h.0.message).0).unwrap_or("?");
            // for another identity of this instance: log as such
            let kind = if kind == "turnundead" && h.as_ref().is_some_and(|h| h.0.dst != m.v[i].me())
            {
                "turnundead-old"
            } else {
                kind
            };
            let from = h.as_ref().map(|h| jid(&h.0.src)).unwrap_or("[]".into());
            m.call(i, Op::Data(b), "data", kind, &from);
        }
        if m.v.iter().any(|x| x.dead) {
            break;
        }
    }
    m.now = end;
    // what each instance lists as active at the end, as iter_members has it
    let act = arr((0..n).map(|i| {
        if m.v[i].dead {
            "[]".into()
        } else {
            let mut a: Vec<&Member<Id>> = m.v[i].foca.iter_members().collect();
            a.sort_by_key(|x| x.id().addr);
            arr(a.iter().map(|x| jid(x.id())))
        }
    }));
    m.log
        .push(J::obj().n("t", end).s("op", "end").raw("act", &act).end());
    Out {
        log: m.log,
        events,
        datagrams: m.sent,
        maxlat: s.lat.1,
        total: m.total,
    }
}

fn line(tid: u64, s: &Scn, o: &Out) -> String {
    let h = J::obj()
        .n("n", s.n)
        .raw("cfg", &s.cfg.json())
        .raw("ren", &arr(s.renew.iter().map(|x| x.to_string())))
        .n("lat", s.lat.1)
        .n("formed", s.formed)
        .n("end", s.end)
        .s("style", &s.style)
        .b("fits", s.fits)
        .n("calls", o.total)
        .n("datagrams", o.datagrams)
        .s("scn", &format!("{s:?}"))
        .end();
    format!(
        "{{\"kind\":\"cluster\",\"tid\":{tid},\"h\":{h},\"ev\":[{}]}}",
        o.log.join(",")
    )
}

/// joins far enough apart for everybody to have met before the next one
fn spaced(r: &mut Rg, n: usize, pp: u64, style: u8) -> (Vec<(When, Act)>, u64) {
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut t = r.below(50) as u64;
    let mut acts = vec![];
    for k in 1..n {
        let to = order[r.below(k)];
        acts.push((When::At(t), Act::Join(order[k], to)));
        t += match style {
            0 => 2 * (k as u64 + 1) * pp + r.below(pp as usize) as u64,
            1 => r.below(2 * pp as usize) as u64,
            _ => r.below(pp as usize / 20) as u64,
        };
    }
    (acts, t)
}

fn feed_len(s: &Scn) -> usize {
    let id = |a| Id::new(s.var, a, 0);
    let h = Header {
        src: id(0),
        src_incarnation: u16::MAX,
        dst: id(1),
        message: Message::Feed,
    };
    let m: usize = (0..s.n as u32)
        .map(|a| ind_member(s.codec, &Member::new(id(a), u16::MAX, State::Alive)).len())
        .sum();
    ind_header(s.codec, &h).len() + 2 + m
}

fn base(r: &mut Rg, n: usize, big: bool) -> Scn {
    let pp = *r.pick(&[1000u64, 1500]);
    // probe_rtt < probe_period
    let rtt = match r.below(4) {
        0 => pp / 3,
        1 => pp / 2,
        2 => pp / 5,
        _ => pp * 9 / 10,
    };
    let mut per = |f: &[u64], n: usize| {
        if r.chance(40) {
            Some((*r.pick(f), r.range(1, n)))
        } else {
            None
        }
    };
    let pg = per(&[200, 500], 3);
    let pa = per(&[2 * pp, 5000], 2);
    let cfg = Cfg {
        pp,
        rtt,
        fan: r.range(1, 4),
        mtx: r.range(1, 10) as u8,
        s2d: 3 * pp,
        rmd: 1_000_000_000,
        mps: 1400,
        nd: r.chance(50),
        pa,
        pad: None,
        pg,
    };
    let codec = *r.pick(&[0u8, 0, 1, 2]);
    let var = *r.pick(&[0u8, 0, 1]);
    let max = rtt / 4 - 1;
    let lat = (
        *r.pick(&[0, 1, max / 2]),
        if big {
            max
        } else {
            *r.pick(&[1, max / 2, max]).max(&1)
        },
    );
    let lat = (lat.0.min(lat.1), lat.1);
    Scn {
        n,
        cfg,
        codec,
        var,
        seed: r.next(),
        renew: (0..n).map(|_| *r.pick(&[0u8, 1])).collect(),
        lat,
        shape: r.below(4) as u8,
        acts: vec![],
        formed: 0,
        drop: None,
        end: 0,
        tail: 0,
        style: String::new(),
        fits: true,
    }
}

fn c02(r: &mut Rg, t: u64, thorough: bool) -> Scn {
    let nmax = if thorough { 12 } else { 8 };
    let n = if r.chance(50) {
        r.range(2, 4)
    } else {
        r.range(2, nmax)
    };
    let mut s = base(r, n, false);
    let mut style = *r.pick(&[0u8, 0, 0, 1, 2]);
    // the known finding, always among the runs
    if t < 40 {
        s = base(r, 6, false);
        s.cfg.mtx = 1;
        s.cfg.pa = None;
        s.cfg.pg = None;
        style = 2;
    }
    let n = s.n;
    let fl = feed_len(&s);
    s.cfg.mps = match r.below(4) {
        0 => fl,
        1 => fl + r.below(60),
        2 if t >= 40 => {
            s.fits = false;
            r.range((fl / 2 + 20).min(fl - 1), fl - 1)
        }
        _ => 1400,
    };
    let (acts, t) = spaced(r, n, s.cfg.pp, style);
    s.acts = acts;
    s.formed = t;
    s.style = ["spaced", "any", "burst"][style as usize].to_string();
    let bound = if style == 0 {
        2 * n as u64 + 3
    } else {
        6 * n as u64 + 12
    };
    s.end = t + (bound + 3) * s.cfg.pp;
    s
}

/// joined, and everybody has met everybody
fn formed(r: &mut Rg, n: usize, nmtx: (usize, usize)) -> Scn {
    let mut s = base(r, n, false);
    s.cfg.mtx = r.range(nmtx.0, nmtx.1) as u8;
    let (acts, t) = spaced(r, n, s.cfg.pp, 0);
    s.acts = acts;
    let calm = (2 * n as u64 + 3) * s.cfg.pp;
    s.formed = t + calm;
    // members that have refuted suspicions before
    if r.chance(50) {
        for _ in 0..r.range(1, 2 * n) {
            let d = *r.pick(&[0u16, 0, 1, 2, 300, 20_000]);
            s.acts.push((
                When::At(s.formed + r.below(calm as usize) as u64),
                Act::Accuse(r.below(n), d),
            ));
        }
        s.formed += 2 * calm;
    }
    s
}

fn c03(r: &mut Rg, thorough: bool) -> Scn {
    let n = if r.chance(60) {
        r.range(2, 4)
    } else {
        r.range(2, if thorough { 9 } else { 6 })
    };
    let mut s = formed(r, n, (1, 10));
    let pp = s.cfg.pp;
    s.cfg.s2d = *r.pick(&[pp / 2, pp, 2 * pp, 3 * pp, 5 * pp]);
    if r.chance(20) {
        s.cfg.pad = Some((2 * pp, 2));
    }
    let mut who: Vec<usize> = (0..n).collect();
    r.shuffle(&mut who);
    let k = if r.chance(50) { 1 } else { r.range(1, n - 1) };
    let window = 8 * n * n;
    let at = r.below(window) as u64;
    let style = r.below(3);
    for i in who.into_iter().take(k) {
        let e = match style {
            0 => at,
            1 => at + r.below(30) as u64,
            _ => r.below(window) as u64,
        };
        if r.chance(60) {
            s.acts.push((When::Event(e), Act::Crash(i)));
        } else {
            s.acts.push((When::Event(e), Act::Leave(i)));
            // whoever could renew its identity is gone after leaving
            if s.renew[i] != 0 {
                s.acts.push((When::Event(e + 1), Act::Crash(i)));
            }
        }
    }
    s.tail = (2 * n as u64 + 1) * pp + s.cfg.s2d + 3 * pp;
    s.end = 1 << 40;
    s.style = "faults".into();
    s
}

/// every `stride`-th datagram of a window is lost, one per run
fn c04(r: &mut Rg, thorough: bool) -> Scn {
    let n = if r.chance(60) {
        r.range(2, 4)
    } else {
        r.range(2, if thorough { 9 } else { 6 })
    };
    let mut s = formed(r, n, (1, 10));
    let pp = s.cfg.pp;
    s.cfg.s2d = *r.pick(&[3 * pp, 4 * pp, 6 * pp]);
    // an indirect probe takes up to four more latencies after probe_rtt
    s.style = "indirect".into();
    if s.cfg.rtt + 4 * s.lat.1 >= pp {
        if n > 4 {
            s.cfg.rtt = pp / 2;
            s.lat.1 = s.lat.1.min(s.cfg.rtt / 4 - 1);
            s.lat.0 = s.lat.0.min(s.lat.1);
        } else {
            // too late: suspected, and the news has to reach the suspect
            s.style = "late".into();
            s.cfg.mtx = 10;
            s.cfg.s2d = 6 * pp;
        }
    }
    if r.chance(30) {
        s.cfg.pad = Some((2 * pp, 2));
    }
    // a rotation of everybody takes 2n - 1 rounds of at least two datagrams each
    s.drop = Some(r.below(5 * n * n + 6) as u64);
    s.tail = (2 * n as u64 + 1) * pp + s.cfg.s2d + 3 * pp;
    s.end = 1 << 40;
    s
}

/// partitions that last until both sides gave up on each other, then heal
fn c05(r: &mut Rg, thorough: bool) -> Scn {
    let n = if r.chance(60) {
        r.range(3, 4)
    } else {
        r.range(3, if thorough { 8 } else { 6 })
    };
    let mut s = formed(r, n, (1, 10));
    let pp = s.cfg.pp;
    s.cfg.rtt = s.cfg.rtt.min(pp / 2);
    s.lat.1 = s.lat.1.min(s.cfg.rtt / 4 - 1);
    s.lat.0 = s.lat.0.min(s.lat.1);
    s.cfg.s2d = *r.pick(&[pp, 3 * pp]);
    s.cfg.nd = true;
    s.cfg.pad = Some((
        *r.pick(&[pp, 2 * pp, 5 * pp, 10 * pp, 20 * pp]),
        r.range(1, 3),
    ));
    s.renew = (0..n).map(|_| *r.pick(&[1u8, 1, 1, 4])).collect();
    let pad = s.cfg.pad.unwrap().0;
    let t = s.formed + r.below(4 * pp as usize) as u64;
    let recover = (3 * n as u64 + 15) * pad + (2 * n as u64 + 2) * pp + s.cfg.s2d;
    let heal;
    if r.chance(25) {
        let i = r.below(n);
        let j = (i + r.range(1, n - 1)) % n;
        s.acts.push((When::At(t), Act::FalseDown(i, j)));
        s.style = "false".into();
        heal = t;
    } else {
        let mut t = t;
        // sometimes again, by members that have renewed their identities before
        let times = if r.chance(25) { 2 } else { 1 };
        let mut h = t;
        for k in 0..times {
            let m = r.range(1, (1 << n) - 2) as u32;
            s.acts.push((When::At(t), Act::Split(m)));
            h = t + (2 * n as u64 + 2) * pp + s.cfg.s2d + r.below(3 * pad as usize) as u64;
            s.acts.push((When::At(h), Act::Heal));
            if k + 1 < times {
                t = h + recover + r.below(4 * pp as usize) as u64;
            }
        }
        heal = h;
        s.style = "split".into();
    }
    s.end = heal + recover;
    s
}

pub fn run(a: &Args, which: &str, n: usize) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    for t in 0..n as u64 {
        if a.skip(t) {
            continue;
        }
        let mut r = Rg::sub(a.seed ^ 0xC1057E4, t);
        let s = match which {
            "C02" => c02(&mut r, t, a.thorough),
            "C04" => c04(&mut r, a.thorough),
            "C05" => c05(&mut r, a.thorough),
            "C03" => c03(&mut r, a.thorough),
            _ => panic!("cluster {which}"),
        };
        let o = simulate(&s);
        writeln!(f, "{}", line(t, &s, &o)).unwrap();
    }
}
