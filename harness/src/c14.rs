//! C14: probe rounds over stable sets of members, reached in many ways.
use crate::id::*;
use crate::inst::*;
use crate::util::*;
use crate::Args;
use foca::*;
use std::io::Write;

struct S {
    r: Rg,
    i: Inst,
    next_addr: u32,
    answer: usize, // percentage of probes answered
}

impl S {
    fn fresh(&mut self) -> Id {
        self.next_addr += 1;
        Id::new(cur_var(), self.next_addr, 1)
    }
    fn apply(&mut self, v: Vec<Member<Id>>) {
        let b = self.r.chance(50);
        self.i.run(Op::Apply(v, b));
    }
    fn msg(&mut self, src: Id, inc: u16, message: Message<Id>, ups: &[Member<Id>]) {
        let h = Header {
            src,
            src_incarnation: inc,
            dst: self.i.me(),
            message,
        };
        let d = craft(self.i.codec, &h, Some(ups), &[]);
        self.i.run(Op::Data(d));
    }
    /// one probe round: the pending probe timer, then (usually) the indirect
    /// one, answers and unrelated traffic from known members
    fn round(&mut self) {
        let Some(k) = self
            .i
            .pending()
            .into_iter()
            .rev()
            .find(|k| matches!(self.i.timers[*k].t, Timer::ProbeRandomMember(_)))
        else {
            return;
        };
        self.i.now = self.i.now.max(self.i.timers[k].deadline);
        self.i.run(Op::Fire(k));
        self.noise();
        if self.r.chance(self.answer) {
            if let Some((id, pn)) = self.i.probing {
                let inc = self
                    .i
                    .mem
                    .iter()
                    .find(|m| *m.id() == id)
                    .map(|m| m.incarnation())
                    .unwrap_or(0);
                self.msg(id, inc, Message::Ack(pn), &[]);
            }
        }
        if self.r.chance(97) {
            let v: Vec<usize> = self
                .i
                .pending()
                .into_iter()
                .filter(|k| matches!(self.i.timers[*k].t, Timer::SendIndirectProbe { .. }))
                .collect();
            for k in v {
                self.i.now = self.i.now.max(self.i.timers[k].deadline);
                self.i.run(Op::Fire(k));
            }
        }
        self.noise();
    }
    /// traffic that does not change who is known and active
    fn noise(&mut self) {
        match self.r.below(8) {
            0 => {
                self.i.run(Op::Gossip);
            }
            1 | 2 => {
                let act: Vec<_> = self
                    .i
                    .mem
                    .iter()
                    .filter(|m| m.state() != State::Down)
                    .cloned()
                    .collect();
                if act.is_empty() {
                    return;
                }
                let m = self.r.pick(&act).clone();
                let u = self.r.pick(&act).clone();
                let inc = u.incarnation().saturating_add(self.r.below(2) as u16);
                let st = if self.r.chance(30) {
                    State::Suspect
                } else {
                    State::Alive
                };
                let ups = [Member::new(*u.id(), inc, st)];
                let message = match self.r.below(4) {
                    0 => Message::Ping(3),
                    1 => Message::Announce,
                    _ => Message::Gossip,
                };
                if message == Message::Announce {
                    let h = Header {
                        src: *m.id(),
                        src_incarnation: m.incarnation(),
                        dst: self.i.me(),
                        message,
                    };
                    let d = craft(self.i.codec, &h, None, &[]);
                    self.i.run(Op::Data(d));
                } else {
                    self.msg(*m.id(), m.incarnation(), message, &ups);
                }
            }
            3 => {
                // a Down member talks
                if let Some(m) = self
                    .i
                    .mem
                    .iter()
                    .find(|m| m.state() == State::Down)
                    .cloned()
                {
                    self.msg(*m.id(), m.incarnation(), Message::Ping(1), &[]);
                }
            }
            4 => {
                let v: Vec<usize> = self
                    .i
                    .pending()
                    .into_iter()
                    .filter(|k| {
                        matches!(
                            self.i.timers[*k].t,
                            Timer::PeriodicGossip(_)
                                | Timer::PeriodicAnnounce(_)
                                | Timer::PeriodicAnnounceDown(_)
                        )
                    })
                    .collect();
                if !v.is_empty() {
                    let k = *self.r.pick(&v);
                    self.i.run(Op::Fire(k));
                }
            }
            _ => {}
        }
    }
    fn change(&mut self) {
        let k = self.r.range(1, 3);
        for _ in 0..k {
            match self.r.below(6) {
                0 | 1 => {
                    let id = self.fresh();
                    self.apply(vec![Member::new(id, 0, State::Alive)]);
                }
                2 | 3 => {
                    let act: Vec<_> = self
                        .i
                        .mem
                        .iter()
                        .filter(|m| m.state() != State::Down)
                        .cloned()
                        .collect();
                    if act.len() > 1 {
                        let m = self.r.pick(&act).clone();
                        self.apply(vec![Member::new(*m.id(), m.incarnation(), State::Down)]);
                    }
                }
                4 => {
                    // forget a Down member
                    let v: Vec<usize> = self
                        .i
                        .pending()
                        .into_iter()
                        .filter(|k| matches!(self.i.timers[*k].t, Timer::RemoveDown(_)))
                        .collect();
                    if !v.is_empty() {
                        let k = *self.r.pick(&v);
                        self.i.run(Op::Fire(k));
                    }
                }
                _ => {
                    let id = self.fresh();
                    self.apply(vec![Member::new(id, 0, State::Down)]);
                }
            }
        }
    }
}

pub fn rounds(a: &Args, n: usize) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    for t in 0..n as u64 {
        if a.skip(t) {
            continue;
        }
        let mut r = Rg::sub(a.seed ^ 0xC14, t);
        set_var(0);
        LAW.with(|l| l.set(0));
        let per = |r: &mut Rg| {
            if r.chance(30) {
                Some((200u64, r.range(1, 3)))
            } else {
                None
            }
        };
        let (pa, pad, pg) = (per(&mut r), per(&mut r), per(&mut r));
        let cfg = Cfg {
            fan: r.range(1, 4),
            mtx: *r.pick(&[1, 3, 10]),
            rmd: 1 << 30,
            s2d: 1 << 29,
            nd: r.chance(50),
            pa,
            pad,
            pg,
            ..Cfg::default()
        };
        let me = Id::new(0, 0, 1).with_renew(RENEW_NEXT);
        let i = Inst::new(me, cfg, 0, r.next(), 0, 0, 1, LogOpt::default());
        let answer = *r.pick(&[0, 50, 90, 100]);
        let mut s = S {
            r,
            i,
            next_addr: 0,
            answer,
        };
        // layout: n actives, d Down records, in any arrival order
        let big = s.r.chance(if a.thorough { 10 } else { 4 });
        let huge = s.r.chance(1);
        let na = if huge {
            *s.r.pick(&[63, 64, 65, 70, 127, 128, 129, 200, 255, 256, 257, 300])
        } else if big {
            s.r.range(13, 40)
        } else {
            s.r.range(1, 7)
        };
        let nd = match s.r.below(4) {
            0 => 0,
            1 => s.r.range(1, 3),
            2 => na,
            _ => s.r.range(0, 12),
        };
        let mut v = vec![];
        for k in 0..na + nd {
            let id = s.fresh();
            let st = if k < na {
                if s.r.chance(20) {
                    State::Suspect
                } else {
                    State::Alive
                }
            } else {
                State::Down
            };
            v.push(Member::new(id, 0, st));
        }
        match s.r.below(3) {
            0 => {}
            1 => v.reverse(),
            _ => s.r.shuffle(&mut v),
        }
        if !huge && s.r.chance(50) {
            // arrive alive first, then die
            for m in v.clone() {
                s.apply(vec![Member::new(*m.id(), 0, State::Alive)]);
                if s.r.chance(20) {
                    s.round();
                }
            }
        }
        for c in v.chunks(if huge { 100 } else { 3 }) {
            s.apply(c.to_vec());
        }
        let phases = if huge {
            1
        } else if big {
            2
        } else {
            s.r.range(2, 5)
        };
        for ph in 0..phases {
            let act = s.i.foca.num_members();
            let rounds = (2 * act + 1) * if s.r.chance(30) { 2 } else { 1 } + s.r.below(3);
            for _ in 0..rounds {
                s.round();
            }
            if ph + 1 < phases {
                s.change();
                // rounds in between, so that the next phase starts anywhere
                for _ in 0..s.r.below(act + 2) {
                    s.round();
                    if s.r.chance(30) {
                        s.change();
                    }
                }
            }
            if s.i.dead {
                break;
            }
        }
        writeln!(f, "{}", s.i.line("c14", t, "")).unwrap();
    }
}
