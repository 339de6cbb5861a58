//! C17: twin runs of recorded histories, with and without rejected inputs.
use crate::gen::*;
use crate::id::*;
use crate::inst::*;
use crate::util::*;
use crate::Args;
use foca::*;
use std::io::Write;

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

/// everything observable about the instance between two calls
fn state(i: &Inst) -> String {
    let act: Vec<_> = i.foca.iter_members().collect();
    let hs = i.hs.borrow();
    fnv(&format!(
        "{:?}|{:?}|{:?}|{}|{}|{}|{:?}",
        i.foca.identity(),
        i.mem,
        act,
        i.foca.num_members(),
        i.foca.updates_backlog(),
        i.foca.custom_broadcast_backlog(),
        hs.seen
    ))
}
/// everything observable about the last call
fn effects(i: &Inst) -> String {
    let hs = i.hs.borrow();
    let rx: Vec<_> = hs
        .log
        .iter()
        .map(|r| (r.sender, r.data.clone(), r.res))
        .collect();
    fnv(&format!(
        "{}|{:?}|{:?}|{}",
        i.last_res,
        i.last,
        rx,
        state(i)
    ))
}

fn attach(i: &mut Inst, x: &str) {
    if let Some(s) = i.log.last_mut() {
        s.pop();
        s.push(',');
        s.push_str(x);
        s.push('}');
    }
}

/// the epoch each timer was issued in, as an observer counts them
#[derive(Default)]
struct Ep {
    ep: usize,
    of: Vec<usize>,
}
impl Ep {
    fn after(&mut self, i: &Inst, op: &Op) {
        if matches!(op, Op::ChangeId(_) | Op::Reuse) && i.last_res == "Ok" {
            self.ep += 1;
        }
        for e in &i.last {
            match e {
                Eff::Timer(..) => self.of.push(self.ep),
                Eff::Note(
                    OwnedNotification::Idle
                    | OwnedNotification::Defunct
                    | OwnedNotification::Rejoin(_),
                ) => self.ep += 1,
                _ => {}
            }
        }
    }
}

/// some input that must be rejected in the current state
fn rejected(g: &mut Gen, ep: &Ep) -> Option<(Op, &'static str)> {
    let me = g.i.me();
    let codec = g.i.codec;
    let mps = g.i.cfg.mps;
    match g.r.below(16) {
        0 => {
            // well-formed but too large
            let (src, inc) = g.rand_src();
            let h = Header {
                src,
                src_incarnation: inc,
                dst: me,
                message: if g.r.chance(50) {
                    Message::Gossip
                } else {
                    Message::Ping(1)
                },
            };
            let mut ups = vec![];
            let mut items = vec![];
            loop {
                ups.push(g.rand_update());
                if g.r.chance(20) {
                    items.push(g.rand_item());
                }
                let d = craft(codec, &h, Some(&ups), &items);
                if d.len() > mps {
                    return Some((Op::Data(d), "oversize"));
                }
            }
        }
        1 => {
            let mut d = g.datagram();
            let p = parse(codec, &d);
            let k = g.r.below(p.hl.max(1));
            d.truncate(k);
            Some((Op::Data(d), "header"))
        }
        2 => {
            let mut d = g.datagram();
            let hl = parse(codec, &d).hl.max(1);
            for _ in 0..g.r.range(1, 6) {
                let k = g.r.below(hl.min(d.len()));
                d[k] = *g.r.pick(&[0, 0x7f, 0x80, 0xfb, 0xfc, 0xfd, 0xff]);
            }
            (parse(codec, &d).hdr.is_none()).then_some((Op::Data(d), "header"))
        }
        3 | 4 | 5 => {
            // valid members first, then one that does not decode
            let (src, inc) = g.rand_src();
            let pn = g.i.probing.map(|x| x.1).unwrap_or(0);
            let message = match g.r.below(8) {
                0 => Message::Ping(pn),
                1 => Message::Ack(pn),
                2 => Message::Feed,
                3 => Message::TurnUndead,
                4 => Message::Gossip,
                _ => match g.rand_kind(&src) {
                    Message::Announce | Message::Broadcast => Message::Gossip,
                    k => k,
                },
            };
            let h = Header {
                src,
                src_incarnation: inc,
                dst: me,
                message,
            };
            let mut ups: Vec<_> = (0..g.r.range(1, 4)).map(|_| g.rand_update()).collect();
            if g.r.chance(20) {
                ups.insert(0, g.self_update());
            }
            let mut d = craft(codec, &h, Some(&ups), &[]);
            let hl = parse(codec, &d).hl;
            match g.r.below(6) {
                // a count and nothing behind it
                3 => {
                    d.truncate(hl);
                    let n =
                        *g.r.pick(&[1u16, 2, 5, 255, 256, 257, 0x8000, 0xff00, u16::MAX]);
                    d.extend_from_slice(&n.to_be_bytes());
                }
                4 => {
                    let n = *g.r.pick(&[255u16, 256, 257, 0x8000, 0xff00, u16::MAX]);
                    d[hl..hl + 2].copy_from_slice(&n.to_be_bytes());
                }
                5 => {
                    let k = hl + 2 + g.r.below(d.len() - hl - 2);
                    d.truncate(k);
                }
                0 => {
                    let n = ups.len() + g.r.range(1, 3);
                    d[hl..hl + 2].copy_from_slice(&(n as u16).to_be_bytes());
                }
                1 => {
                    let k = g.r.range(1, 2);
                    d.truncate(d.len() - k);
                }
                _ => {
                    let l = d.len();
                    d[l - 1] = 0xff;
                }
            }
            (!parse(codec, &d).mok).then_some((Op::Data(d), "members"))
        }
        6 | 7 => {
            let (_, inc) = g.rand_src();
            let src = match g.r.below(4) {
                0 => me,
                1 => Id::new(g.var, me.addr, me.gen.wrapping_add(1)),
                2 => Id::new(g.var, me.addr, me.gen.wrapping_sub(1)),
                _ => Id::new(g.var, me.addr, g.r.below(6) as u16),
            };
            let message = g.rand_kind(&src);
            let piggy = !matches!(message, Message::Announce | Message::Broadcast);
            let ups = g.rand_updates();
            let h = Header {
                src,
                src_incarnation: inc,
                dst: me,
                message,
            };
            Some((
                Op::Data(craft(codec, &h, piggy.then_some(&ups[..]), &[])),
                "own",
            ))
        }
        8 => {
            let (src, inc) = g.rand_src();
            let message = if g.r.chance(50) {
                Message::Announce
            } else {
                g.rand_kind(&src)
            };
            let n = if message == Message::Announce {
                g.r.range(1, 4)
            } else {
                1
            };
            let h = Header {
                src,
                src_incarnation: inc,
                dst: me,
                message,
            };
            let mut d = craft(codec, &h, None, &[]);
            if n > 1 && g.r.chance(50) {
                let u = g.rand_updates();
                d = craft(codec, &h, Some(&u), &[]);
            } else {
                for _ in 0..n {
                    d.push(g.r.next() as u8);
                }
            }
            Some((Op::Data(d), "framing"))
        }
        9 | 10 => {
            let (src, inc) = g.rand_src();
            let message = g.rand_kind(&src);
            let dst = match g.r.below(4) {
                0 => g.rand_id(),
                1 => Id::new(g.var, me.addr, me.gen.wrapping_add(1)),
                2 => Id::new(g.var, me.addr, me.gen.wrapping_sub(1)),
                _ => g
                    .known()
                    .map(|m| *m.id())
                    .unwrap_or_else(|| Id::new(g.var, me.addr, me.gen.wrapping_add(2))),
            };
            let dst = if message == Message::Announce && dst.addr == me.addr {
                g.rand_id()
            } else {
                dst
            };
            let piggy = !matches!(
                message,
                Message::Announce | Message::Broadcast | Message::TurnUndead
            );
            let ups = g.rand_updates();
            let mut items = vec![];
            if piggy && g.r.chance(30) {
                items.push(g.rand_item());
            }
            let h = Header {
                src,
                src_incarnation: inc,
                dst,
                message,
            };
            Some((
                Op::Data(craft(codec, &h, piggy.then_some(&ups[..]), &items)),
                "dst",
            ))
        }
        11 | 12 => {
            let v: Vec<usize> = (0..g.i.timers.len())
                .filter(|k| {
                    !matches!(g.i.timers[*k].t, Timer::RemoveDown(_))
                        && (ep.ep - ep.of[*k]) % 256 != 0
                })
                .collect();
            if v.is_empty() {
                return None;
            }
            Some((Op::Fire(*g.r.pick(&v)), "timer"))
        }
        13 => {
            if g.i.conn == 2 {
                return Some((Op::ChangeId(me), "api"));
            }
            Some((
                if g.r.chance(50) {
                    Op::Reuse
                } else {
                    Op::ChangeId(me)
                },
                "api",
            ))
        }
        14 => {
            let mut c = Cfg {
                fan: g.r.range(1, 6),
                mtx: g.r.range(1, 20) as u8,
                s2d: 77,
                rmd: 99,
                mps: g.r.range(20, 3000),
                nd: !g.i.cfg.nd,
                ..g.i.cfg.clone()
            };
            match g.r.below(6) {
                0 => c.pp += 1,
                1 => c.rtt += 1,
                2 => c.rtt -= 1,
                3 if c.pa.is_none() => c.pa = Some((100, 2)),
                4 if c.pad.is_none() => c.pad = Some((100, 2)),
                5 if c.pg.is_none() => c.pg = Some((100, 2)),
                _ => c.pp -= 1,
            }
            if g.r.chance(50) {
                c.pa = None;
                c.pg = None;
                c.pp = g.i.cfg.pp + 5;
            }
            Some((Op::SetCfg(c), "api"))
        }
        _ => {
            let d = match g.r.below(4) {
                0 => vec![],
                1 => vec![1; mps + 1],
                2 => vec![2; 65536],
                _ => {
                    let mut d = g.rand_item();
                    d.resize(mps + g.r.range(1, 30), 3);
                    d
                }
            };
            Some((Op::AddB(d), "api"))
        }
    }
}

pub fn twins(a: &Args, n: usize) {
    let (p, opt) = crate::prof_for("C17");
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    for t in 0..n as u64 {
        if a.skip(t) {
            continue;
        }
        let mut g = Gen::new(a.seed ^ 0xC17, t, &p, opt);
        g.i.nolog = true;
        g.i.rec = Some(vec![]);
        let mut refs: Vec<String> = vec![];
        // the base history
        g.preload();
        let steps = g.r.range(p.steps.0, p.steps.1);
        // digests need one entry per call: replay the recording once more
        for _ in 0..steps {
            g.step();
            if g.i.dead {
                break;
            }
        }
        let rec = g.i.rec.take().unwrap();
        let c = g.i.ctor.clone();
        let mk = || Inst::new(c.0, c.1.clone(), c.2, c.3, c.4, c.5, c.6, opt);
        {
            let mut i = mk();
            i.nolog = true;
            for (op, now) in &rec {
                i.now = *now;
                i.run(op.clone());
                refs.push(if i.dead { "panic".into() } else { effects(&i) });
            }
        }
        // 0: nothing inserted, 1: one, 2: some, 3: before every call
        for variant in 0..4u64 {
            let mut i = mk();
            i.opt.order = false;
            let pct = match variant {
                0 => 0,
                1 => 0,
                2 => 20,
                _ => 100,
            };
            let mut r = Rg::sub(a.seed ^ 0x17C17, t * 4 + variant);
            let at = if variant == 1 {
                r.below(rec.len().max(1))
            } else {
                usize::MAX
            };
            i.rec = None;
            let mut tw = Gen {
                r,
                p: p.clone(),
                i,
                var: g.var,
                a: g.a,
                me_addr: g.me_addr,
                ver: 0,
                keys: 4,
            };
            let mut ep = Ep::default();
            'hist: for (k, (op, now)) in rec.iter().enumerate() {
                let mut ins = if k == at { 1 } else { 0 };
                if pct > 0 && tw.r.chance(pct) {
                    ins = tw.r.range(1, 3);
                }
                for _ in 0..ins {
                    let Some((o, cl)) = rejected(&mut tw, &ep) else {
                        continue;
                    };
                    let s0 = state(&tw.i);
                    let keep = (tw.i.probing, tw.i.helpers.clone(), tw.i.conn, tw.i.own_inc);
                    tw.i.run(o);
                    if tw.i.dead {
                        break 'hist;
                    }
                    let s1 = state(&tw.i);
                    let x = format!("\"ins\":true,\"cl\":\"{cl}\",\"d0\":\"{s0}\",\"d1\":\"{s1}\"");
                    attach(&mut tw.i, &x);
                    if tw.i.last.iter().any(|e| matches!(e, Eff::Timer(..))) {
                        // indices no longer match; already a violation
                        break 'hist;
                    }
                    (tw.i.probing, tw.i.helpers, tw.i.conn, tw.i.own_inc) = keep;
                }
                tw.i.now = *now;
                if let Op::Fire(x) = op {
                    if *x >= tw.i.timers.len() {
                        break;
                    }
                }
                tw.i.run(op.clone());
                if tw.i.dead {
                    break;
                }
                ep.after(&tw.i, op);
                let d = effects(&tw.i);
                let x = format!(
                    "\"ins\":false,\"cl\":\"\",\"d0\":\"{}\",\"d1\":\"{d}\"",
                    refs[k]
                );
                attach(&mut tw.i, &x);
            }
            writeln!(f, "{}", tw.i.line("c17", t * 4 + variant, "")).unwrap();
        }
    }
}
