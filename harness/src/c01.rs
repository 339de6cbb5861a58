//! C01: orders and multiplicities of delivery, state exchange, re-application.
use crate::gen::*;
use crate::id::*;
use crate::inst::*;
use crate::util::*;
use crate::Args;
use foca::*;
use std::io::Write;

fn mk(me: Id, seed: u64, codec: u8) -> Inst {
    let mut i = Inst::new(
        me,
        Cfg {
            mtx: 3,
            ..Cfg::default()
        },
        codec,
        seed,
        0,
        0,
        1,
        LogOpt::default(),
    );
    i.nolog = true;
    i
}
fn dead(i: &Inst, x: &str) -> Option<String> {
    if i.dead {
        Some(format!("{{\"x\":\"{x}\",\"res\":\"panic\"}}"))
    } else {
        None
    }
}

/// Every sequence of up to `len` updates about one address, one fresh
/// instance each.
pub fn exhaustive(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    let len = if a.thorough { 4 } else { 3 };
    set_var(0);
    let mut uni = vec![];
    for g in 0..2u16 {
        for inc in [0u16, 1, u16::MAX] {
            for s in [State::Alive, State::Suspect, State::Down] {
                uni.push(Member::new(Id::new(0, 1, g), inc, s));
            }
        }
    }
    let n = uni.len();
    let total = n.pow(len as u32);
    let me = Id::new(0, 0, 1).with_renew(RENEW_NEXT);
    let mut batch = vec![];
    let mut tid = 0u64;
    for k in 0..total {
        if k % 200 == 0 {
            tid = (k / 200) as u64;
        }
        if a.skip(tid) {
            continue;
        }
        let mut x = k;
        let seq: Vec<_> = (0..len)
            .map(|_| {
                let r = x % n;
                x /= n;
                uni[r].clone()
            })
            .collect();
        let mut i = mk(me, a.seed.wrapping_add(k as u64), 0);
        let mut views = vec![];
        for u in &seq {
            i.run(Op::Apply(vec![u.clone()], k % 2 == 0));
            views.push(jms(&i.mem));
        }
        batch.push(dead(&i, "seq").unwrap_or_else(|| {
            format!(
                "{{\"x\":\"seq\",\"res\":\"Ok\",\"ups\":{},\"mems\":[{}]}}",
                jms(&seq),
                views.join(",")
            )
        }));
        if k % 200 == 199 || k + 1 == total {
            let h = i.header.clone();
            writeln!(
                f,
                "{{\"kind\":\"seq\",\"tid\":{},\"h\":{},\"ev\":[{}]}}",
                tid,
                h,
                batch.join(",")
            )
            .unwrap();
            batch.clear();
        }
    }
}

/// Delivers `order` (indexes into ups) to a fresh instance.
fn deliver(r: &mut Rg, i: &mut Inst, ups: &[Member<Id>], order: &[usize]) {
    let me = i.me();
    let neutral = Id::new(cur_var(), 99, 0);
    let mut k = 0;
    while k < order.len() {
        let n = r.range(1, order.len() - k);
        let chunk: Vec<_> = order[k..k + n].iter().map(|x| ups[*x].clone()).collect();
        k += n;
        match r.below(4) {
            0 => {
                let kind = match r.below(4) {
                    0 => Message::Gossip,
                    1 => Message::Feed,
                    2 => Message::Ack(0),
                    _ => Message::Ping(1),
                };
                let h = Header {
                    src: neutral,
                    src_incarnation: 0,
                    dst: me,
                    message: kind,
                };
                let d = craft(i.codec, &h, Some(&chunk), &[]);
                if d.len() <= i.cfg.mps {
                    i.run(Op::Data(d));
                } else {
                    i.run(Op::Apply(chunk, true));
                }
            }
            1 => {
                for c in chunk {
                    i.run(Op::Apply(vec![c], r.chance(50)));
                }
            }
            2 => {
                // as the sender of a message: only Alive updates can arrive so
                for c in chunk {
                    if c.state() == State::Alive && c.id().addr != me.addr {
                        let h = Header {
                            src: *c.id(),
                            src_incarnation: c.incarnation(),
                            dst: me,
                            message: Message::Gossip,
                        };
                        let d = craft(
                            i.codec,
                            &h,
                            if r.chance(50) { Some(&[][..]) } else { None },
                            &[],
                        );
                        i.run(Op::Data(d));
                    } else {
                        i.run(Op::Apply(vec![c], true));
                    }
                }
            }
            _ => {
                i.run(Op::Apply(chunk, r.chance(50)));
            }
        }
        // timers may fire in between (probe cycles do not end here)
        if r.chance(20) {
            i.run(Op::Gossip);
        }
    }
}

fn rand_ups(r: &mut Rg, me: Id, n: usize, addrs: usize) -> Vec<Member<Id>> {
    let var = cur_var();
    let incs: [u16; 8] = [0, 0, 1, 1, 2, 32768, u16::MAX - 1, u16::MAX];
    (0..n)
        .map(|_| {
            let st = *r.pick(&[
                State::Alive,
                State::Alive,
                State::Suspect,
                State::Suspect,
                State::Down,
            ]);
            let inc = *r.pick(&incs);
            if r.chance(5) {
                let mut g = r.below(4) as u16;
                if g == me.gen {
                    g += 1;
                }
                return Member::new(Id::new(var, me.addr, g), inc, st);
            }
            let addr = 10 + r.below(addrs) as u32;
            let g = *r.pick(&[0u16, 0, 0, 1, 1, 2]);
            Member::new(Id::new(var, addr, g), inc, st)
        })
        .collect()
}

pub fn experiments(a: &Args, n: usize) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    for t in 0..n as u64 {
        if a.skip(t) {
            continue;
        }
        let mut r = Rg::sub(a.seed ^ 0xC01, t);
        set_var(r.below(3) as u8);
        LAW.with(|l| l.set(0));
        let codec = r.below(5) as u8;
        let (x, header) = if r.chance(50) {
            perms(&mut r, codec)
        } else {
            exchange(&mut r, codec, a.seed, t)
        };
        writeln!(
            f,
            "{{\"kind\":\"x\",\"tid\":{},\"h\":{},\"ev\":[{}]}}",
            t,
            header,
            x.join(",")
        )
        .unwrap();
    }
}

fn perms(r: &mut Rg, codec: u8) -> (Vec<String>, String) {
    let me = Id::new(cur_var(), r.below(3) as u32, 1).with_renew(RENEW_NEXT);
    let addrs = r.range(1, 4);
    let n = r.range(2, 10);
    let ups = rand_ups(r, me, n, addrs);
    let runs = 8;
    let mut res = vec![];
    let mut header = String::new();
    // all start from the same state, reached by some updates delivered to all
    let pre = if r.chance(40) {
        let n = r.range(1, 5);
        rand_ups(r, me, n, addrs)
    } else {
        vec![]
    };
    for run in 0..runs {
        let mut i = mk(me, r.next(), codec);
        header = i.header.clone();
        let b = r.chance(50);
        i.run(Op::Apply(pre.clone(), b));
        let mut order: Vec<usize> = (0..ups.len()).collect();
        match run {
            0 => {}
            1 => order.reverse(),
            _ => {
                for _ in 0..r.below(5) {
                    let k = r.below(ups.len());
                    order.push(k);
                }
                r.shuffle(&mut order);
            }
        }
        deliver(r, &mut i, &ups, &order);
        // the neutral sender is known everywhere
        i.run(Op::Apply(
            vec![Member::new(Id::new(cur_var(), 99, 0), 0, State::Alive)],
            true,
        ));
        let d: Vec<_> = order.iter().map(|k| ups[*k].clone()).collect();
        res.push(dead(&i, "perm").unwrap_or_else(|| {
            format!(
                "{{\"x\":\"perm\",\"res\":\"Ok\",\"pre\":{},\"set\":{},\"order\":{},\"mem\":{},\"num\":{},\"me\":{}}}",
                jms(&pre),
                jms(&ups),
                jms(&d),
                jms(&i.mem),
                i.nact,
                jid(&i.me())
            )
        }));
    }
    (res, header)
}

fn digest(i: &Inst) -> String {
    format!(
        "\"mem\":{},\"num\":{},\"me\":{},\"ub\":{}",
        jms(&i.mem),
        i.foca.num_members(),
        jid(&i.me()),
        i.foca.updates_backlog()
    )
}

fn exchange(r: &mut Rg, codec: u8, seed: u64, t: u64) -> (Vec<String>, String) {
    let var = cur_var();
    let mut res = vec![];
    // two instances with a past of their own
    let mut insts = vec![];
    for k in 0..2u64 {
        let p = Prof {
            changeid: false,
            leave: false,
            addrs: (2, 6),
            steps: (0, 60),
            big: 2,
            ..BASE
        };
        let mut g = Gen::new(seed ^ (0xE0 + k), t, &p, LogOpt::default());
        set_var(var);
        g.var = var;
        let me = Id::new(var, 3 * k as u32, g.i.me().gen).with_renew(g.i.me().renew);
        g.me_addr = me.addr;
        g.i = Inst::new(
            me,
            g.i.cfg.clone(),
            codec,
            r.next(),
            0,
            0,
            1,
            LogOpt::default(),
        );
        g.i.nolog = true;
        let i = if r.chance(70) {
            g.history()
        } else {
            let n = r.range(0, 20);
            let u = rand_ups(r, me, n, 5);
            g.i.run(Op::Apply(u, true));
            g.i
        };
        insts.push(i);
    }
    let mut b = insts.pop().unwrap();
    let mut a = insts.pop().unwrap();
    let header = a.header.clone();
    // re-applying the own full state
    for i in [&mut a, &mut b] {
        let before = digest(i);
        let s = i.mem.clone();
        let bc = r.chance(70);
        i.run(Op::Apply(s, bc));
        let notes = i
            .last
            .iter()
            .filter(|e| {
                matches!(
                    e,
                    Eff::Note(
                        OwnedNotification::MemberUp(_)
                            | OwnedNotification::MemberDown(_)
                            | OwnedNotification::Rename(..)
                    )
                )
            })
            .count();
        res.push(dead(i, "reapply").unwrap_or_else(|| {
            format!(
                "{{\"x\":\"reapply\",\"res\":\"{}\",\"before\":{{{}}},\"after\":{{{}}},\"out\":{},\"notes\":{}}}",
                i.last_res,
                before,
                digest(i),
                i.last.len(),
                notes
            )
        }));
    }
    if !a.dead && !b.dead {
        let (da, db) = (digest(&a), digest(&b));
        let (sa, sb) = (a.mem.clone(), b.mem.clone());
        let snap = r.chance(50);
        let bc = r.chance(70);
        a.run(Op::Apply(sb, bc));
        let sa2 = if snap { sa } else { a.mem.clone() };
        b.run(Op::Apply(sa2, bc));
        let ok = !a.dead && !b.dead;
        res.push(if !ok {
            "{\"x\":\"exchange\",\"res\":\"panic\"}".into()
        } else {
            format!(
                "{{\"x\":\"exchange\",\"res\":\"Ok\",\"a0\":{{{}}},\"b0\":{{{}}},\"a1\":{{{}}},\"b1\":{{{}}}}}",
                da,
                db,
                digest(&a),
                digest(&b)
            )
        });
    }
    (res, header)
}
