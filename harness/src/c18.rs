//! C18: what a single datagram sets off among a few instances while no timer
//! fires, in every combination of mutual knowledge and several orders.
use crate::id::*;
use crate::inst::*;
use crate::util::*;
use crate::Args;
use foca::*;
use std::io::Write;

#[derive(Clone, Debug)]
struct Scene {
    k: usize,
    know: Vec<Vec<u8>>, // know[i][j]
    incs: Vec<Vec<u16>>,
    bump: Vec<Option<u16>>, // suspected before, at that incarnation
    own: Vec<u8>,           // 0 as knowledge has it, 1 left, 2 told it is down
    renew: Vec<u8>,
    nd: Vec<bool>,
    fan: usize,
    mtx: u8,
    bc: bool,
    mps: usize,
    from: usize,
    to: usize,
    third: usize,
    kind: u8,
    ups: u8,   // 0 none, 1 what the sender knows, 2 a suspicion about the receiver
    order: u8, // 0 fifo, 1 lifo, 2 random
    codec: u8,
}

const KNOW: u8 = 8;
const G: u16 = 5;

fn record(k: u8, addr: u32, inc: u16) -> Option<Member<Id>> {
    let id = |g| Id::new(0, addr, g);
    Some(match k {
        0 => return None,
        1 => Member::new(id(G), inc, State::Alive),
        2 => Member::new(id(G), inc, State::Suspect),
        3 => Member::new(id(G), inc, State::Down),
        4 => Member::new(id(G - 1), inc, State::Alive),
        5 => Member::new(id(G - 1), inc, State::Down),
        6 => Member::new(id(G + 1), inc, State::Alive),
        _ => Member::new(id(G + 1), inc, State::Down),
    })
}

fn random(r: &mut Rg, k: usize) -> Scene {
    let from = r.below(k);
    let to = (from + r.range(1, k - 1)) % k;
    let biased = r.chance(50);
    let know = (0..k)
        .map(|_| {
            (0..k)
                .map(|_| {
                    if biased {
                        *r.pick(&[1, 1, 2, 3, 3, 5, 7])
                    } else {
                        r.below(KNOW as usize) as u8
                    }
                })
                .collect()
        })
        .collect();
    let incs = (0..k)
        .map(|_| {
            (0..k)
                .map(|_| *r.pick(&[0u16, 0, 0, 1, 3, 4, u16::MAX - 1, u16::MAX]))
                .collect()
        })
        .collect();
    Scene {
        k,
        know,
        incs,
        bump: (0..k)
            .map(|_| *r.pick(&[None, None, None, Some(0u16), Some(3), Some(u16::MAX - 1)]))
            .collect(),
        own: (0..k).map(|_| *r.pick(&[0u8, 0, 0, 1, 2])).collect(),
        renew: (0..k).map(|_| *r.pick(&[0u8, 1, 1, 4, 2])).collect(),
        nd: (0..k).map(|_| r.chance(75)).collect(),
        fan: r.range(1, 3),
        mtx: *r.pick(&[1, 2, 3, 10]),
        bc: r.chance(70),
        mps: *r.pick(&[60, 90, 1400, 1400]),
        from,
        to,
        third: r.below(k + 1),
        kind: r.below(11) as u8,
        ups: r.below(5) as u8,
        order: r.below(3) as u8,
        codec: *r.pick(&[0u8, 0, 2]),
    }
}

/// every pair scene, by number
fn pair(mut n: u64) -> Scene {
    let mut d = |m: u64| {
        let x = n % m;
        n /= m;
        x
    };
    let k01 = d(8) as u8;
    let k10 = d(8) as u8;
    let kind = d(11) as u8;
    let own = vec![d(3) as u8, d(3) as u8];
    let renew = vec![d(2) as u8, d(2) as u8];
    let nd = vec![d(2) == 1, d(2) == 1];
    let ups = d(3) as u8;
    let bc = d(2) == 1;
    Scene {
        k: 2,
        know: vec![vec![0, k01], vec![k10, 0]],
        incs: vec![vec![0; 2]; 2],
        bump: vec![None; 2],
        own,
        renew,
        nd,
        fan: 2,
        mtx: 2,
        bc,
        mps: 1400,
        from: 0,
        to: 1,
        third: 2,
        kind,
        ups,
        order: (k01 ^ k10) % 2,
        codec: 0,
    }
}
const PAIRS: u64 = 8 * 8 * 11 * 9 * 4 * 4 * 3 * 2;

fn run(s: &Scene, r: &mut Rg, tid: u64) -> String {
    set_var(0);
    LAW.with(|l| l.set(0));
    let mut v: Vec<Inst> = (0..s.k)
        .map(|i| {
            let cfg = Cfg {
                fan: s.fan,
                mtx: s.mtx,
                nd: s.nd[i],
                mps: s.mps,
                ..Cfg::default()
            };
            let me = Id::new(0, i as u32, G).with_renew(s.renew[i]);
            let mut x = Inst::new(
                me,
                cfg,
                s.codec,
                r.next() & !(15 << 60),
                0,
                0,
                1,
                LogOpt::default(),
            );
            x.nolog = true;
            x
        })
        .collect();
    // a bystander everybody may know, which never answers
    for i in 0..s.k {
        let mut u: Vec<Member<Id>> = (0..s.k)
            .filter(|j| *j != i)
            .filter_map(|j| record(s.know[i][j], j as u32, s.incs[i][j]))
            .collect();
        if s.third == s.k {
            u.push(Member::new(Id::new(0, 9, 0), 0, State::Alive));
        }
        v[i].run(Op::Apply(u, s.bc));
        if let Some(inc) = s.bump[i] {
            let me = v[i].me();
            v[i].run(Op::Apply(vec![Member::new(me, inc, State::Suspect)], s.bc));
        }
        match s.own[i] {
            1 => {
                v[i].run(Op::Leave);
            }
            2 => {
                let me = v[i].me();
                v[i].run(Op::Apply(vec![Member::new(me, 0, State::Down)], s.bc));
            }
            _ => {}
        }
    }
    let src = v[s.from].me();
    let dst = if s.kind == 6 || r.chance(80) {
        v[s.to].me()
    } else {
        Id::new(0, s.to as u32, G)
    };
    let third = Id::new(
        0,
        if s.third < s.k { s.third as u32 } else { 9 },
        if s.third < s.k {
            v[s.third].me().gen
        } else {
            0
        },
    );
    // somebody may be in the middle of a probe round
    let probing = r.below(5);
    if probing < 4 {
        for x in v.iter_mut() {
            for t in 0..probing {
                let k = x
                    .pending()
                    .into_iter()
                    .rev()
                    .find(|k| match x.timers[*k].t {
                        Timer::ProbeRandomMember(_) => t != 1,
                        Timer::SendIndirectProbe { .. } => t == 1,
                        _ => false,
                    });
                if let Some(k) = k {
                    x.run(Op::Fire(k));
                }
            }
        }
    }
    let pn = match r.below(3) {
        0 => v[s.to].probing.map_or(1, |x| x.1),
        _ => *r.pick(&[0, 1, 1, 2, 255]),
    };
    let third = match (r.below(2), v[s.to].probing) {
        (0, Some((t, _))) => t,
        _ => third,
    };
    let message = match s.kind {
        0 => Message::Ping(pn),
        1 => Message::Ack(pn),
        2 => Message::PingReq {
            target: third,
            probe_number: pn,
        },
        3 => Message::IndirectPing {
            origin: third,
            probe_number: pn,
        },
        4 => Message::IndirectAck {
            target: third,
            probe_number: pn,
        },
        5 => Message::ForwardedAck {
            origin: third,
            probe_number: pn,
        },
        6 => Message::Announce,
        7 => Message::Feed,
        8 => Message::Gossip,
        9 => Message::Broadcast,
        _ => Message::TurnUndead,
    };
    let piggy = !matches!(
        message,
        Message::Announce | Message::TurnUndead | Message::Broadcast
    );
    let ups: Vec<Member<Id>> = match s.ups {
        0 => vec![],
        1 => v[s.from].mem.clone(),
        2 => vec![Member::new(dst, v[s.to].own_inc, State::Suspect)],
        3 => vec![Member::new(dst, v[s.to].own_inc, State::Down)],
        _ => {
            let mut u = v[s.from].mem.clone();
            u.push(Member::new(dst, v[s.to].own_inc, State::Suspect));
            u.push(Member::new(
                dst,
                v[s.to].own_inc.saturating_add(1),
                State::Suspect,
            ));
            u
        }
    };
    let h = Header {
        src,
        src_incarnation: v[s.from].own_inc,
        dst,
        message,
    };
    let d = craft(s.codec, &h, piggy.then_some(&ups[..]), &[]);
    let mut q: Vec<(Id, Id, Vec<u8>)> = vec![(src, dst, d)];
    let limit = 3000;
    let mut log = vec![];
    let mut n = 0;
    while !q.is_empty() && n < limit {
        let k = match s.order {
            0 => 0,
            1 => q.len() - 1,
            _ => r.below(q.len()),
        };
        let (src, to, b) = q.remove(k);
        let Some(x) = v.iter_mut().find(|x| x.me().addr == to.addr) else {
            continue;
        };
        n += 1;
        x.run(Op::Data(b.clone()));
        if x.dead {
            break;
        }
        let me = x.me();
        let out: Vec<(Id, Vec<u8>)> = x
            .last
            .iter()
            .filter_map(|e| match e {
                Eff::Send(to, b) => Some((*to, b.clone())),
                _ => None,
            })
            .collect();
        let p = parse(s.codec, &b);
        let kind = p
            .hdr
            .as_ref()
            .map(|h| msg_parts(&h.message).0)
            .unwrap_or("?");
        let about = p
            .ups
            .iter()
            .filter(|u| u.0.id().addr == to.addr && u.0.state() != State::Alive)
            .count();
        log.push(
            J::obj()
                .raw("src", &jid(&src))
                .raw("to", &jid(&to))
                .s("kind", kind)
                .n("about", about)
                .s("res", &x.last_res)
                .raw("me", &jid(&me))
                .raw(
                    "out",
                    &arr(out.iter().map(|(t, b)| {
                        let k = ind_dec_header(s.codec, b)
                            .map(|h| msg_parts(&h.0.message).0)
                            .unwrap_or("?");
                        format!("[{},\"{}\"]", jid(t), k)
                    })),
                )
                .n("left", q.len() + out.len())
                .end(),
        );
        for (t, b) in out {
            q.push((me, t, b));
        }
    }
    let dead = v.iter().any(|x| x.dead);
    // long exchanges: the first and last deliveries are enough to judge
    if log.len() > 600 {
        let tail = log.split_off(log.len() - 100);
        log.truncate(450);
        log.extend(tail);
    }
    log.push(
        J::obj()
            .s("kind", "end")
            .b("drained", q.is_empty())
            .b("dead", dead)
            .n("total", n)
            .end(),
    );
    let mentions: usize = s.k * (s.k + 1);
    let h = J::obj()
        .n("k", s.k)
        .n("fan", s.fan)
        .n("mtx", s.mtx)
        .n("mentions", mentions)
        .s("scene", &format!("{s:?}"))
        .end();
    format!(
        "{{\"kind\":\"c18\",\"tid\":{tid},\"h\":{h},\"ev\":[{}]}}",
        log.join(",")
    )
}

pub fn cascades(a: &Args, n: usize) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    let n = n as u64;
    // the first half of the ids are pair scenes, spread over all of them
    // (all of them when n allows), the others random scenes of 2 or 3
    for t in 0..2 * n {
        if a.skip(t) {
            continue;
        }
        let mut r = Rg::sub(a.seed ^ 0xC18, t);
        let s = if t < n {
            if n >= PAIRS {
                if t >= PAIRS {
                    continue;
                }
                pair(t)
            } else {
                pair(r.next() % PAIRS)
            }
        } else {
            let k = if r.chance(30) { 2 } else { 3 };
            random(&mut r, k)
        };
        writeln!(f, "{}", run(&s, &mut r, t)).unwrap();
    }
}
