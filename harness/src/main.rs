mod c01;
mod c14;
mod c17;
mod c18;
mod cluster;
mod codec;
mod gen;
mod id;
mod inst;
mod replay;
mod util;
use foca::*;
use gen::*;
use id::*;
use inst::*;
use std::io::Write;

#[derive(Clone)]
pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub scale: f64,
    pub only: Option<u64>,
    pub shard: (u64, u64),
    pub rest: Vec<String>,
}

impl Args {
    pub fn skip(&self, t: u64) -> bool {
        self.only.is_some_and(|o| o != t) || t % self.shard.1 != self.shard.0
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn prof_for(name: &str) -> (Prof, LogOpt) {
    let b = BASE;
    let lo = LogOpt::default();
    // the same with hundreds of members
    if let Some(base) = name.strip_suffix("XL") {
        let (p, o) = prof_for(base);
        return (
            Prof {
                xl: true,
                xlfan: if base == "C07" || base == "C15" {
                    &[1, 3, 16]
                } else {
                    &[1, 3, 16, 255, 256, 300, 300]
                },
                wild: false,
                steps: (15, 45),
                big: 100,
                wrap: 0,
                nups: p.nups.max(6),
                mps: if p.mps.len() == 1 {
                    &[1400, 1400, 500, 9000, 65535]
                } else {
                    p.mps
                },
                w_timer: p.w_timer + 20,
                ..p
            },
            o,
        );
    }
    // packets that at times are too small for some headers
    if let Some(base) = name.strip_suffix("TP") {
        let (p, o) = prof_for(base);
        return (
            Prof {
                mps: &[1400, 1400, 12, 18, 22, 26, 30, 40, 50, 60, 70, 80, 100, 120],
                vars: &[0, 1, 2, 2, 2],
                tight: true,
                w_cfg: 8,
                w_apply: p.w_apply + 12,
                w_api: p.w_api + 4,
                selfup: p.selfup + 35,
                items: if p.items > 0 { p.items + 25 } else { 0 },
                w_data: p.w_data + 20,
                wrap: 0,
                ..p
            },
            o,
        );
    }
    match name {
        "C06" => (
            Prof {
                wild: true,
                steps: (40, 400),
                mps: &[],
                mtx: &[1, 2, 3, 10, 254, 255],
                w_timer: 30,
                w_data: 35,
                w_ack: 10,
                w_api: 12,
                w_apply: 5,
                w_addb: 8,
                w_cfg: 5,
                w_crafted: 12,
                w_junk: 15,
                inorder: 50,
                dup: 40,
                selfup: 15,
                items: 30,
                wrong: 8,
                big: 3,
                wrap: 5,
                renew: &[0, 1, 1, 2, 3, 4],
                pay: &[1, 2, 3, 10, 40, 1000, 65534, 65535, 65536, 70_000],
                ..b
            },
            LogOpt {
                lite: true,
                acc: true,
                ..lo
            },
        ),
        "C01" => (
            Prof {
                gens: 4,
                w_apply: 20,
                nups: 5,
                wrap: 0,
                dup: 0,
                ..b
            },
            lo,
        ),
        "C07" => (
            Prof {
                mps: &[],
                w_cfg: 4,
                w_addb: 6,
                items: 30,
                big: 6,
                addrs: (2, 10),
                pay: &[1, 2, 3, 10, 40, 120, 600, 2000, 65533, 65535],
                mtx: &[1, 2, 3, 5, 10, 100],
                ..b
            },
            LogOpt {
                peer: true,
                act: true,
                ..lo
            },
        ),
        "C08" => (
            Prof {
                leave: true,
                dup: 8,
                selfup: 10,
                ..b
            },
            LogOpt {
                acc: true,
                act: true,
                ..lo
            },
        ),
        "C09" => (
            Prof {
                gens: 4,
                addrs: (1, 4),
                wrong: 8,
                w_apply: 12,
                items: 30,
                down: 22,
                ..b
            },
            LogOpt { act: true, ..lo },
        ),
        "C10" => (
            Prof {
                selfup: 30,
                w_apply: 10,
                addrs: (1, 4),
                ..b
            },
            lo,
        ),
        "C11" => (
            Prof {
                addrs: (1, 4),
                w_timer: 55,
                w_ack: 4,
                inorder: 75,
                dup: 25,
                down: 12,
                selfup: 4,
                incs: 0,
                wrap: 8,
                ..b
            },
            lo,
        ),
        "C12" => (
            Prof {
                addrs: (1, 6),
                inorder: 100,
                dup: 0,
                w_timer: 34,
                w_ack: 12,
                selfup: 2,
                down: 8,
                w_api: 2,
                ..b
            },
            lo,
        ),
        // many rounds with few members: the probe number wraps around
        "C12L" => (
            Prof {
                steps: (1000, 1500),
                addrs: (1, 2),
                gens: 1,
                preload: (1, 3),
                inorder: 100,
                dup: 0,
                w_timer: 50,
                w_ack: 25,
                w_data: 12,
                w_api: 0,
                w_cfg: 0,
                w_apply: 1,
                wrong: 0,
                selfup: 0,
                down: 0,
                periodic: 0,
                incs: 0,
                leave: false,
                changeid: false,
                nups: 1,
                late: 0,
                ..b
            },
            LogOpt { nomem: false, ..lo },
        ),
        "C13" => (
            Prof {
                addrs: (1, 4),
                inorder: 90,
                pure: 50,
                wrap: 12,
                dup: 0,
                w_timer: 50,
                selfup: 8,
                down: 25,
                periodic: 60,
                w_api: 7,
                w_cfg: 3,
                ..b
            },
            lo,
        ),
        "C15" => (
            Prof {
                self_last: true,
                mps: &[80, 100, 120, 160, 240, 400, 1400],
                mtx: &[1, 2, 3, 4, 7, 10, 50, 255],
                addrs: (2, 12),
                codecs: &[0, 0, 1, 2, 3],
                vars: &[0, 1],
                big: 3,
                selfup: 4,
                items: 10,
                ..b
            },
            lo,
        ),
        "C16" => (
            Prof {
                self_last: true,
                items: 60,
                w_addb: 20,
                w_api: 10,
                leave: false,
                mps: &[90, 120, 200, 400, 1400],
                mtx: &[1, 2, 3, 5, 20],
                pay: &[1, 2, 3, 5, 10, 20, 40, 80],
                codecs: &[0, 0, 1, 2],
                vars: &[0, 1],
                selfup: 2,
                wrong: 2,
                ..b
            },
            lo,
        ),
        "C17" => (
            Prof {
                steps: (30, 70),
                mps: &[60, 90, 120, 200, 1400],
                addrs: (1, 4),
                items: 30,
                w_addb: 6,
                w_api: 8,
                w_cfg: 3,
                w_junk: 3,
                inorder: 80,
                dup: 30,
                selfup: 8,
                down: 25,
                ..b
            },
            lo,
        ),
        "C19" => (
            Prof {
                periodic: 80,
                ownaddr: 25,
                addrs: (1, 4),
                selfup: 15,
                renew: &[1, 1, 4, 0],
                w_api: 8,
                ..b
            },
            lo,
        ),
        _ => (b, lo),
    }
}

fn hist(a: &Args, name: &str, n: usize) {
    let (p, opt) = prof_for(name);
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    let n = (n as f64 * a.scale) as u64;
    for t in 0..n {
        if a.skip(t) {
            continue;
        }
        if opt.lite {
            std::fs::write(format!("{}.cur", a.out), t.to_string()).unwrap();
        }
        let r = std::panic::catch_unwind(|| Gen::new(a.seed, t, &p, opt));
        match r {
            Ok(g) => writeln!(f, "{}", g.history().line("hist", t, "")).unwrap(),
            Err(_) if opt.lite => writeln!(
                f,
                "{{\"kind\":\"hist\",\"tid\":{t},\"h\":{{}},\"ev\":[{{\"c\":\"new\",\"res\":\"panic\",\"msg\":\"constructor\"}}]}}"
            )
            .unwrap(),
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

/// Every cluster size (thorough) or boundaries and a stride (quick) through
/// the configuration constructors.
fn config(a: &Args) {
    use std::num::NonZeroU32;
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    let stride: u64 = if a.thorough { 1 } else { 61 };
    let chunk: u64 = 1 << 26;
    for t in 0..64u64 {
        if a.skip(t) {
            continue;
        }
        let (from, to) = (t * chunk, (t + 1) * chunk);
        let mut bad: Option<u64> = None;
        let mut n = 0u64;
        let try_one = |k: u64| {
            let Some(z) = NonZeroU32::new(k as u32) else {
                return true;
            };
            std::panic::catch_unwind(|| {
                let l = Config::new_lan(z);
                let w = Config::new_wan(z);
                std::hint::black_box((l, w));
            })
            .is_ok()
        };
        let mut k = from;
        while k < to {
            if !try_one(k) {
                bad = Some(k);
                break;
            }
            n += 1;
            k += if k - from < 70_000 || to - k <= 70_000 {
                1
            } else {
                stride.min(to - k)
            };
        }
        // powers of ten and of two, where the logarithms jump
        let mut p: u64 = 1;
        while p <= to {
            for b in [10u64, 2] {
                let mut x = 1u64;
                while x < to {
                    for q in x.saturating_sub(3)..=x + 3 {
                        if q >= from && q < to && bad.is_none() && !try_one(q) {
                            bad = Some(q);
                        }
                    }
                    x *= b;
                }
            }
            p = to + 1;
        }
        let e = match bad {
            None => format!("{{\"c\":{{\"op\":\"config\"}},\"res\":\"Ok\",\"out\":{n}}}"),
            Some(b) => {
                format!("{{\"c\":\"config {b}\",\"res\":\"panic\",\"msg\":\"cluster size {b}\"}}")
            }
        };
        writeln!(
            f,
            "{{\"kind\":\"config\",\"tid\":{t},\"h\":{{}},\"ev\":[{e}]}}"
        )
        .unwrap();
    }
}

/// More members than a 16-bit count can express (C07, C06)
fn big(a: &Args) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    for t in 0..4u64 {
        if a.skip(t) {
            continue;
        }
        set_var(0);
        let mps = *[1_000_000usize, 1_000_000, 65535, 200_000]
            .get(t as usize)
            .unwrap();
        let codec = [0u8, 2, 0, 2][t as usize];
        let n = [65534u32, 70_000, 66_000, 70_000][t as usize];
        let cfg = Cfg {
            mps,
            mtx: 3,
            ..Cfg::default()
        };
        let me = Id::new(0, 0, 1).with_renew(RENEW_NEXT);
        let opt = LogOpt {
            peer: true,
            act: true,
            nomem: true,
            ..LogOpt::default()
        };
        let mut i = Inst::new(me, cfg, codec, a.seed * 7 + t, 0, 0, 1, opt);
        let v: Vec<_> = (1..=n)
            .map(|k| Member::new(Id::new(0, k, 0), 0, State::Alive))
            .collect();
        i.run(Op::Apply(v, t >= 2));
        let h = Header {
            src: Id::new(0, 90_000, 0),
            src_incarnation: 0,
            dst: me,
            message: Message::Announce,
        };
        let d = craft(codec, &h, None, &[]);
        i.run(Op::Data(d));
        if t >= 2 {
            i.run(Op::Gossip);
        }
        writeln!(f, "{}", i.line("big", t, "")).unwrap();
    }
}

fn main() {
    let mut a = Args {
        seed: 1,
        thorough: false,
        out: "/dev/stdout".into(),
        scale: 1.0,
        only: None,
        shard: (0, 1),
        rest: vec![],
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--out" => a.out = it.next().unwrap(),
            "--thorough" => a.thorough = true,
            "--scale" => a.scale = it.next().unwrap().parse().unwrap(),
            "--shard" => {
                let v = it.next().unwrap();
                let (x, y) = v.split_once('/').unwrap();
                a.shard = (x.parse().unwrap(), y.parse().unwrap());
            }
            "--only" => a.only = Some(it.next().unwrap().parse().unwrap()),
            _ => a.rest.push(x),
        }
    }
    if std::env::var("FV_PANIC").is_err() {
        quiet_panics();
    }
    match a.rest[0].as_str() {
        "hist" => {
            let name = a.rest[1].clone();
            hist(
                &a,
                &name,
                a.rest.get(2).and_then(|x| x.parse().ok()).unwrap_or(300),
            )
        }
        "replay" => replay::run(&a, &a.rest[1], &a.rest[2]),
        "big" => big(&a),
        "config" => config(&a),
        "c14" => c14::rounds(
            &a,
            a.rest.get(1).and_then(|x| x.parse().ok()).unwrap_or(300),
        ),
        "c17" => c17::twins(
            &a,
            a.rest.get(1).and_then(|x| x.parse().ok()).unwrap_or(200),
        ),
        "c18" => c18::cascades(
            &a,
            a.rest.get(1).and_then(|x| x.parse().ok()).unwrap_or(2000),
        ),
        "cluster" => cluster::run(
            &a,
            &a.rest[1],
            a.rest.get(2).and_then(|x| x.parse().ok()).unwrap_or(50),
        ),
        "codec" => codec::run(
            &a,
            a.rest.get(1).and_then(|x| x.parse().ok()).unwrap_or(500),
        ),
        "c01x" => c01::exhaustive(&a),
        "c01" => c01::experiments(
            &a,
            a.rest.get(1).and_then(|x| x.parse().ok()).unwrap_or(300),
        ),
        x => {
            eprintln!("unknown driver {x}");
            std::process::exit(2)
        }
    }
}
