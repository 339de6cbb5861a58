//! Sequences of calls generated from spec/Explore.tla, on the real code.
use crate::id::*;
use crate::inst::*;
use crate::Args;
use foca::*;
use serde_json::Value;
use std::io::{BufRead, Write};

fn num(v: &Value) -> u64 {
    v.as_u64().unwrap_or(0)
}
fn id(v: &Value) -> Option<Id> {
    let a = v.as_array()?;
    (a.len() == 2).then(|| Id::new(0, num(&a[0]) as u32, num(&a[1]) as u16))
}
fn member(v: &Value) -> Member<Id> {
    let a: Vec<u64> = v.as_array().unwrap().iter().map(num).collect();
    Member::new(
        Id::new(0, a[0] as u32, a[1] as u16),
        a[2] as u16,
        st_of(a[3] as u8),
    )
}
fn members(v: &Value) -> Vec<Member<Id>> {
    v.as_array()
        .map(|a| a.iter().map(member).collect())
        .unwrap_or_default()
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .map(|a| a.iter().map(|x| num(x) as u8).collect())
        .unwrap_or_default()
}
fn cfg(v: &Value) -> Cfg {
    let per = |k: &str| {
        v[k].as_array()
            .filter(|a| a.len() == 2)
            .map(|a| (num(&a[0]), num(&a[1]) as usize))
    };
    Cfg {
        pp: num(&v["pp"]),
        rtt: num(&v["rtt"]),
        fan: num(&v["fan"]) as usize,
        mtx: num(&v["mtx"]) as u8,
        s2d: num(&v["s2d"]),
        rmd: num(&v["rmd"]),
        mps: num(&v["mps"]) as usize,
        nd: v["nd"].as_bool().unwrap(),
        pa: per("pa"),
        pad: per("pad"),
        pg: per("pg"),
    }
}
fn me(v: &Value, ren: &Value) -> Id {
    id(v).unwrap().with_renew(num(ren) as u8)
}

fn data(i: &Inst, c: &Value) -> Vec<u8> {
    let mut src = id(&c["src"]).unwrap();
    let mut pn = num(&c["pn"]) as u8;
    let mut third = id(&c["tgt"]);
    let kind = c["kind"].as_str().unwrap();
    // what is a good answer depends on whom the code chose to probe
    if c["good"].as_bool() == Some(true) {
        if let Some((t, n)) = i.probing {
            pn = n;
            if kind == "ack" {
                src = t;
            } else {
                third = Some(t);
                if let Some(x) = i.helpers.first() {
                    src = *x;
                }
            }
        }
    }
    let message = match kind {
        "ping" => Message::Ping(pn),
        "ack" => Message::Ack(pn),
        "pingreq" => Message::PingReq {
            target: third.unwrap(),
            probe_number: pn,
        },
        "indping" => Message::IndirectPing {
            origin: third.unwrap(),
            probe_number: pn,
        },
        "indack" => Message::IndirectAck {
            target: third.unwrap(),
            probe_number: pn,
        },
        "fwdack" => Message::ForwardedAck {
            origin: third.unwrap(),
            probe_number: pn,
        },
        "announce" => Message::Announce,
        "feed" => Message::Feed,
        "gossip" => Message::Gossip,
        "broadcast" => Message::Broadcast,
        _ => Message::TurnUndead,
    };
    let h = Header {
        src,
        src_incarnation: num(&c["inc"]) as u16,
        dst: id(&c["dst"]).unwrap(),
        message,
    };
    let ups = members(&c["ups"]);
    let items: Vec<Vec<u8>> = c["items"]
        .as_array()
        .map(|a| a.iter().map(bytes).collect())
        .unwrap_or_default();
    let piggy = !matches!(
        h.message,
        Message::Announce | Message::TurnUndead | Message::Broadcast
    );
    craft(i.codec, &h, piggy.then_some(&ups[..]), &items)
}

fn tname(t: &Timer<Id>) -> (&'static str, Option<Id>, Option<u16>, Option<u8>) {
    match t {
        Timer::ProbeRandomMember(k) => ("probe", None, None, Some(*k)),
        Timer::SendIndirectProbe { probed_id, token } => {
            ("ind", Some(*probed_id), None, Some(*token))
        }
        Timer::ChangeSuspectToDown {
            member_id,
            incarnation,
            token,
        } => ("s2d", Some(*member_id), Some(*incarnation), Some(*token)),
        Timer::RemoveDown(id) => ("rm", Some(*id), None, None),
        Timer::PeriodicAnnounce(k) => ("pa", None, None, Some(*k)),
        Timer::PeriodicAnnounceDown(k) => ("pad", None, None, Some(*k)),
        Timer::PeriodicGossip(k) => ("pg", None, None, Some(*k)),
    }
}
/// the outstanding timer that resembles the one named most
fn timer(i: &Inst, c: &Value) -> Option<usize> {
    let want = c["t"].as_str().unwrap();
    let score = |k: usize| {
        let (_, d, inc, tok) = tname(&i.timers[k].t);
        4 * (tok == c["tok"].as_u64().map(|x| x as u8)) as u32
            + 2 * (d.map(|x| (x.addr, x.gen)) == id(&c["id"]).map(|x| (x.addr, x.gen))) as u32
            + (inc == c["inc"].as_u64().map(|x| x as u16)) as u32
    };
    i.pending()
        .into_iter()
        .filter(|k| tname(&i.timers[*k].t).0 == want)
        .max_by_key(|k| score(*k))
}

/// The properties whose monitors reconstruct a backlog know about the own
/// identity only when it comes last; the one on probe rounds wants timers in
/// order.
fn suits(prop: &str, i: &Inst, c: &Value) -> bool {
    let op = c["op"].as_str().unwrap();
    match prop {
        "C15" | "C16" => {
            let own = i.me();
            let u = members(&c["ups"]);
            u.iter()
                .rev()
                .skip(1)
                .all(|m| m.id().addr != own.addr || m.id().gen != own.gen)
        }
        "C12" => op != "timer" || timer(i, c) == i.earliest(),
        _ => true,
    }
}

pub fn run(a: &Args, prop: &str, file: &str) {
    let (_, opt) = crate::prof_for(prop);
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a.out).unwrap());
    let input = std::io::BufReader::new(std::fs::File::open(file).unwrap());
    for (t, line) in input.lines().enumerate() {
        let t = t as u64;
        if a.skip(t) {
            continue;
        }
        let line = line.unwrap();
        let fold = line
            .bytes()
            .fold(a.seed, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
        let v: Value = serde_json::from_str(&line).unwrap();
        let h = &v["h"];
        set_var(0);
        LAW.with(|l| l.set(0));
        let mut i = Inst::new(
            me(&h["me"], &h["ren"]),
            cfg(&h["cfg"]),
            0,
            fold & !(15 << 60),
            num(&h["inval"]) as u8,
            num(&h["elig"]) as u8,
            num(&h["accept"]) as u8,
            opt,
        );
        for c in v["p"].as_array().unwrap() {
            if !suits(prop, &i, c) {
                break;
            }
            let op = match c["op"].as_str().unwrap() {
                "data" => Op::Data(data(&i, c)),
                "timer" => {
                    let Some(k) = timer(&i, c) else { continue };
                    i.now = i.now.max(i.timers[k].deadline);
                    Op::Fire(k)
                }
                "announce" => Op::Announce(id(&c["id"]).unwrap()),
                "gossip" => Op::Gossip,
                "broadcast" => Op::Broadcast,
                "leave" => Op::Leave,
                "reuse" => Op::Reuse,
                "changeid" => Op::ChangeId(me(&c["id"], &c["ren"])),
                "apply" => Op::Apply(members(&c["ups"]), c["bc"].as_bool().unwrap()),
                "addb" => Op::AddB(bytes(&c["data"])),
                _ => Op::SetCfg(cfg(&c["cfg"])),
            };
            i.run(op);
            if i.dead {
                break;
            }
        }
        if opt.lite && i.log.is_empty() {
            continue;
        }
        writeln!(f, "{}", i.line("replay", t, "")).unwrap();
    }
}
