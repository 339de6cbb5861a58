"""What decides each property: jobs (driver -> monitor) and design models."""

HIST_RULE = ("random single-instance histories of the real code (datagrams, timers, API calls), one TLC state per event; "
             "non-trivial when the monitored situations listed in `interesting` counters occur in the history")
LAW = ("user-supplied Identity, Codec, Runtime and BroadcastHandler are lawful (win_addr_conflict is a strict order per "
       "address, Addr of a member never changes to that of a known active member)")


def hist(p, quick, thorough=None, **kw):
    return dict(driver=["hist", p], monitor=p, n=dict(quick=quick, thorough=thorough or 8 * quick), **kw)


def xl(p, quick, thorough=None, **kw):
    """hundreds of members, updates and payloads, fan-outs past 255"""
    return dict(driver=["hist", p + "XL"], monitor=p, n=dict(quick=quick, thorough=thorough or 8 * quick), **kw)


def tp(p, quick, thorough=None, **kw):
    """packets that at times are too small for some headers"""
    return dict(driver=["hist", p + "TP"], monitor=p, n=dict(quick=quick, thorough=thorough or 8 * quick), **kw)


def ex(p):
    """every call of an alphabet in every situation of spec/Explore.tla, samples of pairs and triples"""
    return dict(driver=["replay", p], monitor=p, n=dict(quick=0, thorough=0), shards=8,
                explore=dict(quick=[(1, 1), (2, 41), (3, 4001)], thorough=[(1, 1), (2, 7), (3, 701)]))


def P(level, technique, note, jobs, rule=HIST_RULE, **kw):
    d = dict(level=level, technique=technique, note=note, jobs=jobs, rule=rule, assumptions=[LAW])
    d.update(kw)
    return d


def sim(quick=16, thorough=400):
    """random behaviours of Foca.tla, judged by eleven monitors"""
    return dict(spec="Sim.tla", cfg="Sim.cfg", simulate=dict(quick=quick, thorough=thorough),
                checks="60-call behaviours of Foca.tla, the monitors P_C01, C07-C13, C15, C16, C19 as invariants")


def net(p, quick, thorough):
    """random cluster runs of Foca.tla instances"""
    return dict(spec="SimNet.tla", cfg=f"SimNet{p}.cfg", simulate=dict(quick=quick, thorough=thorough),
                checks=f"clusters of up to 4 Foca.tla instances with a clock, latencies, timers and faults; P_{p} as an invariant")


TRACE = "TLA+ specification; TLC trace validation of recorded executions"

PROPS = {
    "C01": P("model_checking", TRACE + "; exhaustive TLC design models" + " and TLAPS proofs",
             "spec/P_C01.tla: every recorded call is the join of what was known and received; every sequence over an 18-record universe; "
             "permutations and duplications against an order-free oracle; re-application and state exchange of random instances.",
             [hist("C01", 900), dict(driver=["c01x"], monitor="C01", n=dict(quick=1, thorough=1), once=True),
              dict(driver=["c01"], monitor="C01", n=dict(quick=1500, thorough=12000)), tp("C01", 300), ex("C01")],
             interesting=["conflicts", "seqs", "perms", "merged"],
             design=[dict(spec="Knowledge.tla", cfg=dict(quick="Knowledge.cfg", thorough="KnowledgeDeep.cfg"),
                          checks="order independence, agreement, idempotence and no-op re-application for every pair of update multisets of the bounds"),
                     dict(proof=True, spec="KnowledgeProofs.tla",
                          checks="the precedence is a total order and its maximum a join: commutative, associative, idempotent (any generations, any incarnations)")]),
    "C02": P("exploration", TRACE + "; random cluster runs of the TLA+ reference machine",
             "Simulated fault-free clusters of real instances (a clock, latencies below probe_rtt/4, timers on time), joins in any order; "
             "spec/P_C02.tla judges every state change, notification and error, and discovery within a bound linear in the cluster size.",
             [dict(driver=["cluster", "C02"], monitor="C02", n=dict(quick=2000, thorough=8000))],
             rule="one history per simulated cluster; non-trivial when the run completes with every member joined",
             interesting=["spaced", "concurrent", "small"],
             design=[net("C02", 4, 60)]),
    "C03": P("exploration", TRACE + "; random cluster runs of the TLA+ reference machine",
             "Simulated clusters of real instances in which any subset crashes or leaves at any event; spec/P_C03.tla keeps the obligations "
             "(survivor, failed member, deadline) and judges every notification.",
             [dict(driver=["cluster", "C03"], monitor="C03", n=dict(quick=2500, thorough=10000))],
             rule="one history per simulated cluster; non-trivial when a crash or leave creates obligations",
             interesting=["owed"],
             design=[net("C03", 3, 45)]),
    "C04": P("exploration", TRACE + "; random cluster runs of the TLA+ reference machine",
             "Simulated clusters of real instances in which any one datagram of a probe rotation is lost; spec/P_C04.tla judges every "
             "notification and the time by which everybody is Alive again.",
             [dict(driver=["cluster", "C04"], monitor="C04", n=dict(quick=2500, thorough=10000))],
             rule="one history per simulated cluster and lost datagram; non-trivial when a datagram was lost",
             interesting=["lost"],
             design=[net("C04", 3, 45)]),
    "C05": P("exploration", TRACE + "; random cluster runs of the TLA+ reference machine",
             "Simulated clusters of real instances with every split shape, healed at any time after both sides declared each other Down, or "
             "with one live member falsely declared Down; spec/P_C05.tla judges every reaction to being told, and the time to reconverge.",
             [dict(driver=["cluster", "C05"], monitor="C05", n=dict(quick=2500, thorough=10000))],
             rule="one history per simulated cluster and partition; non-trivial when a member rejoins",
             interesting=["mutual", "rejoins", "falses"],
             design=[net("C05", 1, 12)]),
    "C06": P("exploration", TRACE,
             "Hostile histories (junk bytes, forged and stale timers, unlawful identities, absurd configurations) in builds with and "
             "without debug assertions; the constructors swept over cluster sizes; spec/P_C06.tla judges every call.",
             [hist("C06", 600, 2500, crash=True),
              hist("C06", 600, 2500, release=True, crash=True),
              xl("C06", 150, 800, crash=True),
              dict(driver=["config"], monitor="C06", n=dict(quick=1, thorough=1), release=True, once=True),
              dict(driver=["big"], monitor="C06", n=dict(quick=1, thorough=1), once=True)],
             interesting=["data"]),
    "C07": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded datagram is decomposed independently of foca, judged by spec/P_C07.tla and fed to a fresh peer.",
             [hist("C07", 700), xl("C07", 12, 48), ex("C07"), dict(driver=["big"], monitor="C07", n=dict(quick=1, thorough=1), release=True, once=True)],
             interesting=["full", "nosection", "feedrecs"],
             design=[sim()]),
    "C08": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded call is judged by spec/P_C08.tla: notification mirror, state machine, AccumulatingRuntime twin.",
             [hist("C08", 1500), xl("C08", 40), tp("C08", 300), ex("C08")], interesting=["selfdeath", "rejoins", "idle", "renames"],
             design=[sim()]),
    "C09": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded call is judged by spec/P_C09.tla: uniqueness by address, forward-only identities, discarded payloads.",
             [hist("C09", 1500), xl("C09", 40), tp("C09", 300), ex("C09")], interesting=["renames", "discarded", "ownaddr"],
             design=[sim()]),
    "C10": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded call is judged by spec/P_C10.tla: interval abstraction of the own incarnation, told-incarnations ledger, rejoin/defunct dichotomy.",
             [hist("C10", 1500), xl("C10", 40), tp("C10", 300), ex("C10")], interesting=["bumps", "deaths", "max"],
             design=[sim()]),
    "C11": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded call is judged by spec/P_C11.tla: suspicion timeout iff table, forget-timers, Down finality.",
             [hist("C11", 1500), xl("C11", 40), tp("C11", 300), ex("C11")], interesting=["fired", "forgot"],
             design=[sim()]),
    "C12": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded call is judged by spec/P_C12.tla: probe rounds, genuine evidence, relay answers.",
             [hist("C12", 1300), dict(driver=["hist", "C12L"], monitor="C12", n=dict(quick=16, thorough=100)), xl("C12", 64), tp("C12", 300), ex("C12")], interesting=["failed", "indirect", "relays", "pingreqs"],
             design=[sim()]),
    "C13": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded call is judged by spec/P_C13.tla: outstanding timers per epoch, stale timers, in-order delivery.",
             [hist("C13", 1200), xl("C13", 40), tp("C13", 300), ex("C13")], interesting=["stale", "epochs"],
             design=[sim()]),
    "C14": P("model_checking", TRACE + "; exhaustive TLC design models",
             "Probe rounds over stable member sets with Down records anywhere, judged by spec/P_C14.tla (tight gaps are counted).",
             [dict(driver=["c14"], monitor="C14", n=dict(quick=900, thorough=6000))], interesting=["tight", "withdown"],
             design=[dict(spec="RoundRobin.tla", cfg="RoundRobin.cfg", checks="every round starts at an active member; every active member within 2n-1 rounds"),
                     dict(spec="RoundRobin.tla", cfg="RoundRobinTight.cfg", expect="Tighter", checks="the bound is tight: one round fewer is violated"),
                     dict(spec="RoundRobin.tla", cfg="RoundRobinDeep.cfg", tiers=["thorough"], checks="the same with four active members")]),
    "C15": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded call is judged by spec/P_C15.tla: exact reconstruction of the backlog and its transmissions.",
             [hist("C15", 1200), xl("C15", 40), tp("C15", 300), ex("C15")], interesting=["partial", "replaced", "spent"],
             design=[sim()]),
    "C16": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded call is judged by spec/P_C16.tla: exact reconstruction of the custom broadcast backlog.",
             [hist("C16", 1200), xl("C16", 40), tp("C16", 300), ex("C16")], interesting=["sent", "invalidated", "broadcasts"],
             design=[sim()]),
    "C17": P("exploration", TRACE,
             "Twin runs of recorded histories: same calls and seed, with rejected inputs of every class inserted; spec/P_C17.tla re-derives why "
             "each is rejected and demands identical effects.",
             [dict(driver=["c17"], monitor="C17", n=dict(quick=300, thorough=2000))],
             interesting=["oversize", "header", "own", "framing", "dst", "members", "timer", "api"]),
    "C18": P("model_checking", TRACE + "; exhaustive TLC design models",
             "One datagram handed to one of two or three instances in any state of mutual knowledge, everything they send delivered in "
             "several orders with timers held; spec/P_C18.tla judges every delivery and whether the network drained.",
             [dict(driver=["c18"], monitor="C18", n=dict(quick=15000, thorough=405504))],
             rule="one history per initial situation and datagram; non-trivial when the cascade has more than two deliveries or a TurnUndead",
             interesting=["cascades", "undeads"],
             design=[dict(spec="Cascade.tla", cfg="Cascade.cfg", checks="every cascade between two Foca.tla instances ends within its bound, from every mutual knowledge and datagram"),
                     dict(spec="Cascade.tla", cfg="CascadeDeep.cfg", tiers=["thorough"], checks="the same with the whole universe")]),
    "C19": P("exploration", TRACE + "; random behaviours of the TLA+ reference machine",
             "Every recorded call is judged by spec/P_C19.tla: destination of every originated datagram.",
             [hist("C19", 1500), xl("C19", 40), tp("C19", 300), ex("C19")], interesting=["owndown"],
             design=[sim()]),
    "C20": P("exploration", TRACE,
             "Recorded calls of both bundled codecs (every configuration of bincode, 14 identity types): every amount of room, trailing data, "
             "every truncation, mutated and arbitrary bytes, and Feeds at every packet size; spec/P_C20.tla states the contract.",
             [dict(driver=["codec"], monitor="C20", n=dict(quick=900, thorough=6000)),
              dict(driver=["codec"], monitor="C20", n=dict(quick=400, thorough=3000), release=True)],
             rule="one history per codec and identity type (three values, twelve byte strings) or cluster (Feeds at every packet size)",
             interesting=["values", "partial", "junk"],
             conform=False),
}
