"""Which engines exist, and which properties each of them decides."""

BOTH = ["tokio", "agnostic"]

ENGINES = {
    # cfgs: checked exhaustively, every transition replayed; sims: (cfg, behaviours, length)
    "svc": {"kind": "replay", "module": "LspService", "driver": "svc", "runtimes": ["tokio"],
            "cfgs": ["LspService.cfg"], "sims": [("LspServiceSim.cfg", 400, 100)],
            "thorough": {"cfgs": ["LspService.cfg", "LspService3.cfg"], "reps": 5, "sims": [("LspServiceSim.cfg", 20000, 150)]}},
    "framing": {"kind": "replay", "module": "Framing", "driver": "framing", "runtimes": BOTH,
                "cfgs": ["Framing.cfg"], "reps": 6, "thorough": {"reps": 200}},
    "framinggood": {"kind": "replay", "module": "Framing", "driver": "framing", "runtimes": BOTH,
                    "cfgs": ["FramingGood.cfg"], "reps": 6, "thorough": {"reps": 200}},
    "generic": {"kind": "replay", "module": "Generic", "driver": "generic", "runtimes": BOTH,
                "cfgs": ["Generic.cfg"], "reps": 2, "sims": [("GenericSim.cfg", 1500, 100)],
                "thorough": {"cfgs": ["Generic.cfg", "GenericT.cfg"], "reps": 20, "sims": [("GenericSim.cfg", 20000, 200)]}},
    "clientside": {"kind": "replay", "module": "ClientSide", "driver": "clientside", "runtimes": ["tokio"],
                   "cfgs": ["ClientSide.cfg"], "sims": [("ClientSideSim.cfg", 400, 200)],
                   "thorough": {"cfgs": ["ClientSide.cfg", "ClientSideT.cfg"], "reps": 5, "sims": [("ClientSideSim.cfg", 20000, 200)]}},
    "clienttrace": {"kind": "record", "module": "ClientTrace", "cfg": "ClientTrace.cfg", "driver": "clienttrace",
                    "runtimes": BOTH, "reps": 100, "thorough": {"reps": 2000}},
    "races": {"kind": "record", "module": "Races", "cfg": "Races.cfg", "driver": "races", "runtimes": ["tokio"],
              "reps": 20000, "thorough": {"reps": 1000000}},
    "dispatch": {"kind": "replay", "module": "Dispatch", "driver": "dispatch", "runtimes": ["tokio"],
                 "cfgs": ["Dispatch.cfg"], "reps": 2, "thorough": {"reps": 100}},
    "jsonrpc": {"kind": "replay", "module": "JsonRpc", "driver": "jsonrpc", "runtimes": ["tokio"],
                "cfgs": ["JsonRpc.cfg"], "reps": 6, "thorough": {"reps": 300}},
    "clientapi": {"kind": "replay", "module": "ClientApi", "driver": "clientapi", "runtimes": ["tokio"],
                  "cfgs": ["ClientApi.cfg"], "reps": 100, "thorough": {"reps": 5000}},
    "progress": {"kind": "replay", "module": "Progress", "driver": "progress", "runtimes": ["tokio"],
                 "cfgs": ["Progress.cfg", "Progress1.cfg"], "reps": 2, "sims": [("ProgressSim.cfg", 500, 100)],
                 "thorough": {"cfgs": ["Progress.cfg", "Progress1T.cfg"], "reps": 100, "sims": [("ProgressSim.cfg", 20000, 200)]}},
    "slots": {"kind": "replay", "module": "Slots", "driver": "slots", "runtimes": BOTH,
              "cfgs": ["Slots.cfg"], "reps": 4, "thorough": {"reps": 100}},
    "bulk": {"kind": "replay", "module": "Bulk", "driver": "bulk", "runtimes": ["tokio"],
             "cfgs": ["Bulk.cfg"], "reps": 2, "thorough": {"reps": 100}},
    "asks": {"kind": "replay", "module": "Asks", "driver": "asks", "runtimes": ["tokio"],
             "cfgs": ["Asks.cfg"], "reps": 6, "thorough": {"reps": 500}},
    "keep": {"kind": "replay", "module": "Keep", "driver": "keep", "runtimes": BOTH,
             "cfgs": ["Keep.cfg"], "reps": 1, "thorough": {"reps": 30}},
    "servers": {"kind": "replay", "module": "Servers", "driver": "servers", "runtimes": BOTH,
                "cfgs": ["Servers.cfg"], "sims": [("ServersSim.cfg", 400, 100)],
                "thorough": {"cfgs": ["Servers.cfg", "ServersT.cfg"], "reps": 20, "sims": [("ServersSim.cfg", 10000, 200)]}},
    "serve": {"kind": "replay", "module": "Serve", "driver": "serve", "runtimes": BOTH,
              "cfgs": ["Serve1.cfg", "Serve2.cfg", "Serve1Tell.cfg", "Serve2Tell.cfg", "Serve1Quit.cfg", "Serve2Quit.cfg"],
              "sims": [("Serve4Sim.cfg", 300, 100), ("Serve3Sim.cfg", 300, 60)],
              "thorough": {"cfgs": ["Serve1.cfg", "Serve2.cfg", "Serve1Tell.cfg", "Serve2Tell.cfg", "Serve1Quit.cfg", "Serve2Quit.cfg", "Serve1T.cfg", "Serve2T.cfg", "Serve4.cfg"], "reps": 5,
                           "sims": [("Serve4Sim.cfg", 10000, 150), ("Serve3Sim.cfg", 10000, 100)]}},
}

PROPS = {p: {"engines": ["svc"]} for p in ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P11"]}
PROPS["P08"] = {"engines": ["dispatch"]}
for p in ["P09", "P10", "P12"]:
    PROPS[p] = {"engines": ["clientside"]}
PROPS["P13"] = {"engines": ["framinggood"]}
PROPS["P14"] = {"engines": ["framing", "serve"]}
for p in ["P15", "P16", "P17", "P18"]:
    PROPS[p] = {"engines": ["serve"]}
for p in ["P04", "P16", "P17", "P18", "P05", "P10", "P12"]:
    PROPS[p]["engines"].append("slots")
for p in ["P04", "P05", "P06", "P09", "P12"]:
    PROPS[p]["engines"].append("serve")
PROPS["P04"]["engines"].append("clientside")
PROPS["P11"]["engines"].append("clientside")
for p in ["P04", "P05", "P06", "P07"]:
    PROPS[p]["engines"].append("bulk")
for p in ["P01", "P02", "P04", "P05", "P06", "P07"]:
    PROPS[p]["engines"].append("races")
for p in ["P09", "P10", "P12", "P18"]:
    PROPS[p]["engines"].append("clienttrace")
for p in ["P09", "P10", "P12"]:
    PROPS[p]["engines"].append("asks")
PROPS["P14"]["engines"].append("jsonrpc")
PROPS["P11"]["engines"].append("clientapi")
PROPS["P19"] = {"engines": ["progress"]}
PROPS["P20"] = {"engines": ["clientapi"]}
PROPS["P05"]["engines"].append("dispatch")
PROPS["P22"] = {"engines": ["generic"]}
PROPS["P21"] = {"engines": ["jsonrpc"]}
PROPS["P24"] = {"engines": ["keep"]}
PROPS["P23"] = {"engines": ["servers"]}

# What the checks of each engine assure, for MANIFEST.json.
NOTES = {
    "bulk": "Bulk.tla moves whole groups of requests; every transition is taken on the real LspService with groups of 1 to 600 "
            "requests (now and then 65536), cancelled, answered and dropped in several orders.",
    "slots": "Slots.tla counts messages; its transitions for limits from 1 to 1000000 (and the default) with bursts of up to 380 "
             "messages are all taken on the real Server::serve on both runtimes.",
    "svc": "LspService.tla is checked exhaustively for 2 messages in flight and 2 ids (thorough: also 3 messages); every one of its transitions "
           "is taken on the real LspService (public API), comparing responses, handler activity, wake-ups and "
           "client traffic; behaviours of an instance with 6 messages and 5 ids are sampled. Trusts the abstraction "
           "of method bodies and the harness.",
    "framing": "Framing.tla is checked exhaustively for up to 3 segments per read; every transition is taken on the "
               "real Server::serve on both runtimes with several concrete byte strings each. Lengths and contents are sampled.",
    "framinggood": "Framing.tla is checked exhaustively for up to 3 segments per read; every transition is taken on the "
                   "real Server::serve on both runtimes with several concrete byte strings each. Lengths and contents are sampled.",
    "asks": "Asks.tla moves whole groups of calls to the client; every transition is taken on the real Client and ClientSocket with "
            "groups of 1 to 600 calls (now and then 5000), answered and abandoned in several orders.",
    "keep": "Keep.tla is checked exhaustively for 2 requests in flight; for every transition, a cycle of the graph through it is gone "
            "round up to 2048 times on the real Server::serve on both runtimes, comparing the bytes in use (counted by the "
            "allocator) whenever the cycle closes. Growth that stops, or is less than 4 bytes a round, is not reported.",
    "servers": "Servers.tla is checked exhaustively for 2 servers with 2 ids; every transition is taken on real instances of Server::serve "
               "that are polled in turn on one thread, on both runtimes; behaviours of 4 servers with 3 ids are sampled.",
    "serve": "Serve.tla is checked exhaustively for limits 1 and 2 with 3 messages in flight; every transition is taken on the "
             "real Server::serve with a real LspService on both runtimes, under full, trickling, blocked and failing "
             "writes; behaviours of instances with limits 3 and 4 (default) are sampled.",
    "races": "Three real threads poll, drop and cancel requests of one LspService while others pass it messages; TLC looks for an "
             "order of the atomic steps of Races.tla that explains each history. The schedules are sampled.",
    "dispatch": "Dispatch.tla lists every LSP method of the trait, with the handler it must reach and the answers for "
                "missing, malformed and unexpected parameters; every entry is taken on the real LspService, for a backend "
                "overriding everything and one overriding nothing, and with custom methods of every supported signature.",
    "generic": "Generic.tla is checked exhaustively for 3 calls in progress and 2 messages waiting; every transition is taken on the "
               "real Server::serve with a service and a loopback of the harness, on both runtimes; behaviours with 4 calls and "
               "6 messages are sampled.",
    "clientside": "ClientSide.tla is checked exhaustively for 3 requests to the client; every transition is taken on the real "
                  "Client and ClientSocket (streams and sinks, split or not), comparing messages, wake-ups, results and ids; "
                  "behaviours of an instance with 9 requests are sampled.",
    "clienttrace": "Up to 9 real threads send, abandon, read and reply at the same time, on a bare connection and through "
                   "Server::serve; TLC checks each recording against ClientTrace.tla. The schedules are sampled.",
    "jsonrpc": "JsonRpc.tla gives every combination of members and their types a meaning; each is read with FromStr and sent "
               "through a served connection, with random contents, member order, escapes and white space; error codes are "
               "checked one by one around the named ones.",
    "clientapi": "ClientApi.tla covers every function of the client handle in every state of the server's life with every kind "
                 "of reply; each transition is taken on the real Client many times with random params and replies.",
    "progress": "Progress.tla is checked exhaustively for 2 interleaved handles and for 1 handle with 4 reports; every transition "
                "is taken on the real handles; behaviours of 4 handles with 8 reports each are sampled.",
}
