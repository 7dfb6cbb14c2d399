"""Which specification runs decide which property."""
def bfs(spec, cfg, machine, **k):
    return dict(spec=spec + ".tla", cfg=cfg, machine=machine, kind="bfs", **k)
def sim(spec, cfg, machine, num, depth, **k):
    return dict(spec=spec + ".tla", cfg=cfg, machine=machine, kind="sim", num=num, depth=depth, **k)

CHECKS = {
 "P17": dict(jobs=[
    bfs("RtpPacket", "RtpPacket.build.cfg", "rtppacket", const={"MaxEdits": "3"}, must_ops=["build", "recv"], thorough=dict(const={"MaxEdits": "4"})),
    bfs("RtpPacket", "RtpPacket.wire.cfg", "rtppacket", must_ops=["recv", "header", "extension"]),
    sim("RtpPacket", "RtpPacket.wire.cfg", "rtppacket", 60, 8, const={"MaxEdits": "7"}, thorough=dict(num=40000)),
    sim("RtpPacket", "RtpPacket.build.cfg", "rtppacket", 60, 12, const={"MaxEdits": "11"}, thorough=dict(num=40000)),
 ]),
}

CHECKS["P17"]["jobs"] += [sim("RtpMany", "RtpMany.%s.cfg" % m, "rtppacket", 150, 26, must_ops=["recv"], thorough=dict(num=8000)) for m in ("build", "wire")]
CHECKS["P17"]["jobs"].append(bfs("RtpPacket", "RtpPacket.big.cfg", "rtppacket", must_ops=["build", "recv"]))
CHECKS.update({
 "P18": dict(jobs=[
    bfs("Rtcp", "Rtcp.cfg", "rtcp", must_ops=["app", "bye", "plain"]),
    sim("Rtcp", "Rtcp.cfg", "rtcp", 60, 8, const={"MaxEdits": "7"}, thorough=dict(num=4000)),
 ]),
 "P19": dict(jobs=[
    bfs("RtpTime", "RtpTime.cfg", "rtptime", must_ops=["add", "sub", "cmp", "self", "ntp", "fromntp"]),
    bfs("RtpTime", "RtpTime.cfg", "rtptime", const={"Wide": "TRUE", "MaxOps": "1"}),
    sim("RtpTime", "RtpTime.sim.cfg", "rtptime", 30, 8, thorough=dict(num=2000)),
 ]),
 "P20": dict(jobs=[
    bfs("Collision", "Collision.cfg", "collision", must_ops=["sighting", "timeout", "clear", "nil", "setport", "sethost", "flip", "compare"]),
    sim("Collision", "Collision.sim.cfg", "collision", 400, 27, thorough=dict(num=20000)),
 ]),
 "P21": dict(jobs=[
    bfs("RandSeq", "RandSeq.cfg", "rand", must_ops=["r8", "r16", "r32", "dbl", "seed"]),
    sim("RandSeq", "RandSeq.sim.cfg", "rand", 300, 62, thorough=dict(num=10000)),
    dict(kind="trace", spec="RandTrace.tla", cfg="RandTrace.cfg", machine="record", num=32, thorough=dict(num=600)),
 ]),
 "P22": dict(jobs=[
    bfs("Settings", "Settings.cfg", "settings", must_ops=["set", "adr", "lookup", "names", "info", "raw"]),
    sim("Settings", "Settings.sim.cfg", "settings", 100, 22, thorough=dict(num=5000)),
 ]),
})

NOTES = {"*": "Every state and transition of the specification within the stated bounds, plus seeded random behaviours beyond them, is replayed into the real code and the prescribed observation compared after each step; holds for what was explored, not proved for all inputs. Trusts TLC, the Go toolchain and the driver's projection of real objects to specification values."}

CHECKS.update({
 "P12": dict(jobs=[
    bfs("ParamList", "ParamList.cfg", "params", must_ops=["add", "set", "addnv", "setnv", "delete", "clear", "setvalue", "rename", "quote", "nvsep", "sep", "concat", "clone", "nvclone"], thorough=dict(const={"MaxOps": "4"})),
    sim("ParamList", "ParamList.sim.cfg", "params", 300, 22, thorough=dict(num=5000)),
 ]),
 "P14": dict(jobs=[
    bfs("HostPort", "HostPort.cfg", "hostport", must_ops=["parse", "parsehost", "new", "newhost", "sethostname", "sethostaddr", "setaddr", "setport", "removeport", "reparse", "clone"], thorough=dict(const={"MaxOps": "3"})),
    sim("HostPort", "HostPort.sim.cfg", "hostport", 100, 14, thorough=dict(num=8000)),
 ]),
 "P15": dict(jobs=[
    bfs("Scanner", "Scanner.cfg", "scanner", must_ops=["match", "quoted", "comment", "getstring", "delim", "namevalue", "number", "peektoks", "rewind"], thorough=dict(const={"MaxLen": "4"})),
    bfs("Scanner", "Scanner.two.cfg", "scanner", must_ops=["consume"]),
    bfs("Scanner", "Scanner.cfg", "scanner", const={"Alphabet": "Brackets", "MaxLen": "5"}, must_ops=["comment"], thorough=dict(const={"Alphabet": "Brackets", "MaxLen": "7"})),
    sim("Scanner", "Scanner.sim.cfg", "scanner", 300, 26, thorough=dict(num=20000)),
    sim("Scanner", "Scanner.sim.cfg", "scanner", 12, 40, const={"Runs": "{1, 3, 70}", "MaxLen": "140"}, thorough=dict(num=1000)),
 ]),
})

def header(mx, doing, nobj=1, kinds=None, ops=("call",), th=None):
    c = {"MaxOps": str(mx), "NObj": str(nobj), "Doing": "{" + ", ".join('"%s"' % d for d in doing) + "}"}
    if kinds: c["Kinds"] = kinds
    if nobj == 1: c["Wild"] = '"first"'
    return bfs("Header", "Header.cfg", "obj", const=c, must_ops=["new", "look"] + list(ops), thorough=dict(const=dict(c, MaxOps=str(th or mx + 1))))
def headersim(num, depth, doing, nobj=1, thorough=4000):
    c = {"MaxOps": str(depth), "NObj": str(nobj), "Doing": "{" + ", ".join('"%s"' % d for d in doing) + "}"}
    return sim("Header", "Header.sim.cfg", "obj", num, depth + 2, const=c, thorough=dict(num=thorough))
CHECKS.update({
 "P10": dict(jobs=[header(2, ["set", "parse"], ops=("call", "parse", "reparse")), headersim(700, 8, ["set", "parse"])]),
 "P11": dict(jobs=[header(2, ["set", "bad"], ops=("call",)), headersim(700, 10, ["set", "bad"])]),
})
CHECKS["P12"]["jobs"] += [header(2, ["par", "inside"], kinds="ParKinds", ops=("call", "follow")), header(1, ["par", "inside"], 2, kinds="ParKinds"), headersim(100, 12, ["par", "inside", "set"], 2)]
CHECKS["P16"] = dict(jobs=[header(3, ["set", "par", "clone"], 2, kinds="CloneKinds", ops=("call", "clone")), headersim(300, 12, ["set", "par", "inside", "clone"], 2), header(2, ["inside", "clone"], 2, kinds="CloneKinds", ops=("call", "clone", "follow"))])
CHECKS["P16"]["jobs"][1]["const"]["Kinds"] = "CloneKinds"

def uri(mx, doing, kinds, nobj=1, ops=("call",), th=None):
    c = {"MaxOps": str(mx), "NObj": str(nobj), "Doing": "{" + ", ".join('"%s"' % d for d in doing) + "}", "Kinds": "{" + ", ".join('"%s"' % d for d in kinds) + "}"}
    return bfs("Uri", "Uri.cfg", "obj", const=c, must_ops=["look"] + list(ops), thorough=dict(const=dict(c, MaxOps=str(th or mx + 1))))
def urisim(num, depth, doing, kinds, nobj=1, thorough=4000):
    return dict(uri(depth, doing, kinds, nobj), cfg="Uri.sim.cfg", kind="sim", num=num, depth=depth + 2, must_ops=[], thorough=dict(num=thorough))
CHECKS["P13"] = dict(jobs=[
    uri(2, ["edit", "reparse"], ["sip", "tel", "number", "address"], ops=("call", "reparse", "follow")),
    uri(2, ["part", "edit"], ["sip"], ops=("call", "follow"), th=2),
    uri(2, ["parse", "reparse"], ["sip", "tel", "number", "address"], ops=("parse", "reparse"), th=2),
    urisim(150, 20, ["edit", "part", "reparse"], ["sip", "tel", "number", "address", "Contact"]),
    urisim(400, 6, ["first", "parse", "edit", "part", "reparse"], ["sip", "tel", "number", "address"]),
])
CHECKS["P16"]["jobs"] += [uri(1, ["edit", "part", "clone"], ["sip", "tel", "number", "address", "Contact"], 2, ops=("call", "clone", "follow")),
                          urisim(200, 14, ["edit", "part", "clone"], ["sip", "tel", "number", "address", "Contact"], 2)]

# copies of the parts that other specifications describe
CHECKS["P20"]["jobs"].append(sim("Crowd", "Crowd.cfg", "collision", 150, 13, must_ops=["crowd", "see", "flood", "expire", "clear"], thorough=dict(num=10000)))
CHECKS["P16"]["jobs"] += [j for p in ("P12", "P14", "P19", "P20") for j in CHECKS[p]["jobs"] if j["spec"] in ("ParamList.tla", "HostPort.tla", "RtpTime.tla", "Collision.tla") and (j["kind"] == "sim" or p in ("P12", "P14", "P20"))]

def message(mx, used, kind="request", doing=("attach", "add", "set", "remove", "inside", "idle"), th=None):
    c = {"MaxOps": str(mx), "Kind": '"%s"' % kind, "Used": "{%s}" % ", ".join(map(str, used)), "Doing": "{" + ", ".join('"%s"' % d for d in doing) + "}"}
    return bfs("Message", "Message.cfg", "obj", const=c, must_ops=["new", "look", "call"], thorough=dict(const=dict(c, MaxOps=str(th or mx + 1))))
def messagesim(num, depth, used, kind="request", thorough=4000):
    return dict(message(depth, used, kind), cfg="Message.sim.cfg", kind="sim", num=num, depth=depth + 2, must_ops=[], thorough=dict(num=thorough))
CHECKS["P01"] = dict(jobs=
    [message(3, [27, 6, 1]), message(3, [28, 50, 4], "response", th=3)]
  + [message(2, [k for k in range(g, 51, 10)], ("request", "response")[g % 2]) for g in range(1, 11)]
  + [messagesim(40, 24, range(1, 27), thorough=1500), messagesim(40, 24, range(27, 51), "response", thorough=1500),
     messagesim(120, 24, [1, 2, 3, 4, 5, 27, 28, 29, 30]), messagesim(120, 24, [27, 28, 48, 50, 32, 12, 10], "response")])
CHECKS["P02"] = dict(jobs=[
    bfs("Content", "Content.cfg", "obj", const={"MaxOps": "3"}, must_ops=["call", "reparse", "do"], thorough=dict(const={"MaxOps": "4"})),
    bfs("Content", "Content.cfg", "obj", const={"MaxOps": "2", "Used": "{10, 11, 20, 21, 22, 23, 24, 25, 26, 27, 28}"}, must_ops=["call", "reparse"]),
    bfs("Content", "Content.cfg", "obj", const={"MaxOps": "2", "Used": "{12, 15}", "Kinds": '{"request"}'}, must_ops=["call", "reparse"], thorough=dict(const={"MaxOps": "3", "Used": "{12, 13, 14, 15}"})),
    bfs("Content", "Content.cfg", "obj", const={"MaxOps": "1", "Used": "{13, 14, 16, 17, 18}"}, must_ops=["call"]),
    bfs("Content", "Content.cfg", "obj", const={"MaxOps": "1", "Used": "{19}", "Kinds": '{"request", "response"}'}, must_ops=["call"]),
    sim("Content", "Content.sim.cfg", "obj", 100, 22, const={"MaxOps": "20", "Used": "Wide"}, thorough=dict(num=5000)),
])
CHECKS["P09"] = dict(jobs=[
    bfs("StartLine", "StartLine.cfg", "obj", const={"MaxOps": "4"}, must_ops=["call", "reparse", "parse", "clone"], thorough=dict(const={"MaxOps": "5"})),
    bfs("StartLine", "StartLine.cfg", "obj", const={"MaxOps": "3", "Rich": "TRUE"}, must_ops=["call", "reparse", "parse", "clone"]),
    bfs("StartLine", "StartLine.cfg", "obj", const={"MaxOps": "1", "Kinds": '{"codes"}', "Doing": '{"codes"}'}, must_ops=["call"]),
    sim("StartLine", "StartLine.sim.cfg", "obj", 100, 22, const={"MaxOps": "20"}, thorough=dict(num=5000)),
])
CHECKS["P23"] = dict(jobs=[
    bfs("Required", "Required.cfg", "obj", const={"MaxOps": "2"}, must_ops=["parse", "new", "call", "reparse", "outcome"], thorough=dict(const={"MaxOps": "3"})),
    sim("Required", "Required.sim.cfg", "obj", 300, 16, const={"MaxOps": "14"}, thorough=dict(num=10000)),
])
def ids(what, bases, mx, n, **k):
    c = {"What": '"%s"' % what, "Bases": bases, "MaxOps": str(mx), "NObj": str(n)}
    return bfs("Ids", "Ids.cfg", "obj", const=c, must_ops=["class", "parse", "reparse", "make", "do"], thorough=dict(const=dict(c, MaxOps=str(mx + 1))), **k)
def idsim(what, bases, num, mx, n):
    return dict(ids(what, bases, mx, n), cfg="Ids.sim.cfg", kind="sim", num=num, depth=mx + 2, must_ops=[], thorough=dict(num=num * 40))
CHECKS["P07"] = dict(jobs=[ids("tx", "TxBases", 2, 2), idsim("tx", "TxBases", 60, 12, 6)])
CHECKS["P08"] = dict(jobs=[ids("dialog", "DialogBases", 2, 2), idsim("dialog", "DialogBases", 60, 12, 6)])
CHECKS["P06"] = dict(jobs=[
    bfs("Derived", "Derived.cfg", "obj", must_ops=["parse", "make", "call", "follow"], thorough=dict(const={"MaxOps": "3"})),
    bfs("Derived", "Derived.cfg", "obj", const={"Starts": "AnswerStarts"}, must_ops=["parse", "make", "call", "follow"], thorough=dict(const={"Starts": "AnswerStarts", "MaxOps": "3"})),
    sim("Derived", "Derived.sim.cfg", "obj", 150, 14, const={"MaxOps": "12"}, thorough=dict(num=5000)),
])
ALL = lambda n: "{%s}" % ", ".join(str(i) for i in range(1, n + 1))
def wire(mx, frames="OneFrame", **k):
    c = {"MaxOps": str(mx), "Frames": frames, "Rich": "FALSE" if mx == 2 else "TRUE"}; c.update(k)
    return bfs("WireMsg", "WireMsg.cfg", "obj", const=dict(c), must_ops=["parse", "look", "reparse"], thorough={})
def wiresim(num, mx, frames, thorough=3000, **k):
    return dict(wire(mx, frames, **k), cfg="WireMsg.sim.cfg", kind="sim", num=num, depth=mx + 2, thorough=dict(num=thorough))
def parts(*kinds):
    return bfs("Parts", "Parts.cfg", "obj", const={"Kinds": "{" + ", ".join('"%s"' % k for k in kinds) + "}"}, must_ops=["call", "look"], thorough=dict(const={"MaxOps": "4"}))
def fold(what):
    return dict(bfs("Fold", "Fold.cfg", "obj", const={"What": '"%s"' % what}, must_ops=["parse", "look"]), all=True)
Spelling = dict(Names=ALL(6), Spaces=ALL(8), Ends=ALL(2))
CHECKS["P03"] = dict(jobs=[
    wire(1, "TwoFrames", Starts=ALL(6)), wire(0, "PlainFrames", Starts=ALL(6)),
    wire(2, Starts="GoodStart"),
    wiresim(150, 30, "PlainFrames", Starts=ALL(6)), wiresim(250, 12, "PlainFrames", Starts=ALL(6)),
    fold("wild"),
])
CHECKS["P04"] = dict(jobs=[
    wire(1, Starts="GoodStart", **Spelling), wire(0, "PairFrames"),
    wiresim(80, 30, "AllFrames", Starts=ALL(6), **Spelling), wiresim(300, 8, "AllFrames", Starts=ALL(6), **Spelling),
    fold("fold"),
])
def damage(which, edits=("cut", "put", "replace", "number"), mx=1):
    return bfs("Damage", "Damage.cfg", "obj", const={"Which": '"%s"' % which, "MaxOps": str(mx), "Edits": "{%s}" % ", ".join('"%s"' % e for e in edits)}, must_ops=["try"])
def damagesim(which, num, mx, thorough):
    return dict(bfs("Damage", "Damage.sim.cfg", "obj", const={"Which": '"%s"' % which, "MaxOps": str(mx)}, must_ops=["try"]), kind="sim", num=num, depth=mx + 2, thorough=dict(num=thorough))
CHECKS["P05"] = dict(jobs=[damage("url"), damage("message"), damage("header"), damagesim("any", 2000, 6, 60000), damagesim("message", 2500, 8, 60000), damagesim("url", 4000, 8, 60000), damagesim("sipheader", 4000, 8, 60000)])
def faults(mx, bads="AllBads", starts="GoodStart", used="Short", frames="OneFrame"):
    j = wire(mx, frames, Bads=bads, Starts=starts, Used=used)
    return dict(j, must_ops=["listen", "outcome", "look"])
CHECKS["P05"]["jobs"] += [faults(1, starts="AnyStart", used="AllHeaders"), faults(2),
    dict(wiresim(200, 14, "PlainFrames", Bads="AllBads", Starts="AnyStart"), must_ops=["listen", "outcome", "look"])]
CHECKS["P05"]["jobs"] += [dict(wiresim(60, 8, "AllFrames", Starts="{1, 2, 3, 5, 6}", Rich="FALSE", **Spelling), cfg="WireMsg.cut.cfg", must_ops=["prefixes", "outcome"]),
    dict(wire(0, "PairFrames"), cfg="WireMsg.cut0.cfg", must_ops=["prefixes", "outcome"])]
def headerlist(mx, doing, n=8, **k):
    c = {"MaxOps": str(mx), "NObj": str(n), "Doing": "{" + ", ".join('"%s"' % d for d in doing) + "}"}; c.update(k)
    return bfs("HeaderList", "HeaderList.cfg", "obj", const=c, must_ops=["new", "look", "call", "push"], thorough=dict(const=dict(c, MaxOps=str(mx + 1))))
def headerlistsim(num, depth, doing, thorough=4000, **k):
    return dict(headerlist(depth, doing, **k), cfg="HeaderList.sim.cfg", kind="sim", num=num, depth=depth + 2, thorough=dict(num=thorough))
CHECKS["P10"]["jobs"] += [headerlist(1, ["set", "bad", "list", "parse"]), headerlistsim(500, 10, ["set", "list", "parse"])]
CHECKS["P12"]["jobs"] += [headerlistsim(150, 10, ["set", "list"], Kinds="ParListKinds")]
CHECKS["P16"]["jobs"] += [headerlist(2, ["set", "list", "clone"], Kinds="CloneKinds", Joining="FALSE"), headerlistsim(200, 14, ["set", "list", "clone", "parse"], Kinds="CloneKinds", Joining="FALSE")]
CHECKS["P10"]["jobs"] += [parts("cid", "protocol", "mediarange"), bfs("Parts", "Parts.made.cfg", "obj", must_ops=["construct", "look", "call"])]
CHECKS["P13"]["jobs"] += [parts("userinfo", "authority")]
CHECKS["P12"]["jobs"] += [parts("challenge")]
def extras(what):
    return bfs("Extras", "Extras.cfg", "obj", const={"What": '"%s"' % what}, must_ops=["parse", "call"])
for p, what in [("P10", "header"), ("P12", "params"), ("P13", "uri"), ("P01", "message"), ("P06", "belong")]:
    CHECKS[p]["jobs"].append(extras(what))
def large(what, sizes, th, ops=("parse", "call")):
    return bfs("Large", "Large.cfg", "obj", const={"What": '"%s"' % what, "Sizes": sizes}, must_ops=list(ops), thorough=dict(const={"What": '"%s"' % what, "Sizes": th}))
for p, what, sizes, th, ops in [("P01", "edit", "{9, 33, 300}", "{9, 10, 11, 17, 33, 65, 129, 257, 300, 1025}", ("parse", "call")), ("P03", "table", "{9, 17, 129, 1025, 5000}", "{9, 11, 17, 33, 65, 129, 257, 1025, 4097, 20000}", ("parse", "call", "reparse")),
                                ("P06", "derived", "{9, 33, 300}", "{9, 11, 17, 33, 65, 129, 257, 1025}", ("parse", "call", "make")), ("P10", "header", "{9, 33, 129, 1025}", "{9, 11, 17, 33, 65, 129, 257, 1025, 4097}", ("parse", "call", "reparse")),
                                ("P13", "uri", "{9, 33, 129, 1025}", "{9, 11, 17, 33, 65, 129, 257, 1025, 4097}", ("parse", "call")), ("P05", "damage", "{3000}", "{100, 1000, 5000}", ("try",))]:
    CHECKS[p]["jobs"].append(large(what, sizes, th, ops))
for p, what in [("P10", "header"), ("P13", "uri"), ("P09", "line"), ("P01", "table"), ("P12", "params")]:
    CHECKS[p]["jobs"].append(bfs("Chars", "Chars.cfg", "obj", const={"What": '"%s"' % what, "Pairs": "TRUE" if what in ("uri", "line") else "FALSE"}, must_ops=["parse", "call"], thorough=dict(const={"What": '"%s"' % what, "Pairs": "TRUE"})))
CHECKS["P19"]["jobs"].append(bfs("TimeSweep", "TimeSweep.cfg", "rtptime", must_ops=["new", "cmp", "add", "sub", "ntp", "fromntp"], thorough=dict(const={"Stride": "37"})))
CHECKS["P14"]["jobs"].append(bfs("HostSweep", "HostSweep.cfg", "hostport", must_ops=["parse", "parsehost", "reparse", "setport", "newhost"], thorough=dict(const={"Stride": "1"})))
for p, what in [("P10", "good"), ("P11", "bad"), ("P10", "fine")]:
    CHECKS[p]["jobs"].append(bfs("NumSweep", "NumSweep.cfg", "obj", const={"What": '"%s"' % what, "Stride": "499"}, must_ops=["parse", "call"], thorough=dict(const={"What": '"%s"' % what, "Stride": "7"})))
CHECKS["P17"]["jobs"] += [bfs("RtpSweep", "RtpSweep.%s.cfg" % m, "rtppacket", must_ops=["recv"]) for m in ("build", "wire")]
CHECKS["P18"]["jobs"].append(bfs("RtcpSweep", "RtcpSweep.cfg", "rtcp", must_ops=["app", "bye"]))
CHECKS["P21"]["jobs"].append(bfs("RandSweep", "RandSweep.cfg", "rand", must_ops=["new", "seed", "r8", "r16", "r32", "dbl"], thorough=dict(const={"Count": "40000"})))
CHECKS["P15"]["jobs"].append(bfs("ScanSweep", "ScanSweep.cfg", "scanner", must_ops=["match", "quoted", "comment", "getstring", "delim", "namevalue", "number", "peektoks", "rewind"], thorough=dict(const={"MaxOps": "2"})))
for p in ("P02", "P04"):
    CHECKS[p]["jobs"].append(bfs("BodySweep", "BodySweep.cfg", "obj", const={"Lengths": "Many" if p == "P02" else "Few"}, must_ops=["parse", "call", "reparse"], thorough=dict(const={"Lengths": "Most"})))
for p, what in [("P07", "tx"), ("P08", "dialog")]:
    CHECKS[p]["jobs"].append(bfs("IdChars", "IdChars.cfg", "obj", const={"What": '"%s"' % what}, must_ops=["parse", "class"]))
def atonce(job, callers=6, times=8):
    """The behaviours of a job, run by several callers at the same time."""
    return dict(job, together=callers, must_ops=[], thorough=dict(num=job["num"] * times))
CHECKS["P24"] = dict(jobs=[
    bfs("Callers", "Callers.cfg", "obj", must_ops=["parse", "call", "reparse", "look"], thorough=dict(const={"NCallers": "3", "Programs": '{"request", "auth"}'})),
    dict(bfs("Callers", "Callers.cfg", "obj", const={"NCallers": "1"}), together=6),
    atonce(wiresim(60, 12, "AllFrames", Starts=ALL(6), **Spelling)), atonce(wiresim(60, 30, "PlainFrames", Starts=ALL(6))),
    atonce(dict(wiresim(60, 14, "PlainFrames", Bads="AllBads", Starts="AnyStart"))), atonce(damagesim("any", 500, 6, 0)),
    atonce(headersim(300, 10, ["set", "bad", "parse", "par", "inside"])), atonce(headerlistsim(120, 10, ["set", "list", "clone", "parse"], Kinds="CloneKinds", Joining="FALSE")),
    atonce(messagesim(30, 24, [1, 2, 3, 4, 5, 27, 28, 29, 30])), atonce(messagesim(20, 24, [27, 28, 48, 50, 32, 12, 10], "response")), atonce(urisim(80, 14, ["first", "parse", "edit", "part", "reparse"], ["sip", "tel", "number", "address", "Contact"])),
    atonce(idsim("tx", "TxBases", 20, 12, 6)), atonce(idsim("dialog", "DialogBases", 20, 12, 6)), atonce(sim("Derived", "Derived.sim.cfg", "obj", 60, 14, const={"MaxOps": "12"})),
    atonce(sim("Content", "Content.sim.cfg", "obj", 60, 22, const={"MaxOps": "20", "Used": "Wide"})), atonce(sim("StartLine", "StartLine.sim.cfg", "obj", 60, 22, const={"MaxOps": "20"})),
    atonce(sim("Required", "Required.sim.cfg", "obj", 60, 16, const={"MaxOps": "14"})), atonce(sim("ParamList", "ParamList.sim.cfg", "params", 60, 22)),
    atonce(sim("HostPort", "HostPort.sim.cfg", "hostport", 60, 14)), atonce(sim("Scanner", "Scanner.sim.cfg", "scanner", 100, 26)),
    atonce(sim("RtpPacket", "RtpPacket.build.cfg", "rtppacket", 40, 12, const={"MaxEdits": "11"})), atonce(sim("RtpPacket", "RtpPacket.wire.cfg", "rtppacket", 30, 8, const={"MaxEdits": "7"})), dict(bfs("Parts", "Parts.made.cfg", "obj"), together=6), atonce(sim("Rtcp", "Rtcp.cfg", "rtcp", 40, 8, const={"MaxEdits": "7"})),
    atonce(sim("RtpTime", "RtpTime.sim.cfg", "rtptime", 30, 8)), atonce(sim("Collision", "Collision.sim.cfg", "collision", 60, 27)), atonce(sim("Settings", "Settings.sim.cfg", "settings", 40, 22)), atonce(sim("RandSeq", "RandSeq.sim.cfg", "rand", 60, 62)),
], parallel=5)
CHECKS["P24"]["technique"] = "TLA+ specifications explored by TLC; interleavings replayed into the real code, and random behaviours replayed by several goroutines at once under the race detector, each compared with the specification"
NOTES["P24"] = "All interleavings, call by call, of two callers' programs are replayed; the behaviours of the other specifications are replayed by six goroutines at the same time in a driver built with the race detector. Not every instruction-level interleaving is tried: conflicting accesses are found by the race detector's happens-before order."
