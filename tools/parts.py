"""What each check consists of: closed models (MODELS) and recorded executions (PARTS)."""
MISC_MAP = ["decode", "toobig", "buf", "cache-result", "cache-content"]
ITER = ["iter-value", "iter-absent", "iter-missing"]
MISC_Q = ["buf", "fit", "space", "cache-result", "cache-content"]


def m(prof, n, ignore):
    return dict(cmd="map", prof=prof, n=n, spec="MapTrace", feat=["map"], ignore=ignore)


def q(prof, n, ignore):
    return dict(cmd="queue", prof=prof, n=n, spec="QueueTrace", feat=["queue"], ignore=ignore)


QORD = MISC_Q + ["reclaim", "toobig"]
PARTS = {
    "M01": [m("m01", (1500, 30000), MISC_MAP + ITER + ["full"])],
    "M02": [m("m02", (900, 12000), MISC_MAP + ITER + ["full"])],
    "M03": [m("m03", (250, 4000), MISC_MAP + ITER + ["full"])],
    "M04": [m("m04", (500, 8000), MISC_MAP + ["full", "iter-missing"])],
    "M05": [m("m05", (300, 5000), MISC_MAP + ["full"])],
    "M06": [m("m06", (1200, 30000), ["decode", "buf", "cache-result", "cache-content"])],
    "Q01": [q("q01", (1500, 30000), QORD)],
    "Q02": [q("q02", (1200, 20000), QORD)],
    "Q03": [q("q03", (700, 10000), QORD)],
    "Q04": [q("q04", (1500, 30000), MISC_Q + ["reclaim"])],
    "Q05": [q("q05", (1500, 30000), QORD)],
    "Q06": [q("q06", (1500, 30000), ["buf", "reclaim", "cache-result", "cache-content"]),
            q("q06f", (1000, 20000), ["buf", "reclaim", "cache-result", "cache-content"])],
    "Q07": [q("q07", (1200, 30000), MISC_Q), q("q07f", (1200, 30000), MISC_Q)],
    "C01": [dict(m("c01", (600, 12000), ["full", "decode", "toobig", "buf"] + ITER), feat=["map", "queue"]),
            dict(q("qc01", (600, 12000), ["buf", "fit", "space", "reclaim", "toobig"]), feat=["map", "queue"])],
    "R01": [dict(m("r01", (300, 5000), MISC_MAP + ITER), feat=["map", "queue"]),
            dict(q("qr01", (600, 10000), MISC_Q), feat=["map", "queue"])],
    "E01": [dict(m("e01", (1200, 30000), ["full", "cache-result", "cache-content"]), feat=["map", "queue"]),
            dict(q("qe01", (1200, 30000), ["fit", "space", "reclaim", "cache-result", "cache-content"]), feat=["map", "queue"])],
}
# ranges of up to 262 pages, used before
MI = MISC_MAP + ["full"]
PARTS["M01"] += [m("m01x", (300, 6000), MI + ITER)]
PARTS["M02"] += [m("m02x", (150, 4000), MI + ITER)]
PARTS["M03"] += [m("m02x", (150, 4000), MI + ITER)]
PARTS["M04"] += [m("m02x", (100, 4000), MI + ["iter-missing"])]
PARTS["M05"] += [m("m02x", (150, 4000), MI)]
PARTS["Q01"] += [q("q01x", (300, 6000), QORD)]
PARTS["Q02"] += [q("q02x", (300, 6000), QORD)]
PARTS["Q03"] += [q("q02x", (300, 6000), QORD)]
PARTS["Q04"] += [q("q01x", (150, 4000), MISC_Q + ["reclaim"])]
PARTS["Q05"] += [q("q01x", (150, 4000), QORD)]
PARTS["Q07"] += [q("q07x", (200, 4000), MISC_Q)]
PARTS["C01"] += [dict(m("c01x", (60, 1500), ["full", "decode", "toobig", "buf"] + ITER), feat=["map", "queue"]),
                 dict(q("qc01x", (60, 1500), ["buf", "fit", "space", "reclaim", "toobig"]), feat=["map", "queue"])]
PARTS["R01"] += [dict(m("m02x", (100, 3000), MISC_MAP + ITER), feat=["map", "queue"]),
                 dict(q("q02x", (100, 3000), MISC_Q), feat=["map", "queue"])]
FCL = {"range", "align", "twice", "thrice", "raise", "overwrite", "order", "level", "needless"}


def fl(mp, qp, n, keep):
    ig = sorted(FCL - set(keep))
    return [dict(m(mp, n, ig), spec="FlashTrace", feat=["map", "queue"]), dict(q(qp, n, ig), spec="FlashTrace", feat=["map", "queue"])]


PARTS["F01"] = fl("mf01", "qf01", (500, 10000), {"range", "align"})
PARTS["F02"] = fl("mf01", "qf01", (500, 10000), {"twice", "thrice", "raise", "overwrite"})
PARTS["F03"] = fl("mf03", "qf03", (400, 8000), {"order", "level", "needless"})
def b(prof, n, ignore):
    return dict(cmd="buf", prof=prof, n=n, spec="BufferTrace", feat=["buf"], crate="harness/buf", bin="bufh", ignore=ignore)


PARTS["B01"] = [b("b01", (1600, 40000), ["wake"])]
PARTS["B02"] = [b("b02", (2400, 60000), ["wake"])]
PARTS["B03"] = [b("b03", (1600, 40000), ["wake"])]
PARTS["B04"] = [b("b04", (1600, 40000), ["policy", "count", "content", "value", "absent"])]
def misc(cmd, n, spec):
    return dict(cmd=cmd, prof="all", n=n, spec=spec, feat=["misc"], crate="harness/misc", bin="misch", ignore=[])


PARTS["G01"] = [misc("config", (40, 2000), "ConfigTrace")]
PARTS["K01"] = [misc("codec", (60, 700), "CodecTrace")]
def fmt(cmd, prof, n, spec):
    return dict(cmd=cmd, prof=prof, n=n, spec=spec, feat=["fmt"], ignore=[])


PARTS["F04"] = [fmt("fmt", "f04m", (280, 6000), "FormatTrace"), fmt("fmt", "f04q", (280, 6000), "FormatTrace"),
                fmt("fmt", "f04mb", (24, 200), "FormatTrace"), fmt("fmt", "f04qb", (24, 200), "FormatTrace")]
PARTS["F05"] = [fmt("fmt", "f05m", (400, 8000), "FormatTrace"), fmt("fmt", "f05q", (400, 8000), "FormatTrace")]
PARTS["F06"] = [fmt("glitch", "f06m", (240, 5000), "GlitchTrace"), fmt("glitch", "f06q", (800, 16000), "GlitchTrace")]
MC = dict(spec="MapContractMC", cfg="MapContractMC.cfg")
QC = dict(spec="QueueContractMC", cfg="QueueContractMC.cfg")
MODELS = {}
for _p in PARTS:
    MODELS[_p] = [MC] if _p[0] == "M" else [QC] if _p[0] == "Q" else [MC, QC]
BMC = [dict(spec="BufferMC", cfg=("BufferMC.cfg", "BufferMCT.cfg"))]
BMCF = [dict(spec="BufferMC", cfg=("BufferMCF.cfg", "BufferMCFT.cfg"))]
BMCL = [dict(spec="BufferMC", cfg="BufferMCL.cfg")]


def refuted(spec, cfg):  # a wrong design the model has to refute (the model can fail)
    return dict(spec=spec, cfg=(None, cfg), refuted=True)


MODELS["B01"] = BMC
MODELS["B02"] = BMC + BMCF
MODELS["B03"] = BMC + BMCF + [refuted("BufferMC", "BufferMCx1.cfg")]
MODELS["B04"] = BMC + BMCL + [refuted("BufferMC", "BufferMCx2.cfg"), refuted("BufferMC", "BufferMCx3.cfg"), refuted("BufferMC", "BufferMCx4.cfg")]
MODELS["G01"] = [dict(spec="ConfigMC", cfg=("ConfigMC.cfg", "ConfigMCT.cfg"))]
MODELS["K01"] = [dict(spec="CodecMC", cfg=("CodecMC.cfg", "CodecMCT.cfg"))]
def fmc(*c):
    return [dict(spec="FormatMC", cfg=x) for x in c]


TORN = fmc(("FormatMC1.cfg", "FormatMCT1.cfg"), ("FormatMC4.cfg", "FormatMCT4.cfg"), "FormatMC8.cfg") + [refuted("FormatMC", "FormatMCx.cfg")]
BITS = fmc("FormatMCb.cfg", ("FormatMCb1.cfg", "FormatMCTb.cfg"))
MODELS["F04"] = TORN + BITS
MODELS["F05"] = BITS
MODELS["F06"] = BITS
NOTES = {}
TECH = {"*": "TLA+ contract model-checked with TLC; TLC trace validation of executions recorded from the real code"}
LEVEL_NOTE = {"*": "Exhaustive for the closed TLA+ model within its constants; for the code: every recorded execution (seeded histories, enumerated interruption points) is a behaviour the specification permits. Trusts the simulated flash, the recording harness and TLC."}
TECH["G01"] = "TLA+ rules model-checked with TLC against plain arithmetic; TLC validates recorded constructor calls and uses"
TECH["K01"] = "TLA+ layout specification model-checked with TLC; TLC recomputes every recorded encoding and decoding of the real code"
LEVEL_NOTE["G01"] = "Ranges around every limit for 70 word/page geometries plus random 32-bit ranges; accepted small devices are used once. Trusts the simulated flash and TLC."
LEVEL_NOTE["K01"] = "All built-in types, boundary and random values, all buffer sizes and truncations of short values. Trusts TLC and the recorder."
NOT_APPLICABLE = {}
TECH["F04"] = "TLA+ specification of the on-flash format (decoder), model-checked with TLC; TLC decodes every recorded flash image of the real code and compares"
TECH["F05"] = TECH["F04"]
TECH["F06"] = "TLA+ specification of the on-flash format; TLC judges recorded executions with one wrong read against the flash image they read"
LEVEL_NOTE["F04"] = "Every image left by recorded histories, and images from an independent encoder (forged checksum corner cases included), for 10 geometries up to 65535-byte items. Trusts TLC, the simulated flash and the recorder."
LEVEL_NOTE["F05"] = "Random bit flips in items and markers judged exactly; arbitrary damage judged for panics, hangs, range and alien values. Modulo checksum collisions."
LEVEL_NOTE["F06"] = "Every read of every operation of the recorded histories glitched in one byte (two random masks each), warm caches included. Modulo checksum collisions."

# Instances of the implementation-shaped specifications.  geo is the geometry of the real flash
# (harness/core/src/api.rs) the behaviours are replayed on; its page has `cap` words of data.
W4 = dict(word=4, hw=2, cap=14, geo=0)
W1 = dict(word=1, hw=8, cap=38, geo=1)
W8 = dict(word=8, hw=1, cap=12, geo=3)
W32 = dict(word=32, hw=1, cap=6, geo=5)
W2 = dict(word=2, hw=4, cap=15, geo=7)
MAPFLASH = {
    "a": dict(W4, np=2, k="K1", v="Va2", lens="5,13"),
    "b": dict(W1, np=2, k="K1", v="Vb2", lens="1,9"),
    "c": dict(W8, np=2, k="K1", v="Vc2", lens="14,30"),
    "d": dict(W32, np=2, k="K1", v="Vd2", lens="30,62"),
    "e": dict(W2, np=3, k="K1", v="Ve2", lens="1,5"),
    "f": dict(W4, np=2, k="K2", v="Va1", lens="5"),
    "g": dict(W4, np=2, k="K2", v="Va2", lens="5,13"),
    "h": dict(W4, np=3, k="K1", v="Va1", lens="5"),
    "i": dict(W2, np=3, k="K2", v="Vb1", lens="1"),
    "j": dict(W2, np=4, k="K1", v="Vb1", lens="1"),
}
for _i, _w in enumerate(["migrate-all", "repair-keeps-target", "repair-drops-buffer", "open-before-close",
                         "remove-unrepaired", "remove-newest-first", "remove-keeps-remains"]):
    MAPFLASH[f"x{_i}"] = dict(W4, np=2, k="K1", v="Va2", wrong=_w)
MAPFLASH["x5"].update(MAPFLASH["e"], wrong="remove-newest-first")
QUEUEFLASH = {
    "a": dict(W4, np=2, l="M2", lens="13,37", tags=2),
    "b": dict(W4, np=1, l="La2", lens="5,13"),
    "c": dict(W4, np=3, l="M1", lens="13", tags=2),
    "d": dict(W1, np=1, l="Lb2", lens="1,9"),
    "e": dict(W2, np=2, l="Le1", lens="5"),
    "f": dict(W8, np=2, l="Lf1", lens="30"),
    "g": dict(W32, np=2, l="Ld2", lens="30,62", tags=2),
    "h": dict(W4, np=4, l="N1", lens="37", tags=2),
    "k": dict(W4, np=3, l="N1", lens="37"),
    "i": dict(W4, np=3, l="M1", lens="13", masks="0, 255", crashes=0),  # pops in order, no interruptions: space comes back
    "j": dict(W1, np=4, l="Lb1", lens="9", masks="0, 255", crashes=0),
}
for _i, (_w, _c) in enumerate([("pop-means-all", "e"), ("peek-means-all", "e"), ("close-before-erase", "e"), ("single-not-closed", "b"),
                               ("oldest-from-zero", "h"), ("youngest-from-zero", "h"), ("torn-counts", "d"), ("no-repair", "e")]):
    QUEUEFLASH[f"x{_i}"] = dict(QUEUEFLASH[_c], wrong=_w)


def walk(which, inst, ignore, tier=(1, 1), faults=20):
    """Every distinct flash the specification reaches, reached in the real code too, and whatever can
    be done (and interrupted) from there."""
    c = (MAPFLASH if which == "MapFlash" else QUEUEFLASH)[inst]
    kind = "map" if which == "MapFlash" else "queue"
    return dict(cmd=kind + "walk", prof=f"{which}_{inst}", n=tuple(10**9 * t for t in tier), spec="MapTrace" if kind == "map" else "QueueTrace",
                feat=[kind], ignore=ignore, model=which + "MC",
                args=["--geo", str(c["geo"]), "--np", str(c["np"]), "--lens", c["lens"], "--faults", str(faults)])


def add_walks(pid, which, quick, thorough="", faults=20):
    ig = PARTS[pid][0]["ignore"]
    PARTS[pid] += [walk(which, i, ig, faults=faults) for i in quick] + [walk(which, i, ig, (0, 1), faults) for i in thorough]


add_walks("M01", "MapFlash", "ad", "bcefghij")
add_walks("M02", "MapFlash", "abe", "cdfghij")
add_walks("M03", "MapFlash", "ae", "bcdfghij", 150)
add_walks("M04", "MapFlash", "cef", "abdghij")
add_walks("M05", "MapFlash", "ae", "bcdfghij")
add_walks("M06", "MapFlash", "be", "acdfghij")
add_walks("Q01", "QueueFlash", "ei", "abcdfghj")
add_walks("Q02", "QueueFlash", "bef", "acdgh")
add_walks("Q03", "QueueFlash", "de", "abcfgh", 150)
add_walks("Q04", "QueueFlash", "ek", "abcdfgh")
add_walks("Q05", "QueueFlash", "bf", "acdegh")
add_walks("Q06", "QueueFlash", "bfij", "acdegh")
add_walks("Q07", "QueueFlash", "dij", "abcefgh")
MAPFLASH_PIDS = "M01 M02 M03 M04 M05 M06 Q01 Q02 Q03 Q04 Q05 Q06 Q07".split()
for _p, _x in (("Q02", "237"), ("Q03", "5"), ("Q04", "4"), ("Q05", "01"), ("Q07", "6")):
    MODELS[_p] = MODELS[_p] + [refuted("QueueFlashMC", f"QueueFlash_x{_i}.cfg") for _i in _x]
for _p, _x in (("M02", "1234"), ("M04", "456"), ("M06", "0")):
    MODELS[_p] = MODELS[_p] + [refuted("MapFlashMC", f"MapFlash_x{_i}.cfg") for _i in _x]
for _p in "M01 M02 M03 M04 M05 M06".split():
    TECH[_p] = "TLA+: contract and page-level specification (MapFlash) model-checked with TLC; every behaviour TLC finds replayed in the real code; TLC trace validation of all recorded executions"
for _p in "Q01 Q02 Q03 Q04 Q05 Q06 Q07".split():
    TECH[_p] = TECH["M01"].replace("MapFlash", "QueueFlash")
for _p in MAPFLASH_PIDS:
    LEVEL_NOTE[_p] = ("Exhaustive for the page-level TLA+ model (every sequence of operations and power failures) within small instances; its states are reached in the real code and every "
                      "next operation interrupted everywhere. Beyond them: recorded seeded histories. Trusts the simulated flash, the recorder and TLC.")
