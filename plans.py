"""What each check runs: model-checking stages and conformance stages, per tier."""


def cases(family, bound, **kw):
    return {"conform": {"name": f"cases-{family}-{bound}", "module": "Cases", "chunk": 400, "exhaustive": True,
                        "env": {"FAMILY": family, "BOUND": bound},
                        "what": f"every operation of family {family} on every operand shape of up to 3 dimensions of "
                                f"size <= {bound}, every parameter in and around the accepted range", **kw}}


def histories(length):
    return {"conform": {"name": f"histories-{length}", "module": "Histories", "cfg": "HistoriesGen", "stdout": True,
                        "env": {"LENGTH": length, "EFFECTS": "yes"}, "chunk": 500, "exhaustive": True,
                        "what": f"every history of {length} build/context/copy calls over three programs with "
                                "shared parts, each followed by runs in and out of order"}}


def histories_model(length):
    return {"model": {"module": "Histories", "cfg": "HistoriesMC",
                      "env": {"LENGTH": length, "EFFECTS": "no", "OUT": ""},
                      "what": "once-only, operands-first, inputs untouched, built whole, meaning, order"}}


def rand(prop, count, chunk=400, **kw):
    return {"conform": {"name": f"random-{prop}", "drive": prop, "count": count, "chunk": chunk,
                        "what": "seeded random scenarios", **kw}}


def large(prop, count):
    return rand(prop, count, 40, what="every operation in turn on operands of up to 1100 elements")


def net(prop, count, chunk=250):
    return rand(prop, count, chunk, trace="NetTrace")


def watched(count):
    return rand("T13", count, 4, trace="NetTrace", what="training that lasts, watched on a terminal")


def nethist(prop, length):
    return {"conform": {"name": f"histories-{prop}-{length}", "module": "NetHistories", "cfg": "NetHistoriesGen",
                        "stdout": True, "env": {"ALPHABET": prop, "LENGTH": length}, "drive": "netscript",
                        "chunk": 200, "exhaustive": True, "trace": "NetTrace",
                        "what": f"every history of {length} calls on three small models, with random numbers"}}


def netmodel(prop, length):
    return {"model": {"module": "NetHistories", "cfg": "NetHistoriesMC",
                      "env": {"ALPHABET": prop, "LENGTH": length, "OUT": ""},
                      "what": "only training/loading/writing changes parameters; frozen layers keep theirs and do not "
                              "disturb the others; parts; round trip; momentum; composition"}}


def netcases(bound):
    return {"conform": {"name": f"cases-nets-{bound}", "module": "NetCases", "cfg": "NetCasesGen", "stdout": True,
                        "env": {"FAMILY": "all", "BOUND": bound}, "drive": "netscript", "chunk": 150,
                        "exhaustive": True, "trace": "NetTrace",
                        "what": f"every kind of layer with every parameter in and just outside its range on pictures of "
                                f"up to {bound}x{bound}, alone and between layers with parameters: used, trained, or "
                                "rejected"}}


def gradmodel(bound):
    return {"model": {"module": "NetCases", "cfg": "NetCasesMC", "env": {"FAMILY": "all", "BOUND": bound, "OUT": ""},
                      "what": "the specified backward pass is the derivative of the specified forward pass, parameter by "
                              "parameter (dual numbers); windows cover the input as documented"}}


HALF = {"model": {"module": "HalfMC", "what": "the specification itself: on every half, conversion goes to the nearest, "
                                              "ties to even, and order follows the denoted values"}}
GRID = {"conform": {"name": "grid-C17", "drive": "C17grid", "count": 54, "chunk": 7, "trace": "ActTrace",
                    "what": "every activation on a grid of 1537 points in -12..12 and far out, in both precisions"}}


def table(drive, count, what):
    return {"conform": {"name": f"table-{drive}", "drive": drive, "count": count, "chunk": 8, "exhaustive": True,
                        "trace": "ScalarTrace", "what": what}}


def scal(prop, count):
    return rand(prop, count, 1000, trace="ScalarTrace")


def images(bound):
    return {"conform": {"name": f"cases-images-{bound}", "module": "ImageCases", "drive": "C16script", "chunk": 200,
                        "exhaustive": True, "env": {"BOUND": bound}, "trace": "ImageTrace",
                        "what": f"every scaling of pictures of up to {bound}x{bound} to up to {bound + 1}x{bound + 1}"}}


TRACE = ("trace validation: calls recorded from the library on seeded random scenarios, judged step by step by TLC "
         "against the TLA+ specification")
CASES = "exhaustive small cases enumerated by TLC from the specification and replayed into the library; "
MODEL = "exhaustive TLC model checking of the call machine; "
NOTE = ("Everything the stages list was explored without disagreement; beyond the enumerated bounds the assurance is "
        "that of seeded sampling.  Trusted: TLC, the recording driver (public API only), and that the TLA+ modules "
        "say what the property says.")

PLANS = {
    "C01": {"quick": [histories_model(3), cases("arith", 2), rand("C01", 4000), large("L01", 320)],
            "thorough": [histories_model(4), cases("arith", 3), rand("C01", 40000), large("L01", 4000)]},
    "C02": {"quick": [rand("C02", 8000)], "thorough": [rand("C02", 60000)]},
    "C03": {"quick": [cases("views", 2), rand("C03", 4800), large("L03", 320)],
            "thorough": [cases("views", 3), rand("C03", 40000), large("L03", 4000)]},
    "C04": {"quick": [cases("combine", 2), rand("C04", 4000), large("L04", 320)],
            "thorough": [cases("combine", 3), rand("C04", 40000), large("L04", 4000)]},
    "C05": {"quick": [cases("all", 2), rand("C05", 3200)],
            "thorough": [histories_model(4), cases("all", 3), rand("C05", 40000)]},
    "C06": {"quick": [cases("all", 2), rand("C06", 3200), large("L06", 320)],
            "thorough": [cases("all", 3), rand("C06", 40000), large("L06", 4000)]},
    "C07": {"quick": [histories_model(3), histories(3), rand("C07", 4800)],
            "thorough": [histories_model(5), histories(4), rand("C07", 40000)]},
    "C08": {"quick": [gradmodel(2), netcases(2), net("C08", 4000)],
            "thorough": [gradmodel(3), netcases(3), net("C08", 60000)]},
    "C09": {"quick": [netmodel("C09", 3), nethist("C09", 3), net("C09", 3000)],
            "thorough": [netmodel("C09", 4), nethist("C09", 4), net("C09", 40000)]},
    "C10": {"quick": [gradmodel(2), netcases(2), net("C10", 4000)],
            "thorough": [gradmodel(3), netcases(3), net("C10", 60000)]},
    "C11": {"quick": [netmodel("C11", 3), nethist("C11", 3), net("C11", 4000)],
            "thorough": [netmodel("C11", 4), nethist("C11", 4), net("C11", 40000)]},
    "C12": {"quick": [netmodel("C12", 3), nethist("C12", 3), net("C12", 2400), rand("C12T", 3200)],
            "thorough": [netmodel("C12", 4), nethist("C12", 4), net("C12", 30000), rand("C12T", 40000)]},
    "C13": {"quick": [netmodel("C13", 3), nethist("C13", 3), net("C13", 2400), watched(32)],
            "thorough": [netmodel("C13", 4), nethist("C13", 4), net("C13", 40000), watched(400)]},
    "C14": {"quick": [netmodel("C14", 3), nethist("C14", 3), net("C14", 3000)],
            "thorough": [netmodel("C14", 4), nethist("C14", 4), net("C14", 40000)]},
    "C15": {"quick": [HALF, table("C15all", 64, "what every half denotes, converts back to and is classified as"),
                      table("C15conv", 128, "every float32 through S32 and F16fromF64, as ranges of equal results"),
                      scal("C15", 8000)],
            "thorough": [HALF, table("C15all", 64, "what every half denotes, converts back to and is classified as"),
                         table("C15conv", 256, "every float32 through S32, S64, F16fromF32 and F16fromF64"),
                         scal("C15", 400000)]},
    "C16": {"quick": [images(3), rand("C16", 6000, trace="ImageTrace")],
            "thorough": [images(5), rand("C16", 120000, trace="ImageTrace")]},
    "C17": {"quick": [GRID, rand("C17", 4000, trace="ActTrace")],
            "thorough": [GRID, rand("C17", 200000, chunk=4000, trace="ActTrace")]},
    "C20": {"quick": [netmodel("C20", 3), nethist("C20", 3), net("C20", 3000)],
            "thorough": [netmodel("C20", 4), nethist("C20", 4), net("C20", 40000)]},
    "C18": {"quick": [netmodel("C18", 3), nethist("C18", 3), net("C18", 3000)],
            "thorough": [netmodel("C18", 4), nethist("C18", 4), net("C18", 40000)]},
}



def worlds(drive, trace, count, free, chunk):
    how = "freely concurrent, under the race detector" if free else "one call at a time in a seeded order"
    return {"conform": {"name": f"worlds-{drive}" + ("-free" if free else ""), "drive": drive, "count": count,
                        "chunk": chunk, "trace": trace, "free": free,
                        "what": f"two to six scenarios on separate objects, {how}"}}


def all_worlds(k):
    return [worlds("C19T", "WorldsTrace", 400 * k, False, 100), worlds("C19N", "NetWorldsTrace", 320 * k, False, 80),
            worlds("C19T", "WorldsTrace", 320 * k, True, 80), worlds("C19N", "NetWorldsTrace", 320 * k, True, 80),
            worlds("C19A", "ActTrace", 64 * k, True, 16), worlds("C19I", "ImageTrace", 240 * k, True, 60),
            worlds("C19S", "ScalarTrace", 160 * k, True, 40), worlds("C19S", "ScalarTrace", 160 * k, False, 40),
            worlds("C19A", "ActTrace", 64 * k, False, 16), worlds("C19I", "ImageTrace", 240 * k, False, 60)]


PLANS["C19"] = {"quick": all_worlds(1), "thorough": all_worlds(20)}

TECH = {
    "C01": MODEL + CASES + TRACE, "C02": TRACE, "C03": CASES + TRACE, "C04": CASES + TRACE, "C05": CASES + TRACE,
    "C06": CASES + TRACE, "C15": "TLC model checking of the number specification; complete conversion tables (all 2^32 floats, all halves) "
           "recorded from the library and judged by TLC; " + TRACE,
    "C16": CASES + TRACE, "C17": "TLC judges recorded evaluations against the defining relations of each function",
    "C19": "interleaved and concurrent calls on separate objects recorded from the library (race detector on) and "
           "judged by TLC against the product of independent TLA+ machines",
    "C07": MODEL + "all call histories up to a length replayed; " + TRACE,
}
for _p, _v in PLANS.items():
    _v["technique"] = TECH.get(_p, TRACE)
    _v["note"] = NOTE
