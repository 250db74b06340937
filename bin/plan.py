"""What decides each property: (stage, arguments...) lists for bin/check.py"""
PROFILES = dict(C01="compare", C02="cross", C03="logic", C04="tree", C05="surface", C06="literal", C07="malformed", C08="contain", C09="field", C10="nullcheck",
                C11="in", C12="contains", C13="range", C14="arith", C15="divide", C16="aggregate", C17="convert", C18="embed", C22="kinds", C23="default", C24="concat")
ASSUMES = ["the harness projects Java values, trees and failures onto the specification faithfully (harness/vp/Val, Tree, Lib)",
           "TLC evaluates the specification correctly"]
PLAN = {p: {"stages": [("trace", prof, 24000, 480000)], "assumes": list(ASSUMES)} for p, prof in PROFILES.items()}
PLAN["C01"]["stages"].append(("grid", "MC_Compare", 1, 1))
PLAN["C02"]["stages"].append(("grid", "MC_Compare", 1, 1))
PLAN["C04"]["stages"].append(("grid", "MC_Tree", 24, 1))
for _p, _prof in [("C02", "oddcmp"), ("C16", "oddfn"), ("C17", "oddfn"), ("C22", "oddkind")]:
    PLAN[_p]["stages"].append(("trace", _prof, 8000, 160000))
# module: (one case in so many at tier quick, at tier thorough, properties)
for _m, _q, _t, _ps in [("MC_Logic", 60, 4, "C03"), ("MC_Arith:numbers", 1, 1, "C14 C15"), ("MC_Arith:values", 2, 1, "C22 C24"), ("MC_Functions", 1, 1, "C16 C17"), ("MC_Access", 1, 1, "C09 C10"),
                        ("MC_Range", 1, 1, "C13"), ("MC_Sets", 2, 1, "C11 C12"), ("MC_Embed", 1, 1, "C18"), ("MC_Tokens", 31, 2, "C07"), ("MC_Edits", 2, 1, "C07 C23"), ("MC_Tokens6", 101, 5, "C04 C23"),
                        ("MC_Chars", 97, 5, "C05 C06"), ("MC_Words", 1, 1, "C05"), ("MC_Literals", 4, 1, "C06 C08"), ("MC_Kinds:plain", 1, 1, "C22"), ("MC_Kinds:nested", 31, 2, "C22"), ("MC_Concat", 17, 1, "C24"),
                        ("MC_Default", 11, 1, "C23"), ("MC_Parens", 5, 1, "C05"), ("MC_Spaces", 97, 5, "C05 C07"), ("MC_Sizes:sets", 2, 1, "C11 C12"), ("MC_Sizes:numbers", 5, 1, "C14 C16"),
                        ("MC_Sizes:shape", 11, 1, "C03 C04"), ("MC_Sizes:names", 2, 1, "C09 C17"), ("MC_Versions", 211, 7, "C01 C02"), ("MC_Pairs", 5, 1, "C16 C17"), ("MC_Paths", 3, 1, "C09 C10"), ("MC_Stands", 1, 1, "C18"), ("MC_Stands", 7, 1, "C24"), ("MC_Bounds", 5, 1, "C14"), ("MC_Dates", 3, 1, "C02 C06 C17"), ("MC_Shapes", 31, 3, "C06"), ("MC_Large", 1, 1, "C08 C11 C12 C16 C17")]:
    for _p in _ps.split():
        PLAN[_p]["stages"].append(("grid", _m, _q, _t))
PLAN["C19"] = {"stages": [("record", "cache", 1000, 30000), ("session", "line", 61, 5)], "assumes": list(ASSUMES)}
PLAN["C20"] = {"stages": [("record", "purity", 1500, 30000), ("session", "line", 67, 7)], "assumes": list(ASSUMES)}
PLAN["C21"] = {"stages": [("threads", 15, 400), ("record", "storm", 200, 6000), ("session", "pairs", 61, 5)], "assumes": list(ASSUMES)}

_TRACE = "TLC trace validation of calls recorded from the real code"
_GRID = "TLC model checking of the specification's laws over bounded families of cases, replayed on the real code"
_SESSION = "TLC model checking of a session state machine, its behaviours replayed on the real code"
for _p, _d in PLAN.items():
    _kinds = [s[0] for s in _d["stages"]]
    _d["technique"] = "TLA+ specification; " + "; ".join(
        {"C19": ["TLC trace validation of call histories through caching parsers"], "C20": ["TLC trace validation of repeated-call histories"],
         "C21": ["TLC trace validation of concurrent histories under controlled schedules"]}.get(_p, [_TRACE]) + ([_GRID] if "grid" in _kinds else []) + ([_SESSION] if "session" in _kinds else []))
    _d["note"] = ("TLC decides for every recorded or replayed call of the real code whether its outcome, tree, data reads and effects are what the TLA+ specification prescribes; "
                  "bounded by the seeded calls and the families of cases; trusts TLC, the projection in harness/vp and the JDK.")
