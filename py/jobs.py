"""What is run for each property.

Job kinds:
  model  TLC model-checks a specification module (cfg in spec/).
  enum   TLC enumerates behaviours of a Gen module exhaustively; they are performed on
         the real code and the recorded histories validated against Asta.tla.
  rand   seeded behaviours from gen.py, performed and validated in the same way.
  py     other conformance drivers (configuration files, backends, free-running threads).

clauses: the clauses of Asta.tla which state the property (others are counted in the
evidence, not reported under this property).
"""

ASSUME = [
    "the driver (py/drv.py) records faithfully what asta's public interface did",
    "TLC and the JSON community module evaluate the specification correctly",
    "beyond the exhaustively enumerated scopes the inputs are a seeded sample",
]

SOFT = {"raise": False}
SOFTQ = {"raise": False, "print": False}
QUIET = {"print": False}
NON = {"non": True}


def rand(kind, n, prof=None, c=None, **kw):
    return dict(do="rand", kind=kind, n=n, prof=prof or {}, c=c or {}, **kw)


def model(module, why, cfg=None, **kw):
    return dict(do="model", module=module + ".tla", cfg=(cfg or module) + ".cfg", why=why, **kw)


def enum(module, consts=None, c=None, **kw):
    return dict(do="enum", module=module, consts=consts or {}, c=c or {}, **kw)


CALLISH = {"sym": 0.4, "dim": 0.2, "shp": 0.15, "cont": 0.3, "union": 0.15, "at": 0.1}

PROPS = {
    "C01": dict(clauses=["isinst", "mk", "verdict", "crash"], jobs=[
        rand("isinst", 250, {"sym": 0, "dt": 0.1, "none": 0.06, "rank": 5}),
        rand("isinst", 120, {"sym": 0, "dt": 0.1, "ell": 0.6, "wild": 0.4, "rank": 6, "zero": 0.15}),
        rand("isinst", 120, {"sym": 0, "dt": 0.1, "backend": "T", "rank": 5}),
        rand("isinst", 60, {"sym": 0, "dt": 0.1, "backend": "AT", "ell": 0.5}),
        rand("agree", 60, {"sym": 0, "dt": 0.1, "ell": 0.4}),
        enum("GenShapes", {"MaxDims": 3, "MaxRank": 3, "Kind": '"plain"', "Backend": '"A"'}, thorough={"MaxDims": 4, "MaxRank": 5}),
        enum("GenShapes", {"MaxDims": 3, "MaxRank": 3, "Kind": '"big"', "Backend": '"T"'}, thorough={"MaxDims": 4, "MaxRank": 4}, drv="tf"),
        enum("GenShapes", {"MaxDims": 5, "MaxRank": 6, "Kind": '"big"', "Backend": '"A"'}, tier="thorough"),
        enum("GenMagnitudes", {"Kind": '"rank"', "N": 7, "Every": 5, "Backend": '"A"'}, thorough={"N": 9, "Every": 1}),
        enum("GenMagnitudes", {"Kind": '"rank"', "N": 5, "Every": 7, "Backend": '"T"'}, drv="tf", thorough={"N": 7, "Every": 2}),
        model("MCMatch", "matching of hints without symbols has its direct meaning", consts={"Kind": '"plain"'}, thorough={"MaxDims": 5, "MaxRank": 4}),
    ]),
    "C02": dict(clauses=["isinst", "mk", "verdict", "crash"], jobs=[
        rand("isinst", 250, {"sym": 0, "dt": 0.9}),
        rand("isinst", 150, {"sym": 0, "dt": 0.9, "backend": "T"}),
        rand("agree", 60, {"sym": 0, "dt": 0.9, "backend": "AT"}),
        enum("GenDtypes", {"Backend": '"A"'}),
        enum("GenDtypes", {"Backend": '"T"'}, drv="tf"),
    ]),
    "C03": dict(clauses=["isinst", "mk", "verdict", "crash"], jobs=[
        rand("isinst", 200, {"sym": 0.7, "dt": 0.1, "ell": 0.15}),
        rand("isinst", 100, {"sym": 0.5, "dt": 0.1, "ell": 0.4, "wild": 0.4, "rank": 5}),
        rand("isinst", 80, {"sym": 0.7, "dt": 0.1, "backend": "T", "ell": 0.2}),
        enum("GenShapes", {"MaxDims": 2, "MaxRank": 3, "Kind": '"sym"', "Backend": '"A"'}, thorough={"MaxDims": 3}),
        enum("GenShapes", {"MaxDims": 2, "MaxRank": 2, "Kind": '"sym2"', "Backend": '"A"'}, thorough={"MaxDims": 3, "MaxRank": 3}),
        enum("GenShapes", {"MaxDims": 2, "MaxRank": 2, "Kind": '"sym"', "Backend": '"T"'}, thorough={"MaxRank": 3}, drv="tf"),
        enum("GenSystems", {"Kind": '"hint"', "Vars": 3, "N": 2, "Every": 67, "Backend": '"A"'}, thorough={"Every": 2}),
        enum("GenSystems", {"Kind": '"hint"', "Vars": 2, "N": 3, "Every": 79, "Backend": '"A"'}, thorough={"Every": 5}),
        enum("GenSystems", {"Kind": '"hint"', "Vars": 3, "N": 3, "Every": 509, "Backend": '"T"'}, drv="tf", thorough={"Every": 37}),
        enum("GenSystems", {"Kind": '"hint"', "Vars": 3, "N": 4, "Every": 2003, "Backend": '"A"'}, tier="thorough"),
        enum("GenMagnitudes", {"Kind": '"equations"', "N": 7, "Every": 7, "Backend": '"A"'}, thorough={"N": 9, "Every": 2}),
        model("MCPoly", "the solvability procedure agrees with a direct search for solutions"),
        model("MCPlanted", "systems made from a solution, with large numbers, are not unsolvable", thorough={"MaxEq": 3}),
        model("MCMatch", "matching of hints with symbols has its direct meaning", consts={"Kind": '"sym"', "MaxDims": 2, "MaxRank": 2}, thorough={"MaxDims": 3, "MaxRank": 3}),
        model("MCMatch", "the same with products, squares and coefficients", consts={"Kind": '"hard"', "MaxDims": 2, "MaxRank": 2}, thorough={"MaxDims": 3, "MaxRank": 3}),
    ]),
    "C04": dict(clauses=["verdict", "raise", "crash"], jobs=[
        rand("calls", 200, {"sym": 0.8, "dt": 0.05, "ell": 0.1, "defaults": 0.3}),
        rand("calls", 150, {"sym": 0.7, "dt": 0.05, "ell": 0.1, "cont": 0.5, "union": 0.1, "at": 0.2}),
        rand("calls", 60, {"sym": 0.7, "dt": 0.05, "backend": "AT", "ell": 0.1, "cont": 0.2}),
        model("MCAsta", "calls and returns in every order of two threads: verdicts, reports and the systems of the frames have their direct meaning", thorough={"MaxSize": 3, "DimVals": 2, "ShapeVals": 2}),
        enum("GenCalls", {"Kind": '"pairs"', "Sizes": 3, "Backend": '"A"'}),
        enum("GenCalls", {"Kind": '"default"', "Sizes": 2, "Backend": '"A"'}, thorough={"Sizes": 3}),
        enum("GenCalls", {"Kind": '"nested"', "Sizes": 2, "Backend": '"A"'}, thorough={"Sizes": 3}),
        enum("GenCalls", {"Kind": '"wide"', "Sizes": 2, "Backend": '"A"'}, thorough={"Sizes": 4}),
        enum("GenCalls", {"Kind": '"pairs"', "Sizes": 3, "Backend": '"T"'}, drv="tf", tier="thorough"),
        enum("GenMagnitudes", {"Kind": '"equations"', "N": 9, "Every": 3, "Backend": '"A"'}, thorough={"N": 12, "Every": 1}),
        enum("GenSystems", {"Kind": '"call"', "Vars": 2, "N": 3, "Every": 97, "Backend": '"A"'}, thorough={"Every": 7}),
        enum("GenSystems", {"Kind": '"call"', "Vars": 3, "N": 4, "Every": 7001, "Backend": '"A"'}, thorough={"Every": 1009}),
    ]),
    "C05": dict(clauses=["verdict", "isinst", "soft", "eq", "crash", "transparent: the body"], jobs=[
        rand("history", 120, CALLISH),
        rand("threads", 60, {"sym": 0.5, "dim": 0.2, "shp": 0.1, "cont": 0.2, "union": 0.1}),
        rand("history", 60, {**CALLISH, "steps": {"call": 4, "isinst": 5, "mk": 2, "eq": 2, "setdim": 1, "setshape": 1}}),
        rand("history", 40, CALLISH, SOFT),
        rand("isinst", 60, {"keep": 1.0, "sym": 0.4, "dt": 0.2}),
        rand("calls", 60, {**CALLISH, "keep": 1.0, "cont": 0.6}),
        rand("calls", 40, {**CALLISH, "keep": 1.0, "cont": 0.6}, SOFT),
        model("MCAsta", "calls and returns in every order of two threads: verdicts, reports and the systems of the frames have their direct meaning", thorough={"MaxDepth": 2, "MaxCalls": 3}),
        enum("GenHistory", {"Kind": '"flat"', "N": 2, "Every": 1}, thorough={"N": 3, "Every": 7}),
        enum("GenHistory", {"Kind": '"nested"', "N": 2, "Every": 23}, thorough={"Every": 2}),
        enum("GenHistory", {"Kind": '"memo"', "N": 2, "Every": 5}, thorough={"Every": 1}),
        enum("GenHistory", {"Kind": '"two"', "N": 2, "Every": 17}, thorough={"Every": 2}),
        enum("GenHistory", {"Kind": '"three"', "N": 1, "Every": 61}, thorough={"Every": 7}),
    ]),
    "C06": dict(clauses=["verdict", "raise", "bind", "crash"], jobs=[
        rand("calls", 150, {**CALLISH, "defaults": 0.4, "bad": 0.6}),
        rand("calls", 80, {**CALLISH, "backend": "AT", "bad": 0.6}),
        rand("calls", 80, {**CALLISH, "other": 0.2, "bad": 0.6}, NON),
        rand("calls", 50, {**CALLISH, "bad": 0.6}, QUIET),
        model("MCAsta", "calls and returns in every order of two threads: verdicts, reports and the systems of the frames have their direct meaning", consts={"Threads": "{1}", "MaxDepth": 2, "MaxCalls": 3, "ShapeVals": 2}, thorough={"MaxSize": 3, "DimVals": 2}),
        enum("GenCalls", {"Kind": '"nested"', "Sizes": 2, "Backend": '"A"'}, thorough={"Sizes": 3}),
        enum("GenBind", {"MinParams": 1, "MaxParams": 2, "Kind": '"func"', "Every": 7}, thorough={"Every": 1}),
    ]),
    "C07": dict(clauses=["transparent", "def", "switch", "crash"], jobs=[
        rand("calls", 150, {"cont": 0.4, "defaults": 0.5, "bad": 0.1, "clsdef": 0.3, "sym": 0.3}),
        rand("calls", 80, {"raises": 0.5, "bad": 0.15, "clsdef": 0.2}),
        rand("calls", 40, {"raises": 0.5, "bad": 0.3, "clsdef": 0.2}, SOFT),
        rand("history", 80, {"cont": 0.3, "defaults": 0.3, "bad": 0.2, "clsdef": 0.3, "nest": 4}),
        rand("calls", 60, {"cont": 0.4, "bad": 0.1, "backend": "AT"}, QUIET),
        enum("GenHistory", {"Kind": '"nested"', "N": 2, "Every": 29}, thorough={"Every": 3}),
        enum("GenBind", {"MinParams": 1, "MaxParams": 2, "Kind": '"class"', "Every": 31}, thorough={"Every": 3}),
    ]),
    "C08": dict(clauses=["verdict", "bind", "transparent: the body", "crash"], jobs=[
        rand("calls", 220, {"defaults": 0.5, "weird": 0.35, "unann": 0.1, "sym": 0.3, "bad": 0.4}),
        rand("calls", 150, {"defaults": 0.4, "weird": 0.25, "clsdef": 0.7, "sym": 0.3, "bad": 0.4}),
        rand("calls", 60, {"defaults": 0.4, "weird": 0.3, "sym": 0.2}, SOFT),
        enum("GenBind", {"MinParams": 1, "MaxParams": 2, "Kind": '"func"', "Every": 1}),
        enum("GenBind", {"MinParams": 3, "MaxParams": 3, "Kind": '"func"', "Every": 13}, thorough={"Every": 3}),
        enum("GenBind", {"MinParams": 1, "MaxParams": 2, "Kind": '"class"', "Every": 5}, thorough={"Every": 1}),
        enum("GenMagnitudes", {"Kind": '"long"', "N": 12, "Every": 7, "Backend": '"A"'}, thorough={"N": 20, "Every": 1}),
                enum("GenBind", {"MinParams": 3, "MaxParams": 3, "Kind": '"class"', "Every": 41}, tier="thorough"),
    ]),
    "C09": dict(clauses=["verdict", "name", "mk", "soft", "isinst", "store", "crash"], jobs=[
        rand("calls", 220, {"dim": 0.7, "sym": 0.1, "dt": 0.1, "bad": 0.4, "lateread": 0.15, "mag": 0.3, "mags": ["vars"] * 8}),
        rand("history", 80, {"dim": 0.7, "sym": 0.2, "dt": 0.1, "shp": 0.1, "bad": 0.4, "lateread": 0.2}),
        rand("threads", 30, {"dim": 0.7, "sym": 0.2, "dt": 0.1}),
        rand("calls", 60, {"dim": 0.7, "sym": 0.1, "backend": "T", "dt": 0.1}),
        model("MCAsta", "calls and returns in every order of two threads: verdicts, reports and the systems of the frames have their direct meaning", consts={"Threads": "{1}", "DimVals": 2, "ShapeVals": 1, "MaxSize": 3, "MaxCalls": 1}, thorough={"MaxCalls": 2}),
        enum("GenStores", {"Kind": '"dims"', "Before": 1, "After": 1, "Every": 1, "Backend": '"A"'}, thorough={"Before": 2, "Every": 5}),
        enum("GenStores", {"Kind": '"body"', "Before": 1, "After": 2, "Every": 1, "Backend": '"A"'}, thorough={"After": 3}),
        enum("GenStores", {"Kind": '"dims"', "Before": 1, "After": 1, "Every": 3, "Backend": '"T"'}, thorough={"Every": 1}, drv="tf"),
    ]),
    "C10": dict(clauses=["verdict", "name", "mk", "soft", "store", "crash"], jobs=[
        rand("calls", 220, {"shp": 0.7, "dim": 0.1, "sym": 0.15, "dt": 0.1, "bad": 0.4, "ell": 0.1}),
        rand("history", 80, {"shp": 0.7, "dim": 0.1, "sym": 0.2, "dt": 0.1, "bad": 0.4, "ell": 0.1}),
        rand("calls", 60, {"shp": 0.7, "sym": 0.1, "backend": "T", "dt": 0.1, "ell": 0.1}),
        rand("malformed", 40, {"shp": 0.5, "malformed": 0.1}),
        rand("concat", 100, {"dim": 0.2, "sym": 0.2}),
        rand("concat", 40, {"dim": 0.2, "sym": 0.2, "backend": "T"}),
        model("MCAsta", "calls and returns in every order of two threads: verdicts, reports and the systems of the frames have their direct meaning", consts={"Threads": "{1}", "DimVals": 1, "ShapeVals": 2, "MaxSize": 3, "MaxCalls": 1}, thorough={"MaxCalls": 2}),
        enum("GenStores", {"Kind": '"shapes"', "Before": 1, "After": 1, "Every": 1, "Backend": '"A"'}, thorough={"Before": 2, "Every": 5}),
        enum("GenMagnitudes", {"Kind": '"splice"', "N": 8, "Every": 3, "Backend": '"A"'}, thorough={"N": 12, "Every": 1}),
        enum("GenStores", {"Kind": '"body"', "Before": 1, "After": 2, "Every": 1, "Backend": '"A"'}, thorough={"After": 3}),
        enum("GenStores", {"Kind": '"shapes"', "Before": 1, "After": 1, "Every": 3, "Backend": '"T"'}, thorough={"Every": 1}, drv="tf"),
    ]),
    "C11": dict(clauses=["isinst", "verdict", "mk", "crash"], jobs=[
        rand("agree", 200, {"at": 0.2}),
        rand("agree", 60, {"sym": 0.6, "dt": 0.2}),
        rand("agree", 80, {"backend": "T", "at": 0.2}),
        rand("agree", 60, {"at": 0.2}, SOFTQ),
        enum("GenHints", {"Kind": '"agree"', "N": 2, "Every": 1, "Backend": '"A"'}),
        enum("GenHints", {"Kind": '"agree"', "N": 2, "Every": 1, "Backend": '"T"'}, drv="tf"),
    ]),
    "C12": dict(clauses=["verdict", "def", "crash"], jobs=[
        rand("calls", 200, {"cont": 0.9, "depth": 3, "sym": 0.2}),
        rand("calls", 100, {"cont": 0.9, "depth": 3, "sym": 0.2, "other": 0.2, "union": 0.1}, {"all": False}),
        rand("calls", 80, {"cont": 0.9, "depth": 3, "sym": 0.2, "other": 0.3}, NON),
        rand("calls", 50, {"cont": 0.9, "depth": 3, "backend": "AT"}),
        rand("calls", 50, {"cont": 0.9, "depth": 3, "sym": 0.2, "mag": 0.8, "mags": ["deep"] * 16 + ["long"] * 16}),
        rand("calls", 40, {"cont": 0.9, "depth": 3, "sym": 0.2, "keep": 1.0}),
        enum("GenMagnitudes", {"Kind": '"long"', "N": 20, "Every": 7, "Backend": '"A"'}, thorough={"N": 20, "Every": 1}),
        enum("GenMagnitudes", {"Kind": '"longer"', "N": 65, "Every": 3, "Backend": '"A"'}, thorough={"N": 129, "Every": 1}),
        enum("GenMagnitudes", {"Kind": '"longer"', "N": 65, "Every": 7, "Backend": '"A"'}, {"all": False}, thorough={"N": 129, "Every": 2}),
        enum("GenMagnitudes", {"Kind": '"depth"', "N": 6, "Every": 3, "Backend": '"A"'}, thorough={"N": 8, "Every": 1}),
        enum("GenMagnitudes", {"Kind": '"depth"', "N": 6, "Every": 7, "Backend": '"A"'}, {"all": False}, thorough={"N": 8, "Every": 1}),
        model("MCAnnots", "containers of array hints have their direct meaning", thorough={"Nested": "TRUE"}),
        model("MCAnnots", "the same with check-sequence-elements=no", consts={"Full": "FALSE"}, thorough={"Nested": "TRUE"}),
        enum("GenContainers", {"Kind": '"flat"', "Every": 2}, thorough={"Every": 1}),
        enum("GenContainers", {"Kind": '"deep"', "Every": 9}, thorough={"Every": 3}),
        enum("GenContainers", {"Kind": '"flat"', "Every": 5}, {"all": False}, thorough={"Every": 1}),
        enum("GenContainers", {"Kind": '"deep"', "Every": 17}, {"all": False}, thorough={"Every": 5}),
    ]),
    "C13": dict(clauses=["verdict", "soft", "report: no FAILED", "report: one PASSED", "report: a violation", "crash"], jobs=[
        rand("calls", 200, {"union": 0.8, "cont": 0.3, "depth": 3, "sym": 0.3}),
        rand("calls", 120, {"union": 0.8, "cont": 0.3, "depth": 3, "sym": 0.3}, SOFT),
        rand("calls", 80, {"union": 0.8, "cont": 0.2, "other": 0.3, "depth": 3, "sym": 0.1}, {**NON, **SOFTQ}),
        model("MCAnnots", "unions have their direct meaning wherever it is decided, whatever the order of the alternatives", thorough={"Nested": "TRUE"}),
        enum("GenContainers", {"Kind": '"union"', "Every": 1}, thorough={"Every": 1}),
        enum("GenContainers", {"Kind": '"union"', "Every": 3}, SOFT, thorough={"Every": 1}),
        enum("GenMagnitudes", {"Kind": '"long"', "N": 9, "Every": 9, "Backend": '"A"'}, thorough={"N": 20, "Every": 2}),
        enum("GenMagnitudes", {"Kind": '"depth"', "N": 5, "Every": 3, "Backend": '"A"'}, thorough={"N": 7, "Every": 1}),
    ]),
    "C14": dict(clauses=["soft", "transparent", "report: no FAILED", "report: a violation", "report: an accepted", "crash"], jobs=[
        rand("calls", 150, {**CALLISH, "other": 0.1, "bad": 0.6}, SOFT),
        rand("calls", 100, {**CALLISH, "other": 0.3, "bad": 0.6}, {**SOFT, **NON}),
        rand("calls", 100, {**CALLISH, "bad": 0.6}, SOFTQ),
        rand("calls", 60, {**CALLISH, "bad": 0.6, "clsdef": 0.4, "defaults": 0.4}, SOFT),
        rand("history", 40, {**CALLISH, "bad": 0.6}, SOFT),
        rand("calls", 40, {**CALLISH, "bad": 0.6, "backend": "AT"}, SOFT),
        model("MCAsta", "calls and returns in every order of two threads: verdicts, reports and the systems of the frames have their direct meaning", consts={"RaiseErrs": "FALSE"}, thorough={"MaxSize": 3}),
        enum("GenContainers", {"Kind": '"flat"', "Every": 4}, SOFT, thorough={"Every": 1}),
        enum("GenBind", {"MinParams": 1, "MaxParams": 2, "Kind": '"func"', "Every": 2}, SOFT, thorough={"Every": 1}),
        enum("GenContainers", {"Kind": '"atoms"', "Every": 3}, {**SOFT, **NON}, thorough={"Every": 1}),
        enum("GenStores", {"Kind": '"body"', "Before": 1, "After": 1, "Every": 1, "Backend": '"A"'}, SOFT, thorough={"After": 2}),
    ]),
    "C15": dict(clauses=["switch", "def", "verdict", "transparent", "crash"], jobs=[
        rand("history", 120, {"clsdef": 0.4, "bad": 0.6, "steps": {"call": 5, "def": 3, "env": 3}}),
        rand("history", 60, {"clsdef": 0.4, "bad": 0.6, "steps": {"call": 5, "def": 3, "env": 3}}, {"on": False}),
        model("MCAsta", "calls and returns in every order of two threads: verdicts, reports and the systems of the frames have their direct meaning", consts={"Threads": "{1}", "MaxFuns": 2, "MaxCalls": 1, "MaxSize": 1, "ShapeVals": 1, "Envs": '{"unset","1","0"}'}, thorough={"MaxSize": 2}),
        enum("GenSwitch", {"Kind": '"switch"', "N": 1, "Every": 1}, thorough={"Every": 1}),
        enum("GenSwitch", {"Kind": '"switch"', "N": 1, "Every": 2}, {"on": False}, thorough={"Every": 1}),
        enum("GenSwitch", {"Kind": '"switch"', "N": 1, "Every": 3}, SOFT, thorough={"Every": 1}),
        enum("GenSwitch", {"Kind": '"during"', "N": 1, "Every": 1}),
    ]),
    "C16": dict(clauses=["report", "name", "def", "crash"], jobs=[
        rand("calls", 150, {**CALLISH, "bad": 0.4}),
        rand("calls", 80, {**CALLISH, "bad": 0.4}, QUIET),
        rand("history", 80, {**CALLISH, "bad": 0.3, "nest": 4}),
        rand("history", 60, {**CALLISH, "bad": 0.4, "nest": 4}, QUIET),
        rand("calls", 60, {**CALLISH, "bad": 0.4, "backend": "AT", "clsdef": 0.3}),
        model("MCAsta", "calls and returns in every order of two threads: verdicts, reports and the systems of the frames have their direct meaning", consts={"PrintPass": "FALSE"}, thorough={"MaxSize": 3}),
        enum("GenHistory", {"Kind": '"nested"', "N": 2, "Every": 31}, thorough={"Every": 3}),
        enum("GenCalls", {"Kind": '"nested"', "Sizes": 2, "Backend": '"A"'}, QUIET, thorough={"Sizes": 3}),
        enum("GenContainers", {"Kind": '"flat"', "Every": 7}, thorough={"Every": 2}),
        enum("GenMagnitudes", {"Kind": '"long"', "N": 12, "Every": 17, "Backend": '"A"'}, thorough={"N": 20, "Every": 2}),
    ]),
    "C17": dict(clauses=["config", "crash"], qscale=1, scale=12, jobs=[
        rand("config", 150, drv="config"),
        rand("config", 60, {"files": 12, "boots": 2}, drv="config"),
        enum("GenConfig", {"Part": '"subsets"', "MaxFiles": 1}, thorough={"MaxFiles": 2}, drv="config"),
        enum("GenConfig", {"Part": '"kinds"', "MaxFiles": 1}, drv="config"),
        enum("GenConfig", {"Part": '"looks"', "MaxFiles": 1}, drv="config"),
        enum("GenConfig", {"Part": '"options"', "MaxFiles": 1}, drv="config", tier="thorough"),
        enum("GenConfig", {"Part": '"warn"', "MaxFiles": 1}, drv="config", tier="thorough"),
        model("MCConfig", "the resolution order: totality, priority and independence of the settings", thorough={"Used": 12}),
    ]),
    "C18": dict(clauses=["isinst", "mk", "eq", "crash"], jobs=[
        rand("refine", 200, {"at": 0.2}),
        rand("refine", 100, {"backend": "T", "at": 0.2}),
        model("MCHints", "parts are refined independently, the last one wins, equal hints refine to equal hints", thorough={"MaxSteps": 3}),
        enum("GenHints", {"Kind": '"refine"', "N": 3, "Every": 3, "Backend": '"A"'}, thorough={"Every": 1}),
        enum("GenHints", {"Kind": '"refine"', "N": 3, "Every": 17, "Backend": '"T"'}, thorough={"Every": 3}, drv="tf"),
    ]),
    "C19": dict(clauses=["eq", "isinst", "mk", "crash"], jobs=[
        rand("equal", 250, {"at": 0.3, "dim": 0.1, "shp": 0.1}),
        rand("equal", 100, {"at": 0.3, "backend": "AT", "dim": 0.1, "shp": 0.1}),
        model("MCHints", "equality is an equivalence, respected by acceptance and refinement", thorough={"MaxSteps": 3}),
        enum("GenHints", {"Kind": '"equal"', "N": 2, "Every": 1, "Backend": '"A"'}, thorough={"Every": 1}),
        enum("GenHints", {"Kind": '"equal"', "N": 2, "Every": 3, "Backend": '"T"'}, thorough={"Every": 1}, drv="tf"),
        enum("GenHints", {"Kind": '"dtypes"', "N": 2, "Every": 1, "Backend": '"A"'}),
        enum("GenHints", {"Kind": '"dtypes"', "N": 2, "Every": 1, "Backend": '"T"'}, drv="tf"),
    ]),
    "C20": dict(clauses=["mk", "new", "isinst", "crash"], jobs=[
        rand("malformed", 250, {"malformed": 0.4, "shp": 0.1, "dim": 0.1, "at": 0.1}),
        rand("malformed", 120, {"malformed": 0.4, "backend": "T", "at": 0.1}),
        model("MCHints", "whether a subscript is malformed does not depend on the hint", consts={"MaxSteps": 1}, thorough={"MaxSteps": 3}),
        enum("GenHints", {"Kind": '"malformed"', "N": 3, "Every": 2, "Backend": '"A"'}, thorough={"Every": 1}),
        enum("GenMagnitudes", {"Kind": '"spots"', "N": 8, "Every": 1, "Backend": '"A"'}, thorough={"N": 12, "Every": 1}),
        enum("GenMagnitudes", {"Kind": '"spots"', "N": 7, "Every": 2, "Backend": '"T"'}, drv="tf", thorough={"N": 12, "Every": 1}),
        enum("GenHints", {"Kind": '"malformed"', "N": 3, "Every": 7, "Backend": '"T"'}, thorough={"Every": 1}, drv="tf"),
    ]),
    "C21": dict(clauses=["verdict", "def", "transparent", "bind", "switch", "raise", "report", "crash"], jobs=[
        rand("calls", 200, {"clsdef": 1.0, "sym": 0.3, "defaults": 0.3, "weird": 0.1}),
        rand("history", 60, {"clsdef": 1.0, "sym": 0.3, "dim": 0.2, "nest": 3}),
        rand("calls", 60, {"clsdef": 1.0, "sym": 0.3}, SOFT),
        enum("GenSwitch", {"Kind": '"class"', "N": 1, "Every": 1}),
        enum("GenSwitch", {"Kind": '"class"', "N": 2, "Every": 2}, thorough={"Every": 1}),
        enum("GenSwitch", {"Kind": '"inner"', "N": 1, "Every": 7}, thorough={"Every": 2}),
        enum("GenSwitch", {"Kind": '"class"', "N": 1, "Every": 1}, SOFT, thorough={"N": 2, "Every": 3}),
        enum("GenSwitch", {"Kind": '"class"', "N": 3, "Every": 37}, tier="thorough"),
        enum("GenBind", {"MinParams": 1, "MaxParams": 2, "Kind": '"class"', "Every": 29}, thorough={"Every": 3}),
    ]),
    "C22": dict(clauses=["isinst", "verdict", "mk", "crash"], jobs=[
        rand("isinst", 150, {"at": 0.9, "sym": 0.3}),
        rand("agree", 80, {"at": 0.9, "sym": 0.3}),
        rand("refine", 60, {"at": 0.9, "sym": 0.3}),
        rand("calls", 100, {"at": 0.9, "sym": 0.4, "dim": 0.2, "shp": 0.1}),
        rand("isinst", 40, {"at": 0.9, "backend": "T"}),
        enum("GenMagnitudes", {"Kind": '"attrs"', "N": 1, "Every": 1, "Backend": '"A"'}, thorough={"N": 1, "Every": 1}),
        enum("GenHints", {"Kind": '"attrs"', "N": 2, "Every": 2, "Backend": '"A"'}, thorough={"Every": 1}),
        enum("GenHints", {"Kind": '"attrs"', "N": 2, "Every": 7, "Backend": '"T"'}, thorough={"Every": 2}, drv="tf"),
    ]),
    "C23": dict(clauses=["verdict", "def", "soft", "raise", "crash"], jobs=[
        rand("calls", 200, {"other": 0.8, "cont": 0.3, "union": 0.2}, NON),
        rand("calls", 150, {"other": 0.7, "cont": 0.3, "union": 0.2}),
        rand("calls", 60, {"other": 0.7, "cont": 0.3, "union": 0.2}, {**NON, **SOFT}),
        enum("GenContainers", {"Kind": '"atoms"', "Every": 1}, NON, thorough={"Every": 1}),
        enum("GenContainers", {"Kind": '"atoms"', "Every": 3}, thorough={"Every": 1}),
        enum("GenContainers", {"Kind": '"atoms"', "Every": 3}, {**NON, **SOFT}, thorough={"Every": 1}),
    ]),
    "C24": dict(clauses=["store", "mk: concatenating", "crash"], jobs=[
        rand("stores", 300, {"badset": 0.35}),
        enum("GenStores", {"Kind": '"names"', "Before": 0, "After": 2, "Every": 2, "Backend": '"A"'}, thorough={"Every": 1}),
    ]),
    "C25": dict(clauses=["backend", "isinst", "mk", "verdict", "raise", "def", "eq", "crash"], jobs=[
        *[enum("GenBackends", drv=m) for m in ("", "absent", "broken", "torch", "tf", "tf+torch", "tf+absent", "tf+broken")],
        *[rand("isinst", 25, {"sym": 0.2, "dt": 0.5, "at": 0.1}, drv=m) for m in
          ("", "absent", "broken", "torch", "tf+absent", "tf+torch")],
        *[rand("calls", 25, CALLISH, drv=m) for m in ("", "absent", "broken", "torch", "tf+absent", "tf+torch")],
        *[rand("agree", 15, {}, drv=m) for m in ("absent", "broken", "torch", "tf+torch")],
    ]),
    "C26": dict(clauses=["isinst", "mk", "new", "eq", "verdict", "raise", "transparent", "soft", "report", "name", "def", "crash"], jobs=[
        enum("GenShapes", {"MaxDims": 3, "MaxRank": 3, "Kind": '"big"', "Backend": '"P"'}, thorough={"MaxDims": 4, "MaxRank": 4}, drv="torch"),
        enum("GenShapes", {"MaxDims": 2, "MaxRank": 2, "Kind": '"sym"', "Backend": '"P"'}, thorough={"MaxRank": 3}, drv="torch"),
        enum("GenDtypes", {"Backend": '"P"'}, drv="torch"),
        rand("isinst", 80, {"backend": "P", "sym": 0.4, "dt": 0.4, "at": 0.1}),
        rand("isinst", 40, {"backend": "AP", "sym": 0.2, "dt": 0.4}),
        rand("calls", 80, {"backend": "P", **CALLISH}),
        rand("calls", 40, {"backend": "AP", **CALLISH}, SOFT),
        rand("agree", 40, {"backend": "P", "at": 0.1}),
        rand("refine", 40, {"backend": "P", "at": 0.1}),
        rand("equal", 60, {"backend": "AP", "at": 0.2, "dim": 0.1}),
        rand("malformed", 50, {"backend": "P", "malformed": 0.4}),
        enum("GenHints", {"Kind": '"refine"', "N": 3, "Every": 37, "Backend": '"P"'}, thorough={"Every": 3}, drv="torch"),
        enum("GenHints", {"Kind": '"equal"', "N": 2, "Every": 13, "Backend": '"P"'}, thorough={"Every": 1}, drv="torch"),
        enum("GenHints", {"Kind": '"dtypes"', "N": 2, "Every": 1, "Backend": '"P"'}, drv="torch"),
        enum("GenHints", {"Kind": '"malformed"', "N": 3, "Every": 11, "Backend": '"P"'}, thorough={"Every": 1}, drv="torch"),
        enum("GenHints", {"Kind": '"attrs"', "N": 2, "Every": 17, "Backend": '"P"'}, thorough={"Every": 2}, drv="torch"),
        enum("GenHints", {"Kind": '"agree"', "N": 2, "Every": 1, "Backend": '"P"'}, thorough={"Every": 1}, drv="torch"),
        enum("GenCalls", {"Kind": '"pairs"', "Sizes": 2, "Backend": '"P"'}, thorough={"Sizes": 3}, drv="torch"),
        enum("GenStores", {"Kind": '"dims"', "Before": 1, "After": 1, "Every": 5, "Backend": '"P"'}, thorough={"Every": 1}, drv="torch"),
        enum("GenStores", {"Kind": '"shapes"', "Before": 1, "After": 1, "Every": 5, "Backend": '"P"'}, thorough={"Every": 1}, drv="torch"),
    ]),
    "C27": dict(clauses=["scalar", "isinst", "mk", "verdict", "crash"], jobs=[
        rand("scalar", 100),
        rand("scalar", 100, {}, NON),
        rand("scalar", 60, {"backend": "AT"}, NON),
        rand("scalar", 40, {"backend": "AP"}, NON),
    ]),
    "C28": dict(clauses=["warn", "crash"], qscale=1, scale=12, jobs=[
        rand("config", 120, {"files": 2}, drv="config"),
        enum("GenConfig", {"Part": '"warn"', "MaxFiles": 1}, drv="config"),
    ]),
}
