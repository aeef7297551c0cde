COMMON_ASSUMPTIONS = [
    "z3 answers are trusted; the C builtins of Python (str, int, list, dict, math, struct, base64, json) are modelled in sx/rt.py and sx/values.py and validated by replaying sampled paths on the real interpreter",
]
PROPERTIES = {
    "C19": dict(modules=["cluster"]),
    "C20": dict(modules=["models"]),
    "C21": dict(modules=["formulas"]),
    "C26": dict(modules=["pretty"]),
    "C27": dict(modules=["chains"]),
    "C25": dict(modules=["sweep"]),
    "C30": dict(modules=["dist"]),
    "C31": dict(modules=["linalg"]),
    "C29": dict(modules=["randoms"]),
    "C28": dict(modules=["times"]),
    "C32": dict(modules=["snapshots"]),
    "C24": dict(modules=["timing"]),
    "C33": dict(modules=["packing"]),
    "C34": dict(modules=["rewriting"]),
    "C23": dict(modules=["roundtrip"]),
    "C22": dict(modules=["callgraph"]),
    "C08": dict(modules=["concurrency"]),
    "C09": dict(modules=["c09"]),
    "C07": dict(modules=["c07"]),
    "C06": dict(modules=["c06"]),
    "C05": dict(modules=["lang", "langcast"]),
    "C04": dict(modules=["schemajson"]),
    "C03": dict(modules=["ordering"]),
    "C02": dict(modules=["codec"]),
    "C01": dict(modules=["typeacc"]),
    "C10": dict(modules=["arith"]),
    "C13": dict(modules=["arrays"]),
    "C14": dict(modules=["hof"]),
    "C11": dict(modules=["casts"]),
    "C16": dict(modules=["bytesenum"]),
    "C12": dict(modules=["strings"]),
    "C17": dict(modules=["stats", "statla"]),
    "C18": dict(modules=["trees"]),
    "C37": dict(modules=["transforms"]),
    "C36": dict(modules=["producers"]),
    "C15": dict(modules=["maps"]),
}
