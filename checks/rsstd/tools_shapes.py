#!/usr/bin/env python3
"""Writes the list of shapes for both languages: cpp/shapes.inc and src/shapes.rs."""
import os, random
here = os.path.dirname(os.path.abspath(__file__))
LEAF = {  # name: (C++, Rust)
    "u8": ("T_<u8>", "TransmuteAbi<u8>"), "i32": ("T_<i32>", "TransmuteAbi<i32>"), "u64": ("T_<u64>", "TransmuteAbi<u64>"),
    "f64": ("T_<double>", "TransmuteAbi<f64>"), "bool": ("T_<bool>", "TransmuteAbi<bool>"), "big": ("T_<Big>", "TransmuteAbi<Big>"),
    "own": ("T_<Own>", "TransmuteAbi<Own>"), "cpy": ("T_<Cpy>", "TransmuteAbi<Cpy>"), "dft": ("T_<Dft>", "TransmuteAbi<Dft>"),
    "str": ("Bs", "BoxedCppStringAbi"),
}
def cc(s):
    if isinstance(s, str): return LEAF[s][0]
    k, *a = s
    return {"t": "Tu", "p": "Pr", "o": "Op"}[k] + "<" + ", ".join(map(cc, a)) + ">"
def rs(s):
    if isinstance(s, str): return LEAF[s][1]
    k, *a = s
    if k == "o": return f"OptionAbi<{rs(a[0])}>"
    return "(" + "".join(rs(x) + ", " for x in a).rstrip() + ")"
shapes = [*LEAF, ("t",), ("t", "u8"), ("t", "own"), ("p", "u8", "u64"), ("p", "own", "cpy"), ("p", "str", "dft"), ("o", "u8"), ("o", "own"),
    ("o", "str"), ("o", ("o", "dft")), ("t", "big", "u8", "big"), ("t", "own", "own", "own"), ("t", "cpy", "str", "dft", "u8"),
    ("o", ("t", "u8", ("o", "cpy"), "own")), ("t", ("o", "own"), ("o", "str"), ("o", "big")), ("p", ("o", "u64"), ("p", "bool", ("o", "own"))),
    ("o", ("p", ("o", "i32"), ("o", ("p", "own", "str")))), ("t", ("t",), ("o", ("t",)), "u8"), ("t", *["u8", "own", "i32", "str", "u64", "cpy"]),
    ("t", *["u8"] * 5, "big", "own", "dft", "cpy", "str", "bool", "f64")]
r = random.Random(5)
def rnd(d):
    if d == 0 or r.random() < 0.3: return r.choice(list(LEAF))
    k = r.choice("tpo")
    return (k, *[rnd(d - 1) for _ in range({"t": r.randint(0, 4), "p": 2, "o": 1}[k])])
while len(shapes) < 60:
    s = rnd(3)
    if s not in shapes: shapes.append(s)
with open(here + "/cpp/shapes.inc", "w") as f:
    for i, s in enumerate(shapes): f.write(f"SHAPE({i}, {cc(s)})\n")
with open(here + "/src/shapes.rs", "w") as f:
    f.write("// Written by tools_shapes.py.\nshapes! {\n")
    for s in shapes: f.write(f"    {rs(s)};\n")
    f.write("}\n")
