#!/usr/bin/env python3
"""Writes shadow manifests that build /repo's sources with the `parallel` feature switched per crate.
usage: gen_c24.py OUTDIR crate,crate,...   (crates listed keep their default features)"""
import os, sys, tomllib
out, on = os.path.abspath(sys.argv[1]), [x for x in sys.argv[2].split(",") if x]
repo = os.environ.get("C24_REPO", "/repo")
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = {}
for d in sorted(os.listdir(repo)):
    f = f"{repo}/{d}/Cargo.toml"
    if os.path.exists(f) and d != "benches":
        names[tomllib.load(open(f, "rb"))["package"]["name"]] = d

def val(x):
    if isinstance(x, bool): return "true" if x else "false"
    if isinstance(x, str): return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(x, (int, float)): return str(x)
    if isinstance(x, list): return "[" + ", ".join(val(v) for v in x) + "]"
    return "{ " + ", ".join(f"{k} = {val(v)}" for k, v in x.items()) + " }"

def deps(t, path):
    o = ""
    for k, v in t.items():
        pkg = v.get("package", k) if isinstance(v, dict) else k
        if pkg in names:
            v = {a: b for a, b in v.items() if a not in ("path", "version")}
            v["path"] = path(names[pkg])
            v["default-features"] = False
            if names[pkg] in on: v["features"] = v.get("features", []) + ["default"]
        elif isinstance(v, dict) and "path" in v:
            v = dict(v, path=os.path.join(verif, "mc", v["path"]))
        o += f"{k} = {val(v)}\n"
    return o

def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s: open(p, "w").write(s)

for n, d in names.items():
    t = tomllib.load(open(f"{repo}/{d}/Cargo.toml", "rb"))
    lib = t.get("lib", {}).get("path", "src/lib.rs")
    s = f'[package]\nname = {val(n)}\nversion = {val(t["package"]["version"])}\nedition = {val(t["package"].get("edition", "2015"))}\n\n[lib]\npath = {val(f"{repo}/{d}/{lib}")}\n\n'
    s += "[dependencies]\n" + deps(t.get("dependencies", {}), lambda x: f"../{x}")
    s += "\n[features]\n" + "".join(f"{k} = {val(v)}\n" for k, v in t.get("features", {}).items())
    write(f"{out}/{d}/Cargo.toml", s)

t = tomllib.load(open(f"{verif}/mc/Cargo.toml", "rb"))
s = f'[package]\nname = "mc"\nversion = {val(t["package"]["version"])}\nedition = "2021"\n\n[workspace]\n\n[lib]\npath = {val(f"{verif}/mc/src/lib.rs")}\n\n[[bin]]\nname = "p_corpus"\npath = {val(f"{verif}/mc/src/bin/p_corpus.rs")}\n\n'
s += "[dependencies]\n" + deps(t["dependencies"], lambda x: f"../{x}")
s += "\n[patch.crates-io]\n" + f'rayon-core = {{ path = {val(os.path.normpath(os.path.join(verif, "mc", t["patch"]["crates-io"]["rayon-core"]["path"])))} }}\n'
s += open(f"{verif}/mc/Cargo.toml").read().split("# profiles\n")[1]
write(f"{out}/mc/Cargo.toml", s)
lock = open(f"{verif}/mc/Cargo.lock").read()
write(f"{out}/mc/Cargo.lock", lock)
