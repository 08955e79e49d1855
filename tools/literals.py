#!/usr/bin/env python3
"""The fuzzing dictionary: string, character and number literals of the code under test, per version.

  literals.py --base     rewrites harness/dict_base.json (literal -> count) from /repo's tree

The counts of the pinned tree are committed, so that a literal the working tree adds (or uses once more)
is generated more often than the thousands that were there before. The dictionary only steers the
generators: no oracle ever looks at it.
"""
import json, os, re, sys

TOKEN = re.compile(
    r'//[^\n]*|/\*.*?\*/'
    r'|b?"((?:[^"\\]|\\.)*)"'
    r"|b?'((?:[^'\\\n]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)))'"
    r'|(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?)(?:_?[iuf](?:8|16|32|64|size))?(?![\w])', re.S)
STRIP = re.compile(r'//[^\n]*|/\*.*?\*/|b?"(?:[^"\\]|\\.)*"', re.S)
CALC = re.compile(r'(?<![\w.])\d[\d_]*(?:_?[iu](?:8|16|32|64|size))?(?:\s*(?:\*|<<)\s*\d[\d_]*(?:_?[iu](?:8|16|32|64|size))?)+(?![\w.])')
LIMIT = re.compile(r'(?:\b([iuf])(8|16|32|64|size)\s*::|::)\s*(MAX|MIN|EPSILON)\b')
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'"}


def unescape(s):
    s = re.sub(r"\\\n\s*", "", s)
    return re.sub(r"\\(u\{([0-9a-fA-F_]+)\}|x([0-9a-fA-F]{2})|.)",
                  lambda m: chr(int(m[2].replace("_", ""), 16)) if m[2] else chr(int(m[3], 16)) if m[3] else ESC.get(m[1], m[1]), s)


def scan(text, out):
    for m in TOKEN.finditer(text):
        if m[3] is not None:
            t = m[3].replace("_", "")
            try:
                v = int(t, 16) if t.startswith("0x") else int(t) if re.fullmatch(r"\d+", t) else float(t)
            except ValueError:
                continue
            key = "n" + repr(v)
        else:
            s = m[1] if m[1] is not None else m[2]
            if s is None:
                continue
            try:
                s = unescape(s)
                s.encode()
            except (ValueError, UnicodeError):
                continue
            if not s or len(s) > 80:
                continue
            key = "s" + s
        out[key] = out.get(key, 0) + 1


def computed(text, out):
    """Numbers the code writes as a product, a shift or the limit of a type."""
    text = STRIP.sub(" ", text)
    found = []
    for m in CALC.finditer(text):
        e = re.sub(r"_?[iu](8|16|32|64|size)\b", "", m[0]).replace("_", "")
        try:
            v = eval(e, {"__builtins__": {}}) if len(e) < 40 and not re.search(r"<<\s*\d{3,}", e) else 0
        except (ValueError, SyntaxError):
            continue
        found.append(v)
    for m in LIMIT.finditer(text):
        kind, bits, name = m[1], 64 if m[2] in (None, "size") else int(m[2]), m[3]
        if name == "EPSILON":
            found.append(2.220446049250313e-16)
        elif kind in ("i", "u"):
            found.append((2 ** (bits - (kind == "i")) - 1) if name == "MAX" else -(2 ** (bits - 1)) if kind == "i" else 0)
    for v in found:
        if isinstance(v, float) or -(2**63) <= v < 2**63:
            key = "n" + repr(v)
            out[key] = out.get(key, 0) + 1


def literals(repo, version):
    out = {}
    d = os.path.join(repo, "src")
    for root, _, files in os.walk(d):
        rel = os.path.relpath(root, d).split(os.sep)
        # other versions' folders do not take part in this build
        if len(rel) > 1 and rel[0] == "generated_schema" and re.fullmatch(r"20\d\d_\d\d_\d\d|draft", rel[1]) and rel[1] != version:
            continue
        for f in sorted(files):
            if f.endswith(".rs"):
                text = open(os.path.join(root, f), encoding="utf-8", errors="replace").read()
                scan(text, out)
                computed(text, out)
    return out


def dictionary(repo, version, base):
    """The dictionary of one version; the "hot" lists hold what the tree has more of than the pinned one."""
    lits, base = literals(repo, version), base.get(version, {})
    d = {"strings": [], "hot_strings": [], "ints": [], "floats": [], "hot_ints": [], "hot_floats": []}
    for k in sorted(lits, key=lambda k: (float(k[1:]), "") if k[0] == "n" else (0, k)):
        hot = lits[k] > base.get(k, 0)
        if k[0] == "s":
            d["strings"].append(k[1:])
            if hot:
                d["hot_strings"].append(k[1:])
        elif "." in k or "e" in k[1:]:
            d["floats"].append(float(k[1:]))
            if hot:
                d["hot_floats"].append(float(k[1:]))
        elif int(k[1:]) < 2**63:
            d["ints"].append(int(k[1:]))
            if hot:
                d["hot_ints"].append(int(k[1:]))
    return d


if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    vs = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
    path = os.path.join(here, "harness", "dict_base.json")
    if "--base" in sys.argv:
        json.dump({v: literals("/repo", v) for v in vs}, open(path, "w"), indent=0, sort_keys=True)
    base = json.load(open(path))
    for v in vs:
        d = dictionary("/repo", v, base)
        print(v, {k: len(x) for k, x in d.items()}, d["ints"])
