#!/usr/bin/env python3
"""Literals of the Go sources under test, for the generators' dictionary.

literals.py --write stores those of /repo in literals.json: the tree the
harness was written for. fresh(repo) gives what another tree has beyond them.
The dictionary only directs generation; nothing is decided from it."""
import collections, json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "literals.json")
TOKEN = re.compile(r"""
  //[^\n]*|/\*.*?\*/
 |(?P<str>"(?:\\.|[^"\\\n])*"|`[^`]*`)
 |(?P<rune>'(?:\\.[0-9a-fA-F]*|[^'\\\n])')
 |(?P<num>0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO]?[0-7_]+(?![\d.])|\d[\d_]*(?:\.\d*)?(?:[eE][+-]?\d+)?)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op><<|[*.+-])
 |\s+|.""", re.X | re.S)
UNIT = {"Nanosecond": 1, "Microsecond": 10**3, "Millisecond": 10**6, "Second": 10**9, "Minute": 60 * 10**9, "Hour": 3600 * 10**9}


def number(s):
    s = s.replace("_", "")
    try:
        if re.fullmatch(r"0[0-7]+", s):
            return int(s, 8)
        if re.match(r"0[xXbBoO]", s):
            return int(s, 0)
        if re.fullmatch(r"\d+", s):
            return int(s)
        f = float(s)
        return int(f) if f == int(f) and abs(f) < 2**62 else f
    except (ValueError, OverflowError):
        return None


def unquote(s):
    if s[0] == "`":
        return s[1:-1]
    try:
        return json.loads('"' + s[1:-1].replace('"', '\\"').replace("\\'", "'") + '"') if s[0] == "'" else json.loads(s)
    except ValueError:
        m = re.fullmatch(r"'\\x([0-9a-fA-F]{2})'", s)
        return chr(int(m.group(1), 16)) if m else None


def of(text):
    """Counter of the literals in a source text."""
    c = collections.Counter()
    toks = []
    for m in TOKEN.finditer(text):
        k = m.lastgroup
        if k:
            toks.append((k, m.group(0)))
    for i, (k, s) in enumerate(toks):
        if k == "num":
            v = number(s)
            if v is None:
                continue
            c["n", v] += 1
            nx = [t[1] for t in toks[i + 1:i + 5]]
            pv = [t[1] for t in toks[max(0, i - 4):i]]
            if nx[:3] == ["*", "time", "."] and len(nx) > 3 and nx[3] in UNIT:
                c["d", v * UNIT[nx[3]]] += 1
            elif len(pv) == 4 and pv[0] == "time" and pv[1] == "." and pv[2] in UNIT and pv[3] == "*":
                c["d", v * UNIT[pv[2]]] += 1
            elif nx[:1] == ["<<"] and len(nx) > 1 and isinstance(v, int):
                w = number(nx[1])
                if isinstance(w, int) and w < 64:
                    c["n", v << w] += 1
            elif nx[:1] == ["*"] and len(nx) > 1 and re.match(r"\d", nx[1]):
                w = number(nx[1])
                if w is not None:
                    c["n", v * w] += 1
        elif k in ("str", "rune"):
            v = unquote(s)
            if v is not None:
                c["s", v] += 1
                if k == "rune" and len(v) == 1:
                    c["n", ord(v)] += 1
    return c


def tree(repo):
    c = collections.Counter()
    for top, dirs, files in os.walk(repo):
        dirs[:] = [d for d in dirs if not d.startswith(".") and d != "vendor"]
        for f in files:
            if f.endswith(".go") and not f.endswith("_test.go"):
                c.update(of(open(os.path.join(top, f), errors="replace").read()))
    return c


def fresh(repo):
    """What a tree has beyond the committed list, as the harness reads it."""
    try:
        base = collections.Counter({(k, v): n for k, v, n in json.load(open(BASE))})
        new = tree(repo) - base
    except (OSError, ValueError):
        return {"ints": [], "texts": []}
    ints, texts = [], []

    def add(v):
        if isinstance(v, float):
            v = int(v)
        if isinstance(v, int) and abs(v) < 2**62 and v not in ints:
            ints.append(v)

    for (k, v) in sorted(new, key=str):
        if k == "n":
            add(v)
            if v >= 2 and v < 2**31:
                for scale in (10, 60, 1000, 10**6):  # tenths, minutes, milliseconds, millionths
                    add(v * scale)
            if isinstance(v, int):
                texts.append(str(v))
                if 0 <= v < 63:
                    add(1 << v)
        elif k == "d":
            for unit in (1, 10**6, 10**9, 60 * 10**9):
                if v % unit == 0:
                    add(v // unit)
        elif 0 < len(v) <= 20 and v.isprintable() and "%" not in v:
            texts.append(v)
    return {"ints": ints[:200], "texts": sorted(set(texts))[:60]}


if __name__ == "__main__":
    repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
    if sys.argv[1] == "--write":
        with open(BASE, "w") as f:
            json.dump(sorted(([k, v, n] for (k, v), n in tree(repo).items()), key=str), f, ensure_ascii=False, indent=0)
    else:
        print(json.dumps(fresh(repo), ensure_ascii=False))
