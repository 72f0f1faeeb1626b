#!/usr/bin/env python3
"""One-off: writes harness/spec_tables.hpp from a source tree (pinned tree + fixes).

The output is committed and is the frozen reference; the checks never run this.
"""
import re, sys
root = sys.argv[1]
src = open(f"{root}/include/fes/wave.hpp").read()
src = src[src.index("namespace wave {"):]
enum = open(f"{root}/include/fes/constituent.hpp").read()
ids = {m[0]: int(m[1]) for m in re.findall(r"\bk(\w+) = (\d+),", enum)}
rows = []
# strip comments
code = re.sub(r"//[^\n]*", "", src)
code = re.sub(r"/\*.*?\*/", "", code, flags=re.S)
for m in re.finditer(r"class (\w+)\s*:\s*public Wave\s*\{.*?Wave\(\s*k(\w+)\s*,\s*k(Long|Short)Period\s*,\s*(true|false)\s*,(.*?)&angle::Astronomic::(\w+)\)", code, flags=re.S):
    args = [int(x) for x in m[5].replace("\n", " ").split(",") if x.strip()]
    assert len(args) == 11, (m[1], args)
    rows.append((ids[m[2]], m[2], m[3] == "Long", m[4] == "true", args, m[6]))
rows.sort()
assert [r[0] for r in rows] == list(range(75)), [i for i in range(75) if i not in [r[0] for r in rows]]
out = ["// Frozen by tools/extract_spec.py: constituents (T s h p N' p1 shift | xi nu nu' nu'')",
       "#pragma once", "namespace ref {",
       "struct Spec { const char* name; bool lp; bool adm; int a[11]; const char* f; };",
       "static const Spec kSpec[75] = {"]
for i, n, lp, adm, a, f in rows:
    out.append('  {"%s", %s, %s, {%s}, "%s"},  // %d' % (n, str(lp).lower(), str(adm).lower(), ", ".join(map(str, a)), f[2:], i))
out.append("};")
lpe = open(f"{root}/src/library/wave/long_period_equilibrium.cpp").read()
tab = re.findall(r"/\* 0,\*/\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?[\d.]+),?\s*//\s*(\d+)(?:\s*-\s*(\w+))?", lpe)
assert len(tab) == 123, len(tab)
def table(name, part):
    out.append("struct %s_row { int d[5]; double c; const char* label; };" % name)
    out.append("static const %s_row %s[%d] = {" % (name, name, len(part)))
    for k, t in enumerate(part):
        assert int(t[6]) == k, (k, t)
        out.append('  {{%s}, %s, "%s"},' % (", ".join(t[:5]), t[5], t[7]))
    out.append("};")
table("kOrder2", tab[:106])
table("kOrder3", tab[106:])
out.append("}  // namespace ref")
print("\n".join(out))
