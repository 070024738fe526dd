#!/usr/bin/env python3
"""Development tool: derives spec/dap_schema.json and harness/dap_visit.inc from
the declarations in protocol.h (names and types of the members) and the naming
rule of the Debug Adapter Protocol. It does NOT read the serialization tables
(src/protocol_*.cpp) that the C18 check judges. Its output is committed; the
checks never run this tool."""
import json
import re
import sys

WIRE = {("AttachRequest", "restart"): "__restart", ("LaunchRequest", "restart"): "__restart",
        ("ExceptionBreakpointsFilter", "def"): "default"}
src = open(sys.argv[1] if len(sys.argv) > 1 else "/repo/include/dap/protocol.h").read()
src = re.sub(r"//[^\n]*", "", src)
alias = dict(re.findall(r"^using (\w+) = ([\w<>, ]+);", src, flags=re.M))
structs = []
for m in re.finditer(r"struct (\w+)( : public (\w+))? \{(.*?)\};", src, flags=re.S):
    name, base, body = m.group(1), m.group(3) or "", m.group(4)
    if name in ("Request", "Response", "Event"):
        continue
    fields = []
    for d in body.split(";"):
        d = " ".join(d.split())
        if not d or d.startswith("using "):
            continue
        d = d.split(" = ")[0]
        t, n = d.rsplit(" ", 1)
        fields.append((n, t.replace(" ", "")))
    structs.append((name, base, fields))
known = {s[0] for s in structs}


def split(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += c == "<"
        depth -= c == ">"
        cur += c
    return out + [cur]


def ty(s):
    if s in alias:
        return ty(alias[s].replace(" ", ""))
    if s in known:
        return {"k": "ref", "n": s}
    m = re.match(r"(\w+)<(.*)>$", s)
    if m:
        k, a = m.groups()
        if k == "optional":
            return {"k": "opt", "e": ty(a)}
        if k == "array":
            return {"k": "arr", "e": ty(a)}
        if k == "variant":
            return {"k": "var", "e": [ty(x) for x in split(a)]}
    return {"k": {"boolean": "bool", "integer": "int", "number": "num", "string": "str", "object": "obj", "any": "any", "null": "null"}[s]}


types, roots, names, commands = {}, {}, {}, {}
inc = ["// Generated by tools/mkschema.py; committed.\n"]
for name, base, fields in structs:
    b = base if base in known else ""
    types[name] = {"base": b, "f": [{"n": WIRE.get((name, f), f), "t": ty(t)} for f, t in fields]}
    roots[name] = {"k": "ref", "n": name}
    for suf in ("Request", "Event"):
        if base == suf:
            n = name[:-len(suf)]
            names[name] = n[0].lower() + n[1:]
    inc.append("HJ_STRUCT(%s)\n" % name)
for name, base, fields in structs:
    b = "visit(static_cast<dap::%s&>(s), f); " % base if base in known else ""
    inc.append("template <class F> void visit(dap::%s& s, F f) { %s%s }\n" % (
        name, b, " ".join('f("%s", s.%s);' % (WIRE.get((name, f), f), f) for f, t in fields)))
reqs = [s[0] for s in structs if s[1] == "Request"]
evs = [s[0] for s in structs if s[1] == "Event"]
resp = [s[0] for s in structs if s[1] == "Response"]
other = [s[0] for s in structs if s[1] not in ("Request", "Event", "Response")]
h = len(reqs) // 2
for n, l in (("REQUESTS1", reqs[:h]), ("REQUESTS2", reqs[h:]), ("EVENTS", evs), ("RESPONSES", resp), ("STRUCTS", other)):
    inc.append("#define DAP_%s(X) %s\n" % (n, " ".join("X(%s)" % x for x in l)))
for name, base, fields in structs:
    if base == "Response" and name != "ErrorResponse":
        commands[name] = names[name[:-8] + "Request"]
json.dump({"commands": commands, "types": types, "roots": roots, "names": names}, open("spec/dap_schema.json", "w"), indent=0, sort_keys=True)
open("harness/dap_visit.inc", "w").writelines(inc)
print(len(reqs), len(evs), len(resp), len(other), sum(len(t["f"]) for t in types.values()))
