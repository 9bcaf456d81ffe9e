#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness registry."""
import json, re
root = __file__.rsplit('/', 2)[0]
reg = open(root + '/harness/reg.go').read()
claimed = sorted(set(re.findall(r'\{"(P\d\d)", "', reg)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in claimed:
        na.append({"property": i, "reason": "no harness yet"})
        continue
    bounds = [b.replace(' (thorough', ' (thorough') for _, b in re.findall(r'\{"%s", "(\w+)", \w+, "((?:[^"\\]|\\.)*)"\}' % i, reg)]
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh %s quick" % i,
        "thorough_cmd": "./run.sh %s thorough" % i,
        "technique": "bounded symbolic execution of the Go SSA of /repo's current source, branches and assertions decided by z3 (QF_BV) with finite-domain propagation; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs within these bounds (thorough-tier sizes in parentheses): " + "; ".join(bounds) + ". Nothing is claimed beyond the bounds. Trusted: go/ssa, the executor and its models of strconv/fmt/strings routines (sampled paths are compared with the natively compiled code on every run), z3.",
    })
m = {"version": 1, "setup_cmd": "cd engine && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go build -o /dev/null . && cd ../harness && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go vet .",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. The harness module uses only the exported API. See DESIGN.md."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
