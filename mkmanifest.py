"""writes MANIFEST.json from properties.jsonl and the table below"""
import json
NA = {
 "C23": "the guarantee is about the output of chained command-line processes (bin/switss): argument parsing, pickled files and printed text; a contract on one function cannot state that a pipeline of processes agrees with the library, and the work is done by functions covered under other properties",
 "C24": "tree_decomp/tree_algo need graph_tool and Pillow, which are absent, so the code can neither run nor be replayed here, and it is outside the default build",
 "C25": "the PRISM binary is absent; the property is about an external program's export",
 "C26": "benchmark orchestration: the property is about wall-clock measurements, files and plots; contracts on pure functions do not reach it",
}
PROOF = json.load(open("levels.json")) if __import__("os").path.exists("levels.json") else {}
checks, na = [], []
for l in open("properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    p = PROOF.get(i)
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       technique="contract-based deductive verification (pyvc: verification conditions of the real functions, z3/cvc5), runtime form of the contracts as falsifier",
                       level="proof" if p else "exploration",
                       level_note=(p or "runtime contracts on generated inputs against independent oracles; no obligation discharged yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
