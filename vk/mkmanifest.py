import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NOTE = {
 "session": "Recorded compilations, energy tables (minimum over auxiliaries, every assignment), solutions, labels and refusals of the real library are accepted by the TLA+ trace specification; the design model is checked exhaustively within its bounds. Coverage of programs is bounded (enumerated small ones, seeded random larger ones).",
 "solve": "Every generation a real solve hands to a scripted sampler, and its result, are steps of the solve-loop specification; the design model is checked exhaustively within its bounds. Sampler answers, failures and delays are enumerated for small solves and seeded random beyond.",
 "anneal": "Every state of real annealing runs with scripted random numbers is the one the TLA+ replay of the Metropolis rule computes from the model; the incremental design is model checked exhaustively on small models.",
 "num": "Every conversion route and helper operation (order, absolute value, nearest integer, decimal, constants) of the real library, on all boundary numbers TLC enumerates (sign, exponent, digits) and on seeded random ones, is accepted by the specification of what a type represents; the laws are checked exhaustively on small types.",
 "store": "Recorded histories of the real data structures are accepted by the specification; all short histories are enumerated, longer ones seeded random.",
}
KIND = {}
for p in ("C01","C02","C03","C04","C05","C06","C07","C19"): KIND[p] = "session"
for p in ("C08","C09","C10","C11","C25"): KIND[p] = "solve"
for p in ("C12","C13","C14","C15","C21","C26"): KIND[p] = "anneal"
for p in ("C16","C17","C18","C20"): KIND[p] = "store"
KIND["C22"] = KIND["C24"] = "num"
KIND["C23"] = "store"
checks = []
for p in props:
    if p["id"] not in KIND: continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 vk/check.py %s" % p["id"],
        "thorough_cmd": "python3 vk/check.py %s thorough" % p["id"],
        "technique": "TLA+ specification, TLC model checking, conformance by trace validation and replay of specification behaviours",
        "level": "model_checking",
        "level_note": NOTE[KIND[p["id"]]],
    })
m = {
    "version": 1,
    "setup_cmd": "bash vk/setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API. Repairs are fix: commits, listed in known-findings.txt.",
}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
