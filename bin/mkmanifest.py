"""Regenerate MANIFEST.json from the contracts present."""
import importlib, json, os, sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, "/repo")
checks, na = [], []
NA = json.load(open(os.path.join(V, "not_applicable.json"))) if os.path.exists(
    os.path.join(V, "not_applicable.json")) else {}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if not os.path.exists(os.path.join(V, "contracts", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    c = importlib.import_module(f"contracts.{pid.lower()}").CHECK
    note = ("Obligations generated from /repo's current source by AST rewriting and symbolic "
            "execution with loop invariants, discharged by a polynomial/radical normaliser, z3 "
            "and cvc5; callees by contract. Assumes real arithmetic for floats. ")
    if c.trusted:
        note += "Trusted: " + "; ".join(c.trusted) + ". "
    if c.bounded:
        note += "Bounded stand-ins (not proved): " + "; ".join(c.bounded) + ". "
    note += ("The same contracts are also evaluated on the real code at designed inputs "
             "(bounded; replays).")
    checks.append({"property": pid, "quick_cmd": f"./check {pid}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
                   "technique": "contract-based deductive verification (verification conditions "
                   "from the real Python source; z3/cvc5/normaliser)" if c.vcs else
                   "contracts on the real functions; ground obligations and bounded evaluation",
                   "level": c.level, "level_note": note})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
