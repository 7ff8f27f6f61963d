#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
extra={
"C01":"Surplus of every reserve of every pool recomputed from the real ledger after every transaction and never allowed to fall except by a write-off.",
"C02":"Share sums over all accounts compared with the recorded totals after every transaction.",
"C08":"Injected: stale, missing, future, exactly-24-hour-old prices, failing oracle.",
"C16":"Injected: failing token, oracle, backstop, emitter and liquidity pool calls at a chosen call number, re-entrant tokens, exhausted budget.",
"C15":"One open known finding (allowance of the backstop lapses).",
"C20":"One open known finding (a replaced backstop becoming current again).",
"C24":"Progress is checked by a drain after faults stop: everyone withdraws, repays, claims and fills within a bounded number of operations.",
"C25":"Ledger entry expiry and archival are simulated at the host's own rules; a persistent entry that was archived is restored before use, a temporary one is gone.",
}
checks=[]
for p in props:
    i=p['id']
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
      evidence_file=f"evidence/{i}.json",
      technique="deterministic simulation with fault injection (seeded search over schedules and faults, executable reference model)",
      level="exploration",
      level_note="Seeded random exploration, no exhaustiveness: real emitter, backstop, factory, pool and liquidity pool wasm run in a simulated ledger; every transaction is compared with a reference model and invariants are evaluated over the real state. "+extra.get(i,"")+" Trusts the Soroban host, the decoder and the reference model; tokens and oracles are simulator stand-ins."))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[],
 notes="No hooks in /repo: the contracts are compiled unchanged to wasm and run in a vendored copy of the Soroban host whose only change is a cache of parsed modules. known-findings.json lists recorded and repaired defects; ./replay.sh FILE re-runs a replay file.")
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
