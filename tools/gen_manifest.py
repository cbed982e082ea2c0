#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
T = {
 "C01": ("crash and power-loss simulation of one node, refinement against a versioned reference model", ""),
 "C02": ("crash simulation with repeated crashes during recovery; the reopened node must serve", ""),
 "C03": ("simulated histories with crashes and disk errors; structural invariants against a reference log", ""),
 "C04": ("simulated histories of several owners' chains with crashes; reference log per owner", ""),
 "C06": ("simulated ledger histories with crashes; recovered state must be a model prefix", ""),
 "C08": ("simulated submissions against a reference model; concurrent ones checked for linearizability", ""),
 "C09": ("simulated duplicate delivery, concurrency, crash and restart; at most one application per hash", ""),
 "C10": ("simulated epoch rollovers with disk errors and crashes; reference treasury, root and snapshot", ""),
 "C11": ("simulated emission under skewed and jumping clocks; independent proof-of-work and retarget rule", ""),
 "C17": ("simulated restarts and crashes at every height; balances must not move", ""),
 "C18": ("disk-error injection (EIO, ENOSPC) in simulated opening and flushing; retry and durability checks", ""),
 "C19": ("crash simulation in and after submissions; all-or-nothing check over the recovered stores", ""),
 "C05": ("seeded schedule search over simulated threads; linearizability check of block submission", ""),
 "C07": ("seeded schedule search over simulated threads; linearizability check of the ledgers", ""),
 "C14": ("seeded schedule search over simulated tasks; linearizability check of the pool", ""),
 "C15": ("seeded schedule search with crashes; linearizability and durability of the summary store", ""),
 "C12": ("simulated cluster over a faulty network with forged blocks; convergence after healing", ""),
 "C13": ("simulated cluster over a corrupting network; decoders must refuse or round-trip", ""),
 "C23": ("seeded schedule search over simulated threads with futures dropped at every waiting point; progress and history checks", ""),
 "C24": ("short, interrupted and failing I/O, a full disk and kills injected into simulated folder copies; exact comparison with the source", ""),
 "C16": ("short, interrupted and failing I/O and truncation injected into simulated archive round trips", ""),
}
import sys
CLAIMED = sys.argv[1:] or ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C23","C24"]
NOTE = ("Seeded search: every run executes the real crate, sled, tokio and parking_lot on a simulated OS and is repeatable from its seed. "
        "It samples schedules and fault sequences rather than enumerating them; memory is sequentially consistent; the disk model (what fsync makes durable, "
        "which un-synced writes survive) and BLOCKS_PER_EPOCH=5 under cfg(bct_sim) are assumed.")
PURE = "a pure function of its input: no schedule, clock, I/O, network or crash can influence it, so simulation has nothing to decide"
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="cfg(bct_sim)", enable="RUSTFLAGS=--cfg bct_sim (sim/env.sh), set by setup.sh and check.sh",
             source_commits=subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^Simulation hook"],capture_output=True,text=True).stdout.split()),
  checks=[dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
               technique="deterministic simulation with fault injection: "+T[p][0], level="exploration", level_note=NOTE) for p in sorted(CLAIMED)],
  not_applicable=[dict(property=p, reason=PURE) for p in ("C20","C21","C22")]
    + [dict(property=p, reason="not claimed yet: its engine is being built") for p in sorted(T) if p not in CLAIMED])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
