#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T="deterministic simulation with fault injection: "
N="Seeded search, so evidence and not proof. Trusts the reference model and generators in /verif/sim and the stubs listed in the evidence; everything of topogeo is real code built from /repo's working tree."
C={
"C01":("seeded read schedules and task interleavings over generated files, compared with a reference model","Every run reads generated valid files through streams whose chunking, interruptions and interleaving a seed decides, and compares every delivered item with what was stored."),
"C02":("injected stream errors and early ends at drawn offsets, history checked against a reference model","Faults of all common error kinds at any byte offset, transient or persistent, under drawn read schedules."),
"C03":("bounded-progress check over damaged files and faulty streams with an error-ignoring consumer","Liveness as a bound on next() calls in terms of supplied bytes; the end must be final."),
"C04":("simulated storage damage (bit flips, torn and lost blocks, truncation, stale lengths) with panics and crashes as violations","Debug assertions and overflow checks are on, so overflow counts as a crash."),
"C05":("damage inside intact framing, item sequence checked against a reference model","Oracle classifies each damaged record independently of the code under test."),
"C06":("allocation rule enforced by the simulated allocator over files with damaged length and count fields","The allocator sees each request at the moment it is made."),
"C07":("two independently scheduled and failing streams joined, history checked against a reference model","Unequal counts, rejected records and stream faults, alone and combined."),
"C08":("seeded thread schedules over shared rows, values compared with a reference decoder","Preemption at allocations, lock waits and value calls, first use of lazily initialised state included."),
"C09":("seeded read schedules and faults over generated geometry, compared with an exact reference quantizer","Bounding boxes and rings of any size and position within f64's reach."),
"C10":("operation histories under seeded allocator policies and hash seeds, invariants checked after each step","Freed memory is poisoned and blocks move as the seed decides, so dangling links show."),
"C11":("operation histories with injected clone panics, conservation of data and memory checked","Each value and each allocated block is counted."),
"C12":("the same history in a calm and in drawn environments and among preempted tasks, results compared","Hash seeds, memory layout and interleaving are decided by the seed."),
"C13":("operation histories under drawn environments, areas checked against an independent polygon model","Signed boundary chains per region are compared exactly where the grid is not involved and within rounding at cuts."),
"C14":("operation histories under drawn environments, border sharing checked after each step","Restricted to coverages in which no region touches itself at a single point."),
"C15":("simulated disk behind open/read/close with failing, interrupted and short system calls","std::fs is real code; only the system calls below it are simulated."),
"C16":("operation histories under seeded allocator policies, every simplified border compared with a directly written reference of the rule","Ties between equally important points are resolved by trying all orders; borders with too many ties are only checked by C14."),
"C17":("operation histories and alternative divisions of the same ground under drawn environments, normal forms compared","Restricted as the property's quantifier says."),
}
NA={
"C18":"Pure arithmetic on coordinates: nothing to schedule or to fail. Its consequences for whole operations are observed in C09 and C13.",
"C19":"A statement about asymptotic running time. The code has no clock, and a simulator that decides all timing cannot observe cost; termination within a bounded number of steps is covered by C03.",
}
m={"version":1,"setup_cmd":"cd sim && cargo build --release --offline",
"checks":[{"property":k,"quick_cmd":f"bash check.sh {k}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {k}","evidence_file":f"evidence/{k}.json","technique":T+t,"level":"exploration","level_note":n+" "+N} for k,(t,n) in C.items()],
"not_applicable":[{"property":k,"reason":r} for k,r in NA.items()],
"notes":"No hooks in /repo: the seams (Read streams, global allocator, libc open/read/close/getrandom/futex, caller's Clone/Drop, threads) are all outside the crate. See DESIGN.md."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
