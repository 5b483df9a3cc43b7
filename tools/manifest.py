"""Writes MANIFEST.json.  Run after properties.py."""
import json, jsonschema
SAMPLE = "Seeded exploration: evidence over the runs reported, not a proof. "
TRUST = "Trusts the simulated devices and scheduler; the library, random and special are the real code. "
REF = "Trusts the laws of sim/src/reference.rs, written apart from the library and compared with mpmath. "
STAT = "Statistical tests over seeds fixed by the run, at thresholds of 1e-9 to 1e-12 per test, so that a correct law does not alarm. "
N = {
 "C01": ("simulated histories replayed from checkpoints, on the same, cloned and rebuilt objects, in fresh processes", SAMPLE + TRUST + "Histories of up to millions of draws; hidden state that needs longer ones is out of reach."),
 "C02": ("seeded schedules of tasks preempted at every read, against each task alone and the sequential order", SAMPLE + TRUST + "Preemption happens at source reads, draws' beginnings and ends; the library has no other shared state points that a scheduler could see."),
 "C03": ("simulated sampler lifecycles over one source, against direct draws", SAMPLE + TRUST),
 "C04": ("a failure injected at every read of a history in turn, with restart or continuation, against a history without failures", SAMPLE + TRUST + "Failures are unwinding panics raised by the source, the only failure that the Source trait allows."),
 "C05": ("degraded, extreme and adversarial word streams with support checked at every draw", SAMPLE + TRUST + REF),
 "C06": ("bounded progress after faults stop: budgets of reads and CPU time per operation, in watched processes", SAMPLE + TRUST + "Budgets: reads per draw with healthy words, seconds of CPU time per operation; both orders of magnitude above what the repaired library needs."),
 "C07": ("long simulated histories against the law, exact transforms of words, ties", SAMPLE + STAT + REF),
 "C08": ("long simulated histories against the law", SAMPLE + STAT + REF + "Resolves about one part in 1e5 of the mass in a cell in the quick tier."),
 "C09": ("long simulated histories against the law", SAMPLE + STAT + REF),
 "C10": ("long simulated histories against the law, exact transforms of words", SAMPLE + STAT + REF + "Two findings are listed as known."),
 "C11": ("rank, sign and magnitude dependence in long simulated histories; twin runs with single words changed", SAMPLE + STAT + TRUST),
 "C12": ("questions asked along simulated histories against the law and the shares of draws", SAMPLE + STAT + REF + "One finding is listed as known."),
 "C13": ("questions asked along simulated histories against the law and the shares of draws", SAMPLE + STAT + REF + "Two findings are listed as known."),
 "C14": ("questions asked along simulated histories against the law and averages of draws", SAMPLE + STAT + REF),
 "C15": ("questions asked along simulated histories against the law and the log-likelihood of draws", SAMPLE + STAT + REF + "One finding is listed as known."),
 "C16": ("simulated streams with failures, against exact sums of what was delivered", SAMPLE + TRUST),
}
NA = {
 "C17": "A statement about a pure function at every pair of reals: no schedule, fault, time or history enters, so a simulator has nothing to control (the values at the points that histories visit are decided under C12).",
 "C18": "A statement about two pure functions at every argument: no schedule, fault, time or history enters (the values along histories are decided under C13).",
 "C19": "An integral of a pure function: no schedule, fault, time or history enters (the values at visited points are decided under C12).",
 "C20": "Validation of constructor arguments by assertions: a pure function of its arguments, without any schedule, fault, time or history.",
}
m = dict(version=1, setup_cmd="./check.sh build", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="No hooks: the Source trait, a seam of the shipped crate, carries every simulated device, and preemption and failure happen at its reads.")
for k, (t, note) in N.items():
    m["checks"].append(dict(property=k, quick_cmd="./check.sh %s quick" % k, thorough_cmd="./check.sh %s thorough" % k,
      evidence_file="evidence/%s.json" % k,
      technique="deterministic simulation with fault injection: " + t, level="exploration", level_note=note.strip()))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
ids = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
assert sorted(ids) == sorted(list(N) + list(NA))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write("\n")
