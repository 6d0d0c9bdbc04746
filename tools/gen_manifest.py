#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
T={
"C01":("property-based testing: generated systems, double-double residual oracle","residual of every generated system against the componentwise rounding bound of a reference elimination; trusts that reference for the bound only"),
"C02":("property-based testing: generated matrices, factor identity by row matching","L U against A up to a row permutation, in double-double"),
"C03":("property-based testing: exactly representable eliminations with a known breakdown column","the breakdown column is predicted exactly where arithmetic is exact; otherwise only must-succeed is judged"),
"C04":("property-based differential testing against a SUNDIALS reference port, small matrices enumerated","number-for-number equality with a transcription of denseGETRF/denseGETRS; trusts the transcription"),
"C05":("stateful property-based testing: operation histories against a fresh-solver model","histories of setups, failing setups, solves, clones and queries; a new solver per step is the model"),
"C06":("property-based differential testing: owned storage against guarded strided views","view results equal owned results, guards intact"),
"C07":("property-based metamorphic testing: power-of-two scaling, reordering, embedding","exact relations between solutions of related systems"),
"C08":("fuzzing with arbitrary bit patterns, NaN-propagation oracle","no panic, column numbers in range, NaN never disappears"),
"C10":("property-based testing against the definition in double-double","relative error of the norm over generated vectors, lengths and storages"),
"C11":("property-based metamorphic testing of the norm laws","norm axioms, invariances and non-finite behaviour"),
"C20":("property-based testing of scripted callback histories, trace invariant; small scripts enumerated","every generated answer sequence and value; success only for the iterate accepted"),
"C21":("property-based testing: generated nonlinear systems with known roots, contraction oracle","final error and iteration count against the Newton-Kantorovich prediction for the generated system"),
"C22":("property-based testing: generated affine systems with known solution","at most two iterations, error within the rounding of the linear solve"),
"C23":("property-based testing of scripted callback histories, call-count bound; small scripts enumerated","termination is judged by counting callbacks, never by a clock"),
"C24":("stateful property-based testing of scripted callback histories, retry rule; small scripts enumerated","retry happens exactly when due, once, with the right arguments and outcome"),
"C25":("fault injection: every callback, call index and error value enumerated, plus generated combinations","all single faults in regular histories, random combinations beyond"),
"C26":("stateful property-based testing: counters against counts over the recorded calls","counters inside every test and after every solve"),
"C27":("property-based testing of callback arguments over scripted histories","every argument of every callback recomputed from the recording"),
"C28":("model-based testing against a SUNDIALS Newton reference model; small answer sequences enumerated","call sequence, arguments, results and counters equal the model's; trusts the transcription of sunnonlinearsolver_newton.c"),
"C29":("property-based testing: Jacobians with a chosen exactly singular column","error identity, cause, column and reuse of the solver"),
"C30":("property-based differential testing: owned vectors against guarded strided views","histories replayed with views give the same calls, results and counters"),
"C31":("property-based metamorphic testing: power-of-two units, reordered equations and unknowns","exact covariance of iterates, norms and counters"),
"C40":("property-based testing: generated initial value problems with closed-form solutions","error against the exact solution, bounded by 1000 tolerances; runs a copy of /repo/src with stand-ins for ndarray and failure"),
"C41":("model-based differential testing against an independent reference of IDA's step algorithm, with injected faults","step by step until the reference comes within rounding of another decision; trusts the reference"),
"C42":("metamorphic stateful testing: interleavings of calls against an undisturbed run","bitwise equality of internal steps"),
"C43":("property-based testing: the interpolant rebuilt from the recorded steps","polynomial through the recorded solutions evaluated in Newton form; trusts the recorded step solutions"),
"C44":("stateful property-based testing with root functions of known zeros","expected roots from closed forms or from dense sampling of the recorded functions"),
"C45":("stateful model-based testing of stop-time histories","outcome model of every call, residual times recorded"),
"C46":("property-based testing of recorded callbacks, trace invariants","every counter and argument recomputed from the recording"),
"C47":("fault injection and illegal inputs, generated, with fresh-solver and single-step oracles","random fault windows and refused inputs; not enumerated"),
"C48":("metamorphic testing: power-of-two units and time reversal","bitwise covariance"),
"C50":("property-based testing against the definitions","relative error of weights and norms"),
"C51":("property-based testing against independently derived equations, differential run against the reference integrator","residuals, Jacobian and steps of the samples"),
}
LEVEL={"C25":"fault_enumeration"}
EXTRA={}
NA={}
checks=[]
for i in ids:
    if i not in T: continue
    checks.append(dict(property=i,quick_cmd=f"bash check.sh {i}",thorough_cmd=f"bash check.sh {i}",evidence_file=f"evidence/{i}.json",
        technique=T[i][0],level=LEVEL.get(i,"exploration"),level_note=T[i][1]))
m=dict(version=1,setup_cmd="bash check.sh build",
  checks=checks,not_applicable=[dict(property=i,reason=NA.get(i,"check under construction")) for i in ids if i not in T],
  notes="No hooks in /repo: C01-C31 use the public API of crates/linear and crates/nonlinear; C40-C51 run a copy of /repo/src, made at every run by ida/sync.py, which adds the modules and dependencies it lacks and a few setters. check.sh builds harness/ or ida/vi/ against /repo's working tree; the tier comes from VERIF_TIER, the seed from VERIF_SEED. 'bash check.sh replay FILE' runs a recorded case again.")
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
