"""Writes checks.json and MANIFEST.json. Claimed properties are those listed in C."""
import json
COMMON=["the library is built for x86-64 Linux with the standard primes; its thread, lock, clock, random-device and allocation calls are intercepted at link level, everything else is its real code",
"a failing allocation is a single failing operator new, malloc, calloc or strdup called by the library's own sources; those inside the vendored C arithmetic do not fail",
"simulated threads switch at every intercepted call, at atomics and at sampled memory accesses, under sequential consistency (data races are found by happens-before analysis, not by weak-memory reorderings)"]
C={}
def c(i,rule,note,quick=40,extra=()):
    C[i]=dict(rule=rule,note=note,assumptions=COMMON+list(extra),quick_s=quick,thorough_s=900)
c("P01","a seed draws an election, ballots, 1-3 stations mixing all 16 encryption interfaces, buffer fillers, clock jumps, allocation and random-source faults, and the interleaving; every emitted ballot is decrypted by an independent GMP implementation and compared with the model of the voter's choices",
  "Sampled, not exhaustive; trusts the independent reference implementation (GMP, own SHA-256).",40,["precompute buffers are filled with the key of the election being encrypted"])
c("P02","as P01 without encryption faults; every emitted ballot is verified by the independent verifier and by the library, also after copying, storing and reloading, from several threads",
  "Sampled, not exhaustive; trusts the independent verifier.",45)
c("P03","a seed emits ballots and applies one of 35 semantic forgeries (altered, swapped, replayed, duplicated or dropped ciphertexts, proofs, ids and hashes, with and without recomputing the dependent hashes), raw storage damage or verification against another election; the library must refuse whatever the independent verifier rejects and accept the unaltered ballot, at ballot, contest, selection and proof level, through C++ and C, also when allocations fail while verifying",
  "Sampled forgeries; does not claim that no forgery exists. Ballot code, timestamp, style, sequence numbers, the placeholder flag and extended data are outside what the library's verification covers.",45)
c("P04","a seed draws 1-4 stations sharing 1-2 mediators, full and compact calls of C++ and C mixed with failing ones (bad input, allocation, random source) and clock jumps; afterwards the emitted ballots of a device must form one chain consistent with real-time order",
  "Sampled, not exhaustive.",40)
c("P05","a seed draws producers, stoppers, emptiers and consumers of the precomputed values and encrypting stations; every handed-out value is checked against the key and against every value seen before, as are all pads and commitments of emitted ballots",
  "Sampled, not exhaustive.",40,["precompute buffers are filled with the key of the election being encrypted"])
c("P06","a seed draws sizes, several threads calling init, populate, stop, empty, status and encrypt in random order with faults, through C++ and C; bounds, reported values, bounded stopping and completion are checked as the run proceeds",
  "Sampled, not exhaustive; liveness is bounded by a step budget.",40)
c("P07","a seed draws operations that generate secrets on 1-3 threads while the simulated random device fails, returns short, is interrupted or ends, and the clock stalls or jumps; every generated secret is checked against all others and against the bytes the device really delivered",
  "Sampled, not exhaustive.",40)
c("P08","a seed draws bases (cached, uncached, equal by value, sharing a prefix), exponents with unusual bit patterns and 1-4 threads computing powers while tables are first built or their construction fails; every result is compared with GMP",
  "Sampled exponents and histories.",40)
c("P09","a seed draws 2-4 threads encrypting, verifying, hashing, storing, loading and reading against shared objects and process-wide state, some runs starting from untouched lazily created state; a happens-before race detector watches every memory access of the library and results are compared with what one-at-a-time execution gives",
  "Sampled interleavings; races are judged by happens-before, so a racy pair is reported even when the sampled order was harmless.",50,["the shared objects are used through const or documented thread-safe operations"])
c("P10","a seed draws every kind of record (manifests, contexts, devices, plaintext, encrypted, submitted and compact ballots) stored in every format through C++ and C, crashes of the process at arbitrary steps with only synced bytes surviving, torn and lost writes, flipped bits, repeated records and failing allocations; whatever loads without damage must equal what was stored, in every field and hash",
  "Sampled, not exhaustive; damaged records must be refused or load as some well-formed object, only undamaged ones are compared.",45)
c("P11","a seed draws compact ballots of every interface, crashes and restarts with torn and lost records, buffer states at encryption and at expansion, expanding threads, failing allocations, alterations of every recorded field and damaged bytes; every expansion is compared with what the voter was told and verified by the independent implementation",
  "Sampled, not exhaustive; write-ins and the pattern of an overvote are outside the ballot code, so that altering those alone is not expected to be refused.",45)
c("P12","a seed draws write-ins of any bytes and lengths and overvotes, encryption interfaces and buffer states, copies, storage and reloads, and alterations of the sealed data; the sealed data is opened by the independent implementation and by the library",
  "Sampled, not exhaustive.",40)
c("P13","a seed draws stations, cast, spoiled and undecided ballots, lost, repeated and reordered deliveries with resending, crashes and restarts, groupings, orders and thread splits of the addition, and failing allocations; every total is compared with the exact product and the sum of the modelled votes",
  "Sampled, not exhaustive; the deduplication by ballot id is the harness's, the library only supplies ids and states; lists of up to some hundred ciphertexts.",45)
c("P14","a seed draws encryption, failure, store, reload and submit histories; every byte of every published form, of the log stream and of error messages is searched for every secret known to the independent model, in every encoding the library uses",
  "A secret is searched as raw bytes in both byte orders, hexadecimal, decimal and base64; other encodings would not be seen.",40)
c("P15","a seed draws calls of the C API (a catalogue of constructors, accessors, conversions, arithmetic, encryption, storage and hashing) and of the encryption interfaces, with failing allocations at arbitrary points, a failing random source and invalid input; the status must name the kind of failure, a failed call must leave its outputs and its objects as they were, no exception may leave the C API, and the same call repeated without the fault must give the same result as if the failure had not happened",
  "Sampled, not exhaustive; one failure per call. C functions that return no status are not judged.",45)
c("P16","a seed draws producers, consumers, workers and shutdown of the thread pool, queue, semaphore and wait_all, with spurious wake-ups, stalled threads and failing thread creation; executions and results are compared with the submitted tasks",
  "Sampled, not exhaustive.",30)
c("P17","a seed draws an election and several parties that build it (C++, C), receive it in any format, copy it or reload it after a crash, make contexts in all 13 ways, and parties of elections changed in one field; every hash of every part is compared with the independent specification of the hashes, and a device must refuse a manifest and context of different elections, also when allocations fail",
  "Sampled, not exhaustive; trusts the independent specification of the hashes.",40)
c("P18","a seed draws ballots over all interfaces, threads and buffer states, re-encrypts them later on other threads with the retained nonce, and checks every nonce against the specified derivation and its own ciphertext",
  "Sampled, not exhaustive.",40)
exec(open(__file__.replace("mkmanifest.py","more.py")).read()) if __import__("os").path.exists(__file__.replace("mkmanifest.py","more.py")) else None
C=dict(sorted(C.items()))
json.dump({k:{a:v[a] for a in ("rule","assumptions","quick_s","thorough_s")} for k,v in C.items()},open("/verif/checks.json","w"),indent=1)
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
M={"version":1,"setup_cmd":"python3 run.py --build",
"checks":[{"property":k,"quick_cmd":"python3 run.py "+k,"thorough_cmd":"VERIF_TIER=thorough python3 run.py "+k,"evidence_file":"evidence/%s.json"%k,
 "technique":"deterministic simulation with fault injection: seeded schedules and faults over the real library, independent reference oracle","level":"exploration","level_note":v["note"]} for k,v in C.items()],
"not_applicable":[{"property":i,"reason":"machinery not built yet"} for i in ids if i not in C],
"notes":"No hooks in /repo: every seam is taken at link level (see DESIGN.md). Commits in /repo are fix: commits only, listed in known_findings.txt."}
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1)
