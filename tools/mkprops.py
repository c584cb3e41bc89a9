import json
A=[]
def P(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s,"where":files[0]} for s in state]
    if obs: a["observe_at"]=obs
    if hook: a["hook_needed"]=hook
    A.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
E_="src/electionguard/"
P("P01","Every encrypted ballot decrypts to exactly the voter's choices",
 "For every ballot an encryption station accepts, each contest of the ballot's style is present exactly once, each selection ciphertext decrypts under the election secret key to exactly the voter's vote (missing selections to 0, an overvoted contest to all zeros), and placeholders make each contest add up to exactly the number elected. This holds whichever calls encrypted it, whether values came from precomputed buffers, ran out halfway or were computed on the spot, and whatever other threads, clock jumps or faults did meanwhile; a well-formed ballot is never refused when no fault was injected.",
 ["inputs","schedules","histories","fault_sequences"],
 "all manifests, ballots, caller interleavings, buffer histories and clock/RNG/allocation fault sequences",
 "tests encrypt a few fixed ballots single-threaded with warm or empty buffers; the guarantee is over every ballot shape and every buffer/caller/fault history",
 [E_+"encrypt.cpp",E_+"elgamal.cpp",E_+"ballot.cpp","include/electionguard/encrypt.hpp"],
 [("ballot normalisation and per-selection encryption",E_+"encrypt.cpp"),("precomputed or on-the-spot ElGamal",E_+"elgamal.cpp"),("buffer pop",E_+"precompute_buffers.cpp")],
 ["precompute queues","fixed-base table cache"],["returned encrypted ballot"])
P("P02","Every emitted encryption proof verifies for anyone, always",
 "Every selection and contest of every ballot the library emits carries a range proof, a selection-count proof and hashes that an independent implementation of the specification accepts against the election key and extended base hash, and the library's own verification accepts the same ballot. This must hold for every vote, placeholder and buffer state, under concurrent encryption, and after the ballot has been copied, stored and reloaded.",
 ["inputs","schedules","histories"],
 "all ballots, buffer states, interleavings, and copy/store/reload histories of the emitted ballot",
 "a proof that fails for one residue, one buffer state or one interleaving in thousands passes every sampled test but invalidates a real ballot",
 [E_+"chaum_pedersen.cpp",E_+"ballot.cpp",E_+"nonces.cpp",E_+"hash.cpp"],
 [("disjunctive and constant proofs",E_+"chaum_pedersen.cpp"),("crypto hashes",E_+"ballot.cpp"),("Fiat-Shamir hash",E_+"hash.cpp")],
 None,["proof objects of returned and reloaded ballots"])
P("P03","Altered ballots never verify",
 "If a ciphertext or proof component of an emitted ballot is altered, swapped between selections, contests, ballots or elections, duplicated or dropped while stored or in transit, then loading or verifying the result fails, even when every hash was recomputed to match; the same holds for altered identifiers, manifest and description hashes, accumulations and crypto hashes unless all hashes were recomputed. Verification never reports an unaltered ballot as invalid.",
 ["inputs","fault_sequences","histories"],
 "all emitted ballots and all storage/transport corruption sequences applied to them",
 "tests tamper with one or two hand-picked fields; the guarantee is over every field, position and combination",
 [E_+"ballot.cpp",E_+"chaum_pedersen.cpp",E_+"serialize.hpp"],
 [("ballot, contest and selection verification",E_+"ballot.cpp"),("proof verification",E_+"chaum_pedersen.cpp")],
 None,["verification result of corrupted ballots"])
P("P04","Ballot codes form one unbroken linear chain per device",
 "The first ballot a device session encrypts is seeded with the device hash and every later one with the code of the ballot emitted just before it, and each code is the specified hash of its seed, its timestamp and the ballot's hash. No two ballots of a session ever share a seed, a failed encryption does not break or fork the chain, and this holds for full and compact encryption mixed, for clock jumps, and for callers on several threads.",
 ["schedules","histories","fault_sequences"],
 "all sequences of successful, failed, full and compact encryptions from any number of threads, with clock jumps and faults",
 "forks and gaps need a failure or a second caller between two encryptions, which the sequential tests never have",
 [E_+"encrypt.cpp",E_+"ballot_code.cpp"],
 [("running ballot code seed of a mediator",E_+"encrypt.cpp"),("ballot code hash",E_+"ballot_code.cpp")],
 ["current seed held by the mediator"],["seed, code and timestamp of emitted ballots"])
P("P05","Precomputed values are correct and used at most once",
 "Every set of precomputed encryption values handed out matches the public key the buffers were filled for and is handed out at most once, so no two ciphertexts, proofs or ballots of any history share a nonce or commitment. This holds for any interleaving of filling, stopping, emptying, resizing and concurrent encryption, including buffers that run dry in the middle of a ballot.",
 ["schedules","histories"],
 "all interleavings of populate/stop/empty/init and any number of concurrent consumers",
 "double use needs a particular interleaving of producer and consumers, and reuse silently breaks ballot secrecy without failing any functional test",
 [E_+"precompute_buffers.cpp","include/electionguard/precompute_buffers.hpp",E_+"encrypt.cpp"],
 [("buffer queues and lock",E_+"precompute_buffers.cpp"),("consumption during encryption",E_+"encrypt.cpp")],
 ["triple queue","two-triples-and-a-quadruple queue"],["values returned by the buffers; pads of emitted ballots"])
P("P06","Precompute buffers stay bounded, stoppable and never block voting",
 "Filling never takes the number of buffered selection sets beyond the configured maximum (nor that of buffered single triples beyond twice that), and the reported size and maximum are values the buffers really had; filling ends by itself when full; after a stop request filling ends within one generated set; emptying leaves the buffers empty, and encryption always completes whether buffers are full, empty, being filled or being emptied. No call sequence from any number of threads deadlocks.",
 ["schedules","histories","configurations"],
 "all interleavings and orders of init, populate, stop, empty, status and encryption calls, and all configured sizes",
 "the tests call the control functions one after the other from one thread with one size",
 [E_+"precompute_buffers.cpp",E_+"facades/election.cpp"],
 [("init/populate/stop/empty/status",E_+"precompute_buffers.cpp")],
 ["configured maximum","populate flag","queues"],["status calls after and during every operation"])
P("P07","Fresh randomness for every secret, and failure when there is none",
 "Every nonce generated by the library is drawn fresh from the operating system's random source: no two generated secrets in any history coincide, none depends only on the clock or on earlier state, and all are in range. When the random source fails, returns short or is interrupted, the operation either fails with an error or retries, and never continues with missing, repeated or predictable bytes.",
 ["fault_sequences","schedules","histories"],
 "all sequences of random-source failures (open errors, short reads, EINTR, EIO), clock stalls and jumps, at any draw of any operation on any thread",
 "the tests never see the random source fail and cannot see a repeated or constant nonce in a working encryption",
 [E_+"random.hpp",E_+"group.cpp","src/karamel/Lib_RandomBuffer_System.c",E_+"encrypt.cpp"],
 [("OS entropy and DRBG",E_+"random.hpp"),("random field elements",E_+"group.cpp")],
 None,["generated elements, ballot nonces, ciphertext pads, status codes"])
P("P08","Cached fixed-base exponentiation always equals the true power",
 "Exponentiation of the generator, of a public key, of any base marked for acceleration and of any other base equals the mathematical power modulo the prime for every exponent, no matter which bases were cached before, how many threads ask for the same or different bases at once, or at which moment a cache entry is created or its creation fails.",
 ["schedules","histories","inputs","fault_sequences"],
 "all histories and interleavings of cache creation and lookup over any set of bases and exponents, with allocation failures during creation",
 "tests use one warm base on one thread; a wrong or half-built cache entry needs a race or a failure during creation",
 [E_+"lookup_table.hpp",E_+"group.cpp"],
 [("table cache keyed by base",E_+"lookup_table.hpp"),("dispatch to table or plain exponentiation",E_+"group.cpp")],
 ["map from base to table"],["returned group elements"])
P("P09","Concurrent use is free of data races and equals some sequential use",
 "Several threads may encrypt, verify, hash, serialise and read against one shared manifest, context, device, mediator or ballot at once: no interleaving causes a data race, crash or deadlock, and every result is one that some one-at-a-time execution of the same calls would give.",
 ["schedules"],
 "all interleavings of any number of caller threads over shared read-only objects and the library's process-wide state, including first use of lazily created state",
 "the suite is single-threaded; lazily created and cached state only goes wrong when first uses overlap",
 [E_+"lookup_table.hpp",E_+"precompute_buffers.cpp",E_+"log.cpp",E_+"group.cpp",E_+"encrypt.cpp"],
 [("fixed-base table cache",E_+"lookup_table.hpp"),("buffer singleton",E_+"precompute_buffers.cpp"),("logger singleton",E_+"log.cpp"),("cached element representations",E_+"group.cpp")],
 ["process-wide singletons","lazily cached fields"],["memory accesses, results, thread states"])
P("P10","Whatever was durably stored reloads as the same election record",
 "Every manifest, context, device, plaintext ballot, encrypted ballot and submitted ballot that was completely stored in any supported format reloads, in the same or a restarted process, to an object that is equal in every published field, hashes to the same value, still verifies and stores to the same bytes again. An incompletely or wrongly stored record is reported as an error or yields an object that fails verification, never a crash.",
 ["crash_points","inputs","fault_sequences"],
 "all artifacts and formats, all crash points of the storing process, and torn, truncated, lost, duplicated or bit-flipped records",
 "round-trip tests use a few fixed objects in one process; losses depend on values (leading zeros, empty and optional fields) and on crash timing",
 [E_+"serialize.hpp",E_+"ballot.cpp",E_+"manifest.cpp",E_+"election.cpp",E_+"encrypt.cpp"],
 [("JSON, BSON and MessagePack codecs",E_+"serialize.hpp"),("hex conversion",E_+"convert.hpp")],
 ["simulated disk"],["objects reloaded after restart"])
P("P11","A compact ballot expands to the very ballot whose code the voter got",
 "Every ballot encrypted as a compact ballot, once stored, reloaded in the same or another process and expanded with the same manifest and context, yields an encrypted ballot with exactly the ballot code, seed, timestamp and nonce handed out when it was cast, that verifies and decrypts to the voter's choices and write-ins. A compact ballot whose recorded votes, ballot id, nonce, seed, timestamp or code was altered is refused at expansion.",
 ["histories","crash_points","inputs","fault_sequences"],
 "all ballots, buffer states at compaction and at expansion, restarts in between, and corruptions of the stored compact ballot",
 "expansion re-runs encryption, so it depends on process-wide state at two different times, which tests keep identical",
 [E_+"ballot_compact.cpp",E_+"encrypt.cpp",E_+"serialize.hpp"],
 [("compress and expand",E_+"ballot_compact.cpp"),("compact encryption",E_+"encrypt.cpp")],
 ["precompute queues"],["expanded ballot"])
P("P12","Write-ins and overvote details survive exactly, sealed, and fixed in size",
 "For every contest the sealed extended data opens under the election secret key to exactly the voter's write-in texts and overvoted selections (and to nothing when there are none), up to its fixed capacity of 510 bytes (longer data keeps exactly its first 510 bytes, or is refused where truncation is not permitted), has the same length for every voter, and stays openable after being copied, stored, crashed over and reloaded. Data that was altered, or opened with a wrong key or for another election, is refused.",
 ["inputs","histories","fault_sequences"],
 "all write-in texts (any bytes and lengths), overvotes, buffer states, storage round trips and corruptions",
 "the result depends on random bytes of the ciphertext and on storage history; the tests open a few freshly made ciphertexts",
 [E_+"elgamal.cpp",E_+"hmac.cpp",E_+"encrypt.cpp",E_+"serialize.hpp"],
 [("hashed ElGamal",E_+"elgamal.cpp"),("extended data of a contest",E_+"encrypt.cpp"),("ciphertext codec",E_+"serialize.hpp")],
 None,["decrypted extended data"])
P("P13","The tally counts every cast ballot once and nothing else",
 "Adding the encryptions of any set of cast ballots, from any devices, in any order, grouping or thread split, with spoiled ballots left out and redelivered ballots counted once, decrypts to exactly the sum of the cast votes for every selection; cast and spoiled states survive submission, copying, storage and restart. Repeating the addition changes neither the inputs nor the result.",
 ["histories","schedules","fault_sequences","crash_points"],
 "all sets of ballots, orders, groupings, thread splits, duplicated/lost/reordered deliveries and restarts",
 "tests add two ciphertexts once; conservation over histories with redelivery, restart and concurrent accumulation is not sampled",
 [E_+"elgamal.cpp",E_+"ballot.cpp",E_+"serialize.hpp"],
 [("homomorphic addition",E_+"elgamal.cpp"),("submission state",E_+"ballot.cpp")],
 ["accumulated ciphertexts"],["decrypted totals"])
P("P14","Published forms never contain a secret",
 "No byte sequence the library produces for publication (any format of an encrypted or submitted ballot without explicitly asked-for nonces, contexts, manifests, devices, log output and error messages) contains any ballot, contest, selection, proof or precomputed nonce, a factor that blinds a vote, or the text of a write-in, and a ballot once published and reloaded has no usable nonce left. This holds after any history, including failures and reloads of ballots that did carry nonces.",
 ["histories","fault_sequences","inputs"],
 "all encryption, failure, store, reload and submit histories and all formats",
 "tests compare a few serialised fields; a leak shows only if one looks for every secret in every output after every history",
 [E_+"serialize.hpp",E_+"ballot.cpp",E_+"log.cpp",E_+"facades/encrypt.cpp"],
 [("serialisation with and without nonces",E_+"serialize.hpp"),("logging",E_+"log.cpp")],
 None,["every emitted byte: serialised ballots, log stream"])
P("P15","A failed call reports an error and leaves everything as it was",
 "Whatever fails during a call (memory exhaustion, random source, unusable input, mismatched election), the C++ interface throws a standard exception and the C interface functions that return a status return an error; neither crashes, hangs nor returns a partial ballot. Afterwards all objects are unchanged and the same call, once the fault is gone, succeeds with the same effect as if the failure had never happened.",
 ["fault_sequences","inputs","histories"],
 "every single allocation, random-source or input fault at every point of every operation, followed by a retry",
 "tests never make an allocation or the random source fail; there are thousands of fault points per ballot",
 [E_+"facades/encrypt.cpp",E_+"facades/ballot.cpp",E_+"facades/election.cpp",E_+"encrypt.cpp"],
 [("exception to status translation",E_+"facades/encrypt.cpp"),("mediator state",E_+"encrypt.cpp")],
 ["mediator seed","precompute queues","table cache"],["status codes, retried results, process exit"])
P("P16","Submitted tasks run exactly once and their results all arrive",
 "Every task handed to the worker pool runs exactly once and its result or exception reaches the caller; queued items come out exactly once in the order each producer put them in; at most the allowed number of holders pass the semaphore; and shutting the pool down after any interleaving runs every accepted task before it ends, without deadlock, lost wake-up or abort, also when starting a thread fails.",
 ["schedules","fault_sequences"],
 "all interleavings of producers, consumers, workers and shutdown, with failing thread creation and spurious wake-ups",
 "lost or doubled tasks need a particular interleaving; no test exercises the pool concurrently under control",
 [E_+"async.hpp"],
 [("thread pool","src/electionguard/async.hpp"),("two-lock queue","src/electionguard/async.hpp"),("counting semaphore","src/electionguard/async.hpp"),("waiting for all results","src/electionguard/async.hpp")],
 ["task queue","semaphore count"],["task execution log, results"])
P("P17","All parties derive the same election identity or refuse to work together",
 "Every station, device and verifier that builds, stores, reloads or copies the same manifest and context derives exactly the manifest hash, base hash, extended base hash, contest and selection hashes the specification defines; any meaningful change of the manifest or parameters changes them, and an encryption device asked to encrypt with a manifest and context that do not belong together refuses, through the C++ and the C interface.",
 ["inputs","histories","configurations"],
 "all manifests and parameters, and all ways, formats and restarts by which parties obtain them",
 "tests compare a hash with itself through one round trip of a few manifests",
 [E_+"manifest.cpp",E_+"election.cpp",E_+"hash.cpp",E_+"encrypt.cpp"],
 [("manifest and description hashes",E_+"manifest.cpp"),("base hashes",E_+"election.cpp"),("hash function",E_+"hash.cpp"),("manifest/context match",E_+"encrypt.cpp")],
 None,["hashes computed by each simulated party"])
P("P18","A ballot nonce reopens the ballot: re-encryption is reproducible",
 "Given the ballot nonce, seed and timestamp of a ballot encrypted without precomputed values, encrypting the same plaintext again, on any thread, in any process, before or after any other work, reproduces the encrypted ballot bit for bit except for its randomised range proofs, following the specified nonce derivation; with or without precomputed values every nonce kept with a ballot opens exactly its own ciphertext. Distinct selections, contests and ballots never share a nonce.",
 ["histories","schedules","crash_points","inputs"],
 "all ballots, nonces, histories before the re-encryption, interleavings and process restarts",
 "tests compare two encryptions in immediate succession; hidden dependence on earlier work or on time needs histories",
 [E_+"encrypt.cpp",E_+"nonces.cpp",E_+"ballot.cpp"],
 [("nonce derivation",E_+"nonces.cpp"),("seeded encryption",E_+"encrypt.cpp")],
 None,["re-encrypted ballot and retained nonces"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in A))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in A:
    try: jsonschema.validate(x,s)
    except Exception as e: print(x['id'],e)
