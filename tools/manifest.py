import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na={"C17":"pure function of its input: no thread, clock, I/O, randomness, history or fault takes part in encoding or decoding a mnemonic, so a simulator has nothing to schedule or inject; the part a history can reach (mnemonics created, restored and read back through the manager against an independent BIP-39 model) is decided under C05 and C09",
"C18":"pure function of its input: extended-key arithmetic and serialisation have no schedule, time, I/O or fault; the derivations the wallets use are compared with an independent BIP-32 model in the histories of C09 and C13",
"C19":"pure function of its input: parsing and printing a key path depends on nothing a simulator controls; that no path text crashes or changes anything through the API is decided under C11"}
note={
"C01":"Seeded sampling of interleavings (basic-block and memory-access granularity, sequentially consistent) of up to 6 threads on shared handles, with each call's outcome compared to a reference model; weak-memory effects are not simulated.",
"C02":"Every byte the simulated entropy source delivers is unique and tracked; provenance of every salt, nonce and mnemonic is checked exactly in every run. Sampled histories.",
"C03":"Outages placed by seed at any entropy read, EINTR, short reads, missing system call; outcome and healing judged for every call. One open finding in a dependency (known-findings.txt).",
"C04":"Sampled damages of real blobs at any moment of generated histories; every accepted damaged blob is a violation. Forgery against the MAC is trusted to the cryptography.",
"C05":"Sampled multi-process histories with crashes at arbitrary points, lost and torn writes and mixed device configurations; every blob decrypted by an independent decoder and compared with a reference model.",
"C06":"Sampled histories; near-miss passwords of many kinds against every blob; the key derivation's round count is reduced (still dependent on the requested count) except in full-KDF runs.",
"C07":"Sampled histories over all network subsets including custom networks; results compared with an independent derivation.",
"C08":"Entropy reads inside read-only calls are violations in every run; stalls and outages injected; repetitions compared with the model.",
"C09":"Every key, public key and signature in every history compared with an independent BIP-39/BIP-32/Ed25519-BIP32 model; sampled inputs, hash-map orders and configurations.",
"C10":"Tracking allocator sees every allocation and release inside the library: wrong size, double and foreign releases and use of released memory (poison) are violations; leaks by balance at quiescent marks. Plain reads outside blocks without effect are not seen.",
"C11":"Sampled calls of every C function with extreme inputs; result/error slots pre-filled with a pattern and compared; error types from the reference model.",
"C12":"Generated foreign and mutated authenticated contents of both versions; a model decides accept, value or refusal.",
"C13":"Signatures cross a simulated channel that flips, truncates, swaps and substitutes; verification must agree with the model.",
"C14":"Custom network factories that fail or panic at seeded calls; all-or-nothing, arguments and later calls judged.",
"C15":"After every failed call or crash all later calls are judged; a violation counts when it disappears in the same run without the failed calls.",
"C20":"Every error, panic message, blob, public key, signature and stream write of every sampled history is searched for all passwords, mnemonics, seeds and keys of that run (10-byte windows, raw, hex, base64, printed lists; three words of a mnemonic). Shorter or transformed leaks are not seen.",
"C16":"Sampled long histories over many handles in any order of release; a violation counts when the call alone in a fresh process is right."}
m={"version":1,"setup_cmd":"sim/build.sh","checks":[],"not_applicable":[],
"notes":"One simulator (sim/), one generator profile and relevance rule per property; see DESIGN.md. No hooks in /repo are needed: the harness links the unmodified crates, instruments them at compile time (RUSTC_WRAPPER) and replaces system calls, allocator, clock and threads at link level."}
for p in props:
  i=p["id"]
  if i in na: m["not_applicable"].append({"property":i,"reason":na[i]}); continue
  m["checks"].append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":"deterministic simulation with fault injection (seeded schedules, faults and histories against a reference model)","level":"exploration","level_note":note[i]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
