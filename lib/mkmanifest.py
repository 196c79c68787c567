"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification checked with TLC; recorded calls of the real library validated against it (trace validation)"
notes = dict(
 C01="Signatures of the library are compared, call by call, with those TLC computes from Sphincs.tla (an independent transcription of SPHINCS+). Every position of the small shapes is reached, extreme and random positions of all 12 sets. TLC evaluates the hash functions through Java overrides that are checked against the pure TLA+ definitions. Not every key/message can be tried.",
 C02="Key generation against Sphincs.tla for all sets and many shapes, every failure combination; bounded number of keys.",
 C03="Api.tla's streaming machine is refined by the implementation-shaped machine of Stream.tla in TLC (exhaustive for small shapes); the real calls are validated against Api.tla for all offsets x sizes of tiny shapes and random splits of all sets.",
 C04="As C03, for verification; signatures come from the specification, verdicts from Sphincs.tla.",
 C05="Every sign/verify pair is validated, over positions, message lengths and builds; keys from the library and from the specification.",
 C06="The library's verdict has to equal the verification equation of Sphincs.tla evaluated by TLC for every single-byte change of small signatures, all node positions of real ones, key and message changes, splices, near-miss roots. Forgeries that need a hash collision are outside.",
 C07="Results have to be equal over fresh, garbage, abandoned and interleaved contexts and threads (also under ThreadSanitizer); bounded schedules.",
 C08="Wrong-phase calls at every offset of small shapes and random offsets of real sets, in optimized and unoptimized builds.",
 C09="The random function's calls are recorded and validated; OptRand differing in each byte.",
 C10="All 144 settings are built and run; signatures, keys and verdicts are compared in one trace per set and with the specification's signatures.",
 C11="Digests against the FIPS definitions in Hash.tla for all lengths and (buffered, added) pairs in bounds, and inputs beyond 2^32 bytes; the buffering algorithm is model checked in MCHashBuf.",
 C12="What the library may touch is part of the trace events: canaries, guard pages on either side, read-only inputs, inaccessible message after ts_init_sign, AddressSanitizer; a touch of memory that none of these watch is not seen. TLA+ carries the contract, the observation is by instrumentation.",
 C13="Stack high-water marks, heap calls and static storage are measured per call and judged by TraceRam.tla against the documented figures; gcc x86-64 only.",
 C14="Revealed places are extracted by TLC from the library's signatures and have to be functional both ways; exhaustive positions for small shapes, directed near-collisions for real sets.")
checks = [dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
               evidence_file=f"evidence/{p}.json", technique=TV, level="model_checking", level_note=n) for p, n in notes.items()]
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[],
               notes="No hooks in /repo: the public interface and, for shapes of our own, internal.h's parameter set record are enough."),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
