CLAIMED.update({
 "C03": (REF, "Every vector triple over F_3 (n=2), basis triples up to n=16, all challenges: honest proof accepted. " + A),
 "C04": (REF, "All statements and proofs at n=2 over F_3, every k-component tampering of honest proofs up to n=8, all challenges: accept only when the folding equation holds. " + A),
 "C05": (DYN, "Every slot of statement and proof perturbed at n=2..8 and, with the real hash, to 2048 (8192): every later hash input changes; all absorb/draw histories of FiatShamirRng up to a depth, all short sequences of draws before an absorption, and messages to 2^18 (2^20) bytes changed at any block are pairwise separated. " + A),
 "C06": (REF, "All messages and keys at n=1,2, bases to n=16, dense runs to 2^12 (2^15), all challenges and retry patterns: honest proof accepted. " + A),
 "C07": (REF, "All statements (true or not) at n=1,2 over F_3/F_5, single deviations at n=4,8, all length combinations, every common length to 65 (200) and mixed ones to 512: proof iff statement true. " + A),
 "C08": (REF, "All proofs and statements at n=1,2, k-component tampering to n=8, one wrong component to n=2^10 (2^13), all shape mutations, keys of every length to 34 (130) against proofs to 64: accept only when folding equations hold. " + A),
 "C09": (DYN, "61-bit world with the real hash: every slot of statement and proof perturbed at n=1..128 (and over BLS12-381) must change every later hash input; every (falsified slot, repaired slot) forgery attempted at n=1..16 is rejected; unusable digests enumerated. " + A),
 "C10": (REF, "All random draws over F_3/F_5/F_7, sizes 1..17, power helpers for all counts to 70 (group) and 300 (61-bit), scalars of every bit length over BLS12-381. " + A),
 "C11": (REF, "All secrets, messages, shifts at n=1,2, bases to n=16, dense runs to 2^13 (2^16), all challenges and one retry: honest proof accepted. " + A),
 "C12": (REF, "All proofs at n=1, two exhaustive halves at n=2, k-component tampering to n=8, one wrong component to n=2^10 (2^13), shape mutations: accept only when key openings and folded commitments are valid. " + A),
 "C13": (REF, "All left vectors, scalars, keys/secrets at n=1,2, bases to n=16, dense runs to 2^13 (2^16) with the callers' own powers, all challenges and one retry: honest proof accepted. " + A),
 "C14": (REF, "All proofs at n=1, one-round proofs at n=2, k-component tampering to n=8, one wrong component to n=2^10 (2^13), transplanted proofs, shape mutations. " + A),
 "C15": (REF, "All polynomials to degree 2-4, secrets and points over F_3..F_13: exactly the true value verifies; all (commitment, opening, claim) tuples against the KZG equation; over-long polynomials refused. " + A),
 "C16": (REF, "All polynomials for degree bounds 0..3 over F_3/F_5, all small coefficients in grids to 2x4 and 4x2, shape patterns for bounds 0..260 and larger (dense ones to 2^18), all bivariate shapes to 8x32, all challenges and one retry: honest opening accepted. " + A),
 "C17": (REF, "k-component tampering of openings, transplanted proofs, shape mutations, false claims in a 61-bit field: accept only when both tiers' equations hold. " + A),
 "C18": (REF, "All polynomials for degree bounds 0..3 over F_3/F_5, all small coefficients in grids to 2x4 and 4x2, shape patterns for bounds 0..260 and larger (dense ones to 2^18), all bivariate shapes, all challenges and one retry: honest opening accepted. " + A),
 "C19": (REF, "k-component tampering of openings, transplanted proofs, shape mutations, false claims in a 61-bit field: accept only when both tiers' equations hold. " + A),
 "C28": (REF, "Every degree bound 0..333 (grid), monomials at every position, all polynomials over F_3 rearranged at small bounds, over-long polynomials refused. " + A),
 "C20": (REF, "All keys, inputs, proofs, secrets and challenges for one proof over F_3, all proofs/inputs for two, patterns to 8 proofs (32 thorough) and 61-bit runs with unusable digests: aggregate accepted. " + A),
 "C21": (REF, "Every single falsified proof/input at n=1..4, all aggregates at n=1 (two exhaustive halves), k-component tampering to n=4, mixed aggregates, every input-list shape: accept only when both arguments and the pairing equation hold. " + A),
 "C22": (DYN, "61-bit field, real hash with enumerated unusable digests: every commitment and aggregated value perturbed must change the combination / argument hash inputs; statements solved after the challenge is known are rejected except the listed known finding. " + A), "C23": (SCH, "Work-stealing runtime replaced by a controlled scheduler: every library call of a catalogue, every pool size 1..8 and larger, three base schedules with up to 1-2 changed decisions; all schedules of small calls: result identical to one worker. " + A),
 "C24": (DYN + "; the same enumerated calls executed in differently configured builds and compared", "Every call of the catalogue (vectors to 40/70) and every product of F_3 vectors up to length 3, in the parallel build at several pool sizes and in the sequential build(s): identical results and refusals. " + A),
 "C25": (DYN, "Every system, honest proofs to length 8 (16), arbitrary shapes to 17 (32) rounds and commitment outputs to length 70000, both modes, with and without validation, every truncation point; layout compared with an independent writer. " + A),
 "C26": (REF, "All verifiers: key sizes to 64 (256), rounds 0..true+2 and up to 100 (1000), zero/dense contents, identity outputs of lengths 0..300: no panic, memory linear, acceptance only if the reference accepts. " + A),
 "C29": (DYN, "Every random stream of small setups over F_3/F_5 (all key combinations must be reached); every prefix of sizes to 512 (2048) in a 61-bit field with each key re-drawn from its own stream position; BLS12-381 sizes and streams: keys pairwise apart, within and across setups. " + A),
 "C30": (DYN, "BLS12-381, every system at small lengths (2..8): every digest drawn by prover and verifier replaced by each of its 256 neighbours: at least 30 bits of each of four classes modulo 4 change the result, each differently; SIPP also with digests whose ChaCha20 streams agree in one half of the first 128 bits and statements that hold under one challenge only. " + A),
 "C31": (DYN, "61-bit field, every system (aggregation with 0 and 3 inputs, commitments in three shapes), sizes 2^5..2^14 (2^17), up to 2^7 (2^11) with every message pattern, two pool sizes: operations counted in the groups, the pairing, the field, the hash and the allocator, each within its growth bound relative to size 4 of the same build. " + A),
 "C27": ("explicit-state model checking of call histories of the real code (every history up to a depth, one forked process state per edge)", "Every ordered pair of catalogue calls (about 290) and all triples of a sub-catalogue, each history in its own process image, plus every pair within families of nearly equal calls (vectors of 4 and 64 entries) and long histories; results equal those of a fresh process. " + A),
})
