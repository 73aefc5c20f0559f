#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python for readability)."""
import json, os
GIPA="ip_proofs/src/gipa.rs"; TIPA="ip_proofs/src/tipa/mod.rs"; SSM="ip_proofs/src/tipa/structured_scalar_message.rs"
PC="ip_proofs/src/applications/poly_commit/mod.rs"; TR="ip_proofs/src/applications/poly_commit/transparent.rs"
G16="ip_proofs/src/applications/groth16_aggregation.rs"; SIPP="sipp/src/lib.rs"; RNG="sipp/src/rng.rs"
IP="inner_products/src/lib.rs"; DH="dh_commitments/src/lib.rs"
DHS=[DH,"dh_commitments/src/afgho16/mod.rs","dh_commitments/src/pedersen/mod.rs","dh_commitments/src/identity/mod.rs"]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Inner products equal the term-by-term sum for every length and pool size",
"For any two equal-length vectors (including empty ones and ones containing zeros or identity elements), the pairing, multi-exponentiation and scalar inner products, and SIPP's pairing-product helpers, return exactly the sum of the individual terms, whatever the vector length and however many worker threads are available. Two vectors of different lengths given to an inner product yield an error, never a value.",
["inputs","configurations"],"all small vectors over the group; all (length, number of worker threads) pairs up to a bound; all mismatched length pairs",
"Tests use one random vector of length 8 (32 for SIPP) on the machine's own core count; chunking depends on (length, threads) and special elements never occur.",
[IP,SIPP],[("cfg_multi_pairing",IP),("InnerProduct impls",IP),("product_of_pairings(_with_coeffs)",SIPP)],["returned value or error"])

p("C02","Commitments are doubly homomorphic, deterministic and checked exactly",
"Each commitment scheme (Pedersen, AFGHO in G1 and in G2, and the identity commitment) is a bilinear function of key and message: committing to a sum of messages, under a sum of keys, or to a scaled message or key gives the sum, or the scaled, commitment, and the identity commitment of a vector is the vector itself with component-wise homomorphism in which a shorter vector counts as zero-padded. Verification of an opening returns true exactly when the commitment equals the recomputed one, and a key/message length mismatch is an error for the keyed schemes. Setup returns exactly as many keys as requested.",
["inputs"],"all keys, messages and scalars over a small group, vectors up to a small length, all commitment values",
"Tests check one random opening, one random wrong message and one over-long message per keyed scheme; homomorphism, the identity commitment and near-miss commitments are never tested.",
DHS,[("commit / verify","dh_commitments/src/*/mod.rs"),("IdentityOutput::add / mul_assign","dh_commitments/src/identity/mod.rs")],["commit output","verify verdict"])

p("C03","SIPP: honest proofs always verify",
"For every power-of-two length of at least two, every pair of vectors, every coefficient vector (zeros and identities included) and every non-degenerate sequence of Fiat-Shamir challenges, proving the true inner pairing product yields a proof the verifier accepts.",
["inputs"],"all vectors over a small group, all non-zero challenge values, all power-of-two lengths up to a bound",
"One test: one random length-32 instance, one challenge sequence.",
[SIPP,RNG],[("SIPP::prove / SIPP::verify",SIPP),("FiatShamirRng",RNG)],["verifier verdict"],"cfg(ripp_verif) serialization of Proof (shared)")

p("C04","SIPP: only proofs of the claimed product are accepted",
"For every statement, every proof of the right length (honest, tampered or fully adversarial) and every challenge sequence, the SIPP verifier accepts only if the claimed value, combined round by round with the proof's cross terms under the challenges, equals the pairing of the vectors folded with those challenges. In particular an honest prover's proof is never accepted together with a wrong claimed value.",
["inputs","fault_sequences"],"all statements and all proof elements over a small group (small n), all single and double tamperings of honest proofs (larger n), all challenges",
"The test suite contains no negative test for SIPP at all.",
[SIPP],[("SIPP::verify",SIPP)],["verifier verdict"],"cfg(ripp_verif) derives to construct adversarial proofs")

p("C05","SIPP: challenges bind the whole statement and all earlier messages",
"Every challenge SIPP draws depends on both input vectors, the coefficient vector, the claimed value and every proof element sent before it, in prover and verifier alike. The Fiat-Shamir generator is a deterministic function of its complete history: changing, adding, removing or reordering any absorbed message changes everything drawn afterwards, and equal histories give equal output.",
["inputs","histories"],"all single-component perturbations of statement and proof; all pairs of absorb histories up to a bound",
"Dropping a component from the hash leaves every honest run accepted, so no completeness test can notice.",
[SIPP,RNG],[("seed serialization and absorb",SIPP),("FiatShamirRng::absorb",RNG)],["digest inputs","drawn randomness"],"cfg(ripp_verif) derives to perturb proof elements")

p("C06","GIPA: honest proofs always verify",
"For every supported inner product (pairing, multi-exponentiation, scalar) with matching commitments (identity or compact for the result), every power-of-two length including one, all messages and keys (zeros included) and every hash behaviour, including digests that first give an unusable challenge and force a retry, a proof for a true statement is produced and accepted.",
["inputs","fault_sequences"],"all messages/keys over a small field, all hash answers with up to two degenerate (retry) answers at any position, lengths 1..8 and larger by bilinearity",
"Three tests at length 8 with one random instance; the retry path has probability 2^-128 under a real hash and is never executed.",
[GIPA],[("GIPA::prove / verify, challenge loop",GIPA)],["verifier verdict"])

p("C07","GIPA: the prover refuses false or malformed statements",
"Asked to prove a statement whose claimed inner product is wrong, whose commitments do not open to the given vectors under the given keys, whose vectors or keys have mismatched lengths, or whose length is not a power of two, the checked prover returns an error and no proof.",
["inputs"],"all statements over a small field that are false in one or more components; all small length combinations",
"No existing test calls the prover with a false statement.",
[GIPA],[("GIPA::prove pre-checks",GIPA)],["Result of prove"])

p("C08","GIPA: only transcripts satisfying the folding equations are accepted",
"For all keys, commitments, proofs of any shape (honest, tampered or fully adversarial) and challenges, the GIPA verifier accepts only if the proof has the number of rounds the key length dictates and all three commitments, folded round by round with the proof's cross commitments under the challenges, open to the proof's final message pair and its inner product under the equally folded keys. In particular, an honest transcript with any one commitment of the statement or any one proof element changed is never accepted when the change alters a checked equation.",
["inputs","fault_sequences"],"all proofs over a small field for lengths 1 and 2; all single and double tamperings for longer ones; all challenges",
"There is no negative test for GIPA in the repository.",
[GIPA],[("_compute_recursive_challenges / _compute_final_commitment_keys / _verify_base_commitment",GIPA)],["verifier verdict"])

p("C09","GIPA/TIPA: challenges bind the statement and all earlier messages",
"In GIPA, TIPA and both structured-scalar variants, every round challenge depends on the commitments being argued about (and on the public scalar in the structured-scalar variants) and on every cross commitment sent up to and including that round, and the commitment-key challenge additionally on the claimed final keys. Consequently nobody can first fix the proof messages, learn the challenges, and then choose a statement that makes them verify.",
["inputs"],"every single-component perturbation of statement and proof messages, for all protocol variants and lengths; forged-statement attack enumerated",
"Weak Fiat-Shamir leaves all honest runs accepted; no test looks at hash inputs or forges statements.",
[GIPA,TIPA,SSM],[("challenge hash input",GIPA),("KZG challenge point",TIPA),("KZG challenge point",SSM)],["digest inputs","verifier verdict on forged statements"])

p("C10","Structured reference strings and derived keys are well formed",
"For every size and every secret pair, setup yields consecutive powers of the two secrets in the two groups (2n-1 of each for n-element vectors, as many as required by the degree for the polynomial schemes), the commitment keys are exactly the even powers, n of each, and the verifier key holds the generators and the first powers matching the same secrets. The power-vector helpers return exactly the requested number of consecutive powers starting at one.",
["inputs"],"all secrets of a small field, all sizes up to a bound",
"Setup output is only exercised indirectly at one size with random secrets.",
[TIPA,SSM,PC],[("structured_generators_scalar_power, SRS::get_commitment_keys / get_verifier_key",TIPA),("structured_scalar_power",SSM)],["public SRS fields"])

p("C11","TIPA: honest proofs always verify, with and without key shift",
"For every supported inner product, every power-of-two length including one, all messages, all reference-string secrets, every non-zero shift scalar and every hash behaviour (including retries), a TIPA proof for a true statement is produced and accepted by the logarithmic verifier that sees only the verifier key.",
["inputs","fault_sequences"],"all small-field messages, secrets, shifts and hash answers with up to two degenerate answers; lengths 1,2,4,8",
"Tests: length 8, one random instance per inner product, one shift; retry paths and length one never run.",
[TIPA,GIPA],[("TIPA::prove_with_srs_shift / verify_with_srs_shift",TIPA)],["verifier verdict"])

p("C12","TIPA: only well-formed final keys and valid folded openings are accepted",
"For all verifier keys, statements, shifts, proofs and challenges, the TIPA verifier accepts only if both claimed final commitment keys open, at the key challenge, to the evaluations determined by the round challenges (and the shift on the left key only), and all three folded commitments open to the final message pair and its inner product under those keys. Tampering that falsifies any of these conditions is rejected.",
["inputs","fault_sequences"],"all single and double tamperings of honest proofs and statements over a small field (all proofs for length one or two where feasible), all challenges",
"There is no negative TIPA test.",
[TIPA],[("verify_commitment_key_g1/g2_kzg_opening, base checks",TIPA)],["verifier verdict"])

p("C13","Structured-scalar arguments: honest proofs always verify",
"When the right vector consists of the powers of a public scalar, both the transparent (GIPA-based) and the logarithmic (TIPA-based) structured-scalar provers produce proofs that their verifiers accept, for every scalar (zero included), every left vector, every supported power-of-two length, every reference-string secret and every hash behaviour including retries.",
["inputs","fault_sequences"],"all small-field scalars, messages, secrets, hash answers with up to two degenerate answers; lengths 1,2,4,8",
"Two tests, length 8, one random scalar.",
[SSM],[("GIPAWithSSM, TIPAWithSSM",SSM)],["verifier verdict"])

p("C14","Structured-scalar arguments: only consistent transcripts are accepted",
"The structured-scalar verifiers accept only if the folded left commitment opens to the final left message under the folded (or proven well-formed) key and the folded result commitment opens to the inner product of that message with the value obtained by folding the powers of the public scalar under the same challenges. A proof made for one scalar, result or left commitment is rejected for any other whose folded equations differ.",
["inputs","fault_sequences"],"all single and double tamperings of proofs, statements and scalar over a small field, all challenges",
"No negative test exists.",
[SSM],[("verify_with_structured_scalar_message",SSM)],["verifier verdict"])

p("C15","KZG: true evaluations verify and false ones never do",
"For every polynomial up to the supported degree (the zero polynomial and leading-zero cases included), every reference-string secret and every point, the opening produced verifies for the true evaluation and for no other value, and a pair (commitment, opening) is accepted only if it satisfies the KZG equation for the claimed point and value. Committing to or opening a polynomial beyond the supported degree is refused.",
["inputs"],"all polynomials of small degree, secrets, points, values and proofs over a small field",
"KZG is only tested inside the bivariate scheme with random inputs.",
[PC],[("KZG::commit/open/verify",PC)],["verdict"])

p("C16","Polynomial commitments (trusted setup): true evaluations always verify",
"For every supported degree bound (zero included), every polynomial up to that bound, every point and every hash behaviour, the univariate scheme's opening verifies for the polynomial's evaluation at that point; the same holds for the bivariate scheme with any supported pair of degrees, including polynomials with fewer or shorter rows than the maximum.",
["inputs","configurations"],"all degree bounds up to a limit (every change of the internal split included), all polynomials/points at small degree, basis polynomials at larger degree",
"Tests cover degree 65535 univariate and 7x7 bivariate with one random point.",
[PC],[("UnivariatePolynomialCommitment, BivariatePolynomialCommitment",PC)],["verdict"],"cfg(ripp_verif) derives to build bivariate polynomials")

p("C17","Polynomial commitments (trusted setup): false evaluations are rejected",
"An opening made for one polynomial, point and value is rejected for any other value, and for another point or commitment whenever the verification equations differ; the verifier accepts only if the second-tier argument is valid for the row commitment carried in the proof and the KZG opening is valid for that row commitment at the second coordinate. Tampering with any proof element that breaks one of the equations is rejected.",
["inputs","fault_sequences"],"all wrong values, all single/double tamperings over a small field, all challenges",
"No negative test exists.",
[PC],[("BivariatePolynomialCommitment::verify",PC)],["verdict"],"cfg(ripp_verif) derives on OpeningProof")

p("C18","Transparent polynomial commitments: true evaluations always verify",
"For every supported degree bound (zero included), polynomial, point, key and hash behaviour, the transparent univariate scheme's opening verifies for the true evaluation; likewise the transparent bivariate scheme for any supported degrees and for polynomials with fewer or shorter rows than the maximum.",
["inputs","configurations"],"as for the trusted-setup scheme",
"Tests cover degree 65535 univariate and 7x7 bivariate with one random point.",
[TR],[("transparent commit/open/verify",TR)],["verdict"],"cfg(ripp_verif) derives to build bivariate polynomials")

p("C19","Transparent polynomial commitments: false evaluations are rejected",
"The transparent verifier accepts only if both tiers' structured-scalar arguments are valid: the outer one for the row commitment carried in the proof and the inner one for the claimed value at the second coordinate. A wrong value is always rejected for an honest opening, and tampering that breaks one of the equations is rejected.",
["inputs","fault_sequences"],"all wrong values, all single/double tamperings over a small field, all challenges",
"No negative test exists.",
[TR],[("transparent BivariatePolynomialCommitment::verify",TR)],["verdict"],"cfg(ripp_verif) derives on OpeningProof")

p("C20","Groth16 aggregation: valid proofs aggregate and verify",
"For every power-of-two number of individually valid Groth16 proofs (one included) under any verifying key and any number of public inputs, aggregation succeeds and the aggregate verifies against the corresponding list of public inputs, for every non-degenerate hash behaviour.",
["inputs","fault_sequences"],"all small-field verifying keys and valid proofs within a bound, n in {1,2,4,8}, 0..3 public inputs, all challenges",
"There is no unit test for Groth16 aggregation (only an example program).",
[G16],[("aggregate_proofs / verify_aggregate_proof",G16)],["verdict"])

p("C21","Groth16 aggregation: an invalid proof or wrong input is rejected",
"If exactly one aggregated proof is invalid for its public inputs, or exactly one public input, the number of instances, or any value carried in the aggregate is changed so that a checked equation fails, the aggregate is rejected for every non-degenerate challenge; it is accepted only when both inner arguments and the aggregate pairing equation hold. Public input lists whose lengths do not match the verifying key, or an empty list, are refused, never partly ignored.",
["inputs","fault_sequences"],"all single-component corruptions (proof elements, public inputs, counts, aggregate fields) over a small field, all challenges",
"There is no unit test for Groth16 aggregation.",
[G16],[("verify_aggregate_proof",G16)],["verdict"],"cfg(ripp_verif) derives on AggregateProof")

p("C22","Groth16 aggregation: combination challenge binds commitments and statement",
"The random combination challenge depends on all three commitments to the aggregated proofs and on the public inputs they are claimed to prove, and the inner arguments' challenges additionally depend on the aggregated values. Hence a valid aggregate cannot be reused with different public inputs chosen after the challenge is known.",
["inputs"],"every single-component perturbation of the statement and aggregate",
"Honest runs are unaffected by missing transcript components; no test exists.",
[G16,GIPA],[("combination challenge r",G16)],["digest inputs","verdict on shifted public inputs"],"cfg(ripp_verif) derives on AggregateProof")

p("C23","Results do not depend on scheduling or on the number of worker threads",
"Every inner product, proof, commitment and verdict is identical under every way the work-stealing runtime may split, steal and order the parallel work, and for every number of worker threads.",
["schedules","configurations"],"all task-level schedules (split, steal and completion order choices) up to a deviation bound for every public operation at small sizes; all pool sizes up to a bound",
"Tests run whatever schedule the OS happens to produce with one pool size.",
[IP,SIPP,GIPA,TIPA,SSM],[("rayon par_iter / par_chunks / reduce",SIPP),("cfg_iter!/par_chunks",IP),("cfg_iter! rescaling",GIPA)],["returned values and proofs"])

p("C24","Sequential and parallel builds agree",
"Built with or without the parallel feature, the libraries accept the same inputs and return identical values, proofs and verdicts.",
["configurations","inputs"],"all operations of a fixed exhaustive corpus, executed in both builds",
"The test suite is only ever built with default (parallel) features.",
[IP,GIPA,SSM],[("#[cfg(feature = \"parallel\")] branches",IP)],["returned values and proofs"])

p("C25","Proofs survive serialization unchanged",
"Serializing a GIPA, TIPA or structured-scalar TIPA proof, or a commitment output, compressed or uncompressed, and deserializing it yields a proof that serializes identically and receives the same verdict for every statement; the announced serialized size is the number of bytes written, and truncated input is refused.",
["inputs","fault_sequences"],"all honest proofs of small instances, all encodings, every truncation point",
"No test serializes a proof.",
[GIPA,TIPA,SSM,"dh_commitments/src/identity/mod.rs"],[("derive(CanonicalSerialize, CanonicalDeserialize)",GIPA)],["bytes","verdict"])

p("C26","Verifiers answer malformed proofs with rejection, not panic or blow-up",
"Given a proof of arbitrary shape received from an untrusted prover (any number of rounds including none and many, any identity-output lengths), every GIPA, TIPA, structured-scalar and polynomial-commitment verifier returns a rejection or an error within time and memory linear in statement and proof size. It never panics, and it accepts only if the verification equations hold (identity outputs counting as zero-padded).",
["inputs","fault_sequences"],"all shapes (round counts 0..k and a very large one, component lengths 0..2) for all key sizes up to a bound, all verifiers",
"Tests only feed well-formed honest proofs.",
[GIPA,TIPA,SSM,PC,TR],[("verification entry points",GIPA)],["Result / panic"])

p("C27","Operations are history independent and deterministic",
"The result of any library call (setup with a given random stream, commit, prove, verify, aggregate) depends only on its arguments: repeating it, or performing any sequence of other calls before it, never changes its result.",
["histories"],"all operation sequences up to a depth over an alphabet of calls with colliding sizes but different keys, compared with the call in a fresh process",
"Each test performs one setup-prove-verify history per type.",
[GIPA,TIPA,SSM,PC,TR,G16,SIPP,IP],[("absence of hidden state",GIPA)],["returned values"])

p("C28","Univariate-to-bivariate splitting covers every degree and loses nothing",
"For every requested degree bound, both polynomial commitment schemes choose a power-of-two grid with at least degree+1 cells, and evaluating the rearranged polynomial agrees with the original at every point. A polynomial that does not fit the grid is refused rather than silently truncated, so two different polynomials never share a commitment through truncation.",
["inputs","configurations"],"all degree bounds up to a limit, all coefficient positions, over-long polynomials",
"Only degree 65535 is tested; small degrees, boundaries and over-long polynomials never.",
[PC,TR],[("bivariate_degrees / bivariate_form",PC),("bivariate_degrees / bivariate_form",TR)],["key sizes, commitments, verdicts"])

p("C29","Setup gives every key its own randomness",
"For every size and every random stream, the Pedersen and AFGHO setups, the GIPA and transparent structured-scalar and polynomial-commitment setups, and the secrets (and result key) of the TIPA, KZG and aggregation setups, return exactly the keys asked for, each with randomness of its own. Every combination of keys is reachable, no key is determined by the others, and no two coincide across the vectors of one setup or between setups run on different streams.",
["inputs","configurations"],"every random stream of tiny fields, every size up to a limit, every setup",
"Binding of every commitment rests on the keys having no known relation; honest proofs verify just as well under repeated or related keys, so no test can notice.",
DHS+[GIPA,TIPA,SSM,PC,TR,G16],[("random_generators",DH),("GIPA::setup",GIPA),("TIPA::setup / structured_generators_scalar_power",TIPA)],["the keys returned by the setups"])

p("C30","Every challenge keeps the strength of the hash",
"In every protocol (SIPP, GIPA, TIPA, both structured-scalar variants, the polynomial commitments and the aggregation), each challenge the prover and the verifier draw takes in at least 120 bits of the hash output. Two digests that differ in any of those bits lead to different challenges, so neither a truncated, masked or folded digest nor a short random integer stands in for the full one, and nobody can try out all challenges of a round in advance.",
["inputs"],"every bit of every digest drawn by every prover and verifier",
"A short challenge passes every honest and every tampered test; only the effort of a forger changes.",
[SIPP,RNG,GIPA,TIPA,SSM,G16],[("round challenges",GIPA),("KZG challenge",TIPA),("round challenges",SIPP),("combination challenge",G16)],["proofs and verdicts under neighbouring digests"])

p("C31","Proofs and their verification stay short at every length",
"For every size and message, proofs of SIPP, GIPA, TIPA, both structured-scalar variants, the polynomial commitments and the aggregation grow with the logarithm of the size, the prover's work almost linearly, and every verifier needs a number of pairings, hash calls and (except SIPP, which hashes its statement) hashed bytes that grows at most logarithmically. All work and memory of the TIPA, logarithmic structured-scalar and trusted polynomial-commitment verifiers grow logarithmically too, and so do the group operations of the aggregation verifier, while the transparent univariate verifier's work grows with the square root of the degree and the remaining verifiers' almost linearly.",
["inputs","configurations"],"every size up to a limit, every system, messages of every pattern",
"Succinctness is what the argument systems exist for; a verifier that does linear work, or a proof that carries a vector, accepts and rejects exactly as before.",
[SIPP,GIPA,TIPA,SSM,PC,TR,G16],[("TIPA::verify_with_srs_shift / verify_commitment_key_g1_kzg_opening",TIPA),("TIPAWithSSM::verify_with_structured_scalar_message",SSM),("GIPA::verify",GIPA),("verify_aggregate_proof",G16)],["proof lengths; numbers of group operations, pairs, field multiplications, hash calls and bytes, peak memory"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        assert len(q["statement"].split(". "))<=3,q["id"]
        f.write(json.dumps(q)+"\n")
print(len(P))
