#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
M='crates/fhe-math/src/'; U='crates/fhe-util/src/lib.rs'; B='crates/fhe/src/bfv/'; MB='crates/fhe/src/mbfv/'; T='crates/fhe-traits/src/lib.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

# ---- arithmetic core
p('A01','Modular arithmetic equals integer arithmetic modulo p',
 'For every supported modulus and all in-range operands, every addition, subtraction, negation, multiplication, reduction, exponentiation, inversion, centring and fused (Shoup) operation returns exactly the canonical representative of the integer result. Constant-time, variable-time, optimised, lazy and vectorised entry points agree with each other up to their documented output range, for vectors of every length.',
 ['inputs','configurations'],'every modulus 2 <= p < 2^62, every operand in the documented input range, every vector length',
 'Unit tests sample random operands for a handful of moduli; carries, off-by-one-p results and tail handling of chunked loops depend on particular operand/modulus/length combinations.',
 [M+'zq/mod.rs',M+'zq/primes.rs'],
 [('Barrett constants and reduce1 corrections',M+'zq/mod.rs'),('16-element unrolled vector loops with remainder',M+'zq/mod.rs'),('supports_opt shortcut',M+'zq/primes.rs')])
p('A02','The NTT is an exact, invertible negacyclic transform in every back end',
 'For every modulus and size for which a transform can be created, backward inverts forward exactly, outputs are fully reduced, and pointwise products in the transformed domain are exactly negacyclic convolutions. The transform evaluates the polynomial at all odd powers of one primitive 2n-th root of unity in bit-reversed order, identically through the constant-time and variable-time entry points and in every back end; creation succeeds exactly for primes p = 1 mod 2n.',
 ['inputs','configurations'],'every admissible (p, n), every coefficient vector, both entry points, both back ends',
 'Tests use random vectors for few (p,n); butterflies contain lazy-reduction ranges only reached by extreme coefficient patterns and sizes.',
 [M+'ntt/native.rs',M+'ntt/tfhe.rs',M+'ntt/mod.rs'],
 [('lazy butterflies and final reductions',M+'ntt/native.rs'),('plan with fall-back to the native transform',M+'ntt/tfhe.rs')])
p('A03','RNS decomposition is a bijection and RNS scaling rounds exactly',
 'For every list of pairwise-coprime moduli, projecting an integer below the product and lifting it back is the identity in both directions, and invalid lists are rejected. Scaling a residue vector by any rational factor into any target basis yields, in every target residue, the exactly rounded value of the centred integer times the factor, whatever window of target residues is requested.',
 ['inputs','configurations'],'every modulus list, every integer below the product, every factor, every starting index and size',
 'Rounding ties, the sign boundary around q/2 and 128-bit correction terms are hit by a negligible fraction of random inputs.',
 [M+'rns/mod.rs',M+'rns/scaler.rs'],
 [('Garner coefficients and CRT lift',M+'rns/mod.rs'),('fixed-point theta/gamma/omega corrections',M+'rns/scaler.rs')])
p('A04','Polynomial operations implement the negacyclic quotient ring',
 'For every history of ring operations (addition, subtraction, negation, products, scalar products, automorphisms, inverse powers of x, and changes of representation, in owned, borrowed and in-place forms), the resulting polynomial equals the one computed naively in Z_Q[x]/(x^N+1), with every coefficient fully reduced. The result does not depend on the representation used on the way, on the timing mode, or on whether lazily reduced multiplicands took part.',
 ['histories','inputs'],'all operation sequences over polynomials, contexts and representations',
 'Tests apply one operation to fresh random polynomials; faults need a particular sequence of representation/timing/laziness states.',
 [M+'rq/mod.rs',M+'rq/ops.rs',M+'rq/convert.rs'],
 [('representation-tagged polynomials',M+'rq/mod.rs'),('lazy coefficient flag',M+'rq/ops.rs'),('substitution tables',M+'rq/mod.rs')])
p('A05','Modulus switching and scaling of polynomials round exactly',
 'Dropping moduli along a context chain maps every coefficient to its exact quotient by the dropped modulus rounded to nearest, step by step; switching or scaling between arbitrary contexts maps every coefficient to the exactly rounded multiple of its centred value. Navigation queries on the chain (distance, context at a level) are consistent with the moduli lists, and impossible switches are errors that leave the polynomial unchanged.',
 ['inputs','histories','configurations'],'every polynomial, every chain, every pair of contexts, every factor',
 'Rounding at the half-way point and skipping several levels are value- and history-specific.',
 [M+'rq/mod.rs',M+'rq/context.rs',M+'rq/scaler.rs',M+'rq/switcher.rs'],
 [('switch_down with half-modulus offset',M+'rq/mod.rs'),('Scaler/Switcher over contexts',M+'rq/scaler.rs')])
p('A06','Polynomial dot products are exact for any number of terms',
 'The dot product of two sequences of polynomials equals the sum of the pairwise ring products for every number of terms and every coefficient values, including when partial sums would overflow the accumulator. Empty, mismatched-length or mismatched-context inputs are reported as errors.',
 ['inputs','configurations'],'all lengths, all moduli sizes, all coefficient values, all representation pairings',
 'Accumulator overflow needs worst-case coefficients together with specific term counts.',
 [M+'rq/ops.rs'],[('bounded 128-bit accumulation with interim reduction',M+'rq/ops.rs')])
p('A07','Primality, prime generation and modular inverses are exact',
 'The primality test answers correctly for every 64-bit integer; prime generation returns the largest prime of exactly the requested bit size, below the bound and congruent to 1 for the requested modulus, and none exactly when no such prime exists; the inverse function returns an inverse exactly when one exists.',
 ['inputs'],'all 64-bit inputs, all bit sizes, moduli and bounds',
 'Strong pseudoprimes, empty ranges and boundary bounds are isolated points in a 2^64 space.',
 [U,M+'zq/primes.rs'],[('Baillie-PSW test',U),('downward scan from upper bound',M+'zq/primes.rs')])
p('A08','Noise sampling is exactly the centred binomial distribution',
 'For every supported variance and vector length, each sampled coefficient is a difference of two sums of 2*variance independent bits of the caller\'s random stream, with no bit shared between coefficients; hence coefficients never exceed twice the variance in absolute value. Unsupported variances are rejected, and small polynomials consistently carry the same signed sample in every residue.',
 ['inputs','configurations'],'every random stream, every variance 1..=32, every length',
 'Statistical tests cannot see a shared, dropped or mis-signed bit.',
 [U,M+'rq/mod.rs'],[('bit-sliced population counts',U),('small polynomial construction',M+'rq/mod.rs')])
p('A09','Fixed-width bit packing is lossless for every width and length',
 'Packing integers of a given bit width to bytes and back, or between two widths, preserves every value and bit position for every width from 1 to 64 and every length, with the minimal output length and zero padding only. Serialised residue vectors have exactly the announced length and decode to the same residues.',
 ['inputs','configurations'],'all widths, lengths and values',
 'Bit-buffer carry faults appear only for particular width/offset/value alignments.',
 [U,M+'zq/mod.rs'],[('bit accumulators',U),('serialize_vec / deserialize_vec',M+'zq/mod.rs')])
p('A10','Polynomial serialisation round-trips and rejects foreign encodings',
 'A serialised polynomial deserialises in the same context to an equal polynomial of the same representation, whatever representation and history it had. Bytes that do not describe a polynomial of that context and representation (wrong degree, wrong representation, wrong length, out-of-range residues, truncation) are rejected, and whatever is accepted is a well-formed, fully reduced polynomial.',
 ['inputs','fault_sequences','configurations'],'all polynomials; all truncations and byte corruptions of encodings; all context pairs',
 'Tests check happy-path round trips and a few malformed fields.',
 [M+'rq/convert.rs',M+'rq/serialize.rs',M+'proto/rq.proto'],[('proto parsing and checks',M+'rq/convert.rs')])
p('A11','Variable-time permission is never gained without every input granting it',
 'A result is marked as allowed to use variable-time code only if every operand that contributed secret-dependent data was so marked or the caller explicitly asserted publicness; bytes read from the wire never grant the permission by themselves. Polynomials decoded from bytes never carry it, and computing with or without it gives the same values.',
 ['histories','inputs'],'all operation histories over all assignments of the permission to the operands',
 'Tests check single operations; the flag propagates through many operation forms.',
 [M+'rq/mod.rs',M+'rq/ops.rs',B+'plaintext.rs',B+'ops/mod.rs',T],
 [('permission flag conjunction',M+'rq/ops.rs'),('explicit publicness capability',T)])
# ---- BFV
p('B01','Parameter sets are accepted exactly when they are sound',
 'Building parameters succeeds exactly when the degree is a supported power of two, the noise variance is supported, one and only one way of choosing moduli was used, the moduli are distinct NTT-friendly primes of supported size, and the plaintext modulus is at least 2, of supported size (below 2^62, or of more than 64 bits), coprime to and smaller than the ciphertext modulus; every rejection is a typed error, never a panic. Accepted parameters report exactly the requested values, and generated moduli have exactly the requested sizes.',
 ['configurations','inputs'],'all builder call histories and values',
 'Tests try isolated invalid values; combinations and call orders are unexplored.',
 [B+'parameters.rs',B+'context/level.rs'],[('builder validation',B+'parameters.rs')])
p('B02','Parameters survive serialisation and level tables are consistent',
 'Serialising parameters and reading them back gives an equal parameter set with identical behaviour, for small and big plaintext moduli; malformed bytes are rejected without panicking. Every level drops exactly one ciphertext modulus, level queries and context queries are mutually inverse, and out-of-range levels or foreign contexts are errors.',
 ['configurations','fault_sequences'],'all parameter sets, all byte corruptions, all levels',
 'Tests round-trip a few sets.',[B+'parameters.rs',B+'context/level.rs',B+'context/cipher_plain_context.rs'],
 [('proto conversion',B+'parameters.rs'),('context level chain',B+'context/level.rs')])
p('B03','Plaintext encoding and decoding are inverse in every encoding',
 'For every vector no longer than the degree, encoding then decoding with the same encoding returns the values reduced modulo the plaintext modulus (centred for signed output) padded with zeros, at every level, for unsigned, signed and big-integer inputs and single or batched plaintexts. Too-long inputs, unavailable encodings, missing or different encodings on decode, and invalid levels are errors.',
 ['inputs','configurations'],'all value vectors, lengths, encodings, levels, plaintext moduli',
 'Tests use random vectors of full length for few moduli.',
 [B+'plaintext.rs',B+'plaintext_vec.rs',B+'encoding.rs'],[('SIMD index map and plaintext NTT',B+'plaintext.rs'),('chunking',B+'plaintext_vec.rs')])
p('B04','Decryption inverts encryption at every level with either kind of key',
 'For every parameter set, level whose ciphertext modulus exceeds the plaintext modulus with room for the noise, encoding and message, decrypting a fresh ciphertext made with the secret key or the matching public key returns exactly the message, and the ciphertext reports the plaintext\'s level. At those levels decrypting a valid ciphertext always succeeds, even when its noise is too large for the result to be meaningful.',
 ['inputs','configurations'],'all parameter sets, levels, messages (incl. extreme coefficients), key and noise values',
 'Tests sample random messages at few levels; boundary coefficients and small-modulus levels are rare.',
 [B+'keys/secret_key.rs',B+'keys/public_key.rs',B+'plaintext.rs',B+'context/cipher_plain_context.rs'],
 [('message scaling by q/t',B+'plaintext.rs'),('phase and down-scaling',B+'keys/secret_key.rs')])
p('B05','Every homomorphic computation decrypts to the plaintext computation',
 'For every sequence of homomorphic additions, subtractions, negations, plaintext operations, multiplications, squarings, relinearisations, rotations and level changes that stays within the noise budget, in owned, borrowed and in-place form, the result decrypts to the same computation on plaintext ring elements. The number of parts and the level of the result are those of the operation performed, the operands are unchanged, and the empty ciphertext acts as zero in operations between ciphertexts.',
 ['histories','inputs','configurations'],'all operation sequences up to the noise budget over all parameter sets',
 'Tests exercise single operations on fresh ciphertexts; interactions of parts, levels and in-place forms are combinatorial.',
 [B+'ops/mod.rs',B+'ops/mul.rs',B+'ciphertext.rs',B+'keys/relinearization_key.rs'],
 [('operator impls',B+'ops/mod.rs'),('extended-basis multiplication',B+'ops/mul.rs')])
p('B06','Switching ciphertext levels preserves the message and the bookkeeping',
 'Moving a ciphertext down any number of levels, in one or several steps, at any point of its history, preserves what it decrypts to and sets its level accordingly; all parts move together. Requests to move up or beyond the last level are errors that leave the ciphertext unchanged and usable.',
 ['histories','configurations'],'all switch sequences from all reachable ciphertexts (any number of parts)',
 'Tests switch fresh ciphertexts only.',[B+'ciphertext.rs',B+'context/level.rs'],[('switch_down / switch_to_level',B+'ciphertext.rs')])
p('B07','A ciphertext serialised at any point of its history is reproduced exactly',
 'At every point of any history of operations, serialising a ciphertext and reading it back under the same parameters yields an equal ciphertext that decrypts identically and can be operated on further with identical results. Compressed (seeded) encodings are used only while they still describe the actual contents.',
 ['histories','fault_sequences'],'all operation sequences with serialisation inserted anywhere, incl. ciphertexts that were themselves deserialised',
 'Tests round-trip fresh ciphertexts and a product; stale compression needs mutate-after-encrypt histories.',
 [B+'ciphertext.rs',B+'ops/mod.rs',B+'keys/relinearization_key.rs'],[('seed dropped by every mutation',B+'ops/mod.rs'),('proto conversion',B+'ciphertext.rs')])
p('B08','Multiplication strategies and relinearisation agree at every level',
 'Every multiplication strategy (default, custom scaling factors, explicit levels, with or without relinearisation and modulus switching) yields a ciphertext decrypting to the product, with exactly the parts and level implied by the options. Relinearising a three-part ciphertext with a key for its level gives an equivalent two-part ciphertext for every admissible pair of ciphertext and key levels; inadmissible operands or keys are errors.',
 ['configurations','inputs','histories'],'all (ciphertext level, key level, option) combinations',
 'Tests use a few level pairs.',[B+'ops/mul.rs',B+'keys/relinearization_key.rs',B+'keys/key_switching_key.rs'],
 [('Multiplicator options',B+'ops/mul.rs'),('key switching',B+'keys/key_switching_key.rs')])
p('B09','Rotations and inner sums permute the slots as documented',
 'With a suitable evaluation key at any admissible pair of ciphertext and key levels, rotating rows swaps the two halves of the slots, rotating columns by i rotates both halves left by i, and the inner sum puts the sum of all slots in every slot, for every message. An evaluation key reports support for exactly the operations it can perform, and unsupported requests are errors.',
 ['configurations','inputs','histories'],'all rotation amounts, level pairs, key feature combinations, messages',
 'Tests cover a few rotations at a few levels.',[B+'keys/evaluation_key.rs',B+'keys/galois_key.rs'],
 [('Galois exponent table',B+'keys/evaluation_key.rs'),('substitution + key switch',B+'keys/galois_key.rs')])
p('B10','Oblivious expansion spreads coefficients into separate ciphertexts',
 'With a key supporting it, expanding a ciphertext to a given size returns exactly that many ciphertexts, the i-th encrypting the i-th coefficient of the message multiplied by the next power of two of the size, for every size the key supports and every admissible level pair. Sizes the key does not support are errors, and support queries tell the truth.',
 ['configurations','inputs'],'all sizes, expansion levels, level pairs, messages with zero tail',
 'Tests use a few sizes.',[B+'keys/evaluation_key.rs',M+'rq/mod.rs'],[('expansion tree',B+'keys/evaluation_key.rs')])
p('B11','RGSW external products multiply the message',
 'The external product of a ciphertext with an RGSW ciphertext, in either operand order, decrypts to the product of the two messages at every level where RGSW encryption is possible, also after either operand was serialised and read back. Operands with mismatched parameters, levels or part counts are rejected.',
 ['inputs','configurations'],'all messages, levels, parameter sets',
 'Tests sample random messages at one level.',[B+'rgsw_ciphertext.rs',B+'keys/key_switching_key.rs'],[('two key-switching rows',B+'rgsw_ciphertext.rs')])
p('B12','Ciphertext-plaintext dot products equal the sum of products',
 'The scalar product of equally long sequences of ciphertexts and plaintexts equals, coefficient for coefficient, the sum of the individual ciphertext-by-plaintext products, for every count, every number of parts and every level, through the fast and the general path alike. Empty, unequal-length or incompatible sequences are errors.',
 ['inputs','configurations'],'all counts, part counts, levels and coefficient values',
 'The path switch and accumulator bounds depend on count and modulus size.',[B+'ops/dot_product.rs',M+'rq/ops.rs'],[('fused multiply-add accumulators',B+'ops/dot_product.rs')])
p('B13','Keys survive serialisation with identical behaviour',
 'Secret, public, relinearisation, evaluation keys and RGSW ciphertexts at every admissible level combination, serialised and read back under the same parameters, are equal to the originals and interchangeable with them in every operation they support.',
 ['configurations','histories'],'all key kinds, level pairs, feature sets, repeated round trips',
 'Tests compare equality for a few levels and rarely use the decoded key.',[B+'keys/secret_key.rs',B+'keys/public_key.rs',B+'keys/relinearization_key.rs',B+'keys/evaluation_key.rs',B+'keys/galois_key.rs',B+'keys/key_switching_key.rs',B+'rgsw_ciphertext.rs'],
 [('proto conversions',B+'keys/key_switching_key.rs'),('seed-compressed key components',B+'keys/key_switching_key.rs')])
p('B14','Incompatible objects are refused instead of silently combined',
 'Every fallible operation given objects of different parameter sets, different levels, wrong numbers of parts or missing encodings reports an error and leaves its operands unchanged; infallible operators refuse by panicking. No such call ever returns an ordinary result.',
 ['configurations','inputs'],'all pairs of objects from different parameter sets, levels and shapes, for all operations',
 'Tests probe a few mismatches.',[B+'ciphertext.rs',B+'plaintext.rs',B+'ops/mod.rs',B+'ops/dot_product.rs',B+'keys/relinearization_key.rs',B+'keys/evaluation_key.rs',B+'rgsw_ciphertext.rs'],
 [('validate_for / validate_for_context',B+'ciphertext.rs')])
p('B15','Decoding untrusted bytes never panics and yields only valid objects',
 'Reading any byte string as any serialisable object either fails with an error or yields a valid object: re-serialising it gives an encoding that decodes to an equal object, and using it in any operation never panics for reasons of internal inconsistency. In particular every truncation and every corrupted byte of a genuine encoding is handled.',
 ['fault_sequences','inputs'],'all byte strings; in particular all truncations, single-byte and field-level corruptions of genuine encodings',
 'Tests feed a handful of malformed protos.',[B+'ciphertext.rs',B+'keys/key_switching_key.rs',B+'keys/evaluation_key.rs',B+'keys/public_key.rs',B+'keys/secret_key.rs',B+'rgsw_ciphertext.rs',B+'parameters.rs',M+'rq/convert.rs'],
 [('TryConvertFrom proto implementations',B+'ciphertext.rs')])
p('B16','Fresh encryptions carry fresh noise within the configured bound',
 'The error of every fresh secret-key or public-key encryption, public key and evaluation-key component and multiparty share lies within the bound implied by the configured variance, has that variance, varies in every coefficient and depends on the caller\'s random stream; secret keys have coefficients within the same bound. No two of them ever share an error or their random component, and the random component is a function of the published seed whenever one is published.',
 ['inputs','configurations'],'all random streams (scripted), levels, parameter sets',
 'Decryption-based tests cannot see missing, reused or oversized noise.',[B+'keys/secret_key.rs',B+'keys/public_key.rs',B+'keys/key_switching_key.rs'],[('error sampling and masking',B+'keys/secret_key.rs')])
p('B17','The reported noise is the true noise and predicts decryption',
 'For every ciphertext, the measured noise is the bit length of the largest coefficient of the difference between its phase and the scaled message it decrypts to, at every level, number of parts and key.',
 ['histories','inputs'],'all ciphertexts reachable by operation sequences',
 'Tests only print it.',[B+'keys/secret_key.rs'],[('measure_noise',B+'keys/secret_key.rs')])
p('B18','Secret material is erased from memory the library releases',
 'While a secret key is cloned, dropped, written or used (encryption, decryption, key generation, evaluation key builders, multiparty rounds and shares), no heap block the library releases still holds the coefficients of the key, of its powers or automorphism images, of an ephemeral encryption secret, of an encryption or key-switching error, of the scaled message polynomial a ciphertext is made from, or of their products with public values, in coefficient, transformed or precomputed form; dropping a plaintext releases no block still holding the message; and zeroize() turns keys, polynomials and plaintexts into exactly the zero object. Parsing a key from bytes and other intermediate copies of messages made while encoding, decoding, encrypting or decrypting are not covered.',
 ['histories','inputs'],'all key-consuming operations, levels, keys and messages',
 'No test looks at released memory.',[B+'keys/secret_key.rs',B+'keys/key_switching_key.rs',B+'keys/evaluation_key.rs',MB+'relin_key_gen.rs',MB+'secret_key_switch.rs','crates/fhe-math/src/rq/mod.rs'],
 [('Zeroizing wrappers around secret intermediates',B+'keys/key_switching_key.rs'),('Zeroize for Poly','crates/fhe-math/src/rq/mod.rs')])
p('B19','Results depend on the arguments only, never on what was done before',
 'Every operation of the library (arithmetic, encoding, encryption, decryption, key generation, key switching, rotations, multiplication strategies, external products, multiparty rounds, parsing and writing) with the same arguments and the same random stream gives exactly the result it gives as the first operation of a fresh process, whatever operations were carried out before it, by whichever thread, on the same objects, on objects that differ from them in one coefficient only, or under other parameter sets; and it leaves every object it only reads as it was.',
 ['histories','schedules'],'all sequences of operations on shared objects, of several parameter sets, by any thread',
 'Each test runs one short history on objects of its own; a stale or wrongly keyed intermediate result needs a particular second operation.',[B+'ops/mul.rs',B+'plaintext.rs',B+'keys/key_switching_key.rs',B+'keys/secret_key.rs',B+'context/level.rs',M+'rq/context.rs',M+'rq/scaler.rs'],
 [('objects without interior mutability, shared through Arc',B+'parameters.rs')])
p('B20','Equality is exact and copies are independent',
 'Two objects of one kind (polynomials in each representation, ciphertexts, plaintexts, public, secret, relinearisation and evaluation keys, RGSW ciphertexts) compare equal exactly when they have the same parameters or context, level, number of parts and content: a difference in any single residue, part, level, exponent, seed or parameter is noticed, and objects with the same content made separately, read back, or under parameters built separately are equal. A copy equals its original, and no operation on one of them changes the other.',
 ['inputs','histories'],'all pairs of objects, all single differences between them, all in-place operations on a copy',
 'Tests compare an object with its own round trip, where an equality that overlooks a part, a modulus or a level still holds.',[M+'rq/mod.rs',M+'rq/context.rs',B+'ciphertext.rs',B+'plaintext.rs',B+'keys/key_switching_key.rs'],
 [('equality of polynomials',M+'rq/mod.rs'),('equality of plaintexts',B+'plaintext.rs')])
# ---- multiparty
p('C01','Jointly generated public keys and switched ciphertexts decrypt correctly',
 'For every number of parties and every order of their shares, a public key aggregated from shares encrypts to the sum of the secrets, and collective decryption, switching to another secret key sharing, or switching to another public key returns a plaintext or ciphertext carrying the original message, at every level and after homomorphic operations. An empty set of shares, shares made for different parameters, levels, common random polynomials or ciphertexts, and ciphertexts with the wrong number of parts are errors.',
 ['histories','configurations','inputs'],'all party counts, share orders, levels and message values',
 'Tests use a fixed number of parties and order.',[MB+'public_key_gen.rs',MB+'secret_key_switch.rs',MB+'public_key_switch.rs',MB+'aggregate.rs',MB+'crp.rs'],
 [('share aggregation',MB+'aggregate.rs')])
p('C02','Jointly generated relinearisation keys work like single-party ones',
 'For every number of parties and every order of shares in either round, the aggregated relinearisation key relinearises products under the sum of the secrets. Protocol misuse (no shares, wrong number of common random polynomials, shares of different runs or parameters, unsupported parameters) is an error.',
 ['histories','configurations'],'all party counts, share orders in both rounds, parameter sets',
 'Tests use a fixed number of parties and order.',[MB+'relin_key_gen.rs',MB+'round.rs',MB+'crp.rs'],[('two-round share generation',MB+'relin_key_gen.rs')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
