import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    if observe: a['observe_at']=observe
    P.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
X='src/xmss-alt/'; Q='src/qrl/'; R='src/rust_wrapper/'
p('C01','SHAKE128 and SHAKE256 are FIPS 202 for every input and output length',
 'For every byte string and every requested output length, SHAKE128 and SHAKE256 as offered by the C++ library and by the Rust crate return exactly the bytes FIPS 202 defines, and repeated evaluation returns the same bytes. They never read outside the message, never write outside the output, and leave the message unchanged.',
 ['inputs'],'all messages of every length, all output lengths, both rates, C++ and Rust',
 'The smoke test hashes a few short fixed buffers; lengths at and across the block boundaries, and outputs longer than a block, are not sampled (the Rust sponge went wrong past one block unnoticed).',
 [X+'fips202.c',R+'xmss_alt/fips202.rs',Q+'hashing.cpp'],
 [('keccak_absorb / keccak_squeezeblocks / KeccakF1600_StatePermute',X+'fips202.c'),('shake128, shake256',X+'fips202.c'),('shake128, shake256',R+'xmss_alt/fips202.rs')])
p('C02','Keyed hashes follow the XMSS construction and stay domain separated',
 'For every key, input and hash address, the chain hash, tree hash, message hash and pseudo-random function equal the selected hash applied to a 32-byte big-endian domain tag (0 chain, 1 tree, 2 message, 3 PRF), then the key, then the input, with chain and tree keys and bitmasks drawn from the PRF of the public seed at the address with key-and-mask numbers 0, 1 and 2. A message-hash key of the wrong length is refused and no output is produced; only the output buffer and the key-and-mask word of the address change.',
 ['inputs'],'all keys, inputs, addresses, message lengths; SHA2-256, SHAKE128, SHAKE256; output size 32 (64 for SHAKE); C++ and Rust',
 'No stable test computes any of these functions against an independent definition.',
 [X+'hash.c',X+'hash_address.c','src/shasha/shasha.cpp',R+'xmss_alt/hash.rs'],
 [('core_hash, prf, h_msg, hash_h, hash_f',X+'hash.c'),('core_hash, prf, h_msg, hash_h, hash_f',R+'xmss_alt/hash.rs'),('addr_to_byte',X+'hash.c'),('sha2_256','src/shasha/shasha.cpp')])
p('C03','Hash addresses encode each field in its own word',
 'Setting a field of a hash address stores that value in its own word and leaves every other word alone, except that setting the address type also clears the words that follow it; a 64-bit tree number occupies two words, high word first. The byte form of an address is the 32-byte big-endian concatenation of its eight words, so two different addresses never have the same byte form; the C++ and Rust versions agree.',
 ['inputs'],'all addresses and all field values',
 'No stable test inspects an address.',
 [X+'hash_address.c',X+'hash.c',R+'xmss_alt/hash_address.rs'],
 [('setType, setOTSADRS, setLtreeADRS, setChainADRS, setHashADRS, setTreeHeight, setTreeIndex, setKeyAndMask, setLayerADRS, setTreeADRS',X+'hash_address.c'),('addr_to_byte',X+'hash.c')])
p('C04','WOTS+ signatures always lead back to the one-time public key',
 'For every secret seed, public seed, address and 32-byte digest, recovering the one-time public key from the signature of that digest yields exactly the public key generated from the seed, and each signature element is the chain value at the position its digit selects. This holds for every supported Winternitz width (2, 4, 16, 256) and hash function, and the seed, digest, signature and public seed are not modified.',
 ['inputs'],'all seeds, digests, addresses; w in {2,4,16,256}; n = 32; C++, and Rust except w = 2',
 'The stable tests never call the one-time scheme; a chain that stops or starts one step off shows only for particular digits.',
 [X+'wots.c',X+'hash.c',R+'xmss_alt/wots.rs'],
 [('wots_pkgen, wots_sign, wots_pkFromSig, gen_chain, expand_seed',X+'wots.c'),('wots_pkgen, wots_sign, wots_pk_from_sig, gen_chain',R+'xmss_alt/wots.rs')])
p('C05','WOTS+ checksum makes digit strings of distinct digests incomparable',
 'For every supported width and every digest, the digits that are signed are the base-w digits of the digest, most significant first, followed by the base-w digits of the full checksum (the sum of w-1 minus each digit). Therefore for any two different digests at least one signed digit of the second is smaller than that of the first, so a signature of one digest can never be advanced into a signature of another.',
 ['inputs'],'all 32-byte digests and all pairs of them; w in {2,4,16,256}',
 'A truncated or misplaced checksum verifies perfectly for honest signatures, so no sign/verify test can see it.',
 [X+'wots.c'],[('base_w, checksum in wots_sign and wots_pkFromSig, wots_set_params',X+'wots.c')])
p('C06','Key generation yields the XMSS Merkle root deterministically',
 'For every 48-byte seed, hash function and permitted height, the basic and the fast signer derive the same 132-byte secret key: index 0, secret seed, PRF seed and public seed from SHAKE256 of the seed, and as root the XMSS tree hash over all 2^h compressed one-time public keys derived from those seeds. The result depends on nothing but those arguments.',
 ['inputs','configurations'],'all seeds and the three hash functions; heights 4..30; C++, and the Rust crate\'s basic key generation',
 'Tests would have to recompute a Merkle tree independently; the stable tests generate no key at all.',
 [X+'algsxmss.c',X+'algsxmss_fast.c',X+'xmss_common.c',Q+'xmssBasic.cpp',Q+'xmssFast.cpp',R+'xmss_alt/algsxmss.rs',R+'xmss_alt/xmss_common.rs'],
 [('xmss_Genkeypair, treehash, gen_leaf_wots, get_seed',X+'algsxmss.c'),('xmssfast_Genkeypair, treehash_setup',X+'algsxmss_fast.c'),('l_tree',X+'xmss_common.c'),('xmss_gen_keypair, treehash',R+'xmss_alt/algsxmss.rs'),('l_tree',R+'xmss_alt/xmss_common.rs')])
p('C07','Verification accepts exactly the signatures whose tree path ends in the root',
 'For every message, public key and well-sized signature, verification returns true if and only if the root recomputed from the signature and message by the XMSS rules (message hash keyed by randomiser, root and index; one-time key; L-tree; authentication path ordered by the index bits) equals all 32 bytes of the root in the public key. No argument is modified and the answer does not depend on anything else.',
 ['inputs'],'all messages, signatures and public keys; heights 4..30; w in {2,4,16,256}; three hash functions; C++, and Rust for w = 16',
 'Forgeries that differ from a valid signature in one untested field are astronomically many; the stable tests verify nothing.',
 [X+'xmss_common.c',Q+'xmssBase.cpp',R+'xmss_alt/xmss_common.rs'],
 [('xmss_Verifysig, validate_authpath, l_tree',X+'xmss_common.c'),('XmssBase::verify',Q+'xmssBase.cpp'),('xmss_verify_sig, validate_authpath',R+'xmss_alt/xmss_common.rs')])
p('C08','Verification is total on malformed keys, signatures and widths',
 'For every byte string offered as public key and as signature, and every Winternitz width, verification returns true or false without crashing, reading outside its arguments or raising an error, and returns false whenever the key is not 67 bytes, the descriptor names an unknown scheme or hash, the signature length does not match the height in the key, or the width is unsupported. The size and height conversions for signatures are inverse to each other on every size that belongs to a height, and reject the others.',
 ['inputs'],'all key, signature lengths and contents, all widths',
 'Fuzzing samples a handful of lengths; a length arithmetic slip shows on single values.',
 [Q+'xmssBase.cpp',Q+'qrlDescriptor.h',X+'wots.c'],
 [('XmssBase::verify, getHeightFromSigSize, calculateSignatureBaseSize, getSignatureSize',Q+'xmssBase.cpp'),('QRLDescriptor::fromBytes',Q+'qrlDescriptor.h')])
p('C09','Every basic signature is well formed for its index',
 'For every key, message and index below 2^h, the basic signer outputs the index, a randomiser that is the PRF of that index, the one-time signature of the message hash under the key of that index, and the authentication path of that leaf, so the signature verifies under the public key; and the only change to the key is that the index grows by one.',
 ['inputs','histories'],'all keys, messages, indices; heights 4..30 (the Rust signer: 4, 6, 8)',
 'Tests sign at index 0 or 1 of one key; the path of each leaf takes a different route through the tree.',
 [X+'algsxmss.c',Q+'xmssBasic.cpp',R+'xmss_alt/algsxmss.rs'],[('xmss_Signmsg, compute_authpath_wots',X+'algsxmss.c'),('xmss_sign_msg, compute_authpath_wots',R+'xmss_alt/algsxmss.rs')])
p('C10','Fast signatures are right at every index after any history',
 'After any sequence of signing and forward index moves on a freshly generated fast signer, the next signature is the same one a signer that recomputes the whole tree would give at that index: same index, randomiser, one-time signature and authentication path. This holds for every index from 0 to 2^h - 1 and does not depend on which steps were signatures and which were moves.',
 ['histories','inputs'],'all keys and messages, all reachable traversal states; heights per the stated bound of the check; C++ and Rust',
 'The incremental traversal state at index i depends on the whole history; tests follow one short history at one height.',
 [X+'algsxmss_fast.c',Q+'xmssFast.cpp',R+'xmss_alt/algsxmss_fast.rs'],
 [('bds_round, bds_treehash_update, treehash_update, treehash_minheight_on_stack, xmssfast_update, xmssfast_Signmsg, treehash_setup',X+'algsxmss_fast.c'),('xmss_fast_gen_keypair, xmss_fast_update, xmss_fast_sign_msg',R+'xmss_alt/algsxmss_fast.rs')],
 [('bds_state','authentication path, keep, retain, treehash instances, stack')])
p('C11','No signing index is used twice or beyond the last',
 'Each successful signature carries the index the signer reported before the call, and the signer then reports that index plus one; nothing but an explicit index move by the caller changes the index otherwise. A move to an index of 2^h or more is refused with an error on every signer, and a move to a smaller index is refused with an error on the fast signer; a refused move changes nothing. Once all 2^h indices are used, every further attempt to sign fails with an error and produces no signature.',
 ['histories','inputs'],'all signers (basic and fast), all sequences of sign and index moves',
 'Reuse only shows after exhaustion or through unusual move sequences; unit tests stop long before 2^h.',
 [Q+'xmssBase.cpp',Q+'xmssFast.cpp',Q+'xmssBasic.cpp',X+'algsxmss_fast.c',X+'algsxmss.c'],
 [('setIndex, getIndex',Q+'xmssBase.cpp'),('sign, setIndex',Q+'xmssFast.cpp'),('sign',Q+'xmssBasic.cpp'),('xmssfast_update index checks',X+'algsxmss_fast.c'),('xmss_Signmsg index update',X+'algsxmss.c')],
 [('secret key bytes 0..3','next unused index, big-endian')])
p('C12','A tree pool hands out each index exactly once, in order',
 'Whatever the interleaving of callers, a pool started at index s with any pool size returns trees for s, s+1, s+2, ... with no index skipped or handed out twice, and its reported index is s plus the number of trees claimed so far. The tree for index i is the fast signer of the pool height whose 48-byte seed is SHAKE256 of the base seed followed by i+1 in minimal-length little-endian bytes, and the availability query never consumes a tree.',
 ['schedules','histories','inputs'],'all interleavings of public operations, all pool sizes, starting indices and base seeds',
 'A race or an off-by-one in refilling appears only in particular interleavings; the stable tests never build a pool.',
 [Q+'xmssPool.cpp',Q+'xmssPool.h'],[('fillCache, getNextTree, isAvailable, prepareTree',Q+'xmssPool.cpp')],
 [('_current_index','index of the tree at the front of the cache'),('_cache','pending trees for consecutive indices')])
p('C13','Descriptors round-trip and name exactly what they encode',
 'Encoding a descriptor and decoding it returns the same hash function, signature scheme, (even) height up to 30 and address format; decoding takes the hash function from the low and the scheme from the high four bits of byte 0, half the height from the low and the address format from the high four bits of byte 1. Input of the wrong length, an unknown hash function or an unknown signature scheme is rejected, and decoding from a key or an extended seed is decoding of its first three bytes.',
 ['inputs'],'all three-byte strings, all other lengths, all valid descriptors; C++ and Rust',
 'Two hash functions and two heights are sampled; the scheme nibble was never decoded and no test noticed.',
 [Q+'qrlDescriptor.h',R+'qrl/qrl_descriptor.rs'],[('QRLDescriptor::fromBytes, getBytes, fromExtendedSeed, fromExtendedPK',Q+'qrlDescriptor.h'),('QRLDescriptor::from_bytes, get_bytes',R+'qrl/qrl_descriptor.rs')])
p('C14','Addresses are derived from the public key and validated by checksum',
 'For every 67-byte public key with a valid descriptor the address is the three bytes that encode its descriptor (the reserved third byte zero), the SHA-256 of the whole key, and the last four bytes of the SHA-256 of the 35 bytes before them. The address check returns true for exactly those 39-byte strings whose descriptor decodes to a supported format and whose last four bytes are that checksum of the first 35, never throws, and accepts every derived address.',
 ['inputs'],'all public keys and all byte strings offered as address',
 'Only exhaustive reasoning shows that no wrong checksum byte or length is accepted.',
 [Q+'qrlHelper.h',Q+'xmssBase.cpp'],[('QRLHelper::getAddress, addressIsValid',Q+'qrlHelper.h'),('XmssBase::getAddress',Q+'xmssBase.cpp')])
p('C15','Hex text and bytes convert without loss',
 'Converting bytes to hex gives two lowercase digits per byte, high half first, with a line break after every group of the requested wrap count and none at the end; converting back (without wrapping) returns the original bytes. Decoding accepts upper and lower case digits and rejects, with an error, any string of odd length or with any other character.',
 ['inputs'],'all byte strings, all wrap counts, all character strings including non-ASCII',
 'No stable test covers it; wrapping at each count and rejecting each of 256 characters is not sampled.',
 [Q+'misc.cpp'],[('bin2hstr, hstr2bin, getHexValue, str2bin',Q+'misc.cpp')])
p('C16','Mnemonics encode seeds one-to-one',
 'Every byte string whose length is a multiple of three encodes to one word per 12 bits, separated by single spaces, and decodes back to the same bytes; other lengths are rejected. Decoding rejects an odd number of words and any word that is not in the list, and the list has 4096 distinct words that are the same, in the same order, in C++ and Rust.',
 ['inputs'],'all byte strings and all texts; all 4096 words',
 'A swapped, duplicated or misspelt word breaks one seed in a thousand and is invisible to samples.',
 [Q+'misc.cpp',Q+'wordlist.cpp',R+'qrl/wordlist.rs'],[('bin2mnemonic, mnemonic2bin',Q+'misc.cpp'),('wordlist',Q+'wordlist.cpp')])
p('C17','Derived seeds are the stated hashes of all their inputs',
 'The i-th seed of a hash chain is the 32-byte SHAKE256 of the seed, the shift and i, both as four little-endian bytes, for every i below the count, and nothing else is returned. A random seed of any requested size is SHAKE256 of that many bytes from the system generator followed by the caller entropy; if the generator cannot deliver them all an error is raised and no seed is returned.',
 ['inputs','fault_sequences'],'all seeds, shifts, counts, sizes and entropy; failure of the generator to open or to deliver',
 'The random source is not observable in tests and its failure is not exercised.',
 [Q+'misc.cpp',Q+'hashing.cpp'],[('getHashChainSeed, getRandomSeed',Q+'misc.cpp'),('shake256, sha2_256, sha2_256_n',Q+'hashing.cpp')])
p('C18','Extended seed and public key carry everything needed to recover the wallet',
 'The public key is the descriptor, the root and the public seed (67 bytes), and the extended seed is the descriptor followed by the 48-byte seed (51 bytes); a signer rebuilt from its extended seed has the same secret key, public key and address. Parts reported for a key (seeds, root, index) are the corresponding bytes of the 132-byte secret key, and seeds of any other length, and heights that the tree traversal cannot handle, are refused with an error.',
 ['inputs','configurations'],'all seeds, hash functions, permitted heights',
 'Recovery must hold for every seed and parameter set; the stable tests build no signer.',
 [Q+'xmssBase.cpp',Q+'xmssFast.cpp',Q+'xmssBasic.cpp',Q+'qrlDescriptor.h'],
 [('XmssBase constructors, getPK, getExtendedSeed, getSKSeed, getSKPRF, getPKSeed, getRoot',Q+'xmssBase.cpp'),('initialize_tree',Q+'xmssFast.cpp')])
p('D01','Dilithium and Kyber wrappers check sizes and round-trip',
 'A message signed with a Dilithium key opens under its public key to the same message and a changed one does not; a Kyber secret encapsulated to a public key is recovered by its holder. Keys, signatures and ciphertexts of the wrong size are refused.',
 ['inputs'],'all messages and keys','The implementations are git submodules that are absent here; no test runs.',
 ['src/dilithium/dilithium.cpp','src/kyber/kyber.cpp'],[('Dilithium::sign, sign_open','src/dilithium/dilithium.cpp'),('Kyber::kem_encode, kem_decode','src/kyber/kyber.cpp')])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P:
    jsonschema.validate(q,s); assert len(q['title'])<=80,q['title']
print(len(P))
