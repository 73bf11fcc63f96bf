import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))

MT="merkletree/merkletree.go"
p("C01","Merkle tree is an exact set of entries with a canonical root",
 "A Merkle tree behaves as a map from entry index to entry: an insertion succeeds exactly when every element fits the field, the index is new and the tree's depth limit can separate it from the entries present; a refused insertion changes nothing observable; and every lookup, existence check, enumeration and export of entries answers exactly from the entries accepted so far (an existence check compares the whole entry, index and value). The root depends only on the set of entries, never on insertion order, storage backend, or on closing and reopening the tree over its storage, and different sets give different roots.",
 ["histories","inputs","configurations"],
 "all sequences of insertions (new, duplicate index, colliding path, out-of-field, same index with other value), lookups and reopenings, for every depth limit",
 "The unit tests insert a handful of fixed sequences and compare with recorded roots; they do not try all orders, collisions at the depth limit, or refused insertions followed by more operations.",
 [MT,"merkletree/node.go","merkletree/utils.go"],
 [("AddEntry/addLeaf/pushLeaf build the path copy","merkletree/merkletree.go:341"),("GetDataByIndex / EntryExists","merkletree/merkletree.go:278"),("NewMerkleTree reload of the root","merkletree/merkletree.go:233"),("Data.Equal","merkletree/merkletree.go:77")],
 ["AddEntry error","RootKey","GetDataByIndex","EntryExists","DumpClaims","Walk"])
p("C02","Merkle proofs are complete and sound",
 "For every reachable tree, every current or past root of it and every index, proof generation succeeds and yields an existence proof that verifies with exactly the stored value when the entry is present under that root, and a non-existence proof that verifies otherwise. No proof, however altered (flipped kind, dropped/added/swapped siblings or flags, changed depth, changed neighbour leaf, other root, other index or other value), verifies a statement that is false for that root. The padded sibling list handed to circuits describes the same path.",
 ["inputs","histories"],
 "all trees reachable by bounded insertion histories, all indices of the alphabet, all roots of the history, and all single and paired alterations of each proof",
 "Tests check a few recorded proofs and a couple of wrong ones; they never enumerate alterations nor proofs against historic roots.",
 [MT,"merkletree/utils.go"],
 [("GenerateProof","merkletree/merkletree.go:938"),("RootFromProof/VerifyProof","merkletree/merkletree.go:993"),("SiblingsFromProof/AllSiblingsCircom","merkletree/merkletree.go:902")],
 ["GenerateProof","VerifyProof","RootFromProof","AllSiblings","AllSiblingsCircom"])
p("C03","Proof encoding round-trips and rejects hostile bytes without crashing",
 "Serialising a Merkle proof (binary or JSON) and parsing it back gives a proof with the same kind, path, siblings and neighbour leaf, hence the same verification answers. Parsing arbitrary bytes never panics: it returns either an error or a proof on which every operation (verify, list siblings, print, re-serialise) terminates without panicking. Truncating a serialised proof never yields a proof that is accepted as valid for a different statement.",
 ["inputs"],
 "all proofs of bounded trees; all truncations, all single-byte substitutions and all flag/depth/bitmap header combinations of the encoding",
 "Tests round-trip one or two proofs and feed no malformed proof bytes.",
 [MT],
 [("NewProofFromBytes","merkletree/merkletree.go:760"),("Proof.Bytes","merkletree/merkletree.go:798"),("Proof.UnmarshalJSON","merkletree/merkletree.go:826")],
 ["Proof.Bytes","NewProofFromBytes","VerifyProof"])
p("C04","Dumping and importing a tree reproduces exactly that tree",
 "Exporting any tree (whole-node dump, or list of entries) at its current root or any past root and importing it into an empty tree yields a tree with the same root, entries and proofs, both immediately and after the importing storage is closed and reopened, and further insertions behave as in the original. A truncated dump, or one that names no root, is rejected with an error and leaves the destination exactly as it was, and a tree opened read-only refuses to import.",
 ["inputs","histories","fault_sequences"],
 "all bounded trees and roots, all truncation points of the dump and all failing writes/reads of the stream",
 "Tests dump and import one tree in memory and look only at the root; none reopens the imported storage, truncates a dump or exports a past root.",
 [MT],
 [("DumpTree","merkletree/merkletree.go:525"),("ImportTree","merkletree/merkletree.go:610"),("DumpClaims/ImportDumpedClaims","merkletree/merkletree.go:668")],
 ["ImportTree error","RootKey","reopened RootKey"])
p("C05","Historic roots stay readable, immutable and read-only",
 "Once a root has been reached, every query made against it (entry lookups, existence checks, proofs, enumeration, dumps, read-only views) keeps giving the answer it gave when that root was current, whatever is inserted later and however many views are taken. A view refuses every modification, asking for a root that the storage does not hold is an error, and neither queries nor callers' use of returned values alter the tree.",
 ["histories"],
 "all bounded insertion histories, every earlier root of each, and all interleavings of views with later insertions",
 "Tests take one snapshot of one tree; no test re-evaluates all earlier roots after every later insertion or mutates returned values.",
 [MT],
 [("Snapshot","merkletree/merkletree.go:259"),("path-copying insertion (addNode)","merkletree/merkletree.go:1053"),("AddEntry writable check","merkletree/merkletree.go:443")],
 ["Snapshot","GenerateProof(root)","EntryExists(root)","Walk(root)"])
p("C06","A tree insertion is all-or-nothing under storage faults and crashes",
 "If the storage fails at any read, transaction start or commit during an operation on a tree, the operation reports an error, and both the open tree and a tree reopened on the storage still hold exactly the previous set of entries and root; retrying after the fault clears succeeds as if the fault had not happened. Opening a tree whose storage cannot be read reports the error instead of starting an empty tree over existing data.",
 ["fault_sequences","crash_points"],
 "every storage call of every operation of bounded histories failing, alone and in pairs, followed by retry and by reopening",
 "The tests only use storages that never fail.",
 [MT,"db/memory.go","db/leveldb.go"],
 [("AddEntry publishes the root with the commit","merkletree/merkletree.go:467"),("NewMerkleTree opening","merkletree/merkletree.go:233"),("single transaction per insertion","merkletree/merkletree.go:452")],
 ["AddEntry error","RootKey","reopened tree"])
p("C07","Concurrent use of one tree is linearizable",
 "When several goroutines insert into, read, prove against, export and take views of the same tree, every call behaves as if executed alone at one instant between its start and its end: no accepted insertion is lost, of competing insertions of one index exactly one succeeds, the final root is that of the set of accepted entries, and every proof, dump or existence answer is consistent with one single root that was current during the call. No interleaving deadlocks, and no two calls use the same memory at once without synchronisation.",
 ["schedules"],
 "all interleavings of two or three concurrent calls up to a preemption bound, on trees chosen so that the calls touch the same nodes",
 "Existing tests are sequential.",
 [MT],
 [("RWMutex around insertion and root reads","merkletree/merkletree.go:459"),("RootKey snapshotting in readers","merkletree/merkletree.go:273")],
 ["call/return histories","final RootKey and DumpClaims"])
p("C08","Every storage backend behaves as a prefix-separated transactional map",
 "Both storage backends implement the same observable map: a transaction sees its own writes over the committed data, nobody else sees them before commit, commit applies all of them with the last write of a key winning, an abandoned transaction leaves no trace, and merging one transaction into another applies its writes at commit. Storages with distinct prefixes do not interfere beyond what the concatenated keys imply, absent keys give the not-found error, and iteration and listing return the prefix's pairs in key order, honouring early stop and limit. Buffers handed in or returned are never shared with stored data. Concurrent commits, reads and listings behave as if made one after the other.",
 ["histories","configurations"],
 "all operation sequences up to a depth over nested and overlapping prefixes, colliding keys (including empty key and value) and two open transactions, on both backends",
 "Tests run five fixed scenarios per backend and never reuse or mutate buffers, nor compare the backends on the same history.",
 ["db/memory.go","db/leveldb.go","db/kvmap.go","db/storageutils.go","db/utils.go","db/storage.go"],
 [("transaction write cache","db/kvmap.go:7"),("Commit as one batch","db/leveldb.go:134"),("prefix concatenation","db/utils.go:5"),("Iterate order and prefix filter","db/memory.go:48")],
 ["Get","List","Iterate","Tx.Get"])
p("C09","On-disk commits are atomic and ordered across a crash",
 "After a crash at any moment, reopening an on-disk storage yields exactly the result of a prefix of the committed transactions: no transaction is half applied, none is applied without its predecessors, and reopening never fails or invents keys. Trees and identities stored there therefore reopen to a state they really had.",
 ["crash_points","histories"],
 "every byte-granular truncation of the write-ahead journal produced by bounded histories of transactions, including transactions spanning several prefixes and merged transactions",
 "Tests never reopen a database after an unclean stop.",
 ["db/leveldb.go",MT],
 [("one write batch per commit","db/leveldb.go:134"),("merged transactions (Add) committed together","db/leveldb.go:127")],
 ["contents after reopening the truncated journal"])
p("C10","Identity publication follows its state machine for every chain answer",
 "For every history of issuing, revoking, publishing and synchronising, and every sequence of blockchain answers (rejected or failed submission, missing or failed receipt, too few confirmations, old, new or unexpected on-chain state, network error, off-chain publishing failure), the issuer never has more than one update in flight, submits each new state exactly once per successful submission together with the state that precedes it, reports as on-chain only a state it read from the chain, once the transaction it knows of has enough confirmations, and reports an error exactly when an answer contradicts its record. A failed step can be retried, and once the chain accepts, the published, pending and on-chain states are those of the history.",
 ["histories","fault_sequences"],
 "all operation sequences up to a depth combined with all environment answers at each call, faults included",
 "The issuer tests need network-downloaded proving keys, are not run, and follow a single successful path with a couple of canned answers.",
 ["identity/issuer/issuer.go","components/idenpubonchain/idenpubonchain.go","components/idenpubonchain/local/local.go"],
 [("PublishState state graph","identity/issuer/issuer.go:650"),("SyncIdenStatePublic","identity/issuer/issuer.go:493"),("list of identity states","identity/issuer/issuer.go:610")],
 ["IdenStatePending","IdenStateOnChain","State","calls received by the chain and by the off-chain writer"],
 [("pending state","state sent but not confirmed","identity/issuer/issuer.go:128")])
p("C11","A crashed identity resumes without losing or inventing anything",
 "If the process stops at any commit to storage while creating, issuing, revoking, publishing or synchronising, or storage fails there, the identity can be loaded again; the loaded identity holds every acknowledged claim and revocation, the same identifier, keys and record of pending and on-chain state as at that commit, and the interrupted operation can simply be repeated until it succeeds or reports that it has already taken effect. Reaching the end that way gives the same identity as an uninterrupted run apart from skipped revocation nonces.",
 ["crash_points","histories","fault_sequences"],
 "every commit boundary (and every failing commit) of every bounded history, each followed by reload, retry and completion of the history",
 "No test reloads an identity from a partially completed operation.",
 ["identity/issuer/issuer.go","identity/issuer/noncegen.go","core/claims/revocationrootsleafs.go"],
 [("order of commits in publish","identity/issuer/issuer.go:683"),("Create commits configuration last","identity/issuer/issuer.go:340"),("Load","identity/issuer/issuer.go:353")],
 ["Load error","State","IdenStatePending","IdenStateOnChain","claims and revocations found after reload"])
p("C12","Revocation nonces are never shared and a revocation hits only its claim",
 "Two claims successfully issued by one identity, genesis claims included, never carry the same revocation nonce, in any history of successful and failed issuances, concurrent issuances, storage failures and restarts. The generator of nonces never gives the same nonce twice, also to threads asking it at once within one transaction. A claim object's metadata is updated only if its issuance succeeded. Revoking a claim revokes that claim and no other: after publication, exactly the revoked claims fail to obtain or pass validity checks.",
 ["histories","fault_sequences","schedules"],
 "all bounded sequences of issue (fresh, duplicate, failing at each commit), revoke (issued, unissued, twice), reload and publish",
 "Tests issue two claims in one fixed sequence and do not inject failures or restarts.",
 ["identity/issuer/noncegen.go","identity/issuer/issuer.go","core/claims/claim.go","core/claims/revocationrootsleafs.go"],
 [("nonce committed before the claim is added","identity/issuer/issuer.go:575"),("UniqueNonceGen.Next","identity/issuer/noncegen.go:38"),("RevokeClaim reads the nonce from the stored entry","identity/issuer/issuer.go:771")],
 ["nonce in issued entries","non-revocation proofs"])
p("C13","Issuers hand out credentials exactly for claims under the on-chain state",
 "An issuer produces an existence credential for a claim exactly when that very claim (index and value) belongs to the identity state it knows to be on chain, and otherwise reports whether the claim was never issued, is not yet published, or no state is on chain. Every credential it produces is accepted by a verifier connected to the same chain, and stays accepted after any later issuing, revoking and publishing.",
 ["histories","inputs"],
 "all bounded histories of issue/revoke/publish/confirm/sync/reload and, at each point, every claim of the alphabet including never-issued and altered ones",
 "Tests that cover this need the network and check one claim at two moments.",
 ["identity/issuer/issuer.go","components/verifier/verifier.go","core/proof/proof.go"],
 [("GenCredentialExistence","identity/issuer/issuer.go:838"),("roots recorded per identity state","identity/issuer/issuer.go:634")],
 ["GenCredentialExistence result","VerifyCredentialExistence of it"])
p("C14","A verifier accepts an existence credential only if the claim was issued",
 "A verifier accepts an existence credential only if the stated identity really had, at the stated block, a published state whose claims contain exactly the stated claim. Any alteration of a genuine credential, or recombination of parts of several credentials of the same or different identities, states and blocks, that makes the statement false is rejected, and no credential received as untrusted data, however malformed, makes the verifier panic.",
 ["inputs","histories"],
 "all single-field alterations and all recombinations of the parts of the credentials obtainable from bounded histories of two identities, plus malformed encodings",
 "The verifier tests need the network and try three wrong credentials.",
 ["components/verifier/verifier.go","core/proof/proof.go",MT,"core/id.go","core/claims/claim.go"],
 [("root recomputation and identity state check","components/verifier/verifier.go:64"),("on-chain state at the block compared","components/verifier/verifier.go:83")],
 ["VerifyCredentialExistence error"])
p("C15","A verifier accepts a validity credential only if unrevoked, unexpired and fresh",
 "A verifier accepts a validity credential only if its existence part is acceptable, the claim has not expired at the verifier's clock, the claim's revocation nonce is absent from the identity's revocations at a state published on chain at the stated block, and that state is either newer than the freshness limit or still the latest one on chain. Conversely every credential a holder builds for an unrevoked, unexpired claim from the latest published data is accepted; revoked claims are refused to the holder. Alterations and recombinations that make any of this false are rejected, and malformed credentials never make verifier or holder panic.",
 ["inputs","histories"],
 "all bounded histories of two issuers with revocations and publications, all clock values around every boundary (expiry, freshness, block time), and all alterations and recombinations of credential parts",
 "Network-bound tests sample a few clock values on one history.",
 ["components/verifier/verifier.go","identity/holder/holder.go","core/claims/claim.go"],
 [("freshness rule","components/verifier/verifier.go:94"),("expiry and non-revocation checks","components/verifier/verifier.go:119"),("holder builds validity","identity/holder/holder.go:96")],
 ["VerifyCredentialValidity error","HolderGetCredentialValidity error"])
p("C16","Concurrent operations on one identity are serialisable",
 "When issuing, revoking, publishing, synchronising, querying state and generating credentials run concurrently on one identity, the results and the final identity are those of some one-at-a-time order of the same calls that respects real-time order: no claim or revocation is lost, at most one publication is submitted per state, published data match the published state, no interleaving deadlocks or panics, and no two calls use the same memory at once without synchronisation.",
 ["schedules"],
 "all interleavings of two or three concurrent calls up to a preemption bound from several starting states",
 "No concurrent issuer test exists.",
 ["identity/issuer/issuer.go","identity/issuer/noncegen.go",MT],
 [("issuer read-write lock","identity/issuer/issuer.go:99"),("tree lock","merkletree/merkletree.go:459")],
 ["call results","State","submissions seen by the chain"])
p("C17","The genesis identifier binds the operational key and genesis claims",
 "Creating an identity is deterministic: the same operational key and the same sequence of genesis claims give the same identifier, and different keys or claims give different identifiers. The identifier is the one derived from the genesis state; the stored genesis proof shows the operational key claim under the recorded genesis claims root; identity creation with repeated or invalid claims fails; and the genesis state recorded by the identity is the one its own trees have.",
 ["inputs","configurations"],
 "all bounded lists of genesis claims (repeated, reordered, carrying arbitrary prior metadata) and keys, on both the direct and the storage-backed way of creating an identity",
 "Tests compare two identifiers with recorded values.",
 ["core/genesis/genesis.go","identity/issuer/issuer.go","core/id.go"],
 [("CalculateIdGenesisMT","core/genesis/genesis.go:14"),("Create","identity/issuer/issuer.go:263"),("GenIdOwnershipGenesisInputs","identity/issuer/issuer.go:915")],
 ["ID","GenIdOwnershipGenesisInputs","State after Create"])
p("C18","Identifier encodings are exact inverses and detect corruption",
 "Every identifier survives its text, JSON, byte and integer encodings unchanged. Parsing accepts exactly encodings of well-formed identifiers: wrong length, wrong alphabet, wrong checksum, the all-zero identifier and every corruption of a single byte are refused with an error and never crash. Distinct identifiers have distinct encodings, and the type, genesis and checksum parts are recovered as given.",
 ["inputs"],
 "all type values and boundary genesis values, all single-byte corruptions (and the double-byte ones against the checksum rule), all truncations and extensions of the encodings",
 "Tests use a few identifiers and a single corruption.",
 ["core/id.go"],
 [("checksum and parsing","core/id.go:109")],
 ["IDFromString","IDFromBytes","ID.UnmarshalText"])
p("C19","Claims encode and decode without loss and keep index apart from value",
 "For every claim kind and every combination of metadata options, encoding a claim into a tree entry and decoding it returns the same claim, all elements are valid field elements, and two claims differing in any encoded field have different entries. The index part never depends on the revocation nonce or on value fields, changing the nonce changes nothing else, and reading or rewriting metadata of an entry preserves all other content. Decoding arbitrary entries or JSON never panics, and what was decoded can be encoded again and decodes to the same. JSON metadata that give one of the library's own kinds another header are refused.",
 ["inputs"],
 "all flag combinations, subject positions and boundary field values for each claim kind, and all header-byte patterns when decoding foreign entries",
 "Tests use one example per claim kind.",
 ["core/claims/claim.go","core/claims/claim_types.go","core/claims/utils.go","core/claims/claimBasic.go","core/claims/claimOtherIden.go","core/claims/claimKeyBabyJub.go","core/claims/revocationrootsleafs.go"],
 [("Metadata.Marshal/Unmarshal","core/claims/claim.go:150"),("ClaimHeader flags","core/claims/claim.go:60"),("NewClaimFromEntry","core/claims/claim_types.go:120")],
 ["Entry()","NewClaim...FromEntry","Metadata"])
p("C20","The off-chain store serves the published data of the state asked for",
 "After any sequence of publications, cache sizes, failed publications and restarts, asking the off-chain store for the latest data returns that of the last successful publication; asking for a given state returns exactly that state's data if it is among the retained ones and a not-found error otherwise. What is served always hashes to the state it is served for, whatever the issuer does to its own trees afterwards, and a failed publication leaves the previously served data unchanged. Concurrent publications and requests behave as if made one after the other.",
 ["histories","configurations","fault_sequences"],
 "all bounded publication histories for every small cache size, with reloads at every point and failures at each storage call",
 "The writer test publishes a few states with one cache size.",
 ["components/idenpuboffchain/writerhttp/writerhttp.go","components/idenpuboffchain/local/local.go","components/idenpuboffchain/idenpuboffchain.go"],
 [("ring of cached states","components/idenpuboffchain/writerhttp/writerhttp.go:95"),("load of the ring","components/idenpuboffchain/writerhttp/writerhttp.go:130")],
 ["GetPublicData","Publish error"])
p("C21","Tampered public data never yields an accepted state",
 "Rebuilding an issuer's public data from downloaded blobs succeeds for every genuinely published state and gives trees with the published roots. Any blob that is truncated, corrupted, swapped with another state's or relabelled is rejected, or at worst yields trees that cannot convince a verifier of anything false about the state asked for; no blob makes the reader panic.",
 ["inputs","fault_sequences"],
 "all truncations, byte corruptions and cross-combinations of the blobs of bounded histories",
 "The reader test covers one good download.",
 ["components/idenpuboffchain/idenpuboffchain.go","components/idenpuboffchain/readerhttp/readerhttp.go",MT],
 [("NewPublicDataFromBlobs root checks","components/idenpuboffchain/idenpuboffchain.go:45"),("holder re-checks the identity state","identity/holder/holder.go:106")],
 ["NewPublicDataFromBlobs error","roots of rebuilt trees"])
p("C22","The chain clients report the contract's states faithfully",
 "Querying the state of an identity, latest or at a block, returns exactly what the contract records (state, block number and time), reports an identity that is not on chain with the dedicated error, and passes every other failure on as an error rather than as data. Submissions carry the identifier, states and proof unchanged. The local chain simulation behaves the same way, applying each submitted update once, in order, only if its proof shows the transition from the current state, and never changing an already recorded block.",
 ["histories","fault_sequences","inputs"],
 "all bounded sequences of submissions, mined blocks and queries at all blocks for two identities, compared between the real client over a simulated node, the local simulation and a reference contract; all error answers of the node",
 "Only the package interface is compiled in tests; no query is executed.",
 ["components/idenpubonchain/idenpubonchain.go","components/idenpubonchain/local/local.go","eth/client.go"],
 [("GetState/GetStateByBlock decoding","components/idenpubonchain/idenpubonchain.go:80"),("local chain history","components/idenpubonchain/local/local.go:60")],
 ["GetState","GetStateByBlock","VerifyProofClaim","transactions sent"])
p("C23","The key store yields exactly the stored keys to the right passphrase",
 "In any sequence of creating, importing, listing, unlocking, exporting and signing with keys, closing and reopening, a key can be used exactly when it was stored and unlocked with its own passphrase since the last opening; its signatures verify under its public key and no other; a wrong passphrase (one that differs in more than zero bytes at its end) or unknown key gives an error and changes nothing. Everything acknowledged is there after reopening, and after closing no secret remains usable. A failed write leaves both memory and storage as before.",
 ["histories","fault_sequences"],
 "all operation sequences up to a depth over two keys and passphrases, on memory and file storage, with each storage call failing, and concurrent use of one store",
 "Tests follow one successful sequence.",
 ["keystore/keystore.go"],
 [("ImportKey","keystore/keystore.go:284"),("UnlockKey","keystore/keystore.go:317"),("Close","keystore/keystore.go:258")],
 ["Keys","ExportKey","Sign*","storage contents"])
p("C24","A crash while saving never loses previously stored keys",
 "If the process or machine stops at any point while a key is being saved to the key file, or the write fails part-way, reopening the key store succeeds and finds every key acknowledged before, with the same secrets; the key being saved is either completely present or absent.",
 ["crash_points","fault_sequences"],
 "every system call and every byte position at which saving can stop, for bounded sequences of saves",
 "No test interrupts a save.",
 ["keystore/keystore.go"],
 [("FileStorage.Write","keystore/keystore.go:174")],
 ["file contents after the interruption","NewKeyStore error","Keys","UnlockKey"])
p("C25","At most one holder has the key file open",
 "At any moment at most one key store holds a given key file, among stores in the same or in different processes: opening a held file fails with the lock error, closing releases it for the next opener, closing twice or after a failed opening never releases a lock someone else holds, and an unheld storage refuses reads and writes, also when it is given up while they run: what a storage reads or writes belongs to a time at which it held the file. A failed opening leaves no lock behind.",
 ["schedules","histories"],
 "all interleavings of open, close, repeated close and use by up to three holders, and of locking, unlocking, reading and writing by two storages used by up to three threads, at system-call granularity",
 "The test opens twice once in sequence.",
 ["keystore/keystore.go"],
 [("FileStorage.TryLock/Unlock","keystore/keystore.go:184"),("NewKeyStore/Close","keystore/keystore.go:225")],
 ["NewKeyStore error","holders at each instant"])
p("C26","Signatures bind signer, prefix, date and message",
 "A signature produced by the library verifies for exactly the key, prefix, date and message it was made for; changing any of them, or any bit of the signature, makes verification fail or report an error, never panic. This holds for the baby-jubjub key store signatures and for the Ethereum message signatures, whatever the lengths involved, and signing and verifying never modify the caller's buffers.",
 ["inputs"],
 "all combinations of small prefixes, messages, dates and keys (including empty values and buffers with spare capacity) and all single-bit changes of signatures and keys",
 "Tests sign one message and check one alteration.",
 ["keystore/keystore.go","crypto/signatures.go","components/idensigner/idensigner.go","identity/issuer/issuer.go"],
 [("Sign/VerifySignature","keystore/keystore.go:352"),("VerifySigEthMsgDate","crypto/signatures.go:90"),("SignEthMsgDate","components/idensigner/idensigner.go:25")],
 ["VerifySignature*","VerifySigEthMsg*","caller buffers before and after"])
p("C27","A nonce can be redeemed at most once and only before it expires",
 "A stored nonce can be redeemed at most once, by at most one of any number of concurrent callers, only with its exact value and not after its expiry, and it keeps its payload until then. Adding a nonce that is already stored is refused, expired nonces become unredeemable, and purging expired nonces removes exactly those, even when a nonce was redeemed and added again.",
 ["histories","schedules"],
 "all operation sequences up to a depth over colliding nonces and a controlled clock, and all interleavings of concurrent redeem, add and purge calls",
 "Tests use real sleeps on a short fixed sequence.",
 ["utils/noncedb/nonce_db.go"],
 [("SearchAndDelete","utils/noncedb/nonce_db.go:120"),("DeleteOld","utils/noncedb/nonce_db.go:160")],
 ["Search","SearchAndDelete","Add error"])
p("C28","Zero-knowledge artefacts are used only if they match their expected hash",
 "Proving key, verification key and witness program are used only if the bytes loaded match the expected hashes, whatever the download server answers, however a download is cut, retried or interleaved, and whatever files were left on disk by earlier runs. A failure leaves an error and never a cached bad artefact, a later attempt with good data succeeds, and concurrent loads give every caller the same checked content.",
 ["fault_sequences","crash_points","schedules"],
 "all server behaviours per file and attempt (error status, short or corrupt body, dropped connection), all leftover file contents, and interleavings of concurrent loads",
 "The zk tests only encode public signals.",
 ["utils/zk/zk.go"],
 [("download and hash check","utils/zk/zk.go:120"),("Load* caching","utils/zk/zk.go:400")],
 ["LoadAll/ProvingKey/VerificationKey/WitnessCalcWASM results"])
p("C29","Shared encoding helpers are exact inverses and total on hostile text",
 "Hexadecimal, base64, integer-to-bytes, endianness and bit helpers are exact inverses over their domains, accept exactly the documented encodings and report everything else as an error without panicking; fixed-length decoding never writes outside its target nor accepts other lengths; reading or setting a bit affects exactly that bit. Entries built out of numbers or text hold exactly those numbers, and public keys read from text are exactly the points of the curve.",
 ["inputs"],
 "all strings up to a small length over an alphabet of valid and invalid characters, all lengths around the fixed sizes, and all bit positions",
 "Tests check a couple of constants.",
 ["common/common.go","merkletree/utils.go","crypto/ecdsa_public_key.go"],
 [("HexDecode/HexDecodeInto","common/common.go:40"),("bit helpers","common/common.go:120"),("entries out of numbers","merkletree/utils.go:124"),("public key text","crypto/ecdsa_public_key.go:22")],
 ["decoded bytes and errors"])
p("C30","Transaction confirmation is reported only for mined successful transactions",
 "The Ethereum client reports a number of confirmations only for a transaction whose receipt exists and says success, counting from the block that includes it to the current head; a missing receipt gives the dedicated error, a failed transaction is an error, and waiting for a receipt returns it as soon as the node has it, gives up with an error at the limit and never invents one. Every node or account failure surfaces as an error and an unlocked account is required to send.",
 ["fault_sequences","inputs"],
 "all sequences of node answers (receipt absent, failed, successful; heads before, at and after; errors; malformed) up to the polling limit",
 "No test of the Ethereum client exists.",
 ["eth/client.go","components/idenpubonchain/idenpubonchain.go"],
 [("GetReceipt/WaitReceipt/TxConfirmBlocks","eth/client.go:120")],
 ["TxConfirmBlocks","WaitReceipt","GetReceipt"])
p("C31","HTTP clients never mistake a failure for an answer",
 "When downloading public data or calling a service, any response other than a well-formed success (error status, broken or mistyped body, cut connection, unreachable server) is reported as an error carrying the server's message where there is one, and never as data; a well-formed success is returned unchanged for the identity and state requested, and requests address exactly them. Users of one client or one reader at the same time each get the answer to their own request, with no data race.",
 ["fault_sequences","inputs","schedules"],
 "all combinations of status class, body shape and connection failure, for each request kind; all interleavings of two or three users of one client or reader up to the preemption bound",
 "Tests cover one success and one error.",
 ["components/httpclient/httpclient.go","components/idenpuboffchain/readerhttp/readerhttp.go"],
 [("DoRequest","components/httpclient/httpclient.go:30"),("GetPublicData","components/idenpuboffchain/readerhttp/readerhttp.go:20")],
 ["returned data and error","request path seen by the server"])
p("C32","Inputs prepared for circuits satisfy the relation the circuits prove",
 "Whenever the library prepares the inputs of an ownership, state-update or credential proof, those inputs satisfy the statement to be proven (key claim in the genesis tree behind the identifier, credential claim in the issuer's claims, claims root in its roots tree, nonce absent from its revocations, all under the on-chain state used); and when no such inputs exist (revoked claim, unpublished claim, foreign data, trees deeper than the circuit) it reports an error instead. Proofs over other states, issuers, stale blocks or altered public signals are rejected by the verifier.",
 ["histories","inputs"],
 "all bounded histories of issuing, revoking and publishing, every claim and every circuit depth around the required one, and all substitutions of public signals",
 "Circuit tests need downloaded keys and are not run; they use one history.",
 ["identity/holder/holder.go","identity/issuer/issuer.go","components/verifier/verifier.go","utils/zk/zk.go"],
 [("HolderGetCredentialProofInputs","identity/holder/holder.go:183"),("GenZkProofIdenStateUpdate","identity/issuer/issuer.go:946"),("VerifyZkProofCredential","components/verifier/verifier.go:170")],
 ["inputs handed to the witness calculator","VerifyZkProofCredential error"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
