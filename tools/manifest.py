import json,os
MC="model_checking"; EX="exploration"; FE="fault_enumeration"
# id -> (level, technique, note)
C={
"C01":(MC,"explicit-state breadth-first search of operation sequences on the real tree against a set model","Exhaustive over the operation alphabet per depth limit and backend (state = storage content); the reference set model computes roots independently. Assumes collision freedom of Poseidon."),
"C02":(MC,"exhaustive enumeration of histories, roots, indices and proof alterations on the real code against an independent verifier","All orders of all bounded subsets; all single and paired alterations with siblings drawn from the tree's node keys. Poseidon replaced by a stand-in hash with the same domain."),
"C03":(EX,"exhaustive enumeration of encodings, truncations, substitutions and headers","Every truncation, byte position and header combination within the stated value sets; every accepted proof is fully used."),
"C04":(MC,"exhaustive enumeration of histories, roots, truncation and failure points on the real code","All orders of bounded subsets, every root, every cut and stream failure; imported tree compared, reopened, extended."),
"C05":(MC,"exhaustive enumeration of histories with views taken at every root and re-observed after every step","Every query at every earlier root and on every view after every insertion, also after overwriting everything returned."),
"C06":(FE,"exhaustive storage fault and crash injection at every call, singly, persistently and in pairs with the retry","Every storage call of every operation after every bounded history fails; open and reopened trees compared with the model."),
"C08":(MC,"breadth-first search of operation sequences on the real backends against a reference map, plus controlled-scheduler exploration of concurrent commits and reads","All sequences to the depth, deduplicated by model state; every observation and every returned buffer overwritten after each step; all schedules within the preemption bound."),
"C09":(FE,"exhaustive crash-state enumeration: every file operation, every byte of every write, power-loss variants and every failing file operation of bounded histories","The real LevelDB code runs on a recording stand-in of package os; every crash state is rebuilt and reopened by the real code."),
"C10":(MC,"explicit-state breadth-first search over histories of operations and environment answers on the real issuer against a reference state machine","All sequences of operations, chain answers, off-chain answers and restarts to the depth; every state, submission, publication and restart compared with the reference. Groth16 replaced by relations (see DESIGN)."),
"C11":(FE,"exhaustive crash and storage-fault enumeration at every commit and every storage call of bounded histories of the real issuer, with reload, repetition and completion","Every commit boundary and every failing storage call of every history, followed by reload, comparison with the reference identity and repetition of the operation."),
"C12":(MC,"breadth-first search of issuance/revocation histories with faults, restarts and high nonces on the real issuer, plus controlled-scheduler exploration of concurrent issuances and of threads asking one nonce generator","Every sequence to the depth; after each, nonces, metadata and credential validity of every claim against the reference; all schedules of concurrent issuances within the preemption bound."),
"C13":(MC,"breadth-first search of issuer histories; at every state every claim of the alphabet is asked for and every credential ever issued is verified again","All histories to the depth, also after restart; the outcome per claim is compared with the reference machine and the real verifier."),
"C16":(MC,"stateless model checking of the real issuer under a controlled scheduler (preemption bounded), linearizability oracle","All schedules within the preemption bound with a point before every statement of the issuer, every lock, storage, chain and off-chain call; every result set explained by a sequential run of the same calls."),
"C17":(EX,"exhaustive enumeration of keys and genesis claim lists through every way of creating an identity against an independent computation","All lists up to the bound, two tree depths, arbitrary prior nonces; pairwise difference of all identifiers."),
"C18":(EX,"exhaustive enumeration of identifiers, encodings and their corruptions","All types, boundary genesis values, every single-byte and double-byte corruption, every truncation and extension of every encoding."),
"C19":(EX,"exhaustive enumeration of metadata options, claim fields (every bit and pair of bits), foreign entries and JSON alterations against an independent encoder","Every option combination with boundary values over several contents, every field bit of every claim kind, all header bytes of foreign entries, all one-place JSON alterations."),
"C29":(EX,"exhaustive enumeration of texts, lengths, bits and values against independent codecs","All texts to a length over an alphabet of valid and invalid characters, all lengths around the fixed sizes, every bit position."),
"C14":(MC,"breadth-first search over histories of two issuers; in every state exhaustive recombination, forging and alteration of credential parts, judged by reference ledgers","All histories to the depth; all products of identities, chain records, proofs, claims and roots; forged proofs on the same path; all one-place JSON mutations, all subsets of missing fields and all bit changes in memory."),
"C15":(MC,"breadth-first search over histories of two issuers; in every state exhaustive recombination of validity parts and exhaustive clock and freshness boundaries, judged by reference ledgers","All histories to the depth; every credential ever built at every boundary instant and freshness; all products of parts at a liberal and a strict clock; mutations, missing fields, bit changes, cheating stores. The second of the expiry itself and equality at the freshness limit are left open."),
"C20":(MC,"explicit-state breadth-first search of publication histories with storage faults, crashes and reloads on the real stores against a reference list, plus controlled-scheduler exploration of concurrent publications and reads","All histories to the depth for several cache lengths; after each step every answer of the store (by state, latest, over HTTP handlers' functions) compared with the reference; all schedules of concurrent calls within the preemption bound."),
"C21":(EX,"exhaustive tampering with published blobs, records and documents","All one-place alterations, all substitutions by other states' parts, all header and truncation variants of every blob; what the reader accepts is judged by an independent computation of the tree contents."),
"C22":(MC,"breadth-first search of submission and block histories on the real client over the real contract executed in the EVM, the local chain and a reference, plus controlled-scheduler exploration of the local chain","All histories to the depth; every transaction byte compared, every block and time queried after each block on both chains; all node failures and truncations; all schedules of concurrent local calls within the preemption bound."),
"C30":(EX,"exhaustive enumeration of node answer sequences under a virtual clock","All sequences of receipt answers to a length under several limits, every malformed answer, all positions of new blocks between requests, all single and paired failing requests of a deployment."),
"C23":(MC,"breadth-first search of key store histories with storage faults and restarts on the real key store against a reference, exhaustive tampering with the storage, plus controlled-scheduler exploration of concurrent use with a linearizability oracle","All sequences to the depth on memory and file storage, every storage call failing; every tampering of the stored document; all schedules within the preemption bound."),
"C24":(FE,"exhaustive crash-state enumeration of saving: every file operation, every byte of every write, power-loss variants, failing operations, and crashes on top of what earlier crashes left","Every crash state of every save of the histories is reopened with the real key store and compared with the keys acknowledged before."),
"C25":(MC,"stateless model checking of several key stores and storages on one file at system-call granularity (controlled scheduler on the real code and the real file lock, preemption bounded, with race detection), breadth-first search of histories, and real processes","All schedules within the bound of up to three holders, and of threads locking, unlocking, reading and writing two storages against sequential orders; all histories to the depth; the same histories with real processes and real locks."),
"C26":(EX,"exhaustive enumeration of pairs of signed and verified tuples, of single-bit changes and of rewritten signatures, on the real code","All pairs of the tuples (key, prefix, date, message), all single-bit changes, boundary values as keys, signatures and field elements; the two weaknesses of the message format are known findings."),
"C27":(MC,"breadth-first search of operation histories under a controlled clock against a reference, plus controlled-scheduler exploration of concurrent use, with a linearizability oracle and with passing time","All histories to the depth; all schedules within the preemption bound; the clock is virtual."),
"C28":(FE,"exhaustive enumeration of server answers, leftovers, crash points and failing file operations, breadth-first search of histories, plus controlled-scheduler exploration of concurrent loads at file-operation granularity","Every answer for every artefact, format and leftover with further attempts; all histories to the depth; every crash state of a download; all schedules within the preemption bound. The parsers of the keys are stand-ins."),
"C31":(FE,"exhaustive enumeration of responses (status, body, framing, cut), addresses and documents against a scripted server, plus controlled-scheduler exploration (with race detection) of users of one client or reader","Every status with every body shape in every framing and target; all states against all requests; every member of the document replaced and every cut; all schedules of two or three users of one client or reader within the preemption bound."),
"C32":(MC,"exhaustive enumeration of identities and depths and breadth-first search over histories of two issuers; in every state exhaustive preparation, recombination and verification, judged by the circuits' relation written independently","All histories to the depth; every credential with all validity data ever got, all mixtures of two, forgeries; every substitution of proofs, signals, issuers, blocks and clocks. Groth16 replaced by relations."),
"C07":(MC,"stateless model checking of the real code under a controlled scheduler (preemption bounded), linearizability oracle","All schedules within the preemption bound with a point before every statement of the tree's methods, every lock and storage call."),
}
exec(open("/verif/tools/claims_extra.py").read()) if os.path.exists("/verif/tools/claims_extra.py") else None
NA={}
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for i in list(C):
    if os.path.exists("/verif/mc/cmd/%s/race"%i.lower()):
        lv,t,n=C[i]
        C[i]=(lv,t+"; the schedules within one preemption also under Go's race detector, blind to the scheduler",n)
checks=[]
na=[]
for i in ids:
    if i in C:
        lv,t,n=C[i]
        checks.append({"property":i,"quick_cmd":f"bash /verif/run.sh {i} quick","thorough_cmd":f"bash /verif/run.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":lv,"level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"bash /verif/setup.sh","hooks":{"guard":"none (build overlays generated from the current tree; no hook is committed in /repo)","enable":"run.sh passes -overlay to go build","source_commits":[]},"checks":checks,"not_applicable":na}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
print(len(checks),"checks")
