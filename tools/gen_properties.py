#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="crates/volaris-tools/src/"; C="crates/volaris-crypto/src/"; L="crates/volaris-cli/src/"

p("C01","Decrypting what was encrypted returns exactly the original bytes",
  "Whenever encryption reports success, decrypting its output with the same password reports success and yields exactly the plaintext, byte for byte, whether the header is embedded in the output or stored in a separate file. This holds for every plaintext length (including empty and exact multiples of the 1 MiB block), every AEAD, every supported combination of header version and key-derivation algorithm, and every password; a combination that cannot be decrypted later is refused rather than encrypted.",
  ["inputs","configurations"],"all plaintexts x passwords x {AEAD, header version, KDF, header placement}",
  "Unit tests encrypt and decrypt two fixed short strings with one AEAD, one password and fixed randomness; no test uses a file of one block or more, AES, Argon2 or a password length other than the fixture's.",
  [T+"encrypt.rs",T+"decrypt.rs",C+"stream.rs",C+"header.rs",C+"key.rs"],
  [("stream encryption ends with a short (possibly empty) last block",C+"stream.rs encrypt_file"),("same AAD from create_aad and deserialize",C+"header.rs")],
  ["volaris_tools::encrypt::execute","volaris_tools::decrypt::execute"])

p("C02","Results do not depend on how the system splits reads and writes",
  "Every operation that reads or writes a file (encrypt, decrypt, hash, header dump/strip/restore, key changes, overwrite, pack, unpack) gives the same result no matter how the reader or writer splits the transfer: short reads, partial writes and interrupted calls never truncate, corrupt or reorder data. An operation may fail because of an interruption, but it never reports success with a different result.",
  ["schedules","inputs"],"every sequence of short reads, partial writes and interruptions a conforming reader or writer may produce",
  "All tests use Cursor or local files, which return full reads and writes; a short read in the middle of a stream is never exercised.",
  [C+"stream.rs",C+"header.rs",T+"hash.rs",T+"encrypt.rs",T+"pack.rs",T+"header/restore.rs"],
  [("block fill loop / write_all",C+"stream.rs")],["output bytes and result of each operation under a controlled reader/writer"])

p("C03","Altered ciphertext is never accepted and never yields altered plaintext",
  "If any bit of an encrypted file's payload or authenticated header fields is changed, or the payload is truncated, extended, reordered, duplicated or spliced with another file's, decryption either fails or (when the changed bits carry no meaning) yields exactly the original plaintext. Whatever a failing decryption has already written is a prefix of the original plaintext.",
  ["inputs","histories"],"every single-bit change, every truncation and extension, every block-level rearrangement, for every header version and AEAD",
  "No test modifies a ciphertext at all.",
  [C+"stream.rs",C+"header.rs",T+"decrypt.rs"],[("AEAD tag per block, LE31 counter and last-block flag",C+"stream.rs"),("header fields as AAD",C+"header.rs create_aad/deserialize")],
  ["volaris_tools::decrypt::execute result and writer contents"])

p("C04","Only a registered password opens a file",
  "Decryption and key verification succeed with a password exactly when that password, compared byte for byte over its full length, currently protects the file; with any other byte string (a prefix, an extension, a case or whitespace variant, a removed password) they fail and no plaintext is written.",
  ["inputs","histories"],"all pairs of distinct passwords, all files and key-slot histories",
  "Tests only ever use the one correct password; no test tries a wrong one.",
  [C+"key.rs",T+"key.rs",T+"key/verify.rs",T+"decrypt.rs"],[("keyslot AEAD tag checked under the derived key",C+"key.rs decrypt_master_key")],
  ["volaris_tools::decrypt::execute","volaris_tools::key::verify::execute"])

p("C05","Files of every supported format version remain decryptable",
  "Any file written in the volaris/dexios format, header versions V1 to V5, in stream mode or memory mode, with any of the three AEADs and any key-derivation setting that version allows, embedded or detached header, decrypts to its plaintext. The byte layout and key-derivation parameters that are accepted for a version never change.",
  ["inputs","configurations"],"all versions x modes x AEADs x KDF parameters x plaintext lengths",
  "Tests decrypt three fixed vectors (V4, V5, V5 detached; one AEAD, stream mode, short content); V1-V3, memory mode, AES, Deoxys, Argon2 and V5 slots 2-4 are never exercised.",
  [C+"header.rs",C+"key.rs",C+"primitives.rs",T+"decrypt.rs"],[("per-version layout and KDF parameter tables",C+"header.rs deserialize; key.rs")],
  ["volaris_tools::decrypt::execute on files built by an independent encoder and on recorded golden files"])

p("C06","What encryption writes follows the published format exactly",
  "The bytes encryption writes (header, key slots, blocks) are exactly those an independent implementation of the V4 or V5 format decodes: magic tags, field offsets, zero padding, 416- or 128-byte header, block size, block nonces, final-block marker and authenticated data. A separately stored header plus the remaining payload is byte-wise the same file cut in two.",
  ["inputs","configurations"],"all plaintext lengths x AEADs x versions x KDFs x placements",
  "Tests compare two fixed short outputs with one AEAD; a symmetrical change of encoder and decoder for other AEADs, lengths or KDFs passes them.",
  [T+"encrypt.rs",C+"header.rs",C+"stream.rs",C+"cipher.rs"],[("serialize_v4/v5, create_aad",C+"header.rs")],["bytes written by volaris_tools::encrypt::execute"])

p("C07","Headers survive a write-read round trip",
  "For every valid V3, V4 or V5 header value, reading back its serialised form yields the same version, AEAD, mode, nonce, salt and key slots in the same order, the authenticated data derived when writing equals the one derived when reading, the size reported equals the bytes written, and the reader is left exactly at the first byte after the header.",
  ["inputs","configurations"],"all header values: versions x AEADs x modes x 0-4 key slots x KDF tags x field contents",
  "Only the two or three headers inside fixed vectors are ever parsed; no test covers several key slots, AES, Deoxys, memory mode or V3.",
  [C+"header.rs",C+"primitives.rs"],[("serialize/deserialize/create_aad/get_size",C+"header.rs")],["corecrypto::header::Header"])

p("C08","Malformed input is rejected with an error, never a crash",
  "Given any bytes whatever as an encrypted file, header file or restore target, decryption, unpacking, header parsing, dump, strip, restore and every key operation return (with success or an error) without panicking, and those that would modify the given file leave it untouched when they report an invalid header.",
  ["inputs"],"all byte strings as file contents, including truncation at every offset and every tag byte value",
  "No test feeds malformed or truncated input.",
  [C+"header.rs",C+"stream.rs",T+"decrypt.rs",T+"header/",T+"key/"],[("tag matching and read_exact in deserialize",C+"header.rs")],["return values of the listed operations"])

p("C09","Every encryption uses fresh secrets and never reuses a nonce under a key",
  "Each encryption draws a new master key, payload nonce, key-slot salt and key-slot nonce from the system's secure random source, and each key addition or change draws a new salt and nonce. Over any history of operations no two of these values coincide and no (key, nonce) pair is ever used for two messages.",
  ["histories","inputs"],"all histories of encrypt, add-key and change-key operations",
  "Under test the generators are replaced by fixed-seed stand-ins, so production randomness is never executed by the tests.",
  [C+"primitives.rs",T+"utils.rs",T+"encrypt.rs",T+"key/add.rs",T+"key/change.rs"],[("gen_salt, gen_nonce, gen_master_key",C+"primitives.rs"),("StreamLE31 counter",C+"stream.rs")],
  ["header fields of produced files; block nonces"])

p("C10","Key slots behave as a bag of at most four passwords",
  "After any sequence of add, change, delete and verify operations on a V5 file, a password opens the file exactly when it was registered at encryption or by add or change and not removed since; add needs an existing password and a free slot, change replaces exactly the presented password, delete removes exactly the presented one (once), and a fifth password is refused. The payload always decrypts to the same plaintext under every registered password.",
  ["histories"],"all sequences of key operations over a small password alphabet, with right and wrong passwords, both KDF families and both AEADs",
  "There is no test of any key operation.",
  [T+"key.rs",T+"key/add.rs",T+"key/change.rs",T+"key/delete.rs",T+"key/verify.rs",C+"header.rs",C+"key.rs"],
  [("decrypt_v5_master_key_with_index selects the slot",T+"key.rs"),("slot vector rewritten into header",T+"key/*.rs")],["key::{add,change,delete,verify}::execute, decrypt::execute"],
  state=[("keyslots","0-4 wrapped copies of the master key",C+"header.rs Header.keyslots")])

p("C11","Key and verify operations touch nothing but the key slot concerned",
  "A successful key addition, change or deletion leaves every byte of the file outside the 416-byte header, the header's static fields and all other key slots unchanged, and file length constant. A refused or failed one (wrong password, no free slot, unsupported version, unsupported algorithm, bad header, read failure) leaves the whole file unchanged, and verification never modifies it.",
  ["histories","fault_sequences"],"all key operations in every reachable slot configuration, all reasons for refusal, all single read or seek failures",
  "There is no test of any key operation, let alone of its side effects on failure.",
  [T+"key/add.rs",T+"key/change.rs",T+"key/delete.rs",T+"key/verify.rs",C+"header.rs"],[("header rewritten once, last",T+"key/*.rs")],["file bytes before and after"])

p("C12","Header dump, strip and restore are lossless inverses",
  "Dumping a file's header yields exactly its header, stripping zeroes exactly the header bytes and nothing else, and restoring a dumped header into the stripped file reproduces the original file; a dumped header also works as a detached header for the stripped file. Restore refuses, without modifying the target, any target that does not begin with a full header's worth of zero bytes, and all three refuse input without a valid header.",
  ["histories","inputs"],"all header versions with a writer (V3-V5) x payload lengths x sequences of dump/strip/restore/decrypt",
  "There is no test of the header operations.",
  [T+"header/dump.rs",T+"header/strip.rs",T+"header/restore.rs",T+"decrypt.rs"],[("all-zero check before restore",T+"header/restore.rs"),("get_size",C+"header.rs")],["file bytes before and after"])

p("C13","No I/O failure of a file operation is reported as success",
  "If any read, write, seek, flush, open or remove call fails during encryption, decryption, hashing, a key operation, a header operation, an overwrite or an erase, the operation reports an error; whenever it reports success, its full effect is in place (complete output, complete header, all passes made, file removed).",
  ["fault_sequences"],"a failure injected at every single I/O call of every operation, and at every pair of calls",
  "No test injects an I/O error.",
  [C+"stream.rs",C+"header.rs",T+"encrypt.rs",T+"decrypt.rs",T+"hash.rs",T+"overwrite.rs",T+"erase.rs",T+"header/",T+"key/"],[("error propagation with ? / map_err",T+"*.rs")],["operation result against final contents"])

p("C14","No I/O failure during pack or unpack is reported as success",
  "If pack reports success, unpacking its output yields every file and directory it was given, complete; if unpack reports success, every entry of the archive that stays inside the target directory and was not declined is present there with complete content. No failure of any single storage, read, write or seek call may break this.",
  ["fault_sequences"],"a failure injected at every single storage or stream call of pack and unpack",
  "The pack test has one happy path; the unpack test is an ignored todo; no test injects an error.",
  [T+"pack.rs",T+"unpack.rs",T+"storage.rs"],[("error propagation",T+"pack.rs; unpack.rs")],["pack::execute/unpack::execute result against final storage contents"],
  "Entry constructor for an external Storage implementation (cfg volaris_mc)")

p("C15","Packing and unpacking reproduces the directory tree",
  "Unpacking a packed directory recreates every regular file with identical content and every directory (empty and hidden ones included) at the same path relative to the packed directory, for every tree shape, file size, name, number of input directories and compression setting, and wherever the directory was named from (relative, absolute or through a parent path). No file is added, dropped, renamed or merged; a tree with a name that an archive cannot carry (one that isn't Unicode) is refused with an error instead.",
  ["inputs","configurations"],"all small directory trees x file sizes x names x compression x way of naming the input",
  "One fixed tree is packed with fixed randomness and compared to a fixed ciphertext; unpack has no test.",
  [T+"pack.rs",T+"unpack.rs",T+"storage.rs",L+"subcommands/pack.rs",L+"subcommands/unpack.rs"],[("zip entry names from entry paths",T+"pack.rs"),("directories created before files",T+"unpack.rs")],["tree after unpack"],
  "Entry constructor (cfg volaris_mc)")

p("C16","Unpacking never writes outside the target directory",
  "Whatever names the entries of an archive have (parent components, absolute paths, repeated separators, NUL bytes, duplicates, a mix of directories and files, symbolic-link entries), unpacking creates, modifies or removes files and directories only below the chosen output directory, apart from its own temporary archive; entries that stay inside are still extracted.",
  ["inputs"],"all archives whose entry names are built from a small alphabet of path components up to a bounded length",
  "Unpack has no test.",
  [T+"unpack.rs"],[("enclosed_name filter",T+"unpack.rs")],["every path passed to the storage by unpack::execute"],
  "Entry constructor (cfg volaris_mc)")

p("C17","The temporary plaintext archive never outlives pack or unpack",
  "Pack and unpack stage plaintext in a temporary archive; whether the call succeeds or fails at any point, when it returns that temporary archive has been overwritten over its full length and removed, and no other copy of the plaintext has been left outside the requested output.",
  ["fault_sequences","inputs"],"every single failure point of pack and unpack, wrong password, tampered input, malformed archive",
  "Tests do not look at the temporary file and never make pack or unpack fail.",
  [T+"pack.rs",T+"unpack.rs",T+"overwrite.rs",T+"storage.rs"],[("overwrite then remove at the end",T+"pack.rs step 5; unpack.rs step 7")],["storage contents and write history of temporary files when the call returns"],
  "Entry constructor (cfg volaris_mc)")

p("C18","Erasing a file overwrites all of its bytes before it is removed",
  "A successful erase with n passes makes n complete overwrites of the file's original extent with unpredictable bytes followed by one with zeros, in the file's existing storage (never after discarding it), each flushed, and only then removes the file. Nothing beyond the original length is written and nothing is removed when an overwrite failed.",
  ["inputs","fault_sequences"],"all file lengths around the 512-byte block boundaries x pass counts x single I/O failures",
  "Tests look only at the final zeros or at the file's absence, so missing random passes, or truncation before overwriting, pass them.",
  [T+"erase.rs",T+"overwrite.rs",T+"storage.rs"],[("passes loop and zero pass",T+"overwrite.rs"),("file length taken before overwriting",T+"erase.rs")],["sequence of writes, truncations and removals on the erased file (in-memory storage and system calls)"],
  "Entry constructor (cfg volaris_mc)")

p("C19","Erasing a directory destroys every file in it under every thread schedule",
  "When erasing a directory reports success, every regular file below it (hidden and nested ones included) was overwritten in full before being removed, and the directory is gone; the directory is not removed while a file in it is still waiting to be overwritten, and if any file cannot be erased the failure is reported and unerased files are not unlinked. Nothing outside the directory is touched. This holds for every interleaving of the worker threads.",
  ["schedules","fault_sequences","inputs"],"all interleavings of the per-file workers up to a preemption bound, all single failures, all small trees",
  "One tree is erased once under the scheduler's default order, and only the final emptiness is checked.",
  [T+"erase_dir.rs",T+"erase.rs",T+"storage.rs"],[("join all workers before remove_dir_all",T+"erase_dir.rs")],["order of storage operations across threads"],
  "Entry constructor (cfg volaris_mc)")

p("C20","Unpack's outcome is the same under every thread schedule",
  "Unpack creates directories from several threads; for every interleaving, the resulting tree, file contents and reported result are the same, no file is created before its directory exists, and a directory that cannot be created is reported as a failure.",
  ["schedules","fault_sequences"],"all interleavings of the directory-creating threads up to a preemption bound, with and without a failing creation",
  "Unpack has no test; thread schedules are never controlled.",
  [T+"unpack.rs"],[("join directory workers before creating files",T+"unpack.rs step 5")],["storage contents after unpack::execute"],
  "Entry constructor (cfg volaris_mc)")

p("C21","Source data is never modified by an operation that only reads it",
  "Encrypt, decrypt, hash, pack, unpack, header dump, header details and key verification never write to, truncate, rename or remove the files they take as input (including a detached header or keyfile), whether they succeed or fail at any point, unless erasing the input was explicitly requested; and a requested erase begins only after the output has been completely written.",
  ["fault_sequences","configurations"],"all operations x all single failure points x all option combinations",
  "Tests do not look at the inputs afterwards and do not exercise failures or the command line.",
  [T+"encrypt.rs",T+"decrypt.rs",T+"hash.rs",T+"pack.rs",T+"unpack.rs",L+"subcommands/encrypt.rs",L+"subcommands/decrypt.rs",L+"subcommands/pack.rs"],[("inputs opened read-only",T+"storage.rs read_file"),("erase last",L+"subcommands/*.rs")],["contents and write history of inputs"],
  "Entry constructor (cfg volaris_mc)")

p("C22","The hash is BLAKE3 of the entire content",
  "Hashing returns the lowercase hexadecimal BLAKE3-256 digest of every byte of the content from its beginning, for every content length, initial reader position and pattern of reads; the same content always gives the same digest and hashing several files hashes each independently.",
  ["inputs","schedules"],"all content lengths around block multiples x start positions x read splits",
  "Tests hash a short string and one of 1.5 blocks from well-behaved readers.",
  [T+"hash.rs",T+"hasher.rs",L+"subcommands/hashing.rs"],[("rewind and read loop",T+"hash.rs")],["hash::execute result; volaris hash output"])

p("C23","Generated passphrases have exactly the requested words, for every random draw",
  "For every outcome of the random source, passphrase generation with n words terminates without failure and returns exactly n words of the shipped word list joined by single hyphens, each word chosen from its own draw; every word of the list can be chosen at every position.",
  ["inputs"],"every word index at every position, every n in a small range including 0 and 1",
  "There is no test of passphrase generation; a test would have to hit a 1-in-7772 draw.",
  [C+"key.rs",C+"wordlist.lst"],[("gen_range over the word list",C+"key.rs generate_passphrase")],["corecrypto::key::generate_passphrase"])

p("C24","Storage operations behave like operations on the file system they name",
  "For every sequence of storage operations, creating never replaces an existing file, opening for writing starts from an empty file, reading returns what was last written, lengths are exact, listing returns every entry below a directory exactly once (hidden ones included), removal removes exactly the named file or directory tree, and an operation that fails changes nothing, except that a removal the directory refuses may already have emptied the file or part of the tree.",
  ["histories"],"all sequences of storage operations up to a bounded depth over a small path alphabet, against a reference file system model",
  "Tests exercise each operation once from a fixed initial tree, mostly on the in-memory stand-in.",
  [T+"storage.rs"],[("FileStorage",T+"storage.rs")],["directory contents after each operation; operation results"])

p("C25","Secrets are redacted when printed and wiped when dropped",
  "A protected value never appears in any formatted debug output, is wiped exactly when it (and each clone of it) goes away, and the library's encrypt, decrypt and key operations do not release memory that still contains the caller's password, an encryption key derived from it, or the master key, on success or failure.",
  ["inputs","fault_sequences"],"all protected types and format options; all operations, outcomes and single failures",
  "No test looks at debug output or at memory.",
  [C+"protected.rs",C+"key.rs",T+"key.rs",T+"encrypt.rs",T+"decrypt.rs",C+"stream.rs",C+"cipher.rs"],[("Drop for Protected zeroizes; explicit zeroize of temporaries",C+"protected.rs; key.rs vec_to_arr")],["format! output; heap blocks at the moment they are freed"])

p("C26","A stream accepts its blocks only in order, complete and once",
  "A decryption stream opens a sequence of blocks exactly when it is the sequence produced by the matching encryption stream, in the same order, with the same additional data, with the last block marked last; any omission, repetition, swap, early or late end, different additional data, key or nonce is rejected. Streams refuse a nonce of the wrong length with an error. The one-shot ciphers seal what the published AEADs seal, in place or not, and open it with the same key, nonce and additional data only.",
  ["histories","inputs"],"all sequences of up to four deliveries drawn from the blocks of two streams, as next or last, for each AEAD; all single-bit changes of what a one-shot cipher is given",
  "No test uses the stream objects directly.",
  [C+"stream.rs"],[("LE31 nonce: counter and last-block bit",C+"stream.rs")],["EncryptionStreams, DecryptionStreams, Ciphers"])

p("C27","Key derivation is fixed by password, salt and recorded algorithm",
  "The derived key depends on the whole password, the whole salt and the algorithm with its parameter version, and on nothing else; each (algorithm, parameter version) pair always uses its published cost parameters, and every unsupported pair is refused with an error rather than mapped to another.",
  ["inputs","configurations"],"all algorithm and parameter-version pairs x passwords x salts",
  "Tests derive keys for two fixed pairs and one password.",
  [C+"key.rs",C+"header.rs"],[("HashingAlgorithm::hash and the parameter tables",C+"header.rs; key.rs")],["HashingAlgorithm::hash, argon2id_hash, balloon_hash"])

p("C28","Operations that run at the same time do not disturb one another",
  "When several operations, or several runs of the command, work at the same time, each on outputs of its own (inputs, the temporary directory and the directory that archives are unpacked into may be shared), every one of them reports success and has exactly the effect it has alone, for every interleaving of their file accesses: no temporary file is taken over or left, no salt, nonce or key is drawn twice, and nothing else is made, changed or removed.",
  ["schedules","histories"],"all interleavings of pairs (and some triples) of operations up to a bound on preemptions; all pairs of commands, one stopped at every one of its file system calls while the other runs",
  "Tests run one operation at a time.",
  [T+"storage.rs",T+"pack.rs",T+"unpack.rs",T+"erase_dir.rs",C+"primitives.rs",L+"subcommands/"],[("random temporary names, created exclusively",T+"storage.rs create_temp_file"),("thread_rng draws",C+"primitives.rs"),("no state shared between operations",T)],["results and files of operations run side by side; files of commands run side by side"],
  "Entry constructor (cfg volaris_mc)")

p("C29","Callbacks are told the truth and their answers are obeyed",
  "A caller of decrypt or unpack who passes callbacks is told of the header exactly once when the operation succeeds (never more than once, never of an invalid header), with the version, algorithm and mode the file's header records, before anything is written. A caller of unpack is asked about every entry that leads inside the target directory exactly once, with the path it would be written to, and about no other path; is told the number of accepted entries exactly once, after all questions and before anything is made in the target; and exactly the accepted entries are extracted: no declined entry is created, emptied or changed, whatever call fails. Nobody is asked about, or told the number of, entries of content that isn't authentic.",
  ["inputs","histories","fault_sequences"],"all lists of entries up to a bound x all combinations of answers; every changed header byte, payload byte and length; every single fault; bounded schedules",
  "The test of unpack is ignored and no test passes a callback.",
  [T+"unpack.rs",T+"decrypt.rs"],[("on_zip_file filter, on_archive_info before creating",T+"unpack.rs decrypt_and_unpack"),("on_decrypted_header after the header is parsed",T+"decrypt.rs execute")],["the callbacks' calls, and the storage at the time of each"])

p("C30","Command-line options do exactly what they say",
  "For every combination of options, the volaris command performs the effects its help text describes and no others: input is erased only when erasing is requested (with the requested passes), a hash is printed only on request, a passphrase is generated only on request, the requested AEAD, KDF, compression and header file are the ones used, flags consume no file name, and every command that the help lists runs.",
  ["configurations"],"all combinations of the options of encrypt, decrypt, pack, unpack, erase and hash",
  "The command-line crate has no test.",
  [L+"cli.rs",L+"global/parameters.rs",L+"global/states.rs",L+"subcommands.rs",L+"subcommands/"],[("clap definitions and parameter handlers",L+"cli.rs; global/parameters.rs")],["files, standard output and exit status of the real binary"])

p("C31","Erase-after-encrypt never loses data, wherever the process is stopped",
  "When encrypt, decrypt or pack is run with erasure of its input and the process is killed at any point, or any single system call fails, the data is still recoverable: either the input is intact or the output (with its header file) is complete and yields it.",
  ["crash_points","fault_sequences"],"a kill before, after and in the middle of every file-modifying system call, and a failure of every file system call, of the real binary",
  "The command-line crate has no test and no test stops a run half way.",
  [L+"subcommands/encrypt.rs",L+"subcommands/decrypt.rs",L+"subcommands/pack.rs",L+"subcommands/erase.rs",T+"encrypt.rs",T+"pack.rs"],[("erase runs last, after flush",L+"subcommands/*.rs")],["scratch directory after the crash; recovery with the real binary"])

p("C32","The command never overwrites a file without consent, nor a file with itself",
  "If an output (or header file, or file to be unpacked) already exists, its content is unchanged unless force was given or the user answered yes; declining leaves every existing file as it was. Naming the same file as input and output, by whatever spelling, is refused and destroys nothing.",
  ["inputs","configurations"],"all commands x existing targets x answers x spellings of paths",
  "The command-line crate has no test.",
  [L+"cli/prompt.rs",L+"subcommands/"],[("overwrite_check before opening for writing; input/output comparison",L+"cli/prompt.rs; subcommands/*.rs")],["files before and after a run of the real binary"])

p("C33","The exit status of the command tells the truth",
  "The volaris command exits with status zero only if what was asked for has been done completely or the user declined it at a prompt; whenever a needed file system call fails, a password is wrong, an input is missing or malformed, or the output could not be completely written, it exits non-zero with a message and never by a crash.",
  ["fault_sequences","inputs"],"a failure of every single file system call of each command of the real binary, and every kind of bad input",
  "The command-line crate has no test.",
  [L+"main.rs",L+"subcommands/"],[("errors propagate to main",L+"main.rs")],["exit status against files left behind"])

p("C34","The password comes from the source the user named, whole and non-empty",
  "The key is the exact content of the keyfile when one is given (or of standard input for -), else the environment variable, else a generated passphrase when requested, else an interactive prompt; an empty key or unreadable keyfile is refused before any output is created, and a generated passphrase that is shown opens the file.",
  ["configurations","inputs"],"all combinations of key sources x commands x contents (empty, binary, trailing newline, large)",
  "The command-line crate has no test.",
  [L+"global/states.rs",L+"global/parameters.rs"],[("Key::init precedence and Key::get_secret",L+"global/states.rs")],["decryptability of the output with each candidate key; files left behind"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
