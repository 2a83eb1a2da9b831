#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
S = 'python/src/keyczar/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
NT = "At the pinned commit no test of the keyczar package passes at all; "
p("C01", "Key rotation never strands data, and revocation really revokes",
  "Anything encrypted or signed under a keyset stays decryptable or verifiable, giving back exactly the original data, by every process that opens that keyset afterwards, however the keyset was rotated (keys added, promoted, demoted) and however long the message was in transit, until the key version that produced it is revoked. Once that version has been revoked, every process that opens the keyset afterwards refuses the message, whatever keys are added later.",
  ["histories", "schedules", "inputs"],
  "All histories of create/addkey/promote/demote/revoke, process restarts and encrypt/sign/decrypt/verify operations on AES, HMAC, RSA and DSA keysets, with messages delayed, duplicated and reordered across them.",
  NT + "the suite's fixed two-version fixtures cover no sequence of rotations, no restart and no delivery after a rotation.",
  [S+"keyczar.py", S+"keys.py", S+"keydata.py", S+"keyczart.py", S+"readers.py", S+"writers.py"],
  [("key lookup by the identifier in the message header", S+"keyczar.py Keyczar._ParseHeader/GetKey/__init__"),
   ("versions carried over on every rewrite of the keyset", S+"keyczar.py GenericKeyczar.Write"),
   ("removal of a version", S+"keyczar.py GenericKeyczar.Revoke, keydata.py RemoveVersion")],
  [("keyset versions", "version number, status and key material", "keyset directory: meta and one file per version")],
  ["return value or exception of Decrypt, Verify, AttachedVerify in a freshly opened keyset"])
p("C02", "Only the primary key produces new output; without one nothing is produced",
  "Every new ciphertext and signature, whole-message or streamed, attached or detached, is made with the version that was primary when the process opened the keyset, and never with an active or inactive one. When the keyset has no primary version every attempt to encrypt or sign fails with the library's no-primary-key error and produces no output.",
  ["histories", "configurations"],
  "All reachable combinations of version statuses in a keyset, over all histories of administrative commands and restarts, for every producing operation and key type.",
  NT + "fixtures always have exactly one primary; the no-primary case is never tried.",
  [S+"keyczar.py", S+"keydata.py", S+"errors.py"],
  [("choice of the primary version when a keyset is opened", S+"keyczar.py Keyczar.__init__, primary_key"),
   ("status changes", S+"keyczar.py AddVersion/Promote/Demote")],
  [("primary version", "the only version allowed to produce output", S+"keyczar.py")],
  ["key identifier in the header of the output", "which version alone verifies an unversioned signature", "exception type"])
p("C03", "Keyset administration follows the documented version lifecycle",
  "Creating makes an empty keyset of the requested name, purpose and type; adding a key stores one new version numbered one above the highest version present with the requested status, size and a key identifier no other version of the keyset has; promoting moves inactive to active and active to primary (the old primary becomes active); demoting moves primary to active and active to inactive; revoking removes an inactive version and its key; at most one version is primary, and nothing else in the keyset changes, not even the access permissions of its files. Any other request (unknown version, promoting a primary, demoting an inactive, revoking one that is not inactive, unsupported size or status, creating over an existing keyset, missing or malformed arguments) fails with the library's error and leaves the stored keyset as it was.",
  ["histories", "inputs"],
  "All sequences of administrative commands, legal and illegal, through the command-line entry point and the API, on all four generatable key types, with process restarts between them and key generation that may collide.",
  NT + "the suite tries each command once on a mock keyset; sequences, stored state after refusals, and identifier collisions are not covered.",
  [S+"keyczar.py", S+"keydata.py", S+"keyinfo.py", S+"keyczart.py", S+"writers.py"],
  [("status transitions", S+"keyczar.py AddVersion/Promote/Demote/Revoke"),
   ("regeneration on identifier collision", S+"keyczar.py AddVersion"),
   ("no overwrite on create", S+"writers.py FileWriter.WriteMetadata")],
  [("metadata", "name, purpose, type, encrypted flag and versions", "meta file")],
  ["stored files after each command compared with a reference model"])
p("C04", "Administrative commands are atomic and durable across crashes",
  "If the process or the machine stops at any instant during an administrative command (create, add, promote, demote, revoke, public-key export), then after restart the keyset opens and is exactly the keyset from before the command or exactly the one after it, with every key intact. Once a command has returned successfully, its effect survives any later crash, including the removal of a revoked key's file, and a key added later never is one the keyset held before. (Exporting public keys over an earlier export in which a version number has since been revoked and reused for another key is outside this guarantee.)",
  ["crash_points", "histories", "fault_sequences"],
  "Every instant (every file-system operation) of every command in every history, for process kills (completed system calls survive) and power loss (data and directory changes not synced may be lost or torn, directory changes persisting in order).",
  "Tests never interrupt a command; one run can only reach the final state.",
  [S+"util.py", S+"writers.py", S+"keyczar.py", S+"keyczart.py"],
  [("atomic file replacement", S+"util.py WriteFile"), ("keys stored before the metadata that names them", S+"keyczar.py GenericKeyczar.Write, PublicKeyExport"),
   ("metadata updated before a revoked key file is removed", S+"keyczart.py Revoke")],
  [("keyset directory", "durable state that survives the crash", "meta, <version> files")],
  ["keyset opened from the surviving disk state"])
p("C05", "Storage errors are reported and never damage the keyset",
  "When the file system fails any operation of an administrative command (no space, I/O error, permission denied, short write), the stored keyset is still exactly the one before or the one after the command, and success is reported only if the command's whole effect, including the removal of a revoked key, is stored and durable. When reading a keyset fails, or a key or metadata file is missing, opening it fails with the library's error and never yields a keyset with some versions missing; once the errors stop, repeating the work succeeds.",
  ["fault_sequences", "histories"],
  "Every single failing file-system operation, and random combinations, in every command and keyset-opening of every history.",
  "The tests run on a healthy disk only.",
  [S+"util.py", S+"writers.py", S+"readers.py", S+"keyczar.py", S+"keyczart.py"],
  [("error reporting", S+"util.py WriteFile/ReadFile"), ("atomic file replacement", S+"util.py WriteFile"), ("removal errors", S+"writers.py FileWriter.Remove")],
  [("keyset directory", "stored keyset", "meta, <version> files")],
  ["exception or success of the command, keyset opened after the fault"])
p("C06", "Opening a keyset during an administrative command sees old or new, never a mix",
  "A process that opens a keyset while another process is running an administrative command on it gets exactly the keyset before or after that command (re-exporting public keys over an earlier export after a version number was reused for another key excepted). The only open that may fail is one overlapping a revocation; it fails with the library's error, and trying again once the command has finished succeeds.",
  ["schedules", "histories"],
  "All interleavings, at file-system-operation granularity, of one administrative process with several opening processes, over all command histories, plain and encrypted keysets.",
  "Tests are single-process.",
  [S+"keyczar.py", S+"readers.py", S+"writers.py", S+"util.py", S+"keyczart.py"],
  [("atomic file replacement", S+"util.py WriteFile"), ("keys before metadata", S+"keyczar.py GenericKeyczar.Write")],
  [("keyset directory", "shared state between processes", "meta, <version> files")],
  ["versions, statuses and key material of the keyset each opener got"])
p("C07", "A delivered ciphertext yields its own plaintext or a library error",
  "Whatever the network does to ciphertexts (loss, duplication, reordering, truncation, extension, splicing, bit flips, delivery to a holder of a different keyset), decrypting a delivered message either returns exactly the plaintext that some holder of the keyset encrypted into that ciphertext or raises an error of the library's own error family. An undamaged ciphertext always decrypts, every time it is delivered, whether or not it was text-encoded and even if spaces or line breaks were inserted into the encoded text.",
  ["fault_sequences", "inputs", "histories"],
  "All sequences of network faults on ciphertexts of all lengths, raw or Base64, AES with every key size and RSA, from keysets with one or more versions.",
  NT + "the suite flips one byte of one message.",
  [S+"keyczar.py", S+"keys.py", S+"util.py", S+"errors.py"],
  [("MAC over header, IV and ciphertext checked before decrypting", S+"keys.py AesKey.Decrypt, HmacKey.VerifySignedData"),
   ("OAEP check", S+"keys.py RsaPrivateKey.__Decode"), ("header check", S+"keyczar.py _ParseHeader")],
  [], ["return value or exception of Decrypt"])
p("C08", "Verification accepts exactly what was signed",
  "Whatever the network does to messages and signatures, verification (detached, attached with a nonce, or unversioned) succeeds only for data, and nonce where there is one, that a holder of the keyset actually signed with that operation, and only with a signature genuinely made for it; attached verification returns exactly the signed data. Genuine signatures always verify, on every delivery and with private and public keysets alike; anything else gives a negative result or an error of the library's own error family, never any other exception.",
  ["fault_sequences", "inputs", "histories"],
  "All sequences of network faults (bit flips, truncation, extension, swapping of signatures between messages, nonces, operations and keysets, duplication, reordering) on HMAC, RSA and DSA signatures, raw or Base64.",
  NT + "the suite alters one character of three signatures.",
  [S+"keyczar.py", S+"keys.py", S+"util.py"],
  [("signed input includes data, nonce length, nonce and format version", S+"keyczar.py Verifier/Signer"),
   ("full-length comparison", S+"keys.py HmacKey.VerifySignedData"), ("signature parsing", S+"util.py ParseDsaSig")],
  [], ["return value or exception of Verify and AttachedVerify"])
p("C09", "Streamed and whole-message encryption are interchangeable under any I/O timing",
  "For every plaintext, a ciphertext written through the encrypting stream, in whatever pieces it is written, decrypts to that plaintext with whole-message decryption and with the decrypting stream, and the decrypting stream also reads whole-message ciphertexts, whatever read sizes are used and however the source splits, delays or withholds data; when a read of the source fails with an I/O error and is tried again, nothing is lost or repeated. A read never returns more than asked for, returns no-data-yet rather than end-of-stream, without waiting, while the source is merely not ready, and once the source delivers, the whole plaintext arrives within a bounded number of reads.",
  ["schedules", "inputs", "fault_sequences"],
  "All plaintext sizes around block and buffer boundaries, all write and read size sequences, raw and Base64 encoding, and all source behaviours: short reads, empty-handed non-blocking reads (None, or would-block errors below the Base64 layer), passing I/O errors.",
  "crypter_test.py does not even parse, so nothing runs; as written it samples four fixed sizes and one alternating non-blocking source.",
  [S+"keys.py", S+"util.py", S+"keyczar.py"],
  [("block buffering and padding only at the end", S+"keys.py EncryptingStreamWriter"),
   ("holding back the signature and the last block", S+"keys.py DecryptingStreamReader.read"),
   ("incremental Base64", S+"util.py IncrementalBase64WSStreamReader/Writer")],
  [("buffers", "data between reads", S+"keys.py DecryptingStreamReader")],
  ["concatenation of what read() returns", "bytes that reach the output stream"])
p("C10", "A decrypting stream never ends cleanly on damaged or cut-off input",
  "If the ciphertext that reaches a decrypting stream is anything but a complete, unmodified ciphertext of the keyset (cut off at any byte, extended, bit-flipped, spliced, or from an unknown key), reading it to the end raises an error of the library's own error family and no read reports a clean end of stream. If the output of an encrypting stream fails part-way, what did reach the output is never accepted as a complete message unless it decrypts to exactly what was written, even if the application goes on using the stream after the failure.",
  ["fault_sequences", "inputs", "schedules"],
  "All truncation points and corruptions of all ciphertexts, with all source timings and read sizes; all points at which the output stream of a writer fails.",
  "The suite's only such test swallows its own failures; truncation at each byte under each read pattern is never tried.",
  [S+"keys.py", S+"util.py"],
  [("signature check at end of stream", S+"keys.py DecryptingStreamReader.read"), ("MAC over everything written", S+"keys.py EncryptingStreamWriter")],
  [], ["sequence of read() results and the final exception"])
p("C11", "Incremental Base64 equals one-shot Base64 under any chunking",
  "Encoding a byte sequence through the Base64 stream writer in any pieces puts out, after the final flush or close, exactly the web-safe unpadded encoding of the whole; decoding through the stream reader in any pieces, with a source that splits, withholds, would-block or fails for a time, gives exactly the bytes of the whole, then end-of-stream for good. No-data-yet is reported as such without losing or repeating any byte, a read limited to a number of characters never returns more, and input that cannot be complete Base64 ends in the library's error.",
  ["schedules", "inputs", "fault_sequences"],
  "All byte sequences, all write and read size sequences (size and character limits), all source behaviours including None, would-block and passing I/O errors, with or without trailing padding.",
  "util_test.py cannot run under Python 3 and samples five sizes on an always-ready source.",
  [S+"util.py"],
  [("buffering of incomplete groups", S+"util.py BufferedIncrementalBase64WSEncoder/Decoder"), ("non-blocking read loop", S+"util.py IncrementalBase64WSStreamReader.read")],
  [("buffers", "undecoded and undelivered data", S+"util.py")],
  ["output stream contents", "sequence of read() results"])
p("C12", "Sessions deliver to their own peer only",
  "A session decrypter built from the session material of a session decrypts every message of that session to exactly the plaintext, in any order and any number of times, including after the signing or encrypting keysets have been rotated. A message or session material that was damaged, or that belongs to another session, signer or keyset, never yields plaintext: it gives the documented negative result or an error of the library's own error family.",
  ["fault_sequences", "histories", "schedules"],
  "All interleavings of several plain and signed sessions with network faults, cross-delivery, replay, and rotation of the underlying keysets.",
  NT + "the suite exchanges one message in one session.",
  [S+"keyczar.py", S+"util.py", S+"keys.py"],
  [("session key and nonce", S+"keyczar.py _Session"), ("nonce-bound attached signature", S+"keyczar.py SignedSessionEncrypter/Decrypter"), ("packing", S+"util.py PackMultipleByteArrays/UnpackMultipleByteArrays")],
  [("session", "AES session key, MAC key and nonce", S+"keyczar.py")],
  ["return value or exception of SessionDecrypter/SignedSessionDecrypter"])
p("C13", "All secrets and IVs come fresh from the system entropy source",
  "Every generated key, initialization vector, encryption padding seed, session key and nonce and per-signature secret is taken anew from the operating system's entropy source: no two encryptions, sessions, keys or DSA signatures ever share one while that source does not repeat, and the same history under other entropy gives entirely different ones. If the entropy source fails, the operation fails, nothing made without it is put out or stored, and a keyset that was to get a key stays as it was.",
  ["histories", "fault_sequences", "schedules"],
  "All histories of generating operations, with entropy failures injected at every draw, and interleaved use of several keysets and sessions.",
  "No test controls or observes the entropy source; repetition needs many operations or a failing source to show.",
  [S+"util.py", S+"keys.py", S+"keyczar.py"],
  [("system entropy", S+"util.py RandBytes, keys.py DsaPrivateKey.Sign"), ("fresh IV per message and stream", S+"keys.py AesKey.Encrypt, EncryptingStreamWriter"), ("key generation", S+"keys.py Generate")],
  [], ["IVs, ciphertexts, DSA r values, stored key material, draws from os.urandom"])
p("C14", "Objects shared between threads behave as if used one at a time",
  "Any number of threads may use the same crypter, encrypter, signer, verifier or session object at the same time, and open keysets meanwhile: every call returns what it would have returned if the calls had run one after another. No call ever fails, mixes up data, or repeats an IV or the secret of a DSA signature because of what another thread is doing.",
  ["schedules"],
  "All statement- and expression-level interleavings of threads calling encrypt, decrypt, sign, verify, attached and session operations, streams and keyset opening on shared objects.",
  "Tests are single-threaded.",
  [S+"keys.py", S+"keyczar.py", S+"util.py"],
  [("no mutable state on key objects during an operation", S+"keys.py"), ("memoized session crypter", S+"util.py Memoize, keyczar.py _Session.crypter")],
  [("shared objects", "keys and keysets held by several threads", "caller")],
  ["result of every call in every thread"])
p("C15", "An encrypted keyset never exposes key material and detects damage at rest",
  "When keys are stored with a crypter, no byte sequence the library writes to storage at any moment, including temporary data, contains the key material in the clear, whatever crashes or errors happen. The keyset then opens only with that crypter and gives exactly the stored keys; without it, or with another crypter, opening fails with the library's error; written again for another crypter or in the clear, it opens with exactly that and gives the same keys; and after any damage to a stored key file it fails with the library's error or still gives exactly the stored keys.",
  ["crash_points", "fault_sequences", "histories"],
  "All histories of adding keys to encrypted keysets of every type, all crash and error points, all single and multiple corruptions of stored key files, all wrong crypters.",
  NT + "the suite opens one fixed encrypted fixture.",
  [S+"writers.py", S+"readers.py", S+"keyczar.py", S+"keyczart.py", S+"keys.py"],
  [("encryption before writing", S+"writers.py FileWriter.WriteKey"), ("refusal without encrypted reader", S+"keyczar.py Keyczar.__init__"), ("authenticated decryption", S+"readers.py EncryptedReader.GetKey")],
  [("key files", "encrypted key material", "<version> files")],
  ["all data passed to write operations", "keyset opened after damage"])
p("C16", "Public keysets carry no secrets and always match their private keyset",
  "Exporting public keys from an RSA or DSA keyset writes a keyset of the corresponding public purpose with the same version numbers and statuses, which verifies everything the private keyset signed and encrypts what the private keyset decrypts, and refuses to sign or decrypt. Nothing written to the destination ever contains a private component, at any instant, whatever crashes, errors or re-exports after rotation happen, and symmetric keysets are never exported.",
  ["histories", "crash_points", "configurations"],
  "All histories of rotation and export of RSA (sign and crypt) and DSA keysets, with crashes and errors during export.",
  "testPubKey exports once to a mock (and cannot run here).",
  [S+"keyczar.py", S+"keys.py", S+"keyczart.py"],
  [("export of public parts only", S+"keyczar.py GenericKeyczar.PublicKeyExport"), ("public key serialisation", S+"keys.py RsaPublicKey/DsaPublicKey")],
  [("export directory", "public keyset", "destination directory")],
  ["all data written to the destination", "behaviour of keysets opened from it"])
p("C17", "Keysets open only for what their purpose and metadata allow",
  "A keyset opens for encrypting, decrypting, signing or verifying only when its declared purpose includes that; opening it in any other role, with more than one primary version, an unknown type, purpose or status, or a key of another type than declared, fails with an error and never yields a usable object. This holds for every process and at every moment of the keyset's life.",
  ["configurations", "histories", "fault_sequences"],
  "All combinations of role, purpose and key type, over keysets in every lifecycle state and after metadata damage or mis-deployment of files between keysets.",
  NT + "no test opens a keyset in a wrong role.",
  [S+"keyczar.py", S+"keydata.py", S+"keyinfo.py", S+"keys.py"],
  [("purpose check", S+"keyczar.py IsAcceptablePurpose in each role"), ("metadata validation", S+"keyinfo.py GetType/GetPurpose/GetStatus, keyczar.py __init__")],
  [("metadata", "purpose, type and versions", "meta file")],
  ["success or exception of opening in each role"])
p("C18", "Keysets and messages stay exchangeable with other Keyczar implementations",
  "In a deployment that mixes this implementation with independent implementations of the Keyczar format and with data stored by earlier releases, every keyset, ciphertext, stream, signature, attached signature, unversioned signature and session produced on one side is accepted on the other with the same result, in both directions, for all key types and sizes. The key identifiers both sides compute are equal.",
  ["histories", "inputs", "schedules"],
  "All histories of mixed deployments: which side generates, rotates, stores, produces and consumes, for every key type, size and operation, with messages delayed and reordered across rotations.",
  "The package's tests read four fixed fixtures; the cross-language run needs Java and C++ builds and is not part of the suite.",
  [S+"keys.py", S+"keyczar.py", S+"util.py", S+"keydata.py"],
  [("wire format: version byte, key hash, IV, CBC/PKCS5, HMAC-SHA1", S+"keys.py"), ("key hashes", S+"keys.py _Hash"), ("JSON key formats", S+"keys.py __str__/Read")],
  [], ["bytes exchanged with an independent reference implementation", "stored fixtures of earlier releases"])
p("C19", "The interop runner tests every supported combination and hides no failure",
  "For any configuration of implementations, algorithms, options and ignore rules, the interop runner creates every keyset once per implementation, has every implementation generate and every implementation test each combination exactly once except those an ignore rule matches, and each test consumes exactly the output generated for its own combination. Display mode lists exactly those tests. An implementation that fails any call, or generates output that cannot be handed to a test, makes the run fail, and what a failing call put out is shown as it was; success is reported only if every call succeeded.",
  ["configurations", "fault_sequences"],
  "All configurations (implementation, algorithm, size, option and ignore-rule sets) and all placements of failing, crashing or babbling implementations.",
  "The unit tests use one fixed configuration, hook single methods and never run the whole matrix, nor a failing implementation through to the outcome.",
  ["interop/interop.py", "interop/config"],
  [("matrix enumeration", "interop/interop.py _GenerateAll/_TestAll/_Options"), ("ignore rules", "interop/interop.py _IsException"), ("calling implementations", "interop/interop.py _CallImplementation, RunTests, main")],
  [("implementations", "external programs called by the runner", "interop/config/implementations.json")],
  ["calls received by simulated implementations", "exit status of main"])
p("C20", "Keysets in pluggable backends behave like keysets in files",
  "A keyset at a location served by a plugged-in backend (reader and writer classes of modules on the configured backend paths) can be created, rotated, revoked, copied to and from other locations, plain or encrypted, and opened in every role exactly like one in files, wholly through that backend's reader and writer. If the backend fails or the process dies at any call, the stored keyset is the one before or the one after the command; success is reported only if the backend took the whole effect, also when it applies changes only on Close; a failure is reported as the library's error. A process that opens the keyset meanwhile sees it before or after the command (or, during a revocation, the library's error). Every reader and writer the library creates is closed when its work is done, after success and failure alike, and not used after that. Locations no backend serves are refused with the library's error. (Public-key export and genkey write to local directories.)",
  ["histories", "fault_sequences", "schedules"],
  "All sequences of commands, opens and copies over keysets in such stores, all placements of failing, unanswered and interrupted backend calls, all interleavings of a command with opening processes.",
  "The tests only check that a dummy class is picked for its location; none stores a keyset in a backend, nor meets a failing one.",
  [S+"readers.py", S+"writers.py", S+"keyczar.py", S+"keyczart.py", S+"util.py"],
  [("choice of backend", S+"readers.py CreateReader, writers.py CreateWriter, util.py ImportBackends"), ("order of writes", S+"keyczar.py GenericKeyczar.Write"), ("closing", S+"keyczar.py Read in each role, readers.py EncryptedReader.Close, keyczart.py")],
  [("items of a keyset", "metadata and keys by version number", "backend")],
  ["items in the store", "calls the store receives", "outcome of commands and opens"])
p("N01", "PKCS#8 and X.509 exports parse back to the same parameters",
  "Exporting RSA or DSA key parameters as PKCS#8 or X.509 and parsing the result gives the same parameters for all keys.",
  ["inputs"], "All RSA and DSA parameter sets.", "The suite parses one constant.",
  [S+"util.py"], [("ASN.1 coding", S+"util.py ParsePkcs8/ExportRsaPkcs8/ParseX509/ExportRsaX509")])
p("N02", "MAC comparison takes time independent of the bytes compared",
  "Comparing a received MAC with the computed one takes the same time wherever they differ.",
  ["inputs"], "All pairs of equal-length MACs.", "Timing is not observable in a unit test.",
  [S+"keys.py"], [("constant-time comparison", S+"keys.py HmacKey.VerifySignedData")])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
