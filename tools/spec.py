"""Single source of properties.jsonl and MANIFEST.json; see gen.py."""
S = "lib/src/signed_video_"
AUTH, COMMON, SIGN, TLV, OSSL, LIST, REP = (S + "h26x_auth.c", S + "h26x_common.c", S + "h26x_sign.c", S + "tlv.c",
                                            S + "openssl.c", S + "h26x_nalu_list.c", S + "authenticity.c")
THR = "lib/plugins/threaded-signing/plugin.c"
UNTHR = "lib/plugins/unthreaded-signing/plugin.c"
AXIS = "lib/vendors/axis-communications/sv_vendor_axis_communications.c"
LEG = "lib/src/legacy/"

P = []


def p(pid, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or []))


ASAN = "Built with ASan, UBSan and LSan, any report of which also is a violation. "

p("C01", "Intact signed video is reported authentic",
  "Every stream signed with a supported configuration and delivered complete, unaltered and in order (SEIs possibly "
  "delayed but in order) is reported OK from the first completed validation on, per report and accumulated. Every picture "
  "unit covered by a delivered SEI ends up marked authentic, and no unit is ever marked not authentic, missing or erroneous.",
  ["inputs", "configurations", "histories"], "all codecs, authenticity levels, hash algorithms, keys, SEI options and GOP structures; all in-order SEI delays; all values of the GOP counter, wrap-around included; streams that were ended and continued in the same session",
  "The unit tests use a few hand-written GOP patterns of tiny fixed NAL Units with one key per type.",
  [AUTH, SIGN, COMMON, LIST], [{"name": "GOP hash, hash list and linked hash computed alike on both sides", "where": COMMON},
   {"name": "matching of pending units to SEIs", "where": AUTH}],
  "end-to-end runtime monitor over random sign/validate runs under ASan+UBSan",
  ASAN + "Random configurations and streams; oracle: per-unit statuses and verdicts of a stream known to be intact.")

p("C02", "Altered, inserted or reordered picture data is never reported authentic",
  "A picture unit whose bytes differ from what was signed, or that never was part of the signed stream, is never marked authentic. "
  "If such a unit, a duplicate or a reordering occurs between signed GOPs in a stream that has validated OK, the accumulated result ends NOT_OK "
  "(or reports missing data), never OK, and so it does if whole GOPs, with their SEIs, are repeated, swapped or replaced by GOPs of another recording "
  "by the same camera. When units were altered but none was lost, none is reported missing.",
  ["inputs", "configurations", "histories"], "all bit flips, truncations, extensions, replacements, insertions, duplicates, swaps and moves at any place, of units and of whole GOPs",
  "The tests alter one chosen byte or swap one chosen pair in a handful of streams.",
  [AUTH, LIST, COMMON], [{"name": "verify_hashes_with_hash_list / verify_hashes_with_gop_hash", "where": AUTH}],
  "tampering monitor: random sign/tamper/validate runs, ground truth by unit identity, under ASan+UBSan",
  ASAN + "Ground truth from byte comparison with the signed units; hash collisions excluded.")

p("C03", "Lost picture data or SEIs never pass as complete",
  "If picture units, SEIs or whole GOPs are removed from a signed stream that has validated OK, the loss is reported: a GOP which "
  "lacks picture units is never reported plain OK, the units of a GOP whose SEI is lost are never marked authentic, how many there should have been is reported as unknown, and the accumulated "
  "result no longer is plain OK once later GOPs are validated. With the hashes of the units in the SEI (frame level), a single GOP that lacks units other than its first is reported as OK with "
  "missing info, with the number of missing units, and the units left are marked authentic.",
  ["inputs", "configurations", "histories"], "all removals of units, runs, SEIs, GOPs and stream pieces, also where the GOP counter wraps around",
  "The tests remove single chosen units from short fixed streams.",
  [AUTH, LIST], [{"name": "detect_lost_sei, missing item insertion", "where": AUTH}],
  "loss monitor: random sign/drop/validate runs under ASan+UBSan",
  ASAN + "Judged only when an OK report precedes and signed GOPs follow the loss.")

p("C04", "A forged or altered SEI never authenticates anything",
  "If any signed byte of a SEI, or of its signature, is changed, or the SEI is rebuilt with other content under the old signature, the picture units "
  "of its GOP are never marked authentic and the accumulated result is not OK once judged. The same holds for a SEI copied from another stream or another GOP.",
  ["inputs", "configurations"], "all single and multiple changes of any signed byte, all field rewrites, transplants and replays",
  "The tests modify a handful of bytes in one SEI.",
  [AUTH, TLV, OSSL, COMMON], [{"name": "document hash and signature verification", "where": OSSL}, {"name": "TLV decoding", "where": TLV}],
  "SEI forgery monitor with an independent SEI parser, under ASan+UBSan",
  ASAN + "Bytes which are not signed by design (signature padding, tag version, status and hash-type bytes) are excluded.")

p("C05", "Only the right public key authenticates, and key changes are flagged",
  "Only units whose SEI was signed by the private key matching the public key in use are marked authentic; if the stream carries another key than the one set by the user or seen before, "
  "the change is flagged, the result is NOT_OK and the accumulated result stays NOT_OK. A key set by the user is never replaced unnoticed, and without any key nothing is authenticated. "
  "An intact stream validates OK with the key in the SEIs or set by the user, whatever the key type and hash algorithm.",
  ["inputs", "configurations", "histories"], "all pairs of keys and key types, key in SEI or external, changes at any GOP",
  "The tests have one key change at one place and one wrong key.",
  [AUTH, TLV, OSSL, REP], [{"name": "public key handling and validation", "where": AUTH}, {"name": "decode_public_key", "where": TLV}],
  "multi-key monitor: streams of several signers spliced and validated under ASan+UBSan",
  ASAN + "Four EC and three RSA keys; ground truth is which key signed each GOP.")

p("C06", "Reports account for every delivered unit",
  "In every report the unit string and the status string have the same length and, with missing units left out, describe exactly the delivered units in order with their types; "
  "statuses agree with the verdict (OK never has a newly judged non-authentic or missing unit) and pending units are counted. The accumulated counters equal the delivered, validated and pending units. "
  "The number of received picture units in a report equals those it judges, and the expected number is the signed one or unknown.",
  ["inputs", "histories"], "all streams, intact, tampered, lossy, unsigned or garbage, and all report times",
  "The tests compare final strings of fixed streams.",
  [AUTH, LIST, REP], [{"name": "report strings", "where": LIST}, {"name": "update of validation report", "where": REP}],
  "online report checker over mixed random workloads under ASan+UBSan",
  ASAN + "Types predicted by an independent NAL Unit classifier.")

p("C07", "Every SEI is well formed and signs exactly the delivered GOP",
  "Every generated SEI is a valid NAL Unit with the documented layout: correct payload size and emulation prevention, increasing GOP counter, number of units, hash list, GOP hash, "
  "linked hash, timestamp, version and signature, which equal an independent recomputation over the units of the GOP it covers, and the signature verifies with the public key.",
  ["inputs", "configurations"], "all configurations and streams, of any length, also those ended and continued in the same session",
  "The tests compare SEI sizes and a round trip through the same code.",
  [SIGN, TLV, COMMON, OSSL], [{"name": "generate_sei / TLV encoders", "where": SIGN}, {"name": "hash computation", "where": COMMON}],
  "reference-model monitor: each SEI parsed and recomputed independently, under ASan+UBSan",
  ASAN + "Reference model of format and hashes written from the format description; libcrypto trusted.")

p("C08", "The delivery form of a stream does not change its signature or verdict",
  "Signing and validation results do not depend on start code length or absence, on trailing zero bytes after a unit, on whether units are handed to the signer whole or in any partition into parts, "
  "or on SEI retrieval API or emulation prevention option (added by the library or by the encoder): the signed hashes and the verdicts are the same.",
  ["inputs", "configurations"], "all start code, padding, partition and API choices",
  "The tests compare a few fixed cases.",
  [COMMON, SIGN, AUTH], [{"name": "parse_nalu_info", "where": COMMON}, {"name": "incremental hashing", "where": COMMON}],
  "differential (metamorphic) monitor over delivery forms under ASan+UBSan",
  ASAN + "Compares hashes and reports of equivalent deliveries.")

p("C09", "Validating hostile input is memory safe, terminates and rejects",
  "For any byte sequences delivered as units, including crafted SEIs with arbitrary field lengths and values, and crafted legacy SEIs, validation neither accesses memory out of bounds, "
  "nor leaks, nor executes undefined behaviour, nor aborts or hangs; it returns a status, and data not signed by the key holder is never reported authentic.",
  ["inputs", "histories"], "all byte sequences",
  "The tests feed well-formed streams almost only.",
  [COMMON, TLV, AUTH, LEG + "legacy_tlv.c", LEG + "legacy_h26x_common.c", LEG + "legacy_h26x_auth.c", AXIS],
  [{"name": "TLV decoders", "where": TLV}, {"name": "NAL Unit parsing", "where": COMMON}],
  "structure-aware mutation fuzzing under ASan, UBSan, LSan and a CPU-time watchdog",
  "Sanitizers decide memory safety and leaks; mutations are structure aware and include re-signed hostile SEIs. Integer conversions not checked.")

p("C10", "Any sequence of API calls is safe, leak free and leaves a usable session",
  "Any sequence of public API calls with valid or invalid arguments, on signing and validating sessions, in any order and any number of times, returns documented codes without "
  "memory errors, undefined behaviour, aborts or leaks. After freeing all objects no memory remains.",
  ["programs", "configurations"], "all API call sequences including repeated setters, NULL and out-of-range arguments and abandoned sessions",
  "The tests call each function a few times in the intended order.",
  [SIGN, COMMON, OSSL, AUTH, AXIS], [{"name": "argument checks and ownership", "where": COMMON}],
  "random API-sequence driver under ASan, UBSan and LSan with return-code oracles",
  ASAN + "Arguments that violate the C contract (dangling pointers) excluded.")

p("C11", "Allocation failure is reported, never fatal",
  "If any memory allocation of the library fails, once, repeatedly or from some point on, during signing, validation, key generation or threaded signing, there is no crash, no memory error, no "
  "hang and no leak, and the session can be freed. A call that could not do its work returns an error: what is signed never differs, a generated key is never missing and an authenticity report is never "
  "lost while all calls return success. As long as no error has been returned, content that would be NOT_OK without the failure is not reported OK.",
  ["fault_sequences", "configurations"], "the failure of each allocation, one at a time, and of all allocations from some point on",
  "No test makes an allocation fail.",
  [SIGN, AUTH, COMMON, OSSL, LIST, TLV, REP, UNTHR, THR, AXIS], [{"name": "error handling of allocations", "where": COMMON}],
  "fault injection: allocations of random sessions failed (one, all from some point, 5 % of them) under ASan+UBSan, with the set of live allocations and the trace of the same session without failures as oracles",
  "Allocation functions wrapped at link time for the library's objects; allocations inside OpenSSL and glib are not failed. A failure may make a verdict worse without an error, and the items added for missing units are optional by the documentation (OK instead of OK_WITH_MISSING_INFO).")

p("C12", "Threaded signing is race free, ordered and exactly once",
  "With the threaded signing plugin, under every schedule and signing duration and for any number of sessions, there are no data races, deadlocks or memory errors; each hash handed over is signed at most once, "
  "signatures are returned to the session that asked for them, in order, each with the hash it signs, and sessions can be closed at any time.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of API threads and signing threads, with and without the central worker",
  "The tests run one session with sleeps.",
  [THR, SIGN], [{"name": "buffers and condition variables", "where": THR}],
  "TSan and ASan stress with injected delays; offline checker of the recorded sign/get events",
  "TSan with randomised delays injected around the signing; libglib not instrumented (its primitives modelled through pthread).")

p("C13", "Late, batched or failed signatures pair with their own SEI",
  "For any signing plugin that returns signatures late, in batches or as failures, SEIs are handed out in the order of their GOPs, each with the signature of its own hash, none twice, and a SEI "
  "is never handed out unsigned or with another SEI's signature. After a failed signature later SEIs are still correct, and the memory held is bounded by the documented buffer.",
  ["schedules", "fault_sequences", "histories"], "all plugin response schedules",
  "The tests use plugins that answer at once.",
  [SIGN, OSSL], [{"name": "SEI buffer and complete_sei", "where": SIGN}],
  "scheduled stub signing plugin with an offline pairing checker under ASan+UBSan",
  ASAN + "The plugin interface is the documented one; the stub decides when and whether a signature is delivered.")

p("C14", "Reset gives the same behaviour as a fresh session",
  "After a reset, a validating session reports on the next stream of the same signer exactly as a new session does, whatever it was fed before "
  "(the key once received stays in use, and metadata of the earlier stream may be shown until the first OK report). "
  "A reset signing session produces SEIs that validate, cover only units added after the reset and never link to units before it.",
  ["histories", "configurations"], "all prior histories and reset points, any number of resets, also jumping back and forth in one recording",
  "The tests reset at one or two places.",
  [COMMON, AUTH, SIGN, OSSL], [{"name": "signed_video_reset", "where": COMMON}],
  "differential monitor: reset session against fresh session, under ASan+UBSan",
  ASAN + "Reports compared field by field; a key once set or received and the signing GOP counter may persist.")

p("C15", "Metadata reported equals what was signed",
  "Product information, timestamps, and the signing side's version appear in the validation report exactly as given to the signer, strings cut to 254 characters, "
  "and the first and last timestamps span the validated stream. Metadata altered after signing never comes with an OK accumulated verdict, and an altered timestamp never with an OK report.",
  ["inputs", "configurations"], "all strings, lengths and timestamps including negative and extreme values",
  "The tests use two product infos and constant timestamps.",
  [TLV, REP, SIGN, COMMON], [{"name": "encode/decode_product_info, encode/decode_general", "where": TLV}],
  "metadata fidelity monitor under ASan+UBSan",
  ASAN + "Strings are C strings of any bytes; comparison with what was given to the signer.")

p("C16", "Axis attestation decides the public key verdict",
  "For a stream from Axis the public key is reported valid only if the certificate chain verifies against the trusted root and the attestation signature covers exactly that public key, chip and certificate, and the serial number matches; "
  "any mismatch or malformed data gives not OK, which is never cleared, and no attestation or no public key in the stream gives not feasible, while the verdict on the video itself is unaffected. "
  "What is set in a signing session cannot be replaced, and a refused attempt changes nothing. Vendor data of any content is handled without memory errors or leaks.",
  ["inputs", "configurations"], "all attestations, certificate chains, serial numbers and their mutations",
  "The tests have one fixed attestation that cannot verify and reach only the not-feasible outcome.",
  [AXIS, REP], [{"name": "verify_axis_communications_public_key", "where": AXIS}],
  "vendor monitor with generated chains; the trusted root replaced at the OpenSSL call boundary, under ASan+UBSan",
  ASAN + "The hard-coded root certificate is swapped for a test root where it is read through libcrypto.")

p("C17", "Unsigned video is never presented as signed",
  "A stream without signed SEIs, whatever else it contains (other SEIs, similar UUIDs, truncated SEIs), is always reported as not signed, with no unit marked authentic, "
  "and reports appear although it never was signed.",
  ["inputs", "histories"], "all unsigned streams",
  "The tests have two fixed unsigned streams.",
  [AUTH, COMMON], [{"name": "SEI recognition by UUID", "where": COMMON}],
  "unsigned-stream monitor under ASan+UBSan", ASAN + "Streams of random units including near-miss SEIs.")

p("C18", "Golden SEI supplies the key without weakening validation",
  "With a golden SEI at the start, streams whose later SEIs omit the recurrent data are validated exactly like others, intact ones OK and tampered ones not OK. "
  "A golden SEI that is altered, forged or foreign never gives an OK verdict, nor does it let the key set by the user be replaced with the accumulated result still OK.",
  ["inputs", "configurations"], "all golden-SEI configurations, their alterations and positions",
  "The tests use one golden SEI in one stream.",
  [SIGN, AUTH, TLV], [{"name": "signed_video_generate_golden_sei", "where": SIGN}, {"name": "golden SEI validation", "where": AUTH}],
  "golden-SEI monitor under ASan+UBSan", ASAN + "As C01, C02 and C04 with golden SEIs.")

p("C19", "Legacy streams keep their verdicts",
  "Streams signed with the old format are still validated: intact ones OK with all units, metadata and counts as signed, whatever the delivery form, also with delayed SEIs, when exported from a SEI on and after a reset; "
  "altered, inserted or moved picture units and forged SEIs are never marked authentic nor accumulated as OK once judged, losses never are accumulated as plain OK, and another public key is never accepted as the right one.",
  ["inputs", "configurations", "histories"], "all legacy streams, and all alterations of, and losses from, them",
  "The tests validate six recorded streams of 15 tiny units unmodified.",
  [LEG + "legacy_h26x_auth.c", LEG + "legacy_tlv.c", LEG + "legacy_h26x_common.c", AUTH], [{"name": "legacy session", "where": LEG + "legacy_h26x_auth.c"}],
  "legacy monitor: recorded and generated legacy streams, damaged, judged as C01-C05, under ASan+UBSan",
  ASAN + "A signer of the legacy format in the harness, compared with the recorded streams, makes the streams.")

p("C20", "The accumulated verdict never improves",
  "Once a validation in a session has been reported as anything worse than OK after signatures were verified, the accumulated verdict never becomes better during that session; "
  "it equals the worst of the per-report verdicts, and a flagged key change or invalid public key is never cleared.",
  ["histories", "inputs"], "all sequences of good and bad GOPs",
  "The tests look at the final accumulated report of a few streams.",
  [REP, AUTH], [{"name": "update_accumulated_validation", "where": REP}],
  "online monotonicity monitor over long damaged streams under ASan+UBSan", ASAN + "State machine over successive reports.")

p("C21", "Size limits fall back without losing authenticity",
  "For any GOP length and SEI size limit, signing falls back to GOP level for that GOP when the limits are exceeded, the SEI keeps to the limit when the mandatory part fits, no hash is lost or written out of bounds, "
  "and the stream validates OK when intact and not OK when altered.",
  ["inputs", "configurations"], "all GOP lengths, also beyond the hash list capacity, and all size limits",
  "The tests have one long GOP and two limits.",
  [SIGN, COMMON, TLV], [{"name": "hash list overflow and max SEI payload size", "where": SIGN}],
  "limit monitor with long GOPs under ASan+UBSan", ASAN + "GOPs up to several thousand units.")

p("C22", "Sessions are independent, also in different threads",
  "Any number of sessions, signing or validating, interleaved in one thread or running in parallel threads, behave exactly as each would alone, without data races.",
  ["schedules", "configurations"], "all interleavings of independent sessions",
  "The tests never run two unrelated sessions at the same time.",
  [COMMON, OSSL, AUTH, UNTHR], [{"name": "no shared mutable state", "where": COMMON}],
  "TSan over parallel sessions, and a differential monitor against sessions run alone",
  "TSan plus comparison of SEIs (apart from signatures) and reports with single runs.")

p("C23", "Inputs are never modified and results are deterministic",
  "Neither signing nor validation writes to the units, keys or strings passed in, nor keeps using them after the call returns; and the same calls give the same reports and, apart from signatures, the same SEIs.",
  ["inputs", "programs"], "all inputs, freed or overwritten right after each call",
  "The tests keep inputs alive and unchanged.",
  [COMMON, AUTH, SIGN, LIST], [{"name": "copying of units", "where": LIST}],
  "poisoned-input monitor: inputs in read-only pages, freed after each call; run twice, under ASan+UBSan",
  ASAN + "Inputs are placed in write-protected pages ending at a guard page.")

p("C24", "Generated keys are usable and complete",
  "Every key generated in memory or on file is a valid private key of the requested type in PEM form that signs video which validates; file generation reports failure when the file cannot be written, "
  "and no failure leaks or crashes.",
  ["configurations", "fault_sequences"], "all key types, target directories and write failures",
  "The tests generate one key of each type.",
  [OSSL], [{"name": "signed_video_generate_*_private_key", "where": OSSL}],
  "key monitor with libcrypto as oracle in a scratch directory under ASan+UBSan",
  ASAN + "libcrypto is the oracle of key validity.")

p("C25", "Version comparison is a total order consistent with the version",
  "Comparing version strings orders them by major, minor and patch number, is antisymmetric and transitive, ignores pre-release text, and rejects malformed input; a stream signed by a newer version is flagged as a version mismatch.",
  ["inputs"], "all pairs of version strings",
  "The tests compare six pairs.",
  [COMMON], [{"name": "signed_video_compare_versions", "where": COMMON}],
  "order-axiom monitor over generated versions under ASan+UBSan", ASAN + "Oracle: numeric tuple comparison.")

p("C26", "Memory use is bounded in long sessions",
  "In a signing session whose SEIs are pulled, and in a validating session in which SEIs keep arriving, the memory held does not grow with the number of GOPs, whether the stream is intact, lossy or altered; "
  "units that never are followed by a SEI stay pending and take no more memory than their own content plus a constant per unit.",
  ["histories"], "all long streams, intact, lossy or altered",
  "The tests run a few GOPs.",
  [LIST, SIGN, AUTH], [{"name": "remove_and_free of validated items", "where": LIST}],
  "allocation-accounting monitor over long sessions under ASan", "Live heap bytes measured through the sanitizer allocator around each call.")

p("C27", "Settings take effect or are refused",
  "Each setting accepted (level, keys, product information, recurrence, size limit, emulation prevention, hash algorithm, golden SEI) is reflected in every SEI generated afterwards and in no earlier one, "
  "each refused one leaves the session unchanged, and the hash algorithm and the golden SEI principle when signing, and the public key when validating, cannot be changed in an ongoing session.",
  ["programs", "configurations"], "all orders of setters relative to the signed units",
  "The tests check return codes of single calls.",
  [SIGN, COMMON, OSSL], [{"name": "setters", "where": SIGN}],
  "configuration model monitor: each SEI compared with the configuration in force, under ASan+UBSan",
  ASAN + "Reference model of the documented setters.")

p("C28", "A part of an intact signed recording validates by itself",
  "A part cut out of an intact signed stream, starting at an I-frame (or at the parameter sets or the SEI in front of it) and ending anywhere, with at most one SEI of earlier GOPs in it, "
  "is reported as having a signature as soon as a SEI has come, then OK from the first complete GOP on, per report and accumulated, provided the public key and the hash algorithm can be known. "
  "All picture units of the complete GOPs are marked authentic and no report is NOT_OK.",
  ["inputs", "configurations", "histories"], "all signed streams and all cuts of that kind",
  "The tests cut a few fixed streams at one place.",
  [AUTH, LIST, COMMON], [{"name": "first validation and detection of lost SEIs", "where": AUTH}],
  "export monitor: parts of signed streams validated in fresh sessions under ASan+UBSan",
  ASAN + "Not claimed, by design of the library: parts starting inside a GOP, with SEIs of two or more earlier GOPs, or without any SEI telling the hash algorithm.")

p("C29", "How the library is built changes no result",
  "The same calls give SEIs of the same content, the same return codes and the same reports, whatever the memory contained before, with optimisation and assertions on or off, "
  "with or without debug printouts and the printing of parsed SEIs, with or without vendor support (for streams of no vendor) and with either signing plugin. "
  "Only the time at which a SEI is ready, and the random part of a signature, may vary.",
  ["inputs", "configurations"], "all sessions and all builds with the options of the repository",
  "The tests check each build against a few expected values of its own and never compare builds.",
  [AUTH, COMMON, TLV, SIGN], [{"name": "build options", "where": "meson_options.txt"}],
  "offline comparison of recorded sessions between five instrumented builds (ASan+UBSan, optimised with pattern-filled memory, debug, no vendor, threaded)",
  ASAN + "One build is optimised gcc without assertions, with memory and stack filled with patterns; another has a zeroed stack.")

p("C30", "The signing plugin gives every accepted hash its own signature, in order",
  "Used through its interface, the unthreaded plugin gives for every accepted hash exactly one signature, which verifies with the key of its session for that very hash, in the order of the hashes and independent of other sessions. "
  "A full queue refuses further hashes and loses none; a too small buffer is left unwritten, with size 0; invalid calls are refused without effect. "
  "Closing a session with uncollected signatures leaks nothing.",
  ["inputs", "histories"], "all sequences of plugin calls in any number of sessions",
  "The tests reach the plugin only through the library, which collects each signature at once.",
  [UNTHR, OSSL], [{"name": "out_buffer", "where": UNTHR}],
  "online queue monitor on the plugin interface under ASan+UBSan+LSan, signatures verified with libcrypto",
  ASAN + "A signature for which there was no room may be given later or dropped; both are accepted. The threaded plugin is monitored in C12.")
