"""The registered checks: per property the build variants, the number of cases per tier, and how a
case counts as non-trivial."""

PROPS = {}


def prop(pid, level, rule, parts, **kw):
    PROPS[pid] = dict(level=level, rule=rule, parts=parts, **kw)


def part(variant, quick, thorough, **kw):
    return dict(variant=variant, quick=quick, thorough=thorough, **kw)


prop("C01", "exploration",
     "One case: a random signing configuration, a random H.26x stream, signed with the real library, SEIs "
     "optionally delayed in order, and validated. Distinct: configuration and unit type string.",
     [part("asan", 2400, 40000)], min_events={"authentic_pictures": 1000, "gops_signed": 500, "gop_counter_wraparound": 50, "streams_ended_and_continued": 100})

prop("C02", "exploration",
     "One case: a signed stream with picture units altered, inserted, duplicated, swapped or moved, validated; "
     "'judged' cases have an OK report before and two signed GOPs after the tampering. Distinct: configuration, "
     "unit type string and tampering.",
     [part("asan", 3000, 60000)], units=["damage.cpp"], min_events={"judged": 300, "none_missing": 50, "judged:other-recording": 20,
                                                                         "judged:repeated-gop": 20, "judged:swapped-gops": 20, "judged:replaced-gop": 20})

prop("C03", "exploration",
     "One case: a signed stream with picture units, SEIs, whole GOPs or pieces removed, validated; 'judged' cases "
     "have an OK report before and two more signed GOPs after the loss. Distinct: configuration and the type "
     "strings before and after.",
     [part("asan", 3000, 60000)], units=["damage.cpp"], min_events={"judged": 300, "incomplete_gops_reported": 100, "missing_counted": 30, "gop_counter_wraparound": 50})

prop("C04", "exploration",
     "One case: a signed stream in which one SEI is altered (document or signature bytes, cut, rebuilt with other "
     "fields, transplanted or replayed), validated; 'judged' cases have an OK report before and signed GOPs after. "
     "Distinct: configuration, unit type string and alteration.",
     [part("asan", 3000, 60000)], units=["damage.cpp"], min_events={"judged": 300})

prop("C05", "exploration",
     "One case: one or more signers (keys and key types), their streams spliced, the key in the SEI and/or set by the "
     "user, right or wrong, validated. Distinct: configurations, unit types and splice.",
     [part("asan", 2400, 40000)], min_events={"key_changes_judged": 100})

prop("C06", "exploration",
     "One case: a random stream, intact, mangled or garbage, validated; all reports are checked against the delivered "
     "units. Distinct: configuration and unit type string.",
     [part("asan", 3000, 60000)], units=["mangle.cpp"], min_events={"reports": 3000, "ok_checked": 500})

prop("C07", "exploration",
     "One case: a random configuration and stream, signed; every SEI is parsed by an independent parser and compared "
     "with a reference model of the GOP it covers. Distinct: configuration and unit type string.",
     [part("asan", 2400, 40000), part("stub", 800, 20000, base=100000)], min_events={"seis_signed": 2000, "streams_ended_and_continued": 100, "long_session_seis": 2000})

prop("C08", "exploration",
     "One case: one stream signed in a plain and in two other delivery forms (start codes, trailing zeros, partitions into "
     "parts, SEI retrieval API, emulation prevention) and validated, possibly tampered with, in three forms; everything "
     "but signatures is compared. Distinct: configuration, unit type string and tampering.",
     [part("asan", 2000, 30000)], min_events={"seis_compared": 2000, "reports_compared": 2000, "parts_added": 1000, "epb_by_encoder": 500})

prop("C16", "exploration",
     "One case: a stream signed with a generated attestation and certificate chain, valid or broken in one of 36 ways, "
     "validated. Distinct: kind, configuration and unit types.",
     [part("cert", 5000, 60000)], min_events={"verdicts_checked": 1000, "kind:valid": 50, "refused": 100, "serial_varies_checked": 50, "kind:video key on another curve": 20}, units=["pki.cpp"])

prop("C09", "exploration",
     "One case: hostile units in a validating session: mangled, crafted (with or without a valid signature), random or "
     "legacy SEIs, vendor data, garbage, resets and keys. Distinct: kind, configuration, unit type string and mutations.",
     [part("asan", 5000, 120000), part("debug", 600, 10000, base=1000000)], units=["mangle.cpp", "hostile.cpp"],
     min_events={"foreign_pictures": 500, "units_refused": 300, "cut_fields": 3000})

prop("C12", "exploration",
     "One case: several sessions of the threaded plugin, by themselves or through the library, in parallel threads or "
     "interleaved, with a central or local signing threads, injected delays, spurious wake-ups, blocked and failed signing. "
     "Distinct: configuration and observed global order of the recorded events.",
     [part("asanthr", 500, 8000), part("tsanthr", 500, 8000, base=100000)], units=["threads.cpp"],
     min_events={"signatures_checked": 5000, "seis_checked": 500, "refused_full": 20, "signing_errors": 100, "closed_with_pending": 20})

prop("C13", "exploration",
     "One case: a stub signing plugin that answers late, in batches, with failures or not at all; all SEIs handed out are "
     "compared with the requests and answers it recorded; or the library's own plugin, with many SEIs waiting before they are "
     "pulled. Distinct: configuration, delivered units and schedule.",
     [part("stub", 2000, 30000), part("asan", 1200, 15000, base=500000)],
     min_events={"seis_checked": 5000, "signatures_failed": 300, "seis_checked_late": 5000, "piled_up": 200})

prop("C14", "exploration",
     "One case: a session with a random history (signed, damaged, legacy, parts of the same recording, several resets) is reset and compared with a "
     "fresh session on the same stream. Distinct: histories and streams.",
     [part("asan", 2400, 40000)], units=["mangle.cpp", "hostile.cpp"], min_events={"reports_compared": 2000, "seis_compared": 500, "scrubbed_parts": 200})

prop("C15", "exploration",
     "One case: random product information and timestamps, signed, possibly altered afterwards, and compared with every "
     "OK report. Distinct: configuration, units, alteration and strings.",
     [part("asan", 3000, 50000)], min_events={"ok_reports": 3000, "timestamps_checked": 1000, "altered": 300})

prop("C17", "exploration",
     "One case: an unsigned stream with near-miss SEIs and garbage. Distinct: unit types and near misses.",
     [part("asan", 4000, 80000)], units=["mangle.cpp"], min_events={"reports": 5000, "near_misses": 2000})

prop("C18", "exploration",
     "One case: a stream with a golden SEI, intact, or with the golden SEI altered, exchanged, lost or another one added, or "
     "picture units altered. Distinct: configuration, units and change.",
     [part("asan", 2400, 40000)], min_events={"never_ok_checked": 300, "intact_ok": 200, "tampered_judged": 100})

prop("C20", "exploration",
     "One case: one or more damaged streams in one session; the accumulated result is compared with all reports so far. "
     "Distinct: configurations, damage and units.",
     [part("asan", 3000, 50000)], units=["mangle.cpp"], min_events={"reports": 5000, "streams_not_ok": 500, "better_after_worse": 100})

prop("C10", "exploration",
     "One case: a random sequence of public API calls with valid and invalid arguments on one to three sessions; afterwards "
     "sessions are reset and have to sign or validate correctly. Distinct: the sequence of calls and results.",
     [part("asan", 2400, 40000, leak=4), part("asanthr", 300, 5000, base=100000, leak=4)], units=["mangle.cpp", "hostile.cpp", "threads.cpp"],
     min_events={"calls": 50000, "usable_signers": 200, "usable_validators": 100, "set_private_key:refused": 100, "set_public_key:ok": 50})

prop("C27", "exploration",
     "One case: a stream signed while settings are changed, accepted or refused, at any time; every SEI is compared with the "
     "settings in force when it was made. Distinct: the units and the settings.",
     [part("asan", 2000, 30000), part("stub", 1500, 25000, base=100000)],
     min_events={"seis_checked": 5000, "refused": 1000, "refused_started": 500, "epb_while_pending": 100, "streams_validated": 300,
                 "validations_compared": 50, "limited": 100, "golden_checked": 200})

prop("C22", "exploration",
     "One case: 2 to 8 sessions (signing, validating, helper calls), interleaved call by call in one thread or in parallel "
     "threads, each compared with the same calls alone. Distinct: the scripts and the observed order of their calls.",
     [part("tsan", 400, 8000), part("asan", 500, 8000, base=100000)], units=["mangle.cpp", "hostile.cpp", "script.cpp", "pki.cpp"],
     min_events={"sessions_compared": 2000, "parallel": 300, "interleaved": 100, "switches": 20000, "reports_compared": 2000, "seis_compared": 1000})

prop("C23", "exploration",
     "One case: a random script played with plain inputs, with inputs in read-only pages that are unmapped, made "
     "inaccessible or overwritten when the call returns, and with heap inputs compared, overwritten and freed. Distinct: the script.",
     [part("asan", 1600, 30000)], units=["mangle.cpp", "hostile.cpp", "script.cpp", "pki.cpp"],
     min_events={"runs_compared": 2000, "inputs_protected": 50000, "inputs_compared": 50000, "reports_compared": 2000, "seis_compared": 1000})

prop("C25", "exploration",
     "One case: 200 generated triples of version strings against numeric order; or a stream signed again with another "
     "version in all its SEIs, possibly damaged, compared with the same stream of this version; or a legacy stream with "
     "another version. Distinct: strings, versions and streams.",
     [part("asan", 1200, 20000)], units=["hostile.cpp"],
     min_events={"pairs_compared": 50000, "newer_streams_reported": 300, "older_streams_reported": 300, "legacy_not_newer": 100})

prop("C24", "exploration",
     "One case: a key generated in memory and/or on file in a scratch directory, with missing or wrong directories, full "
     "device, file size limits, existing files or invalid arguments. Distinct: kind, type, outputs, directory length and limits.",
     [part("key", 1600, 20000)],
     min_events={"keys_checked": 500, "files_checked": 200, "failures_reported": 200, "streams_validated": 100, "kind:limit": 50, "kind:full": 50, "kind:empty": 30})

prop("C21", "exploration",
     "One case: GOPs of lengths around the capacity of the hash list and far beyond, with SEI size limits around the "
     "resulting sizes, signed and compared with a reference model, validated intact and damaged. Distinct: configuration and lengths.",
     [part("asan", 700, 12000, cpu=120)],
     min_events={"lists_checked": 500, "long_lists": 50, "fallback_limit": 100, "fallback_long": 50, "damaged_judged": 200, "limit_just_met": 8, "limit_just_exceeded": 8})

prop("C26", "exploration",
     "One case: a session of 60 (thorough: 150) or more GOPs, signing or validating an intact, lossy, altered, unsigned, "
     "hostile or legacy stream; the bytes held by the library are measured around every call. Distinct: kind, configuration and unit types.",
     [part("asan", 900, 8000, cpu=120)], units=["mangle.cpp", "hostile.cpp"],
     min_events={"sessions_judged": 300, "gops_measured": 10000, "seis_pulled": 1000, "reports": 5000})

prop("C19", "exploration",
     "One case: a recorded or generated legacy stream, intact, tampered with, lossy, with forged SEIs, with a key set or "
     "changed, exported or after a reset, validated. Distinct: configuration, unit types and damage.",
     [part("asan", 5000, 80000)], units=["hostile.cpp", "legacy.cpp", "damage.cpp"],
     min_events={"recorded_ok": 50, "recorded_lists_equal": 50, "kind:intact": 300, "judged:tamper": 200, "judged:lose": 100,
                 "judged:forge": 100, "key_changes": 50, "exports_ok": 50, "kind:reset": 100})

prop("C11", "exploration",
     "One case: a random session (signing, validation of intact or damaged streams, helpers, attested cameras), played once to record its "
     "allocations and 40 (thorough: 80) times with allocations failing; or key generation with each allocation failed. Under faultthr: "
     "signing with the threaded plugin, own or central thread. Distinct: session, mode and failed allocation.",
     [part("fault", 700, 12000), part("faultthr", 250, 4000, base=100000)],
     units=["script.cpp", "pki.cpp", "hostile.cpp", "mangle.cpp"],
     min_events={"faults": 20000, "reported": 5000, "no_effect": 500, "compared": 5000, "key_faults": 20, "central": 30, "local": 30,
                 "kind:0": 100, "kind:1": 100})

prop("C28", "exploration",
     "One case: a part of an intact signed stream, from any unit on, validated. Distinct: configuration, unit types and cut.",
     [part("asan", 5000, 80000)],
     min_events={"parts_ok": 1000, "parts_with_early_sei": 500, "parts_without_early_sei": 300, "parts_without_key": 100,
                 "counters_checked": 3000, "authentic_pictures": 10000})

prop("C29", "exploration",
     "One case: a session decided by the case number (signing and validating damaged or legacy streams; under asan, debug and release also "
     "scripts of calls with mangled SEIs), recorded in every build; the records are compared. Distinct: the session, per build.",
     [part(v, 1600, 24000) for v in ("asan", "release", "debug", "novendor")] + [part("asanthr", 1600, 24000)],
     units=["script.cpp", "pki.cpp", "hostile.cpp", "mangle.cpp", "damage.cpp", "legacy.cpp"],
     min_events={"records_compared": 3000, "compared:release": 1000, "compared:debug": 1000, "compared:novendor": 500,
                 "compared:asanthr": 500, "seis_recorded": 5000, "reports_recorded": 10000, "scripts_recorded": 1000, "legacy_recorded": 200})

prop("C30", "exploration",
     "One case: up to four plugin sessions, 10 to 260 calls: hashes to sign, signatures collected with enough or too little room, invalid "
     "calls, sessions closed and opened. Distinct: the sequence of calls and outcomes.",
     [part("asan", 900, 25000)],
     min_events={"signatures": 10000, "refused": 50, "no_room": 300, "closed_with_due": 300, "invalid": 1000, "empty": 1000})
