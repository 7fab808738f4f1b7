"""What each property's check runs: harness entries, their bounds, and the
witnesses that must be reached for the answer to mean anything."""

COMMON_ASSUMPTIONS = [
    'environment model: files, clock, lock, source and scripts are the executor\'s; operations take effect in program order '
    '(no page-cache reordering), write(2) may be cut in half by a kill or by a full disk',
    'files under an RRDP URI do not change at the source: content is a function of session and serial',
    'release build semantics (no overflow checks); SHA-256 injective on the contents that occur; decimal rendering of a '
    'symbolic serial is an injective function of it',
    'symlink mode (moving directories is not reachable from the command line); time zone UTC; fixed hash keys for HashMap',
]


def E(name, **k):
    return dict(name=name, **k)


V1 = {'staging on other device': '0..0'}
CHECKS = {
    'C01': dict(
        bounds='1 to 3 runs; two sessions; all serials 16..2^62; 0-3 deltas; kill at every mutating operation (writes also '
               'half done) or one failing operation (EIO, ENOSPC, EACCES) of the last run or of two runs; cleanup time and '
               'clocks symbolic (3 digits; 5000 s)',
        entries=[
            E('h_c01_first', covers=['killed', 'complete', 'published']),
            E('h_c01_crash', covers=['killed', 'complete', 'new version visible', 'old version visible']),
            E('h_c01_fault', covers=['failed', 'complete', 'new version visible', 'old version visible']),
            E('h_c01_three', covers=['killed', 'complete', 'v3 visible', 'v2 visible', 'v1 visible']),
            E('h_c01_twice', quick=False, covers=['killed', 'v3 visible', 'v2 visible', 'v1 visible']),
        ]),
    'C05': dict(
        bounds='3 runs (thorough: 4), two sessions that may come back, serials 16..2^62, 1-2 deltas, clocks within 5000 s, '
               'cleanup time 0..999 s, all symbolic; 5 runs with given serials and three patterns of sessions (quick: A A B B A), '
               'times and cleanup time symbolic',
        entries=[
            E('h_c05_three', covers=['kept in grace', 'removed after grace']),
            E('h_c05_long', fix={'sessions': '2..2'}, tfix={}, covers=['kept in grace', 'removed after grace']),
            E('h_c05_four', quick=False, covers=['kept in grace', 'removed after grace']),
        ]),
    'C06': dict(
        bounds='1 to 3 runs; two sessions; serials 16..2^62; kill at every mutating operation or one failing operation of '
               'the last run (thorough: kills in two runs in a row); 0-3 objects in 4 layouts; with and without host and module',
        entries=[
            E('h_c06_first', covers=['killed', 'complete']),
            E('h_c06_crash', covers=['killed', 'complete']),
            E('h_c06_fault', covers=['failed', 'complete']),
            E('h_c06_seq', covers=['checked 0', 'checked 1', 'checked 2']),
            E('h_c06_twice', quick=False, covers=['killed', 'complete']),
        ]),
    'C07': dict(
        bounds='as C05, for rsync trees',
        entries=[
            E('h_c07_three', covers=['kept in grace', 'removed after grace']),
            E('h_c07_long', fix={'sessions': '2..2'}, tfix={}, covers=['kept in grace', 'removed after grace']),
            E('h_c07_four', quick=False, covers=['kept in grace', 'removed after grace']),
        ]),
    'C09': dict(
        bounds='an interrupted run (kill at every mutating operation, writes also half done; or one failing operation) of a '
               'first or second version, then a run against the same or a further version, compared with the same history '
               'without interruption; staging on the same or another file system',
        entries=[
            E('h_c09_kill', fix={'staging on other device': '0..0', 'cleanup.0': '0..0'}, covers=['killed', 'complete']),
            E('h_c09_fault', fix={'staging on other device': '0..0', 'earlier version published': '1..1', 'fault_kind': '1..1',
                                  'cleanup.0': '0..0', 't1': '1700000000', 't2': '1700000000', 't3': '1700000005',
                                  'source moved on': '0..0'}, covers=['failed', 'complete']),
        ]),
    'C02': dict(
        bounds='a first version, then one new version by snapshot and deltas of which any one response is bad in one of ten ways '
               '(error, 304, 404, 500, body breaks off, empty, HTML, 206, truncated, one byte differs), or any one file is '
               'listed with a matching hash but cannot be parsed; left-over staged files, also with free bytes; serials symbolic',
        entries=[
            E('h_c02_bad', covers=['published', 'refused']),
            E('h_c02_staged', covers=['published']),
            E('h_c02_unparsable', covers=['published', 'refused']),
        ]),
    'C03': dict(
        bounds='1 to 2 updates (thorough: 3), two sessions, serials 16..2^62, 0-3 deltas per version (quick: up to 2 in the '
               'first), limit none or 0..9, gaps and serials that do not reach the notification\'s; 5 updates with given serials '
               'across changes of their number of digits',
        entries=[
            E('h_c03_two', fix={'v0.deltas': '0..2'}, tfix={}, covers=['delta present', 'deltas after update', 'mirrored 0', 'mirrored 1']),
            E('h_c03_odd', fix={'maximum given': '0..0'}, tfix={}, covers=['mirrored 0', 'mirrored 1']),
            E('h_c03_long', covers=['delta kept', 'deltas after update', 'mirrored']),
            E('h_c03_three', quick=False, covers=['delta present']),
        ]),
    'C04': dict(
        bounds='2 updates (thorough and 3-update entries: sessions A, B, A), all pairs of serials up to 2^62, 0-3 deltas with '
               'arbitrary serials, in any order (thorough); not-modified answers',
        entries=[
            E('h_c04_two', covers=['gap', 'lower', 'equal', 'higher', 'other session']),
            E('h_c04_three', covers=['lower', 'equal', 'higher']),
            E('h_c04_unmodified', covers=['not modified']),
            E('h_c04_shuffled', quick=False),
        ]),
    'C08': dict(
        bounds='URIs of snapshot, deltas and objects with symbolic bytes in the part after the base; with and without host and '
               'module; dangerous segments (.., empty, dot, escaped in 14 ways and by any two characters) at the positions of the stated patterns',
        entries=[
            E('h_c08_rrdp', covers=['published', 'refused']),
            E('h_c08_objects', covers=['published', 'refused']),
        ]),
    'C10': dict(
        bounds='0 to 3 scripts, each passing, failing, killed by a signal or not startable; rejection on and off; a first '
               'version and an update; with a TAL: content right or wrong in 4 ways, the repository not in the tree, 5 kinds of unusable '
               'trust anchor, together with a script of any exit status',
        entries=[
            E('h_c10_scripts', covers=['passed', 'reported', 'rejected']),
            E('h_c10_missing', covers=['passed', 'rejected']),
            E('h_c10_tals', covers=['passed', 'reported', 'rejected', 'rejected unseen', 'no trust anchor']),
        ]),
    'C11': dict(
        bounds='a repository of real signed objects (trust anchor and CA with two ROAs each, trust anchor in the source repository or '
               'elsewhere), all serials 16..2^62; an earlier version never, without TALs, with TALs, or with TALs and rejected, 0, 30 or 60 minutes ago; '
               'content wrong in 4 ways (quick: 2) before and after; update by snapshot only, with the right delta, with a delta that leads to other '
               'content, or with a new session; rejection and offline validation on and off; a run in between without TALs, with another RRDP '
               'directory, with staging area removed, or failing',
        entries=[
            E('h_c11_update', fix={'wrong': '0..2', 'time': '0..1'}, tfix={}, covers=['passed', 'reported', 'rejected', 'rejected unseen']),
            E('h_c11_settings', covers=['passed', 'rejected']),
        ]),
    'C12': dict(
        bounds='kept data after a first validation (repository of a trust anchor), then 1 to 2 updates at concrete times (thorough: all of 5) and symbolic '
               'serials; up to three deltas, 17 faults (missing, not listed, gap, other session, wrong serial, broken, publish of what is there, update or '
               'withdrawal of what is not, other hash, ...) in any of them; snapshot right, unavailable or broken',
        entries=[
            E('h_c12_update', fix={'updates': '0..0', 'time.0': '3..3'}, covers=['updated', 'updated by deltas', 'dropped'], thorough=False),
            E('h_c12_update', fix={'updates': '1..1', 'time.0': '3..3', 'time.1': '3..3', 'versions.0': '0..0', 'deltas.0': '0..0',
                                   'snapshot.0': '0..1'}, covers=['updated', 'updated by deltas', 'dropped'], thorough=False),
            E('h_c12_update', tfix={'updates': '0..0'}, covers=['updated', 'updated by deltas', 'dropped', 'kept'], quick=False),
            E('h_c12_update', tfix={'updates': '1..1', 'time.0': '3..3', 'time.1': '3..3'}, covers=['updated', 'updated by deltas', 'dropped'], quick=False),
        ]),
    'C13': dict(
        bounds='a trust anchor and a CA below it, in the same or another repository; every object kind (ROA, ASPA, router certificate, CA '
               'certificate, Ghostbusters record, unknown) with each of 9 faults, next to a valid object (thorough: next to any other object with any fault); '
               '12 faults of manifest and CRL; expiry, revoked serial, changed byte and clock symbolic; certificates that lead back to a CA above',
        entries=[
            E('h_c13_objects', fix={'second': '6..6'}, tfix={}, covers=['all valid', 'issues']),
            E('h_c13_points', covers=['all valid', 'issue']),
            E('h_c13_loop', covers=['loop', 'no loop']),
        ]),
    'C14': dict(
        bounds='source from the public URI, a mapped HTTPS base or a mapped directory; insecure mode on and off; URIs with '
               'symbolic bytes around and after the base',
        entries=[
            E('h_c14_uris', covers=['fetched', 'outside of the base']),
            E('h_c14_bytes', covers=['fetched', 'outside of the base']),
        ]),
    'C15': dict(
        bounds='lock free, or held by another process, for a first and a later run; one failing operation anywhere',
        entries=[
            E('h_c15_lock', covers=['held by another', 'lock free']),
            E('h_c15_fail', covers=['done']),
        ]),
    'C16': dict(
        bounds='every combination of default, changed and explicit directories; two runs with every change of RRDP directory, '
               'rsync directory and notification URI between them',
        entries=[
            E('h_c16_dirs', covers=['published']),
            E('h_c16_change', covers=['moved', 'updated in place']),
        ]),
    'C17': dict(
        bounds='a certificate, two CRLs (one with GeneralizedTime), a ROA, a manifest and a signed object without signing time; the '
               'digits of its time free in groups: year, month and day, time of day, year and month; under several file names; a second '
               'version with the same object; objects with any one byte changed or missing (quick: a CRL, bytes 0..40 changed)',
        entries=[
            E('h_c17_times', fix={'digits': '2..2'}, tfix={}, covers=['time', 'no such time']),
            E('h_c17_times', fix={'digits': '0..0'}, thorough=False, covers=['time']),
            E('h_c17_times', fix={'digits': '1..1', 'object': '2..2'}, thorough=False, covers=['time', 'no such time']),
            E('h_c17_times', fix={'digits': '3..3', 'object': '0..0'}, thorough=False, covers=['time', 'no such time']),
            E('h_c17_broken', fix={'object': '0..0', 'mutation': '0..0', 'place in 0': '0..40'}, tfix={'object': '0..0'}, covers=['published']),
            E('h_c17_broken', fix={'object': '0..0', 'mutation': '1..2'}, tfix={'object': '1..2', 'mutation': '1..2'}, covers=['published']),
        ]),
    'C18': dict(
        bounds='notification, snapshot or delta (given, about 500 bytes) with any one byte replaced (quick), inserted, left out or '
               'everything after it missing; 18 unusual numbers in 5 places of the notification; serials at both ends of the range; '
               '16 values of 3 numeric options at 5 verbosities; a run counts as one that does not end after 60 million instructions '
               '(20 times the usual); waiting for the configured notify delay does not count',
        entries=[
            E('h_c18_notification', fix={'mutation': '0..0', 'earlier version published': '1..1'}, tfix={}, covers=['error', 'success']),
            E('h_c18_content', fix={'mutation': '0..0', 'earlier version published': '1..1'}, tfix={}, covers=['error', 'success']),
            E('h_c18_numbers', covers=['error', 'success']),
            E('h_c18_extreme', covers=['error', 'success']),
            E('h_c18_options', covers=['error', 'success']),
        ]),
}
NOT_APPLICABLE = {}
