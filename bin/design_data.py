# Sections of DESIGN.md
P = {
    'C01': ('units/posix_write.c, units/posix_sync.c',
        'The write driver is run on an arbitrary option set and an arbitrary sequence of writes; system calls are contracts with ghost state (content accepted by the kernel, content durable, directory entry durable, descriptor open). `rename` to the final name carries the obligation "all bytes given were accepted, flushed when requested, descriptor closed"; close carries the postcondition. Every call may fail, write may be short. Number of writes is covered by an invariant over the ghost state, so this is a proof, not bounded.'),
    'C03': ('units/wal.c',
        'Segment arithmetic against a 64-bit specification, for all timelines, LSNs and legal segment sizes (proof); list results bounded to three segments.'),
    'C10': ('units/encode.c, units/strid.c',
        'Codecs against a table-free specification; decode of arbitrary text accepted only if it is the encoding of what is returned; all 64-bit ids/varints (proof).'),
    'C11': ('units/convert.c',
        'Calendar by induction over years (proof); time text of every well-formed shape and of arbitrary characters (bounded); integer limits.'),
    'C02': ('units/archive_push.c',
        'archivePushFile on two repositories (encrypted or not, compressed or not), every combination of failing operations, of existing segments (none, same, different), of archive checks. Postcondition over the ghost repositories.'),
    'C04': ('units/archive_get.c',
        'archiveGetFile on three sources in two repositories, every failure and content.'),
    'C05': ('units/verify_file.c',
        'verifyFile on any stored content, recorded checksum/size, bundle position, encoding and failure.'),
    'C07': ('units/restore_file.c',
        'restoreFile on any content before and in the backup; delta/force/zero/block incremental; every failure.'),
    'C08': ('units/backup_file.c',
        'backupFile on any content, with the file allowed to change between two reads; bundling, resume, delta, reference, block incremental; every failure.'),
    'C06': ('units/expire.c',
        "cmdExpire on enumerated histories against an independent specification of what retention keeps (written over sets, not over the code's loops); order of invalidation and failure at each operation; WAL kept is the union of the ranges needed."),
    'C14': ('units/lock.c, units/cmd_lock.c',
        'open/flock/stat/unlink as contracts with ghost ownership of the *file* (not the name); other processes act between any two calls (rely); obligations: result true implies sole ownership of the file that the name denotes, writes and unlinks only as owner.'),
    'C22': ('units/stop.c',
        'stop/start/lockStopTest on every combination of stop files, lock files and failing operation; ghost: signals sent per lock holder, after the stop file exists.'),
    'C23': ('units/async_status.c',
        'Status read against the files present, every combination; write then read returns what was written; failures.'),
    'C20': ('units/json.c',
        'json.c reader and writer: round trip of strings for every byte and context, keys found exactly when present (keys that are prefixes of each other), position after a skipped value, number limits, every truncation of documents rejected without reading past the end (pointer obligations).'),
    'C15': ('units/block.c',
        'The real block incremental filter, block map and block delta on the real IO stack and packs: histories of three backups, every restore of each compared byte by byte with the content at that backup; compression, encryption and checksum as contracts (ghost content). Obligations on what is read (inside what the referenced backup stored, its own bundle) and written (each byte once).'),
    'C19': ('units/io.c',
        'read.c, write.c, group.c, limitRead.c, bufferRead.c, bufferWrite.c, buffer and size filters, io.c on the real packs and buffers, with growing and holding filters given as contracts; every combination of buffer and piece sizes listed.'),
}

FINDINGS = """## Genuine defects found (KNOWN_FINDINGS.md)

All were repaired in `/repo` with `fix:` commits; the checks report them again if they return. No known finding is left unrepaired.

"""

MISSED = {}
