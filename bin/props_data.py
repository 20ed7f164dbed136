prop('C01', 'A file appears under its final name only when complete and durable',
     'A file written atomically to POSIX storage becomes visible under its final name only after every byte given to the writer was '
     'accepted by the file system, flushed to disk when file sync is requested, and the descriptor closed. A successful close means the '
     'data and, when requested, the directory entry are durable; a failure of any step is reported as an error and leaves the final name '
     'untouched unless the file was already complete.',
     ['crash_points', 'fault_sequences', 'configurations'], 'Every combination of write options and every sequence of system call failures and short writes',
     'Tests inject a few failures one at a time; they cannot enumerate failure at every call for every option combination.',
     ['src/storage/posix/write.c', 'src/storage/write.c', 'src/storage/posix/storage.c'],
     [('write to temporary, fsync, close, rename, sync path', 'src/storage/posix/write.c:storageWritePosixClose')],
     'System calls are modelled with POSIX semantics and may fail at every call.')

prop('C03', 'WAL segment names and LSNs are computed exactly',
     'The segment that contains an LSN, the segment after a segment, the segments between two LSNs and the segments of a range are exactly '
     'those PostgreSQL would name, for every timeline, every LSN and every WAL segment size from 1MB to 1GB. An LSN read from text has the '
     'value of its two hexadecimal halves.',
     ['inputs'], 'All 32-bit timelines, all 64-bit LSNs, all legal segment sizes',
     'Tests sample a few segments; carry between the low and high part depends on segment size and position.',
     ['src/command/archive/common.c', 'src/postgres/interface.c', 'src/common/type/convert.c'],
     [('next segment', 'src/command/archive/common.c:walSegmentNext'), ('segment range of an LSN range', 'src/postgres/interface.c:pgLsnRangeToWalSegmentList')],
     'List lengths are bounded to three segments (labelled bounded); single steps are proved for the whole domain.')

prop('C10', 'Encodings of stored and transmitted data are lossless',
     'Base64, base64url, hexadecimal, varint and short-string-id encoding produce the standard encoding of every input, decoding returns '
     'exactly the original data and writes nothing beyond it, and text that is not a well-formed encoding is rejected with a format error '
     'instead of being decoded to something else.',
     ['inputs'], 'All byte strings (bounded length per group for the block codes) and all 64-bit values',
     'Tests sample a few strings; the codes are table driven and every table entry and every partial group matters.',
     ['src/common/encode.c', 'src/common/type/stringId.c', 'src/common/type/convert.c'],
     [('base64/hex', 'src/common/encode.c'), ('string id', 'src/common/type/stringId.c'), ('varint', 'src/common/type/convert.c')],
     'Base64/hex lengths are bounded to two groups plus every partial group; varint and string ids are proved for all values.')

prop('C11', 'Numbers and times are read from text exactly or rejected',
     'A number read from text has exactly the value written there and is rejected when it is malformed or outside the range of its type. '
     'A date and time (with or without time zone offset or fraction) denotes the number of seconds since 1970 that the calendar gives for '
     'every date from 1970 to 9999, and dates or times that do not exist are rejected.',
     ['inputs'], 'All dates from 1970 to 9999, all times of day and offsets; all numbers at the limits of their types',
     'Tests sample a few dates and numbers.',
     ['src/common/type/convert.c', 'src/common/time.c'],
     [('time text', 'src/common/type/convert.c:cvtZToTime'), ('epoch', 'src/common/time.c:epochFromParts')],
     'Text lengths are bounded for arbitrary characters; the calendar is proved for every year by induction over concrete years.')


prop('C02', 'A WAL file is acknowledged only when every repository holds it',
     'Pushing a WAL file succeeds only when every repository holds the complete file, compressed and encrypted as configured, under its '
     'archive id and with its checksum in the name. A segment that is already archived with different content is never overwritten or '
     'accompanied by a second version but reported as an error, a segment of another cluster (version or system id) is refused, and a '
     'failing repository is reported without keeping the file from the other repositories.',
     ['fault_sequences', 'configurations', 'inputs'], 'Every combination of repository failures, existing segments, checks and compression',
     'Tests drive a handful of failures; the acknowledgement depends on every combination of repository states.',
     ['src/command/archive/push/file.c'],
     [('push of one file', 'src/command/archive/push/file.c:archivePushFile')],
     'Bounded: two repositories, a source of two pieces. Storage, IO and filters by contract, each operation may fail.', 'other')

prop('C04', 'A WAL file is recovered exactly as archived or not at all',
     'Fetching an archived file succeeds only when the destination holds exactly the archived data of one source, decrypted and '
     'decompressed. A source that cannot be read or decoded is reported and the next one is used, and the fetch fails only when no source '
     'can be read.',
     ['fault_sequences', 'configurations', 'inputs'], 'Every combination of source failures and of encodings',
     'Tests have one or two sources with one chosen failure.',
     ['src/command/archive/get/file.c'],
     [('fetch of one file', 'src/command/archive/get/file.c:archiveGetFile')],
     'Bounded: three sources of two bytes. Storage, IO and filters by contract.', 'other')

prop('C05', 'Verification calls a stored file valid only when it is',
     'Verification of a stored file reports it valid exactly when it exists and the data it decodes to has the recorded checksum and size; '
     'missing files, other content and other sizes are each reported as such. It never changes the repository.',
     ['inputs', 'configurations', 'fault_sequences'], 'Every content, recorded checksum and size, position in a bundle, and read failure',
     'Tests verify a few intact and a few damaged files.',
     ['src/command/verify/file.c'],
     [('verification of one file', 'src/command/verify/file.c:verifyFile')],
     'Bounded: files of three bytes. Storage, IO and filters by contract.', 'other')

prop('C07', 'A restored file holds exactly what was backed up',
     'Restoring a file succeeds only when the file then has exactly the content recorded in the backup (checksum and size), or zeroes when '
     'it was to be zeroed, with the recorded modification time, whatever was there before; damaged backup data is reported as an error. '
     'Existing files are left alone only when they have the recorded content (delta) or the recorded size and time (force).',
     ['inputs', 'configurations', 'fault_sequences'],
     'Every content before and in the backup, delta, force, bundled, block incremental, compressed, encrypted, every failure',
     'Tests restore a few prepared directories; the decision to keep a file depends on size, time, content and options together.',
     ['src/command/restore/file.c.inc', 'src/command/restore/protocol.c'],
     [('restore of the files of one repository file', 'src/command/restore/file.c.inc:restoreFile')],
     'Bounded: one or two files of up to three bytes. Storage, IO, filters and block delta by contract.', 'other')

prop('C08', 'A backup records exactly what it stored',
     'For each file copied into a backup, the recorded checksum, size, stored size and place in the bundle are those of the data stored, '
     'and that data decodes to the file as it was read. A file is recorded as unchanged and taken from the prior backup only when its '
     'content has the prior checksum and size, missing files are skipped only when that is allowed, and a file that cannot be read or '
     'written fails the backup.',
     ['inputs', 'configurations', 'fault_sequences', 'schedules'],
     'Every content and change of a file between two reads, every failure; bundled, block incremental, compressed, encrypted, resumed',
     'Tests copy prepared files; files changing while they are read and combinations of bundling, resume and delta are sampled at best.',
     ['src/command/backup/file.c.inc', 'src/command/backup/protocol.c'],
     [('copy of the files of one repository file', 'src/command/backup/file.c.inc:backupFile')],
     'Bounded: one or two files of up to three bytes. Storage, IO, filters, page checksum and block incremental by contract.', 'other')

prop('C06', 'Expire removes only what is out of retention; listed backups stay usable',
     'Expire removes exactly the backups outside the configured retention (a count or age of full backups, a count of differential '
     'backups, a requested backup, or the oldest) together with everything that depends on them, and exactly the WAL that is needed by no '
     'backup in archive retention and not to make an older backup consistent. A backup is invalidated only after all backups that depend '
     'on it, then dropped from backup.info, and only then its files and WAL are removed; the last full backup of a cluster is kept, a '
     'failure at any step leaves every listed backup that has a manifest complete, and a dry run changes nothing.',
     ['inputs', 'configurations', 'crash_points'],
     'Repository histories, retention settings and the operation that fails',
     'Tests run prepared histories; what may be removed depends on backup types, dependencies, clusters, timelines and settings together.',
     ['src/command/expire/expire.c', 'src/info/infoBackup.c', 'src/info/infoPg.c'],
     [('expire of one repository', 'src/command/expire/expire.c:cmdExpire'), ('dependents of a backup', 'src/info/infoBackup.c:infoBackupDataDependentList')],
     'Bounded: histories of four to six backups and twelve WAL segments, given concretely; info files and storage by contract.', 'other')

prop('C14', 'A process that acquired a lock is the only one that holds it',
     'A command runs only while it holds the lock of every repository and lock type it needs: a lock counts as acquired only when no other '
     'process holds it (or a process started by the same main process does), whatever other processes do meanwhile, and either all locks '
     'are acquired or none. Only the holder changes or removes a lock file, it removes the file before it releases the lock, the file '
     'names the holder, and a process is reported as running only while it holds the lock.',
     ['schedules', 'fault_sequences', 'configurations'], 'Every interleaving with other processes that acquire and release the same lock',
     'Tests take locks in one process after the other; what other processes do between open and lock is never sampled.',
     ['src/common/lock.c', 'src/command/lock.c'],
     [('acquire', 'src/common/lock.c:lockAcquire'), ('release', 'src/common/lock.c:lockRelease'), ('command locks', 'src/command/lock.c:cmdLockAcquire')],
     'Bounded: other processes take up to two steps while a lock is acquired. System calls, JSON and IO by contract.', 'other')

prop('C22', 'Commands of a stopped stanza do not run',
     'After stop, every command of the stanza (or of any stanza) that checks for it fails with a stop error until start, whatever other '
     'stop files exist; a stop file that cannot be checked or created is an error. stop --force signals, only once new commands are '
     'prevented from starting, each process that holds a lock of that stanza exactly once, and no other process; lock and stop files of '
     'other stanzas are left alone.',
     ['configurations', 'fault_sequences', 'histories'], 'Stop files, lock files and their holders, stanza or all, force, the operation that fails',
     'Tests stop one stanza with one lock file; similar stanza names, several locks of one process and failures are sampled at best.',
     ['src/command/control/common.c', 'src/command/control/stop.c', 'src/command/control/start.c'],
     [('test', 'src/command/control/common.c:lockStopTest'), ('stop', 'src/command/control/stop.c:cmdStop'), ('start', 'src/command/control/start.c:cmdStart')],
     'Bounded: five lock files in the states listed in the unit, given concretely. Storage and lock reading by contract.', 'other')

prop('C23', 'The result of an asynchronous command is reported for its own segment',
     'The status the asynchronous process recorded for a segment (ok, with a warning, or an error with its code and message) is exactly '
     'what is reported to PostgreSQL for that segment; an error recorded for all segments is reported only where there is no ok for the '
     'segment, a segment without a recorded status is never reported as archived, and a status that cannot be read is an error.',
     ['inputs', 'histories', 'crash_points'], 'Every combination of status files, of their content and of push and get',
     'Tests read a few status files; combinations left by a crash or by another process are not sampled.',
     ['src/command/archive/common.c'],
     [('read', 'src/command/archive/common.c:archiveAsyncStatus'), ('write', 'src/command/archive/common.c:archiveAsyncStatusErrorWrite')],
     'Bounded: the status files listed in the unit, given concretely. Storage by contract.', 'other')

prop('C20', 'JSON is read as it was written and damage is never accepted',
     'Every string and number written as JSON is read back with the same value; a key is found exactly when it is there and its value is '
     'its own; a value that is skipped leaves the next one to be read; keys are written in order or not at all. Text that is malformed or '
     'cut off anywhere is a format error, and nothing beyond its end is read.',
     ['inputs'], 'All strings of one byte in every context, sets of keys that are prefixes of each other, nested values, every truncation',
     'Tests read and write a few documents.',
     ['src/common/type/json.c'],
     [('read', 'src/common/type/json.c:jsonReadStr'), ('keys', 'src/common/type/json.c:jsonReadKeyExpect'), ('skip', 'src/common/type/json.c:jsonReadSkip'),
      ('write', 'src/common/type/json.c:jsonWriteStr')],
     'Bounded: the documents listed in the unit, given concretely. Lists by contract.', 'other')

prop('C15', 'A file restored from block incremental backups is the file backed up',
     'Over any sequence of backups of a file in which blocks change, the file grows or shrinks, stored with or without compression and '
     'encryption, in or out of a bundle, each backup can be restored: every byte is the one the file had when that backup was made, '
     'whatever the file being restored over holds, and nothing is read from outside of what the backup referenced stored. A backup '
     'stores a block map exactly when something changed.',
     ['inputs', 'histories', 'configurations'], 'Histories of three backups: blocks changed by each, size changes, super block size, compression, encryption, bundling, buffer size',
     'Tests go through a few histories with fixed sizes; super blocks shared by backups and blocks that are spread over them are sampled.',
     ['src/command/backup/blockIncr.c', 'src/command/backup/blockMap.c', 'src/command/restore/blockDelta.c'],
     [('backup', 'src/command/backup/blockIncr.c:blockIncrProcess'), ('write', 'src/command/backup/blockMap.c:blockMapWrite'),
      ('read', 'src/command/backup/blockMap.c:blockMapNewRead'), ('restore', 'src/command/restore/blockDelta.c:blockDeltaNext')],
     'Bounded: the histories listed in the unit, given concretely. Compression, encryption, checksum and lists by contract.', 'other')

prop('C19', 'No byte is lost, added or reordered by the IO layer',
     'What is read from or written to a stream, through any chain of filters that grow, hold back or pass on data, and with any sizes of '
     'buffers and of pieces, arrives completely and in order; a read gives less than was asked for only at the end; a limited read never '
     'takes more than its limit and leaves the rest to be read; lines, variable-length integers and copies are exact.',
     ['inputs', 'configurations'], 'Buffer sizes, sizes of pieces read and written, chains of filters, limits',
     'Tests use a few buffer sizes and filter chains; the boundaries meet in combinations that are not sampled.',
     ['src/common/io/read.c', 'src/common/io/write.c', 'src/common/io/filter/group.c', 'src/common/io/limitRead.c', 'src/common/io/io.c'],
     [('read', 'src/common/io/read.c:ioReadInternal'), ('write', 'src/common/io/write.c:ioWrite'),
      ('filter', 'src/common/io/filter/group.c:ioFilterGroupProcess'), ('limit', 'src/common/io/limitRead.c:ioLimitRead')],
     'Bounded: contents of up to five bytes with the sizes listed in the unit, given concretely. Lists by contract.', 'other')

na('C24', 'A restored cluster equals the cluster backed up',
   'A cluster restored from any backup set, with the WAL archived since, starts and holds the data the source had at the recovery target.',
   ['histories', 'configurations'], 'Every history of a PostgreSQL cluster, every backup type and recovery target',
   'Tests restore a handful of clusters.',
   ['src/command/backup/backup.c', 'src/command/restore/restore.c'],
   [('backup', 'src/command/backup/backup.c:cmdBackup'), ('restore', 'src/command/restore/restore.c:cmdRestore')],
   'Depends on PostgreSQL itself (redo, backup_label, concurrent writes of its processes), for which no contract can be discharged here; the parts that are code of pgBackRest are C02, C04, C07, C08 and C15.')

na('C25', 'Parallel jobs end, each done once',
   'With any number of processes, local or remote, every job of a command is run and its result taken once, and the command ends whatever process fails at whatever point.',
   ['schedules', 'crash_points'], 'Every interleaving of the processes and every point of failure',
   'Tests run one interleaving.',
   ['src/protocol/parallel.c', 'src/protocol/client.c', 'src/protocol/server.c'],
   [('jobs', 'src/protocol/parallel.c:protocolParallelProcess')],
   'Liveness and interleaving of several processes over pipes: CBMC contracts decide sequential functions; the order of events of select() and of other processes would have to be a model of them.')

na('C26', 'A backup with encryption discloses nothing without the passphrase',
   'Nothing stored in an encrypted repository discloses or lets anyone alter what was backed up undetected without the passphrase.',
   ['inputs'], 'Every content and every attacker',
   'Secrecy is not a matter of examples.',
   ['src/common/crypto/cipherBlock.c'],
   [('cipher', 'src/common/crypto/cipherBlock.c:cipherBlockProcess')],
   'Rests on OpenSSL and on computational assumptions that a deductive verifier of C functions cannot discharge; that every file is written with the cipher configured is part of C02, C07 and C08.')

na('C27', 'An object store holds an object completely or not at all',
   'An upload to S3, GCS, Azure or SFTP that fails or is cut off at any point leaves no object that is taken for a complete one.',
   ['fault_sequences', 'crash_points'], 'Every failure of every request',
   'Tests use scripted servers.',
   ['src/storage/s3/write.c', 'src/storage/gcs/write.c', 'src/storage/azure/write.c', 'src/storage/sftp/write.c'],
   [('s3', 'src/storage/s3/write.c:storageWriteS3Close'), ('gcs', 'src/storage/gcs/write.c:storageWriteGcsClose')],
   'The atomicity is promised by the remote service, not by a function here, and the HTTP, XML and TLS layers below are beyond the extraction built so far; the POSIX driver is C01.')
