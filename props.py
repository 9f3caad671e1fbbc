P('C01', 'No manifest makes the library panic',
  'Whatever bytes it holds, reading a manifest returns it or an error, and every question about the manifest or its volumes, with any number or path, is answered without a panic.',
  ['inputs', 'fault_sequences'], 'every sequence of bytes, every error of the reader, every argument of every public function of manifests',
  'the tests read six well formed manifests and a few broken ones; numbers at the limits, words cut within an escape, or empty lines are not tried',
  [M, R], [('parser', M + ' ManifestParser, ManifestChunk'), ('search of volumes', M + ' Manifest::first_volume_of_path, last_volume_of_path'), ('order of paths', R + ' RawPath')],
  claim=('modular abstract interpretation of MIR with linear inequalities: assertions, indices, unwraps, arithmetic and documented panics are obligations', TRUST + ' Exhaustion of memory and panics of the reader of the user are left out.'))
P('C02', 'No listing of file names makes the library panic',
  'Whatever names a directory holds, in whatever order, the collections are computed without a panic, and every question about their chains, sets and files is answered without one.',
  ['inputs'], 'every list of strings as file names, every argument of every public function of collections',
  'the tests use listings that duplicity wrote; numbers of many digits, sets without their full part, or sets of equal times are not tried',
  [C, N, T], [('collections', C + ' Collections::from_filenames and accessors'), ('names', N + ' FileNameParser')],
  claim=('modular abstract interpretation of MIR with linear inequalities: assertions, indices, unwraps, arithmetic and documented panics are obligations', TRUST + ' Exhaustion of memory is left out, and so is making a chain by hand from a set that is not full, which is documented to panic.'))
P('C03', 'No signature archive makes the library panic',
  'Whatever bytes the signature files hold, reading them returns the chain or an error, and listing the snapshots, their entries and every attribute of them is answered without a panic.',
  ['inputs', 'fault_sequences'], 'every content and error of every file of a chain, every number of files, every position of the iterators',
  'the tests read three chains that duplicity wrote; truncated members, absurd sizes, or headers that are not text are not tried',
  [S, R], [('reading of archives', S + ' Chain::from_sigchain, add_sigfile'), ('iterators', S + ' Snapshots, SnapshotEntries'), ('attributes', S + ' Entry')],
  claim=('modular abstract interpretation of MIR with linear inequalities: assertions, indices, unwraps, arithmetic and documented panics are obligations', TRUST + ' Exhaustion of memory is left out; the tar and flate2 crates are trusted not to panic.'))
P('C04', 'No order of requests makes a backup panic',
  'Snapshots, their entries and manifests can be asked for in any order, any number of times and while earlier answers are still held, whether or not the backend fails and files are missing, and no request panics.',
  ['histories', 'schedules', 'fault_sequences'], 'every shape of collections of up to two chains of up to three sets, with or without signatures, every outcome of the backend, and two requests of each kind in every order, with the first answer held',
  'the tests drop every answer before the next request, and their backend never fails',
  [L], [('snapshots', L + ' Snapshots, SnapshotsIter'), ('kept answers', L + ' Backup::_signature_chain, _manifest')],
  claim=('abstract interpretation of MIR with the borrow state of cells as a typestate', TRUST + ' Shapes of the given size; requests are of one thread, as the types are not shareable.'))
P('C05', 'Nothing that is displayed, and no text read as a time, panics',
  'Displaying a time, an entry, a listing or the collections never panics, whatever their values and however wide the numbers and strings, and reading any text as a time gives a time or nothing.',
  ['inputs'], 'every text, time and permission bits; every entry with each field present or missing; listings of up to three entries; collections of listings of up to four files',
  'the tests display values of everyday size',
  [T, S, C], [('times', T + ' PrettyDisplay, parse_time_str'), ('entries', S + ' Display for Entry, ModeDisplay'), ('collections', C + ' Display for Collections')],
  claim=('abstract interpretation of MIR with linear inequalities: assertions, indices, unwraps, arithmetic and documented panics are obligations', TRUST + ' Errors of the formatter of the caller are returned, its own panics are left out.'))
P('C06', 'Every operation of the library comes to an end',
  'Every loop of the library ends after finitely many rounds, whatever manifest, signature archive, file name or request it is given, valid or not, and no function calls itself. '
  'A loop over what a reader or a backend gives ends when that does.',
  ['inputs', 'histories'], 'every function with a loop, for arbitrary arguments and arbitrary results of what it calls',
  'no test feeds input that a loop fails to move past, such as blanks, lone backslashes or early ends of files',
  [M, S, L, C, N, B], [('words and escapes', M + ' WordIter::next, unescape'), ('merging of signatures', S + ' Chain::add_sigtar_to_snapshots'), ('listing of snapshots', S + ' SnapshotEntries::next'), ('matching of sets', C + ' compute_backup_chains, compute_signature_chains')],
  claim=('ranking functions over the loops of MIR, found by abstract interpretation with linear inequalities; absence of cycles in the resolved call graph', TRUST + ' Readers, listings and archives are taken as finite, and the loops of the standard library over finite iterators as ending. Any recursion is a violation.'))
P('C12', 'A file joins exactly the backup set its kind and times name',
  'A file belongs to a full backup set exactly when it is of a full kind with the time of the set, and to an incremental set exactly when it is of an incremental kind with both its start and end time. '
  'Joining records a volume under its own number, or the manifest name, changes nothing else of the set, and a file that does not belong changes nothing at all.',
  ['inputs', 'histories'], 'every set that file names can produce, and every further file name of each of the six kinds, with arbitrary times, numbers and flags',
  'the tests build sets out of a handful of well formed listings; sets that share one time, or files in unusual order, are never built',
  [C], [('membership test', C + ' BackupSet::is_same_set'), ('creation of a set', C + ' BackupSet::new'), ('joining a set', C + ' BackupSet::add_filename')],
  claim=(CASES, TRUST + ' Decided per function for every kind of set and file, times and numbers being arbitrary.'))
P('C14', 'Increments are linked to the chain they continue, the longer one wins',
  'A chain starts as one full set and its end is the time of its last set; an incremental set is taken exactly when it starts at the end of the chain, or when it starts with the last increment and reaches further, in which case it replaces that one. '
  'A set that is not taken leaves the chain unchanged; signature chains are extended only by incremental signatures, whose time becomes the end of the chain.',
  ['inputs', 'histories'], 'every chain and every set or signature file offered to it, with arbitrary times',
  'the tests link complete listings of three snapshots; replaced increments followed by others, or refused ones, do not occur',
  [C], [('linking of backup sets', C + ' BackupChain::add_inc'), ('linking of signatures', C + ' SignatureChain::add_new_sig')],
  claim=(CASES, TRUST))
P('C11', 'File names are recognised as duplicity writes them',
  'A file name counts as a volume, manifest or signature of a full or incremental backup exactly when it has the form that duplicity gives such files, without regard to case and with a readable time and number; '
  'its times, volume number and partial mark are those written in the name. It is compressed exactly when it ends in .gz or .z, and encrypted exactly when it ends in .gpg or .g.',
  ['inputs'], 'every string as file name',
  'the tests parse some ten names; unusual suffixes, names of many digits, or names with parts repeated do not occur',
  [N], [('patterns of the forms', N + ' FileNameParser::new'), ('reading of a name', N + ' FileNameParser::parse')],
  claim=('decision of regular language and capture equivalence for the patterns, with dataflow analysis of MIR from groups to results',
         TRUST + ' The semantics of the regex crate (leftmost-first, Unicode classes) is reimplemented on automata; times are read by the time function, which is opaque here.'))
P('C13', 'Collections hold the sets and chains that the file names imply',
  'Whatever the order of the listing, the files of one set are brought together, names that are not text or of no backup file are ignored, every full set starts a chain, and the increments are linked in order of their end, each to the first chain it continues; chains are listed by their end. '
  'Full signatures start the signature chains, listed by start, and incremental signatures are appended in order of their start, each to the first chain that ends where it starts; each tells the time, compression and encryption of its name. The number of snapshots is the number of the linked sets.',
  ['inputs', 'histories'], 'listings of up to four files (signatures: up to five) of every kind, in every order and with every order of their times; sets that end at the same time have no defined order',
  'the tests use a few complete listings in the order of names',
  [C], [('collections of a listing', C + ' Collections::from_filenames'), ('sets', C + ' compute_backup_sets'), ('chains', C + ' compute_backup_chains, compute_signature_chains')],
  claim=('abstract interpretation of MIR with a total order domain: comparisons of times become linear constraints over ranks, every consistent order is followed', TRUST + ' Listings of the given shapes; the times, names, numbers and flags are arbitrary.'))
P('C23', 'Entry types and permission bits are shown as ls does',
  'Every type byte maps to the entry type the archive format gives it, unknown bytes are kept, and each type is displayed with its letter. '
  'The permissions are displayed as the nine rwx letters of ls for the low twelve bits of the mode, whatever its other bits are, and as a question mark when there is no mode.',
  ['inputs'], 'all 256 type bytes, all 4096 values of the permission bits, all values of the other bits of the mode',
  'the tests display ten modes and four entry types',
  [S], [('entry type table', S + ' EntryType::new, Display'), ('permission letters', S + ' ModeDisplay')],
  claim=('exhaustive partition of the input range with abstract interpretation of MIR', TRUST + ' The low twelve bits are enumerated, the others are symbolic.'))
TEMPLATES = 'abstract interpretation of MIR over line templates: bytes are linear terms, every question about them splits the state'
P('C20', 'A manifest is read as written, or refused with the reason',
  'Reading a manifest gives the host name, the local directory, and for every volume the start and end path with their block numbers, the hash type and the hash that its lines contain, under the number of the volume; there is no volume zero and none past the last. '
  'It is refused when a line is missing, cut short or has another keyword, when a number, path, hash or hash type is missing or no number, when text is not UTF-8, when volumes are not numbered 1, 2, 3 and so on, and when the reader fails; the error says which of these it was.',
  ['inputs', 'fault_sequences'], 'manifests of up to three volumes (thorough: eight) whose words are arbitrary bytes of the lengths tried (thorough: up to eight), in every layout of lines, gaps and line ends listed; every single line left out, blank, truncated, or with an arbitrary keyword; a reader failing at every line',
  'the tests read two manifests that duplicity wrote',
  [M], [('reading', M + ' Manifest::parse, ManifestParser'), ('accessors', M + ' Manifest, Volume')],
  claim=(TEMPLATES, TRUST + ' What an empty line between volumes, or further words on a line, mean is left open. UTF-8 validity and the value of a number are opaque facts about the bytes.'))
P('C21', 'The volumes that hold a path are found',
  'For a manifest whose volumes follow each other in path order, a file split over volumes being continued by block number, the first and last volume of a path are the first and the last volume whose range of paths contains it, also when it is split over several volumes. '
  'There is none exactly when no volume contains it. Paths are ordered by their components.',
  ['inputs'], 'every such manifest of up to three volumes (thorough: five), with arbitrary paths and block numbers, and every position of the path that is looked for',
  'the tests look for a dozen paths in two manifests, of which one has a split file',
  [M], [('first volume', M + ' Manifest::first_volume_of_path'), ('last volume', M + ' Manifest::last_volume_of_path')],
  claim=('abstract interpretation of MIR with a total order domain: comparisons of paths become linear constraints over ranks, the search splits on every consistent answer', TRUST + ' The binary search of the standard library is summarised: it finds one of the matching elements of a sequence that is sorted for the probe.'))
P('C22', 'Quoted and escaped words and hashes of a manifest are decoded',
  'A word of a manifest stands for its bytes without the quotes around it, with every \\xNN replaced by the byte that the two hexadecimal digits name, and any other backslash left out. '
  'A hash is the bytes that its pairs of digits name. Every digit has its value, any other character in its place counts as zero.',
  ['inputs'], 'words of up to six (thorough: eight) arbitrary bytes as directory, of four as host name and paths, hashes of up to four (thorough: five) arbitrary characters; all 256 values of every byte',
  'the tests read two hashes and one escaped path',
  [M], [('words', M + ' unescape'), ('hashes', M + ' from_hex'), ('digit value', M + ' nibble')],
  claim=(TEMPLATES, TRUST + ' Words that start with a quote and do not end with one are left out.'))
P('C19', 'A member of a signature archive is dispatched by the prefix of its name',
  'A member of a signature archive counts as a full snapshot, a signature or a deletion exactly when its name starts with snapshot/, signature/ or deleted/, '
  'and the path it stands for is what follows the prefix, without one trailing separator; every other member is ignored.',
  ['inputs'], 'every member name, of any length and content',
  'the tests read archives whose members all have one of the three prefixes followed by ordinary names',
  [S], [('dispatch of member names', S + ' parse_snapshot_path')],
  claim=(CASES + ', with congruence of array elements for the search loop', TRUST + ' Names are sequences of unknown length and content; both directions (accepted implies prefix, prefix implies accepted with the right path) are decided.'))
P('C25', 'Size hints bracket the size of the signed file by whole blocks',
  'A full snapshot member has exactly its own size as hint. A signature with a valid header has as upper bound the block length times the number of checksums that follow the header, and as lower bound one block less plus one byte, or zero when that upper bound is no more than one block. '
  'Deleted members, signatures with a wrong or truncated header, and sizes that do not fit have no hint.',
  ['inputs'], 'every kind of member, every header and every size',
  'the tests compare the hints of three small files',
  [S], [('size hints', S + ' compute_size_hint')],
  claim=(CASES, TRUST + ' Whether the true size of the file lies in the range depends on the archive being a faithful librsync signature, which is not in the source.'))
P('C16', 'A snapshot lists the last version of every path up to it',
  'The listing of a snapshot has, in the order in which the chain records the paths, one entry for every path whose last recorded version up to that snapshot is not a deletion. '
  'The entry has the attributes of that version, the path, and the owner names of its chain; versions of later snapshots, deleted paths, and paths that came later are not listed, and the listing ends after the last visible path.',
  ['inputs', 'histories'], 'every recorded history of up to three paths with up to three versions each, and of paths with any number of versions of which the last three are looked at, with arbitrary snapshot numbers',
  'the tests list the three snapshots of one backup of a dozen files',
  [S], [('start of the listing', S + ' Snapshot::files'), ('next visible entry', S + ' SnapshotEntries::next')],
  claim=(CASES, TRUST + ' The snapshot numbers of the versions of a path and of the snapshot asked for are arbitrary, versions being recorded in order.'))
P('C17', 'Archives are merged path by path',
  'Reading the archives of a signature chain in order gives one snapshot per archive. A snapshot lists every path for which its own or an earlier archive has a snapshot or signature member that no later archive up to that snapshot replaces or deletes, with the attributes of that member. '
  'No path is listed twice, paths are listed in the order of their components whatever the order in which archives bring them in, and members that are ignored or cannot be read do not disturb the others.',
  ['inputs', 'histories'], 'every relative order (equal paths included) of the paths of up to three archives with up to three members of every kind, names of any length and content',
  'the tests read archives whose paths have one relative order; a deletion before a new path, or names that sort differently as bytes and as components, do not occur',
  [S], [('reading a chain', S + ' Chain::from_sigchain'), ('merge of an archive', S + ' Chain::add_sigtar_to_snapshots'), ('listing', S + ' SnapshotEntries::next')],
  claim=('abstract interpretation of MIR with a total order domain: comparisons of paths become linear constraints over ranks, every consistent order is followed', TRUST + ' The members of an archive are in component order, which duplicity guarantees; at most three archives with five paths.'))
P('C18', 'An entry shows the attributes of its own header',
  'User and group ids, mode, modification time, entry type, size hint, path and link target of a listed entry are the ones of the header of its member in the archive, and the owner names those that the archive gives for its ids; what the header lacks, or has in an unreadable form, is reported as missing, and the modification time as zero.',
  ['inputs'], 'every header: each field readable or not, present or not, with arbitrary values',
  'the tests compare entries of well formed archives, where all fields are present',
  [S], [('attributes of a member', S + ' PathInfo'), ('attributes of an entry', S + ' Entry')],
  claim=('dataflow (value provenance) by abstract interpretation of MIR with partition of the input', TRUST + ' The tar crate is trusted to decode headers.'))
P('C15', 'The snapshots of a backup are its sets in order, and list their own signature',
  'Iterating over a backup gives one snapshot for the full set and then each increment of every chain, in the order of the collections, with the time, kind and number of volumes of its set. '
  'Its entries are those of the same position in the signature chain that starts at the time of its backup chain; that position is the number of the archive, full signature first, decompressed exactly when its file is compressed. Its manifest is the one parsed from the manifest file of its set.',
  ['inputs', 'histories'], 'collections of up to three chains with up to two increments and up to two signature chains with arbitrary times; signature chains of up to three archives',
  'the tests use two complete backups; several chains, missing signatures and mixed requests do not occur',
  [L, S], [('navigation', L + ' SnapshotsIter::next'), ('entries of a snapshot', L + ' Snapshot::entries, SnapshotEntries::as_signature'), ('numbering of archives', S + ' Chain::from_sigchain, add_sigfile')],
  claim=(CASES, TRUST + ' Decided for the listed shapes of collections; all times, names and contents are arbitrary.'))
P('C08', 'Only the files a request needs are opened, by their listed name',
  'Making a backup lists the files of the backend once and opens none; navigating snapshots and asking for their times, kinds and volumes opens none. '
  'Entries open the files of one signature chain, each once, by the name recorded for it and in order; a manifest opens the manifest file of its own set; nothing else is opened, and always in the backend that was given.',
  ['inputs', 'histories'], 'every request on every shape of collections of C15, in every order of two requests',
  'the tests look at results, never at what was opened',
  [L, S], [('listing', L + ' Backup::new'), ('signatures', S + ' Chain::from_sigchain'), ('manifests', L + ' Backup::_manifest')],
  claim=('effect analysis with provenance by abstract interpretation of MIR', TRUST + ' Decided for the listed shapes of collections.'))
P('C09', 'What was read is kept, failures are not',
  'The signatures of a chain are read at most once for all its snapshots, and the manifest of a snapshot is opened and parsed at most once, also while earlier results are still held; after a failure the next request reads again, and the result for one chain or set is never given for another.',
  ['histories'], 'every order of two requests on the shapes of C15, each read succeeding or failing',
  'the tests ask every snapshot once',
  [L], [('kept signature chains', L + ' Backup::_signature_chain'), ('kept manifests', L + ' Backup::_manifest')],
  claim=('typestate analysis of the cells by abstract interpretation of MIR', TRUST + ' Sequences of two requests; longer ones follow as a cell is either empty or filled.'))
P('C10', 'Every error reaches the caller',
  'An error while listing the files, opening or parsing a manifest, opening a signature file or reading its archive is returned by the operation that needed it, as the first error that occurred, and nothing further is read; '
  'missing signatures are reported as not found, and a snapshot that its signature chain does not reach is an error. An error of a formatter is returned by everything that is displayed to it.',
  ['fault_sequences', 'inputs'], 'every combination of outcomes of the operations of the backend, on the shapes of C15',
  'no test has a failing backend',
  [L, S], [('facade', L + ' Backup::new, _signature_chain, _manifest'), ('signature files', S + ' Chain::from_sigchain')],
  claim=('dataflow of error values by abstract interpretation of MIR', TRUST + ' Errors within a member of an archive are skipped by design.'))
P('C24', 'The iterator over the snapshots of a chain keeps its promises',
  'At every position, including the end, next gives the snapshot at the position and moves on by one, nth(n) gives what n+1 calls of next give last, and len and size_hint are exactly the number of snapshots still to come.',
  ['inputs', 'histories'], 'every number of snapshots, every position and every n',
  'the tests call len and nth on one chain of three snapshots',
  [S], [('iterator', S + ' Snapshots')],
  claim=(CASES, TRUST))

P('C26', 'Times are read as UTC and shown in the asked zone',
  'A text is read as a time exactly when it has the form of year, month, day, t, hour, minute, second and zone, and is the instant that this names. '
  'A time is shown in the local zone or in UTC as asked: month and day with hour and minute when it falls in the current year, and with the year otherwise; times outside the years 1 to 9999 are shown as the nearest one of them.',
  ['inputs', 'configurations'], 'every text, every time and every current year',
  'the tests show a few times of this and of one other year, none out of range',
  [T], [('reading of times', T + ' parse_time_str'), ('display of times', T + ' PrettyDisplay')],
  claim=('dataflow by abstract interpretation of MIR with partition of the range of times', TRUST + ' The time crate is trusted to follow the format it is given; the current year is taken from UTC.'))
P('C28', 'A displayed listing shows every entry once, with what the entry says',
  'The line of an entry is its type and permissions, owner, group, size hint, local time and path, separated by tabs, a question mark standing for what is missing and for a path that is not text, and a dot for the root. '
  'A displayed listing is the lines of all its entries, in order, aligned as one table; an error of the formatter is returned.',
  ['inputs', 'fault_sequences'], 'every entry with each field present or missing; listings of up to three entries (thorough: six), with every write failing or not',
  'the tests compare the lines of a few entries that have all fields',
  [S], [('line of an entry', S + ' Display for Entry'), ('table', S + ' Display for SnapshotEntriesDisplay'), ('entries of a snapshot', L + ' Display for SnapshotEntries')],
  claim=('dataflow of the written pieces by abstract interpretation of MIR', TRUST + ' The tabwriter crate is trusted to align columns and keep the text of cells.'))
P('C29', 'The summary of the collections shows every chain and set with its own numbers',
  'The displayed collections show for each chain, in order, its start and end, its number of sets and of volumes, and then for the full set and each increment in order its kind, end and number of volumes, each on a line of its own and under its label. '
  'A displayed signature chain shows its start and end and then the names of its files in order, each on a line.',
  ['inputs', 'histories'], 'collections of listings of up to four files of every kind, in every order of their times',
  'the tests display the collections of one listing',
  [C], [('summary of the collections', C + ' Display for Collections, BackupChain, BackupSet'), ('summary of signatures', C + ' Display for SignatureChain')],
  claim=('dataflow of the written values by abstract interpretation of MIR with a total order domain', TRUST + ' Words, values and ends of lines are judged, not the widths of columns.'))

P('C07', 'The library changes nothing outside of itself',
  'Whatever is asked of it, the library creates, changes and removes no file, starts no process, uses no network, changes neither environment, working directory nor time zone of the process, and writes nothing to its output. '
  'Files are opened for reading only, and archives are never unpacked.',
  ['programs', 'inputs'], 'every function of the library, reachable or not, whatever its arguments',
  'no test looks at what else happened',
  [L, S, M, C, N, R, T, B], [('opening of files', B + ' LocalBackend::open_file'), ('reading of archives', S + ' Chain::add_sigfile')],
  claim=('effect analysis over the resolved calls of MIR: a function whose effects are not known to be reads is a violation', TRUST + ' Backends of the user and the libraries that are called are trusted for the functions named to have the documented effects.'))
P('C30', 'The local backend lists its directory and opens the named file in it',
  'Listing a local backend gives the names of exactly the entries of its directory that can be read, each once and in order, or the error of the system; making the backend asks nothing. '
  'Opening a file opens exactly the named one below that directory, whatever its bytes, and gives it or the error of the system.',
  ['inputs', 'fault_sequences'], 'every directory name, file name and outcome of the system calls; directories of up to three entries (thorough: six), each readable or not',
  'the test lists one directory, whose names are plain text',
  [B], [('listing', B + ' LocalBackend::file_names, FileNameIterator::next'), ('opening', B + ' LocalBackend::open_file')],
  claim=('dataflow by abstract interpretation of MIR, with the calls of the file system recorded', TRUST + ' Joining paths is taken as one operation of the standard library.'))

P('C31', 'No safe use of the library touches invalid memory',
  'Whatever a program asks of the library, and whatever its backend and its files hold, the library never reads or writes memory that is not its own, freed or not initialised, never makes a text that is not UTF-8, and never shares unsynchronised memory between threads. '
  'It leaves nothing of this to its own care: every step of its code is one that the compiler checks.',
  ['programs', 'inputs', 'schedules'], 'every item and body of the library, reachable or not',
  'a test passes by luck when memory is misused',
  [L, S, M, C, N, R, T, B], [('raw paths', R + ' RawPath::from_bytes, as_path'), ('texts of manifests', M + ' ManifestParser::read_param_str')],
  claim=('query over the type-checked program for unsafe blocks, functions, traits, implementations, foreign items and exported symbols', 'The compiler, the standard library and the libraries that are called are trusted to be sound.'))
P('C32', 'What is read can be shared between threads and kept',
  'Collections, chains, manifests, entries, errors and the local backend can be shared between threads and a backup can be given to another thread when its backend can. '
  'Snapshots, manifests, entries and the names in them live as long as the backup or chain they were read from, however they were reached, and many can be alive at once. '
  'Any backend, any list of names and any buffered input is taken.',
  ['programs', 'schedules'], 'every program that uses the values in these ways, by one general witness for each way',
  'the tests use one thread and keep nothing',
  [L, S, M, C, B], [('requests', L + ' Backup, Snapshot, ManifestRef'), ('entries', S + ' Chain, Entry'), ('collections', C + ' Collections'), ('manifests', M + ' Manifest')],
  claim=('type-level witnesses: generic programs that the type and borrow checker must accept, with control programs that it must refuse', 'The witnesses stand for the uses they are general in; uses of other shapes are not judged.'))
P('C33', 'The text of a manifest error names its kind and what is wrong',
  'The text of an error of a manifest is told apart from those of the other kinds, and shows the keyword that is missing, the number of the volume that is out of order, or the error that lies below, whatever these are. '
  'An error of the formatter is returned.',
  ['inputs', 'fault_sequences'], 'every kind of error with any value in it, with every write failing or not',
  'no test displays an error',
  [M], [('text of errors', M + ' Display for ParseError')],
  claim=('dataflow of the written pieces by abstract interpretation of MIR', TRUST + ' The exact words are not judged, only what they have to name.'))
P('C34', 'Nothing depends on how a stream splits its bytes',
  'What the library reads from a file depends on the bytes of the file only, not on how many of them its stream gives at once, as long as it gives at least one before the end.',
  ['schedules', 'inputs', 'fault_sequences'], 'every place of the library that reads from a stream',
  'the tests read local files, which give all that is asked for',
  [S, M, L], [('lines of manifests', M + ' ManifestParser::read_line'), ('headers of signatures', S + ' compute_size_hint_signature')],
  claim=('query over the resolved calls of MIR with dataflow of the reported sizes to the exits of loops', 'The buffered readers of the standard library and the flate2, tar and byteorder crates are trusted to read on.'))
P('C35', 'The same files give the same answers',
  'What the library computes depends on nothing but what it is given: not on the clock, the time zone, the environment, addresses, the order of hash tables, or earlier uses of the library. '
  'Only what is displayed of times looks at the current year and the zone.',
  ['configurations', 'histories', 'programs'], 'every function of the library, reachable or not, and every source of values it names',
  'the tests run once, in one environment',
  [L, S, M, C, N, R, T, B], [('display of times', T + ' PrettyDisplay, into_local_display'), ('names of owners', S + ' UserGroupMap')],
  claim=('effect analysis over the resolved calls of MIR, with the functions that reach each source', 'The libraries that are called are trusted to be functions of their arguments, except those listed as sources.'))

# ---------------------------------------------------------------- what this family cannot decide
P('C36', 'Listings equal those of duplicity itself',
  'For every backup that duplicity made, the snapshots, entries and attributes are those that duplicity lists for it.',
  ['inputs', 'histories'], 'every backup', 'the tests compare a few backups made once',
  [L, S], [('listing', L + ' Snapshot::entries')],
  na='the other side of the comparison is another program, whose behaviour is not in this source; the rules of its formats that are known are decided in the other properties')
P('C37', 'The true size of a file lies within its size hint',
  'For every signature that duplicity wrote for a file, the size of that file lies between the two ends of its hint.',
  ['inputs'], 'every file and signature', 'the tests compare a few files',
  [S], [('size hints', S + ' compute_size_hint_signature')],
  na='depends on how librsync cut the file when it was signed, which is not in this source; that the hint follows the documented formula is decided in C25')
P('C38', 'Columns of a displayed listing are aligned',
  'In a displayed listing every column begins at the same place in all lines, whatever the texts in it.',
  ['inputs'], 'every listing', 'the tests compare a few lines',
  [S], [('table', S + ' Display for SnapshotEntriesDisplay')],
  na='the widths are computed by the tabwriter crate from the texts at run time; that all lines go through one table, in order, is decided in C28')
P('C39', 'Reading takes time linear in the size of the files',
  'Listing a snapshot takes time and calls of the backend linear in the size of the signatures that it needs.',
  ['inputs'], 'every backup', 'the tests measure nothing',
  [S], [('merging', S + ' Chain::add_sigtar_to_snapshots')],
  na='bounds on running time quantify over the cost of library operations on runtime sizes; that every loop ends is decided in C06, and which files are opened in C08')
