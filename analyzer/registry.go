package main

import "strings"

// reg registers one rule for several properties ("C01 C05").
func reg(props, name, desc string, run func(*Ctx)) {
	for _, p := range strings.Fields(props) {
		register(p, name, desc, run)
	}
}

func init() {
	reg("C10 C11", "ops-bracket", "Every operation closes the writer and the reader it opened exactly once on every path (success, error, early return), never uses the tape outside that bracket and never panics.", opsBracket)
	reg("C10 C11", "ops-locks", "Operations take and release their locks in balance on every path and use the drive and the index only while holding them.", opsLocks)
	reg("C01 C04 C05 C06 C16", "ops-trailer", "A successful operation that wrote headers terminates the archive after the last content and flushes it before closing; one that wrote none appends nothing.", opsTrailer)
	reg("C05", "ops-writer-flow", "The write drive is only ever used as the destination of the operation's tar stream.", opsWriterFlow)
	reg("C01 C04 C16", "ops-index", "What an operation wrote is indexed from the last indexed position (read before writing), with the configured pipeline and the caller's overwrite and initializing flags.", opsIndexCall)
	reg("C01 C02 C08", "ops-callbacks", "While indexing its own records an operation substitutes exactly the headers it wrote, in order, and rejects any other record.", opsCallbacks)
	reg("C08", "ops-sign", "Every header written is signed with the configured format and identity before it is encrypted.", opsSign)
	reg("C01 C02 C03 C04 C05 C06 C07 C08 C17", "ops-headers", "A record made from a file carries its name, kind, owner, times and link target unchanged, in PAX format; with content it carries the measured length, original length, signature and suffix, and the same content follows through the same pipeline.", opsHeaders)
	reg("C03 C05 C02", "ops-content", "Whether a record announces content follows from the file's kind, its size and the caller's flags.", opsContent)
	reg("C01 C02 C12", "ops-rows", "Delete and Move write exactly one record for the named entry and for each entry beneath it, under their stored names, without content, in PAX format; a move keeps the part of the name below the moved entry and refuses the own subtree.", opsRows)
	reg("C01 C02 C07 C12 C13 C17", "ops-tree", "On a described directory tree, however the root and the path are spelled, Delete and Move write one record for exactly each entry of the named subtree, under its stored name and with the right new name.", opsTree)
	reg("C02 C03", "restore-tree", "On a described directory tree, Restore brings each entry of the named subtree to its own place below the destination.", restoreTree)
	reg("C05 C06", "ops-sizes", "Records that Delete and Move write announce no content, as none follows them.", opsSizes)
	reg("C02 C12", "ops-subtree", "Moving a directory beneath itself is refused and writes nothing, however the paths and the root are spelled.", opsSubtree)
	reg("C02 C05", "ops-preconditions", "All lookups of an operation happen, and succeed, before its first record is written.", opsPreconditions)
	reg("C02 C03 C05 C10", "ops-errors", "An operation that reports success has no failed call behind it.", opsErrors)

	reg("C01 C04 C05 C16", "tape-open-write", "Opening the drive for writing only destroys content under an explicit overwrite and positions at the end otherwise.", tapeOpenWrite)
	reg("C05 C15", "tape-open-read", "Opening the drive for reading cannot change it and reports its kind.", tapeOpenRead)
	reg("C10", "tape-open-leaks", "Files opened while opening the drive are handed out or closed; errors are reported.", tapeOpenLeaks)
	reg("C05 C10 C11 C16", "tape-manager", "Sequences of writer, reader and close calls on a tape manager: overwrites at most once and only when configured, reserves the drive exactly while something is open, closes what was opened.", tapeManager)
	reg("C05 C15", "tape-sites", "Files are only changed by the analysed code that opens the drive, by the caches and by the index database.", tapeSites)

	reg("C08 C09", "index-gate", "Indexing uses a header only after the decryption and verification callbacks accepted it, and only what they left.", indexGate)
	reg("C01 C04 C08 C16", "index-offsets", "Every header from the offset on is handed to the callbacks under its own number and indexed; none before it is.", indexOffsets)
	reg("C04 C06 C16 C17", "index-positions", "The record and block stored for a header are the measured start of that header on the drive.", indexPositions)
	reg("C06 C10 C16 C17", "index-walk", "Indexing starts where asked, walks block-aligned, makes progress of exactly one block after a failed attempt and only ends at the end of the drive.", indexWalk)
	reg("C01 C06 C07 C16 C17", "index-tails", "A cut-off or padded tail ends indexing without an error.", indexTails)
	reg("C01 C06 C07 C10 C16", "index-errors", "Indexing reports success only when every call succeeded, except the sentinels that mark a tail or an unknown entry; it never panics.", indexErrors)
	reg("C01 C07 C16", "index-purge", "The index is emptied exactly on an overwrite, before anything is indexed.", indexPurge)
	reg("C01 C02 C04 C06 C07 C17", "index-actions", "Each kind of record has exactly its effect on the index, with the record's own attributes, name, size and positions.", indexActions)

	reg("C03 C04", "fetch-position", "Fetching reads exactly one header, at the requested record and block of the drive.", fetchPosition)
	reg("C01 C03 C08 C14", "fetch-content", "Fetching delivers only decrypted, decompressed and verified content of the requested entry, all of it, checks the signature after the last byte and reports success only when everything succeeded.", fetchContent)
	reg("C04 C08", "query", "Querying reports each record with its measured position after decrypting and verifying it.", queryRules)
	reg("C01 C02 C03 C04", "restore-rows", "Restoring fetches the named entry and its children each at its own stored position with the configured pipeline, to the requested destination.", restoreRows)

	reg("C01 C02 C12 C13 C17", "db-names", "However the root and a path are spelled, every statement addresses exactly the entry's stored name, and lookups do not change the cached root.", func(c *Ctx) { dbNames(c); dbNamesForeign(c) })
	reg("C01 C02 C04 C07 C12 C13 C16 C17", "db-rows", "Lookups, upserts, updates, deletes, moves and purges select and write exactly the rows and columns they must.", dbRows)
	reg("C02 C12 C13 C17", "db-children", "What counts as beneath or directly in a directory, for every way the root is spelled; no pattern matching; limits; links.", func(c *Ctx) { dbChildren(c); childrenLinks(c) })
	reg("C01 C04 C16", "db-last", "The last indexed position is the greatest one of all rows, deleted ones included.", dbLast)
	reg("C01 C13 C16 C17", "db-root", "The root is the live name with the fewest slashes; only a root that was found is cached.", dbRoot)
	reg("C01 C02 C04", "db-converters", "The conversions between tar, index and configuration headers copy every attribute.", dbConverters)
	reg("C01 C10 C11", "db-open", "The index is the configured file, migrated, with one connection.", dbOpen)

	reg("C02 C13", "fs-mkdir", "Mkdir, in every described index and for every spelling, fails or creates exactly one directory below an existing one.", fsMkdir)
	reg("C02 C13", "fs-mkdirall", "MkdirAll creates exactly the missing components, from the top, or fails.", fsMkdirAll)
	reg("C02 C12", "fs-remove", "Remove and RemoveAll delete exactly the named entry or fail with the right error; a directory with children is only removed recursively.", fsRemove)
	reg("C02 C12", "fs-rename", "Rename moves exactly the named entry, replaces what must be replaced, and refuses what must be refused without changing anything.", fsRename)
	reg("C13", "fs-tree", "Remove and Rename leave no entry without a parent that is a directory.", fsTree)
	reg("C02 C13 C15", "fs-stat", "Looking up an entry, however it is spelled, succeeds exactly when it is there and reports exactly what the index has for it.", fsStat)
	reg("C02 C13 C14 C15", "fs-open", "Opening with every combination of flags succeeds, fails, creates and truncates exactly as it must, and returns a handle on the entry with exactly the requested abilities.", fsOpen)
	reg("C10 C11", "index-locks", "What the index keeps in memory is only used under one common lock, which every method releases.", indexLocks)
	reg("C10 C11", "fs-locks", "Every method of a filesystem and its open files releases every lock it takes and takes none twice; the index, the drive and the buffers are only used, and every mutable field only accessed, under one common lock (static lockset intersection), goroutines included.", fsLocks)
	reg("C11", "captures", "No goroutine assigns to a variable which its creator goes on using without waiting for it.", fsCaptures)
	reg("C14", "file-handle", "Short sequences of reads, positioned reads, seeks, writes, positioned writes, string writes, truncations, syncs and stats on a handle agree with an array of bytes with a cursor: counts, offsets, ends, positions, lengths.", fileHandle)
	reg("C03 C08 C10", "file-streams", "The goroutine that feeds an open file hands on how reading its content ended, and closing or rewinding the file ends it.", fileStreams)
	reg("C03", "file-store", "Everything that was written to an open file, and nothing else, is announced and stored when it is synced or closed.", fileStore)
	reg("C15", "fs-readonly", "Read-only filesystems and files not opened for writing: no method changes the tape or the index (goroutines and callbacks included), every mutating method fails with a permission error, and nothing makes them writable.", fsReadonly)
	reg("C01 C08 C10 C15 C16 C17", "fs-initialize", "Opening a filesystem returns an existing root and changes nothing; a missing one is looked for by indexing the whole tape from nothing with real decryption and verification, the drive is free afterwards, and a root is made only where nothing can be read.", fsInitialize)
	reg("C03 C05 C07 C08 C09 C15 C16", "cmd-wiring", "The commands hand the configured formats, keys, record size and switches to the library; nothing is overwritten unless asked for; what cannot write is read-only.", cmdWiring)
	reg("C03 C04 C05 C14", "counters", "Counting readers and writers pass every call on unchanged and count exactly what went through, also when the call failed.", counterRule)
	reg("C02 C03 C14", "write-cache", "A new write cache is empty and nobody else's; its size, truncation and writes behave like a file's; cleaning up removes its own file only.", cacheWrite)
	reg("C02 C13", "fs-listing", "An open directory lists each child once, as the index has it, and has no content.", fsListing)
	reg("C02 C03 C10 C14", "file-errors", "Changing an open file reports success only if every step of it succeeded.", fileErrors)
	reg("C02 C13", "fs-symlink", "A link is one new record below an existing directory; nothing is written where it cannot be.", fsSymlink)
	reg("C17", "cache-view", "A filesystem is shown from its root, whatever the cache; only the cache directory is changed.", cacheFilesystem)
	reg("C02", "fs-attributes", "Chmod, Chown and Chtimes write the entry's own header back with exactly the named attributes changed.", fsAttributes)

	reg("C08 C18", "sig-verify-string", "A string is accepted only after its signature was verified over exactly that string under the trusted key.", sigVerifyString)
	reg("C03 C08 C18", "sig-verify", "Content is accepted only after the signature over everything that was read was verified under the trusted key.", sigVerify)
	reg("C08", "sig-verify-header", "With signatures, a header is accepted only as exactly what was signed.", sigVerifyHeader)
	reg("C03 C04 C05 C06 C08", "sig-sign-header", "A signed header carries the complete original and its signature, nothing unsigned but the size.", sigSignHeader)
	reg("C08 C18", "sig-sign-string", "Signing a string signs exactly that string with the given key, in the encoding that verifying expects.", sigSignString)
	reg("C03 C08 C18", "sig-sign", "Signing content signs exactly what is passed on with the given key, in the encoding that verifying expects.", sigSign)
	reg("C03", "compression-pairs", "For every format, level and kind of drive, what the encoder writes is what the decoder of that format reads; unknown formats are refused.", compressPairs)
	reg("C01 C02 C03 C17", "suffixes", "Removing the suffix of a pipeline undoes adding it, for every pipeline, and touches nothing else of the name.", suffixes)
	reg("C18", "key-parse", "Keys are parsed as given, after unlocking every one of them with exactly the given password.", keyParse)
	reg("C18", "key-gen", "Generated halves belong together and the private one is locked with exactly the given password.", keygen)

	reg("C03 C08 C18", "encoding-pairs", "Signatures and encrypted headers are read in the text form they are written in.", encodingPairs)
	reg("C06 C08 C10 C18", "no-crash", "Results are used only where the call succeeded, asserted types only where the assertion did, elements only where there are enough, and maps are written only where there is one.", noCrash)
	reg("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12 C13 C14 C15 C16 C17 C18", "amounts", "No behaviour changes at an amount written into the code, so what is decided for small indexes, files and tapes holds for large ones.", amounts)
}
