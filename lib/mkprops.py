"""Writes properties.jsonl (kept as a script so that the texts are editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Whatever was stored is retrieved byte for byte, for ever after",
  "Every object whose store succeeded can be retrieved by get under the identifier the store printed, byte for byte, whatever its content, size, compressibility and type and however it was fed in (file, standard input, pipe in pieces). It stays so after any later history of stores, housekeeping, reindexing, mksilo, write-protecting silos, changing the silo size limit and losing the cache file. A get which exits successfully never delivers anything else than the stored bytes.",
  ["inputs", "histories", "configurations"],
  "all contents, all histories of archive operations and all valid configurations of identifier length, prefix, silo size, silo name pattern and sort size",
  "The tests store a handful of fixed files in one configuration; boundaries of buffers, silos and segments, colliding contents and operation orders are not sampled.",
  ["main_store.c", "main_get.c", "segjob.c", "getjob.c", "wsilo.c", "rsilo.c", "index.c"],
  [("feeding and committing an object", "segjob.c:SegJob_Feed/SegJob_Commit"), ("finding and reading it again", "getjob.c:GetJob_New/GetJob_Iter"), ("index lookup", "index.c:IDX_Iter"), ("body decompression", "rsilo.c:Rsilo_ReadChunk")])

p("C02", "Identifiers are a pure function of content and reference",
  "The identifier of a resource is the configured prefix followed by the configured number of leading hex digits of the SHA-256 of its bytes; that of a metadata object is taken the same way from the SHA-256 of its reference as it stands in the WARC-Refers-To header (the full identifier in angle brackets), a newline, the lower case hex SHA-256 of its bytes and a newline. Time, mime-type, way of input, segmentation, silo size and archive history do not influence it, only metadata can have another (forced) identifier, and an identifier is accepted on input with or without prefix and in either letter case.",
  ["inputs", "configurations", "histories"],
  "all contents, references, identifier lengths and prefixes, in all archive states",
  "The tests compare two or three known identifiers at one length.",
  ["ident.c", "segjob.c", "main_store.c", "index.c", "aardwarc.c"],
  [("deriving the identifier", "ident.c:Ident_Create/Ident_Set"), ("identifier validation", "index.c:IDX_Valid_Id"), ("length and prefix", "aardwarc.c:AardWARC_New")])

p("C03", "Storing an object again is a no-op; what is stored never changes",
  "Storing an object whose identifier is already in the archive succeeds, prints that identifier, and leaves every silo byte, the index and what get delivers for it (body and header) unchanged, whatever mime-type, input path, reference spelling or content (for forced identifiers) the second store has. This holds for segmented and plain objects, before and after housekeeping, reindexing and cache loss, and also when the identifier is already used by a continuation segment or a warcinfo record, which do not count as the object.",
  ["inputs", "histories"],
  "all pairs of stores with equal identifiers in all histories",
  "The tests restore one small file once; they do not compare the whole archive before and after, nor try identifiers colliding with segments and warcinfo records.",
  ["segjob.c", "getjob.c", "wsilo.c"],
  [("duplicate check at commit", "segjob.c:SegJob_Commit"), ("abandoning the hold", "wsilo.c:Wsilo_Abandon")])

p("C04", "Silos are well-formed WARC/1.1 any other tool can read",
  "Every silo file is at all times a sequence of complete WARC/1.1 records readable by independent software: standard gzip members whose lengths the extra field gives exactly, correct Content-Length, block digest, mandatory fields and record separator, the first record being a warcinfo which names that silo and contains the configured warcinfo fields and is never repeated. The records of all silos together are exactly the objects stored, each once.",
  ["histories", "inputs", "configurations"],
  "all silo files produced by any history of operations under any valid configuration",
  "The tests read silos with AardWARC itself, so a format error on both sides goes unnoticed, and sample few files.",
  ["wsilo.c", "header.c", "gzip.c", "warcinfo.c", "segjob.c"],
  [("header serialisation and padding", "header.c:Header_Serialize, wsilo.c:Wsilo_Commit"), ("gzip members with length", "gzip.c:Gzip_Vsb/Gzip_WriteAa"), ("warcinfo record", "warcinfo.c:Warcinfo_New")])

p("C05", "Silos only ever grow, within the size limit, unless protected",
  "No operation changes, moves or removes a byte already in an installed silo: a silo only grows by whole records appended at its end, never beyond the configured maximum size in force, and a silo without its write permission never changes at all. Objects are put in the free space of earlier silos when they fit, new silos take unused numbers, no hold or temporary file is left behind by a successful operation, and the cache file is only a hint whose loss or staleness changes nothing but the place where objects go.",
  ["histories", "configurations"],
  "all histories of operations, silo size limits, sets of protected silos and states of the cache file",
  "The tests never compare silos before and after, nor vary protection, size limit or cache during a history.",
  ["wsilo.c", "silo.c", "aardwarc.c"],
  [("append or new silo", "wsilo.c:silo_attempt_append/Wsilo_Commit"), ("holds", "wsilo.c:Wsilo_New"), ("hints", "aardwarc.c:AardWARC_ReadCache/AardWARC_WriteCache")])

p("C06", "Objects too big for one silo are split into a complete chain",
  "An object whose compressed record does not fit in a silo of the maximum size is stored as segments, each in a silo of its own and within the limit, whose contents concatenated are the object: number 1 keeps the object's type, identifier and payload digest, numbers 2..n are continuation records naming it as origin, and only the last carries the total length. The index chains every segment to its successor and marks first and last; objects which fit are never segmented; equal segments, or segments equal to other objects, do not confuse retrieval.",
  ["inputs", "configurations", "histories"],
  "all contents of any compressibility relative to any silo size limit",
  "The tests segment two or three random files; compressible, periodic and boundary-sized inputs are not tried.",
  ["segjob.c", "wsilo.c", "getjob.c"],
  [("steering the compressor into the silo", "segjob.c:SegJob_Feed"), ("segment headers", "segjob.c:segjob_newseg/SegJob_Commit"), ("following the chain", "getjob.c:getjob_iter")])

p("C07", "Compressed delivery is one valid gzip stream of the object",
  "get -z delivers, for every stored object, a single gzip member with correct CRC and length trailer which decompresses to exactly the object, also for segmented objects whose separately compressed segments have to be joined. This holds for any number, size and compressibility of segments and however their bytes are split into reads.",
  ["inputs", "configurations", "histories"],
  "all objects, segmented in all possible ways, and all chunkings of the compressed segments",
  "The tests decompress one or two joined objects; CRC arithmetic, stop-bit alignment and chunk boundaries have many cases.",
  ["gzip.c", "getjob.c", "rsilo.c", "main_get.c"],
  [("joining segments", "gzip.c:gzip_stitch_feed/gzip_stitch_fini"), ("byte-aligned segment ends", "segjob.c:SegJob_Feed")])

p("C08", "The header delivered tells the truth about the object",
  "The WARC header get shows for an object has its identifier, type, the mime-type given at its first store, for metadata the reference given, the SHA-256 of the whole object, its whole length, and the UTC time of the store. This holds for segmented objects as for plain ones and in every later archive state; -n suppresses the body, -q the header, -o puts the body in the file and the header on standard output, and otherwise the body alone is on standard output and the header on standard error.",
  ["inputs", "histories", "configurations"],
  "all objects, mime-types, references and option combinations",
  "The tests look for few fields in few objects and option combinations.",
  ["getjob.c", "header.c", "main_get.c", "main_store.c"],
  [("assembling the header", "getjob.c:GetJob_Headers"), ("header fields", "header.c:Header_Set/Header_Parse")])

p("C09", "Housekeeping keeps exactly the index it was given, sorted",
  "After housekeeping the index contains exactly the set of entries it had before, each once, in sorted order with an empty appendix, and every lookup by full or partial identifier or of the whole gives what it gave before. This holds for any number and distribution of entries, with duplicates within and between files, any sort size, any number of rounds, and after an interrupted round; a round already in progress is not disturbed.",
  ["inputs", "histories", "configurations", "crash_points"],
  "all multisets of index entries in the index files, all sort sizes and all sequences of housekeeping, appends and interruptions",
  "The tests sort one set of some thousand uniformly distributed entries and compare counts.",
  ["index.c", "main_housekeeping.c"],
  [("merge", "index.c:idx_merge/idx_attempt_merge/IDX_Resort"), ("bucket offsets", "index.c:bucket_update/bucket_seek")])

p("C10", "Looking up a part of an identifier finds every match and no other",
  "byid and dumpindex with a partial identifier of any length, in either letter case, report exactly the index entries beginning with it, whether these are in the sorted index, the appendix or a housekeeping snapshot; dumpindex without argument reports all entries and -t exactly those of the type. byid reports identifier and type of each and its exit status is the number found, at most 255, or zero with -e; an argument which is not hexadecimal is refused.",
  ["inputs", "histories", "configurations"],
  "all sets of entries in all index files and all partial identifiers (present, absent, and just before or after present ones)",
  "The tests look up a few prefixes which exist; bucket edges, skewed distributions and absent neighbours are not tried.",
  ["index.c", "main_byid.c", "main_dumpindex.c"],
  [("lookup", "index.c:IDX_Iter/bucket_seek")])

p("C11", "The index can be rebuilt from the silos alone",
  "Deleting all index and cache files and running reindex gives an index with exactly the entries, flags, positions and segment chains the original had, so that every operation behaves as before. This holds with gaps in the silo numbers, segmented objects, any order in which the silos are given as arguments, any silo name pattern, when run again on top of an existing index (which only adds duplicates housekeeping removes), and when silos are given a few at a time, as long as the silos of one object are given together.",
  ["histories", "inputs", "configurations"],
  "all archives produced by any history, all orders and partitions of the silo files",
  "The tests rebuild one archive once, in ascending order.",
  ["main_reindex.c", "silo.c", "index.c", "rsilo.c"],
  [("scanning silos", "main_reindex.c:silo_iter"), ("matching segments", "main_reindex.c:got_seg/try_seg/reindex_iter"), ("finding silos", "silo.c:Silo_Iter")])

p("C12", "filter tells exactly which identifiers are in the archive",
  "filter prints, in input order and verbatim, exactly the lines whose identifier is not in the archive, with -r exactly those which are, and with -v every line with its presence in front. This holds for any number of lines, sorted or not, repeated, with or without prefix, in either letter case, from several files or standard input and for any identifier length and state of the index; with -s identifiers which only share the indexed part with a stored one are told apart.",
  ["inputs", "histories", "configurations"],
  "all lists of identifiers against all archives",
  "The tests filter a few short lists of one form.",
  ["main_filter.c", "index.c"],
  [("merge of candidates and index", "main_filter.c:filter_iter"), ("reading candidates", "main_filter.c:read_file")])

p("C13", "audit passes every sound archive and reports every damaged one",
  "On an archive produced by any history of operations audit examines every record of every silo (or of the silos named), completes, and reports each as good and no error, also for segmented objects whatever the order and numbering of silos and, with the ignore option, for metadata with forced identifiers. When a record's content, digest, length, identifier, segment data or compressed length no longer agree, or a segment is missing, audit of the silos concerned reports an error or fails.",
  ["histories", "inputs", "fault_sequences"],
  "all archives, and all inconsistencies introduced in one record with valid framing, or by changing, removing or truncating bytes",
  "The tests audit sound archives and two prepared damages.",
  ["main_audit.c", "rsilo.c", "ident.c"],
  [("record checks", "main_audit.c:audit_one"), ("segmented objects", "main_audit.c:audit_one_pending/audit_final_pending")])

p("C14", "get never passes off damaged data as the object",
  "Whatever bytes in silo, index or cache files are changed, truncated, exchanged or missing (short of forging a record so that its digests agree again), a get (without -z) of an identifier either delivers exactly the bytes stored under it or does not exit successfully. Objects whose silo and index bytes are untouched are still delivered when damage is elsewhere in silos.",
  ["fault_sequences", "inputs", "histories"],
  "all archives and all small damages to their files",
  "No test damages silo or index files and then uses get.",
  ["main_get.c", "rsilo.c", "getjob.c", "header.c", "gzip.c"],
  [("digest and length check after delivery", "main_get.c:main_get"), ("record id comparison", "getjob.c:getjob_iter")])

p("C15", "A crash at any point loses nothing acknowledged and breaks nothing",
  "If a store, housekeeping, reindex or mksilo is killed before or after any of its file operations, every object stored earlier is still delivered intact, the object being stored is afterwards either delivered whole or reported not found, and storing it again then succeeds and makes it retrievable. All installed silos remain well-formed, the surviving index only refers to records which exist, and a reindex from the silos recovers everything in them; only hold and temporary files may be left behind.",
  ["crash_points", "histories"],
  "all archive states, all operations and every point between two of their file operations",
  "No test kills the program.",
  ["wsilo.c", "segjob.c", "index.c", "main_reindex.c"],
  [("order of installation", "wsilo.c:Wsilo_Commit/Wsilo_Install, segjob.c:SegJob_Commit"), ("snapshot and rename", "index.c:idx_attempt_merge/idx_merge")])

p("C16", "An I/O error never costs data and is never taken for success",
  "If any file operation of a store, get, housekeeping, reindex, mksilo, rebuild or of an operation which looks something up or checks (byid, filter, dumpindex, audit, cgi) fails or transfers less than asked (no space, I/O error, out of descriptors), the operation either still completes correctly or exits with failure; it does not report success falsely, store truncated input, or loop for ever. All objects stored earlier remain retrievable, installed silos remain well-formed and the index readable, and the operation succeeds when repeated without the fault.",
  ["fault_sequences", "histories"],
  "all operations, archive states and single or persistent faults at any file operation",
  "No test injects faults.",
  ["wsilo.c", "index.c", "main_store.c", "main_get.c", "segjob.c", "rsilo.c", "main_filter.c", "main_rebuild.c"],
  [("append with truncation on failure", "wsilo.c:silo_attempt_append"), ("index append", "index.c:IDX_Insert"), ("read errors", "main_store.c:main_store")])

p("C17", "Concurrent processes neither lose nor damage anything",
  "When store, get, housekeeping, mksilo, filter and byid processes run at the same time in one archive, in any interleaving, each ends as it would have done alone in some order: every acknowledged object is retrievable, no record is torn, overwritten or duplicated in a silo number taken twice, no index entry is lost, and readers always find and correctly deliver what was stored before they started.",
  ["schedules", "histories"],
  "all interleavings of the file operations of two processes with one preemption, and random schedules of more",
  "The tests never run two processes at a time.",
  ["wsilo.c", "index.c", "segjob.c"],
  [("exclusive holds", "wsilo.c:Wsilo_New/silo_attempt_append"), ("atomic index append and hand-over to housekeeping", "index.c:IDX_Insert/IDX_Resort/IDX_Iter")])

p("C18", "rebuild writes equivalent silos",
  "For every silo of every archive rebuild writes beside it a file which contains the same records in the same order, with the same identifiers, bodies and header fields except the padding and obsolete length field, and again is a well-formed silo. After replacing the silos by the rebuilt ones and reindexing, every object is delivered as before and audit is clean; the original files are not changed.",
  ["histories", "inputs"],
  "all archives, including segmented and incompressible objects and bodies larger than any buffer",
  "The tests do not read back what rebuild wrote from large or many records.",
  ["main_rebuild.c", "header.c", "gzip.c"],
  [("record by record rewriting", "main_rebuild.c:rebuild_process/rebuild_silo_iter")])

p("C19", "The CGI interface delivers exactly the object or an error",
  "For every GET request whose path is a stored identifier, with or without prefix and leading slash, the response has status 200, the object's mime-type and a Content-Length equal to the bytes which follow, and these are the object, gzip-encoded only if the client accepts that, the response says so, and the object is not segmented. Any other path gets an error response which discloses no object, and other methods or a missing environment are refused.",
  ["inputs", "histories", "configurations"],
  "all stored objects, paths and accept headers",
  "The tests make two or three requests and do not check lengths.",
  ["main_cgi.c", "getjob.c"],
  [("request handling", "main_cgi.c:main_cgi"), ("length", "getjob.c:GetJob_TotalLength")])

p("C20", "stow makes the server hold everything in the directory",
  "After a successful stow of any directory tree, every non-empty regular file in it (as selected by the job's exclude list) is retrievable from the server's archive by its SHA-256, the listing of the whole tree as mtree(8) printed it is stored there as an object, and a metadata object made for the run refers to that listing, names the job, and tells the old digest and the new identifier of every file which changed while the run was under way. Files and listings the server already has are not sent, so that running it again for an unchanged tree adds nothing but that metadata object, and nothing else is stored.",
  ["inputs", "histories", "configurations"],
  "all directory trees (names, sizes, duplicates, empty files), server states and sequences of changes between runs",
  "The tests stow one small tree.",
  ["main_stow.c", "main_stevedore.c", "proto.c"],
  [("client", "main_stow.c"), ("server", "main_stevedore.c")])

p("C21", "The stevedore answers every request, in order, and correctly",
  "For any sequence of filter, data and metadata messages, split into any pieces in transit, the stevedore stores exactly the data and metadata sent, answers every object with the identifier under which it can then be retrieved (data in the order sent), and answers every batch of filter requests with exactly the identifiers missing from the archive and the number answered. Messages arrive as they were sent for every message length, and unknown ones do not disturb the following.",
  ["inputs", "histories", "schedules"],
  "all message sequences, lengths and chunkings",
  "The tests only exercise it through one stow run.",
  ["main_stevedore.c", "proto.c", "vlu.c"],
  [("message framing", "proto.c:proto_in/proto_out"), ("dispatch", "main_stevedore.c:input")])

p("C22", "Valid configurations mean what they say; invalid ones are refused",
  "Every configuration file within the documented syntax (sections, entries, comments, blank lines, any white space, letter case of section names, sizes with decimal fractions and k/M/G/T/P suffixes) has the documented effect on identifier length and prefix, silo size, name and directory, sort size, warcinfo contents and allowed mime-types. A configuration which lacks a required section or has an illegal value is refused with an error before anything is written.",
  ["configurations", "inputs"],
  "all configuration files, in and outside the syntax",
  "The tests use one configuration and a few faulty ones.",
  ["config.c", "aardwarc.c", "vnum.c", "warcinfo.c", "main_store.c"],
  [("parser", "config.c:config_parse"), ("validation", "aardwarc.c:AardWARC_New"), ("sizes", "vnum.c:VNUM_2bytes")])

p("C23", "A refused request leaves the archive exactly as it was",
  "Every request which is refused (unknown or malformed identifier or reference, forbidden mime-type, empty or unreadable input, wrong options or combinations of them, unknown operation, a silo number already taken) exits with failure and a message and leaves all silos, index files and the cache unchanged and no hold or temporary file behind. Requests which only read never change anything either.",
  ["inputs", "histories", "configurations"],
  "all invalid requests in all archive states",
  "The tests check the message of some refusals, not that the archive is untouched.",
  ["main_store.c", "main_get.c", "main.c", "index.c", "main_mksilo.c"],
  [("argument checks", "main_store.c:main_store"), ("identifier validation", "index.c:IDX_Valid_Id"), ("mime-types", "main_store.c:mime_type")])

p("C24", "No input file makes any operation access memory it does not own",
  "Whatever the bytes of silo, index, cache and configuration files, identifier lists, protocol messages and arguments are, no operation reads or writes outside its own memory, and the operations which only read terminate; they deliver or fail cleanly (an assertion is a clean failure). The same holds for the supported operations on sound archives of any size.",
  ["inputs", "fault_sequences"],
  "all file contents and arguments",
  "The tests only use files AardWARC wrote itself, without memory checking.",
  ["rsilo.c", "header.c", "gzip.c", "index.c", "config.c", "main_rebuild.c", "vsb.c", "vlu.c", "proto.c"],
  [("parsing", "rsilo.c:Rsilo_ReadHeader, header.c:Header_Parse, gzip.c"), ("index reading", "index.c:IDX_Iter")])

p("C25", "Silo numbers map to distinct, shallow, documented paths",
  "Silo number n is always found at one path, different from that of every other number: in directory 0 for n below 100, in 1/xx for n below 10000, in 2/xx/yy for n below 1000000 and so on with at most 100 entries per directory, the file name following the configured pattern. mksilo creates a valid empty silo of that number there or refuses if it is taken, and store and get find silos of any such number by the same rule. Without arguments reindex, audit and rebuild visit all existing silos up to the first number whose directory does not exist; others are found when named as arguments.",
  ["inputs", "configurations", "histories"],
  "all silo numbers and name patterns",
  "The tests never get beyond silo 99.",
  ["silo.c", "wsilo.c", "main_mksilo.c"],
  [("path construction", "silo.c:numpart/Silo_Filename"), ("enumeration", "silo.c:Silo_Iter")])

if __name__ == "__main__":
    fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(fn, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
