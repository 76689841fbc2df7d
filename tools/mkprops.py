#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the wording lives in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": text},
      "why_tests_cant": why,
      "anchors": {"files": list(files),
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Checked integer conversions return the exact value or refuse",
  "Every checked integer conversion offered by the library returns a number mathematically equal to its argument whenever the destination type can hold it. When the destination type cannot hold the argument, the conversion panics instead of returning a wrapped or truncated number.",
  ["inputs"], "for every pair of integer types with a conversion and every value of the source type",
  "No test exercises the conversions; one off-by-one at a type boundary is a single value out of 2^64.",
  ["pkg/safecast/safecast.go"], [("range comparison before the cast", "pkg/safecast/safecast.go")], observe=["return value or panic of each conversion"])

p("C02", "Extents of a volume never overlap and all lie inside the declared size",
  "In every volume image that is written, the sector ranges of the system area, descriptors, path tables, directories, continuation areas and files are pairwise disjoint, start where the metadata says they start, and end within the volume size recorded in the descriptor. Every non-empty or empty file and directory owns at least one sector, and running out of addressable sectors is refused rather than wrapping around.",
  ["inputs"], "for every directory tree and every combination of file sizes, including empty files, exact sector multiples and extents near the 32-bit address limit",
  "volume_test builds one fixed tree of tiny files and compares content; it never checks the address arithmetic for other sizes or at the limits.",
  ["pkg/iso9660/volume.go","pkg/iso9660/sectorallocator.go","pkg/iso9660/ioutil.go","pkg/iso9660/inode.go"],
  [("sector allocator","pkg/iso9660/sectorallocator.go"),("address assignment before writing","pkg/iso9660/volume.go"),("byte to sector rounding","pkg/iso9660/ioutil.go")],
  state=[("next free sector","first sector not yet handed out","sector allocator")],
  observe=["recorded start/length of every extent in the image","volume space size field"])

p("C03", "Files larger than one extent are split and reassembled without loss",
  "A file of any size is recorded as a sequence of extents that are each no larger than the format allows, contiguous on the medium, and whose sizes add up to exactly the file size. Reading the directory back reports one entry with the first extent's address and the full size.",
  ["inputs"], "for every file size from 0 to the largest representable and every start address",
  "Tests only use files far below the 4 GiB extent limit, so the splitting loop never iterates twice.",
  ["pkg/iso9660/inode.go","pkg/iso9660/directoryinode.go","pkg/iso9660/walk.go"],
  [("extent splitting","pkg/iso9660/inode.go"),("record aggregation when listing","pkg/iso9660/walk.go")], observe=["extent lists","reported size and extent of entries"])

p("C04", "Volume descriptors and path tables have the exact ISO 9660 layout",
  "Every primary volume descriptor and terminator written occupies exactly one 2048-byte sector with each field at its standard offset in both byte orders where required, and decoding it yields the same field values. Each path table record is written with its declared identifier length, location and parent and its size in bytes equals the size computed beforehand.",
  ["inputs"], "for every descriptor field value within the format limits and every list of path table records",
  "pvd_test round-trips one hand-made descriptor; a field shifted consistently in both encoder and decoder passes, and path tables are not decoded at all.",
  ["pkg/iso9660/pvd.go","pkg/iso9660/terminator.go","pkg/iso9660/pathtable.go","pkg/iso9660/ioutil.go","pkg/iso9660/stra.go","pkg/iso9660/strd.go"],
  [("descriptor encoder and decoder","pkg/iso9660/pvd.go"),("path table encoder","pkg/iso9660/pathtable.go"),("both-endian helpers","pkg/iso9660/ioutil.go")], observe=["bytes written","decoded fields"])

p("C05", "Directory records occupy their declared length and decode to what was encoded",
  "For every directory record that fits the format limits, the number of bytes written equals the length the record reports and the length byte stored first, every fixed field sits at its standard offset, and decoding the bytes gives back every field. A record that does not fit is refused, not truncated.",
  ["inputs"], "for every record: identifier of length 0..30, any field values, any list of system use entries that fits in 255 bytes",
  "directoryrecord_test encodes a handful of records; parity of the identifier length and large field values are not covered.",
  ["pkg/iso9660/directoryrecord.go","pkg/iso9660/ioutil.go"],
  [("record length computation","pkg/iso9660/directoryrecord.go"),("record encoder and decoder","pkg/iso9660/directoryrecord.go")], observe=["bytes written","decoded record"])

p("C06", "System use entries write exactly the length they report and decode back",
  "Every system use entry type (sharing protocol, terminator, continuation, extension reference, name, POSIX attributes, symlink, timestamps) writes exactly as many bytes as it reports, stores that same number in its length byte, and decodes back to the same attributes. An entry whose encoding would exceed 255 bytes is refused when it is created.",
  ["inputs"], "for every entry type and every attribute value",
  "nm_test and sl_test look at a few names; SP, ST, CE, ER, PX and TF have no test of their own length or layout.",
  ["pkg/iso9660/susp","pkg/iso9660/rrip","pkg/iso9660/directoryrecord.go"],
  [("per-entry Len and WriteTo","pkg/iso9660/susp and pkg/iso9660/rrip"),("entry decoders","pkg/iso9660/directoryrecord.go")], observe=["bytes written","reported length","decoded entry"])

p("C07", "File names and symlink targets survive encoding unchanged",
  "Any non-empty name stored through Rock Ridge name entries, and any non-empty symlink target stored through symlink entries, is reproduced byte for byte (targets up to path-equivalent separators) when the entries are decoded, whatever its length and wherever it is split. Names and targets containing dots, double dots, a root slash or multi-byte characters are no exception.",
  ["inputs"], "for every byte string used as a name and every slash-separated target, including ones longer than one entry",
  "nm_test and sl_test check a few fixed strings; splits at exactly the chunk size and targets ending in special components are missed.",
  ["pkg/iso9660/rrip/nm.go","pkg/iso9660/rrip/sl.go"],
  [("chunking with continue flags","pkg/iso9660/rrip/nm.go, sl.go"),("reassembly","pkg/iso9660/rrip/nm.go, sl.go")], observe=["decoded name/target"])

p("C08", "System use data that overflows a record is never lost, reordered or overlapped",
  "When the attributes of an entry do not fit in its directory record, following the continuation pointers from that record yields all of its entries in their original order and nothing else. No two records' continuation ranges overlap, no entry straddles a sector, and each pointer's offset and length stay inside one sector of the continuation area.",
  ["inputs","histories"], "for every sequence of overflowing entry lists appended to a directory's continuation area",
  "volume_test has at most one overflowing name; packing several overflows into shared sectors and chaining across sectors are not reached.",
  ["pkg/iso9660/continuation.go","pkg/iso9660/directoryinode.go","pkg/iso9660/walk.go"],
  [("continuation packing","pkg/iso9660/continuation.go"),("overflow split per record","pkg/iso9660/directoryinode.go"),("continuation following","pkg/iso9660/walk.go")],
  state=[("room left per sector","bytes free in each continuation sector","continuation area")], observe=["entries reachable from each record","pointer ranges"])

p("C09", "Listing a directory returns every entry exactly once from any resume offset",
  "Iterating a directory yields each of its entries exactly once in recorded order, never reads past the directory's extent, and no record crosses a sector boundary. Resuming at an offset obtained by summing the lengths reported so far yields exactly the remaining entries.",
  ["inputs","histories"], "for every directory content (record lengths, padding positions, multi-extent files) and every resume point produced by earlier iteration",
  "directory_test writes a few records; padding that falls on every possible boundary and resumption are not tested.",
  ["pkg/iso9660/directory.go","pkg/iso9660/walk.go"],
  [("sector padding when writing","pkg/iso9660/directory.go"),("record iterator and look-ahead","pkg/iso9660/walk.go")],
  state=[("iterator position","next unread byte of the directory extent","record iterator")], observe=["sequence of entries and lengths"])

p("C10", "Building a tree accepts each valid new name once and refuses all others",
  "Adding a child to a directory succeeds exactly when its name is valid, not reserved and not already present in that directory; afterwards looking the name up returns that child, every other name is unaffected, and a refused addition changes nothing. Inode numbers are unique in a volume and the hidden identifiers are unique in a directory, until exhaustion is reported as an error.",
  ["inputs","histories"], "for every sequence of additions and every name string",
  "Tests add a few distinct valid names; collisions, invalid runes in the middle of a name and identifier growth past one byte are not reached.",
  ["pkg/iso9660/directoryinode.go","pkg/iso9660/namevalidator.go","pkg/iso9660/identifier.go","pkg/iso9660/inode.go","pkg/iso9660/volume.go"],
  [("name checks","pkg/iso9660/namevalidator.go"),("child tables","pkg/iso9660/directoryinode.go"),("allocators","pkg/iso9660/identifier.go, inode.go")],
  state=[("name table","name to identifier to child","directory inode"),("allocator counters","next number, exhausted flag","allocators")], observe=["AddChild error","GetChild result","inode numbers"])

p("C11", "Path lookup in an image agrees with the tree, whatever was looked up before",
  "Looking up, opening, listing or walking any path of a written image returns exactly the entry, type, size, permissions, target and content that were added at that path, a not-found error for paths never added, and a not-a-directory error below a file. The answer to a lookup does not depend on which lookups were made earlier through the same walker, and an error returned by a walk callback stops the walk and is returned.",
  ["inputs","histories"], "for every tree, every path and every earlier sequence of lookups and listings on the same walker",
  "walk_test lists one directory once; the lookup cache only matters from the second call on.",
  ["pkg/iso9660/walk.go","pkg/iso9660/file.go","pkg/iso9660/volume.go"],
  [("lookup cache","pkg/iso9660/walk.go"),("path splitting","pkg/iso9660/walk.go")], state=[("lookup cache","absolute path to entry","walker")], observe=["Stat/Lstat/Open/ReadDir/Walk results"])

p("C12", "Recorded timestamps denote the same instant when read back",
  "Every timestamp the short form can represent (years 1900 to 2155) and every timestamp the long form can represent (years 1 to 9999) decodes to the same second that was encoded, whatever time zone the timestamp was given in.",
  ["inputs"], "for every instant in the representable range and every zone it may be expressed in",
  "Tests round-trip a few instants in UTC.",
  ["pkg/iso9660/datetime"], [("field packing and zone offset","pkg/iso9660/datetime")], observe=["decoded time versus encoded time"])

p("C13", "An I/O failure while writing or reading an image is always reported",
  "If any write of an image or of one of its parts fails or is short, or any read of the underlying data fails, the operation in progress returns an error; an operation that returns without an error reports exactly the number of bytes written. No failure is turned into a shorter but successful result, a skipped entry or an endless loop.",
  ["fault_sequences","inputs"], "for every position at which the writer or reader fails while a volume, directory, record, entry, descriptor or listing is processed",
  "Tests only use in-memory buffers that never fail.",
  ["pkg/iso9660/volume.go","pkg/iso9660/directoryinode.go","pkg/iso9660/walk.go","pkg/iso9660/ioutil.go","pkg/iso9660/pvd.go","pkg/iso9660/directoryrecord.go","pkg/iso9660/susp","pkg/iso9660/rrip"],
  [("error checks after each write/read","pkg/iso9660"),("counting writer","pkg/iso9660/ioutil.go")], observe=["returned error and byte count","bytes that reached the writer"])

p("C14", "Reading a concatenation equals reading the joined bytes",
  "For any list of objects, the concatenation's size is the sum of sizes and reading any range returns exactly the bytes of that range of the joined content, with an error if fewer bytes than available were delivered or a part failed. Sequential, concurrent and positioned reads agree, and seeking moves the position to the requested place clamped to the object.",
  ["inputs","fault_sequences","histories"], "for every list of part sizes (including empty parts), every offset and length, every part failure and every sequence of reads and seeks",
  "concat_test uses three 3-byte parts; empty parts, reads ending beyond the end and failing parts in the middle are barely touched.",
  ["pkg/storage/concat.go","pkg/interval/interval.go"],
  [("ordered part index","pkg/storage/concat.go"),("interval intersection","pkg/interval/interval.go")], state=[("position","current read offset","concatenation handle")], observe=["bytes, count and error of Read/ReadAt","Seek result"])

p("C15", "Cached reads return the same bytes as the object, also after failures",
  "Reading through the memory or disk cache returns exactly the bytes of the underlying object for the same range, whatever was read, evicted or prefetched before and whichever objects share the cache. A failed fill is reported to the reader that needed it and is never remembered as content.",
  ["histories","fault_sequences","inputs"], "for every sequence of reads, prefetches and evictions over any set of objects, with any fill failing",
  "mem_test and disk_test make one miss and one hit on one block size; failure followed by a hit and sharing of buffers between objects are not tested.",
  ["pkg/caching/cache.go","pkg/caching/mem.go","pkg/caching/disk.go"],
  [("block splitting","pkg/caching/cache.go"),("buffer key check under lock","pkg/caching/mem.go"),("stored key check","pkg/caching/disk.go")],
  state=[("buffer key and valid length","which block a buffer holds","memory buffer")], observe=["bytes, count and error of cached reads"])

p("C16", "Read-ahead stays inside the object, within its window and its budget",
  "Prefetching only ever requests whole blocks that exist in the object and lie after the block where the current read starts and at most the configured window ahead of it; one read never triggers more prefetches than blocks read sequentially so far, and never the same block twice in one sequential run. It never holds more tokens than configured and returns each token it takes.",
  ["histories","configurations","inputs"], "for every sequence of reads, every block size, window, token count and object size",
  "readahead_test drives five short scripted sequences.",
  ["pkg/caching/readahead.go"], [("run tracking and damper","pkg/caching/readahead.go"),("token acquire/release","pkg/caching/readahead.go")],
  state=[("run state","expected position, run length, next block","read-ahead controller")], observe=["blocks requested per update","tokens held"])

p("C17", "Object handles obey the read, read-at and seek contract",
  "On every in-process object handle (memory, data, zero, slice, renamed, counting, cached) a read returns the bytes at the current position and advances it by the count returned, a positioned read does not move it, counts never exceed the buffer or the object, and a read past the end reports end of file. A seek lands exactly where requested or clamped to the object, never on a negative position, and byte counters equal the bytes transferred.",
  ["histories","inputs"], "for every sequence of Read, ReadAt and Seek calls with any offsets, whence values and buffer lengths",
  "Only the memory driver and one counter have tests, with a few calls each.",
  ["pkg/storage/storage.go","pkg/storage/zero/object.go","pkg/storage/data/object.go","pkg/storage/ram/object.go","pkg/countio","pkg/caching/mem.go","pkg/caching/cache.go"],
  [("position bookkeeping","each handle type"),("clamping","seek functions")], state=[("position","current offset","handle")], observe=["bytes, count, error, position"])

p("C18", "An object exists with its full content exactly when its writer was committed",
  "Data written through an object writer becomes visible under its URL only when commit succeeds, then with exactly the bytes written in order, and committing after an abort fails and publishes nothing. In the memory and file stores an overwritten, removed or listed name always reflects the latest committed state and other names are untouched.",
  ["histories","crash_points","inputs"], "for every sequence of create, write, commit, abort, remove, stat and list operations over any set of names",
  "ram_test commits two files and lists them; abort, overwrite, nested removal and commit-after-abort are not covered.",
  ["pkg/storage/ram","pkg/storage/file","pkg/storage/data","pkg/storage/s3/writer.go"],
  [("writer state machine","pkg/storage/ram/writer.go"),("temp file and rename","pkg/storage/file/writer.go"),("inode table","pkg/storage/ram/ram.go")],
  state=[("writer state","creating, committed or aborted","object writer"),("inode table","names to contents","memory store")], observe=["open/stat/list results","commit result"])

p("C19", "The URL table maps every extent to the URL it was built with",
  "For any set of URLs, the compact table built from them contains each URL exactly once and resolving the stored leaf of an extent reproduces its absolute URL byte for byte. Two files that share a URL both resolve to it.",
  ["inputs"], "for every set of URL strings (shared prefixes, one a prefix of another, duplicates) in any insertion order",
  "There is no test for the table; prefix splits depend on how the particular strings overlap.",
  ["pkg/vdisc/trie.go","pkg/vdisc/builder.go","pkg/vdisc/extent.go"],
  [("prefix trie insert/split","pkg/vdisc/trie.go"),("inverted parent chain","pkg/vdisc/builder.go"),("URL resolution","pkg/vdisc/extent.go")], observe=["resolved URL per extent"])

p("C20", "A vdisc loads back to exactly the image that was built",
  "Loading a built vdisc gives an image whose size and bytes equal the ISO image of the same tree: metadata, each file's content and zero padding to the sector, for every file whatever its size. Opening any extent address recorded in the image yields the object with the right URL and size, and an address that is not an extent start is an error.",
  ["inputs"], "for every set of files (sizes including 0 and exact sector multiples), order of addition and block layout",
  "No test builds and loads a vdisc.",
  ["pkg/vdisc/builder.go","pkg/vdisc/loader.go","pkg/vdisc/extent.go"],
  [("block and padding arithmetic","pkg/vdisc/builder.go, loader.go"),("extent search","pkg/vdisc/loader.go")], observe=["image bytes","OpenExtent results"])

p("C21", "HTTP range reads return exactly the requested bytes or an error",
  "A positioned read from an HTTP object asks for exactly the requested byte range limited to the object's size, and returns data only when the response is a partial-content answer for that same range; any other status, a missing, malformed or mismatching range header, or a short body is reported as an error. Parsing a range header accepts only well-formed, consistent ranges and reports their exact length.",
  ["inputs","fault_sequences"], "for every offset, buffer length, object size and server response",
  "There is no test of the HTTP object; servers that answer wrongly are never simulated.",
  ["pkg/storage/http/object.go","pkg/httputil/range.go"],
  [("range request and response validation","pkg/storage/http/object.go"),("Content-Range parser","pkg/httputil/range.go")], observe=["request range","count, bytes and error"])

p("C22", "HTTP transport wrappers keep the caller's request and the server's answer",
  "An explicit authorization header is never replaced and a missing one is always added; a request is retried only on transport errors, 429 or 5xx answers and the last answer is returned unchanged; each request goes to one of the addresses currently resolved for its host, cycling through all of them evenly, with the original port. Evicting a host from the transport never breaks other hosts.",
  ["histories","inputs","fault_sequences"], "for every sequence of requests, answers and resolver results, and any number of hosts and addresses",
  "rr_test sends a few requests to one host; no test for authorization or retries.",
  ["pkg/httputil"], [("header injection","pkg/httputil/auth.go"),("retry predicate","pkg/httputil/retry.go"),("round robin selection","pkg/httputil/rr.go")],
  state=[("request counter and address list","round-robin position","host transport")], observe=["requests reaching the base transport","returned response"])

p("C23", "Per-request options stored in a context never affect one another",
  "Each storage option placed in a context (timeouts, authorization, credentials, region) is returned unchanged by its own getter whatever other options were set before or after it. An option that was never set is reported as unset.",
  ["inputs","histories"], "for every order and combination of options set on one context",
  "No test sets two options on the same context.",
  ["pkg/storage/http/context.go","pkg/storage/s3/context.go","pkg/storage/swift/context.go"], [("context keys","pkg/storage/*/context.go")], observe=["getter results"])

p("C24", "A multipart upload sends every byte exactly once, in order",
  "For any input stream, the parts of an upload are consecutive, non-overlapping and together equal the stream, every part but the last has the configured size, and the number of parts never exceeds the limit when the length is known. A failed read or part is reported and the upload is not completed.",
  ["inputs","fault_sequences"], "for every stream length, part size, part limit, seekable or not, with reads of any size and failures at any point",
  "There is no test of the uploader.",
  ["pkg/s3util/uploader.go"], [("part cutting","pkg/s3util/uploader.go"),("part-size adjustment","pkg/s3util/uploader.go")], state=[("reader position","next unread byte","uploader")], observe=["parts sent","completion or abort"])

p("C25", "Request paths are escaped so that they decode to the same path",
  "The escaped form of any object path contains only unreserved characters, slashes and %XX triplets with upper-case hex digits, leaves unreserved characters and slashes untouched, and decodes to exactly the original bytes. A request that is already signed is passed on unmodified, and a signing failure is never followed by sending the request.",
  ["inputs"], "for every byte string used as a path",
  "There is no test of the signer.",
  ["pkg/s3util/signer.go"], [("path escaping","pkg/s3util/signer.go")], observe=["escaped path","request seen by the transport"])

p("C26", "Mounted files, handles and inode references behave as the image says",
  "Reading an open file handle returns the bytes of the extent it was opened on at the given offset and treats end of file as success; each open gets a handle distinct from all live ones, and releasing or reading an unknown handle is refused without harm. An inode stays resolvable while its lookup count is positive and is forgotten exactly when the count reaches zero; listing offsets let a listing resume where it stopped.",
  ["histories","inputs"], "for every sequence of lookup, forget, open, read, release and readdir operations",
  "The FUSE layer has no tests.",
  ["pkg/isofuse"], [("handle table","pkg/isofuse/file.go"),("inode reference counts","pkg/isofuse/dir.go"),("entry cache","pkg/isofuse/cache.go")],
  state=[("handle table","handle to object","file system"),("inode table","inode to entry and count","file system")], observe=["operation results"])

p("C27", "Recursive listing visits every directory once or reports why not",
  "Visiting a directory hierarchy calls the visitor exactly once for every directory that is reachable and not excluded, with that directory's full listing, in breadth-first levels or bounded depth-first batches. If any listing or visitor call fails, the visit returns an error instead of success.",
  ["inputs","schedules","fault_sequences"], "for every directory tree, worker count, traversal mode, exclusion predicate, failing directory and interleaving of workers",
  "visitor_test uses small trees, and its error test passes only for the schedules that happen to be observed.",
  ["pkg/storage/driver/visitor.go"], [("work queue and result accumulation","pkg/storage/driver/visitor.go")], observe=["directories visited","returned error"])

p("C28", "Block device commands are each answered once and shutdown completes",
  "Every command a device hands to the worker pool is handled exactly once by that device's handler, and the handler's response is sent exactly once on that device's own response channel, which is closed only after all of its commands were answered. Commands in flight never share a data buffer, and closing the pool ends every worker once the responses in progress are taken.",
  ["schedules"], "for every interleaving of submitters, workers, device close and pool close",
  "cmdpool tests observe only the schedules the runtime happens to pick.",
  ["pkg/blockdev/cmdpool.go"], [("request channel and wait groups","pkg/blockdev/cmdpool.go")], observe=["responses per command","termination"])

p("C29", "A URL is always served by the driver registered for its scheme",
  "An open, create, remove, stat, list, lock or visit request is handed to exactly the driver registered for the URL's scheme with the URL, size and context unchanged, and a URL without a scheme goes to the file driver. Unknown schemes and operations a driver does not offer are errors, and registering a scheme twice or a nil driver is refused.",
  ["inputs","histories","configurations"], "for every URL and every sequence of registrations and registry clear/restore operations",
  "Tests only register the drivers they need; unsupported operations and the clear/restore history are not covered.",
  ["pkg/storage/driver/registry.go","pkg/storage/storage.go"], [("scheme table","pkg/storage/driver/registry.go"),("capability dispatch","pkg/storage/storage.go")], state=[("scheme table","scheme to driver","registry")], observe=["driver called and its arguments","returned error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
