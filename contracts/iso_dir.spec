// Directories as recorded: laying records out in sectors and reading them back.
package iso9660

func (*iso9660.Directory).WriteTo(d, w) (n, err)
  props C09 C13
  requires w != nil && len(d.Records) <= 1048576 && forall(k, 0, len(d.Records), len(d.Records[k].SystemUse) <= 1048576 && forall(i, 0, len(d.Records[k].SystemUse), d.Records[k].SystemUse[i] != nil))
  maypanic
  modifies W(w)
  invariant [cw *countingWriter] kept(w) && cw.n == wlen(w) - old(wlen(w))
  before WriteTo [whole] (wlen(w) - old(wlen(w))) % 2048 + reclen(call_rec) <= 2048
  ensures [prefix] kept(w)
  ensures [count] n == wlen(w) - old(wlen(w))
  ensures [bounded] err == nil ==> n <= 4294965248

// Position in a directory of the record after the last one delivered.
func (*iso9660.DirectoryRecordIterator).Tell(it) (r)
  props C09
  requires it.dir != nil && it.dir.off >= it.dir.base && it.dir.base >= 0
  ensures [position] r == it.dir.off - it.dir.base

func (*iso9660.DirectoryRecordIterator).Err(it) (err)
  props C09
  ensures [kept] err == it.err

func (*iso9660.DirectoryRecordIterator).RecordAndLen(it) (r, n)
  props C09
  ensures [kept] r == it.rec && n == it.recLen

func (*iso9660.ReadDirIterator).Err(it) (err)
  props C09
  ensures [kept] err == it.err

func (*iso9660.ReadDirIterator).FileInfoAndLen(it) (r, n)
  props C09
  ensures [kept] r == it.finfo && n == it.finfoLen

// ---- decoding entries; the bytes are those the encoders' contracts describe ----
pred consumed(r, n) = rpos(r) == old(rpos(r)) + n

func iso9660.decodePX(body) (r, err)
  props C06
  requires body != nil
  modifies R(body)
  ensures [kind] err == nil ==> typeis(r, *rrip.PosixEntry) && as(r, *rrip.PosixEntry) != nil && fresh(r)
  ensures [mode] err == nil ==> as(r, *rrip.PosixEntry).Mode == rle32(body, old(rpos(body)) + 1)
  ensures [nlink] err == nil ==> as(r, *rrip.PosixEntry).Nlink == rle32(body, old(rpos(body)) + 9)
  ensures [uid] err == nil ==> as(r, *rrip.PosixEntry).Uid == rle32(body, old(rpos(body)) + 17)
  ensures [gid] err == nil ==> as(r, *rrip.PosixEntry).Gid == rle32(body, old(rpos(body)) + 25)
  ensures [ino] err == nil ==> as(r, *rrip.PosixEntry).Ino == rle32(body, old(rpos(body)) + 33)
  ensures [consumed] err == nil ==> consumed(body, 41)

func iso9660.decodeCE(body) (r, err)
  props C06 C08
  requires body != nil
  modifies R(body)
  ensures [kind] err == nil ==> typeis(r, *susp.ContinuationAreaEntry) && as(r, *susp.ContinuationAreaEntry) != nil && fresh(r)
  ensures [start] err == nil ==> as(r, *susp.ContinuationAreaEntry).start == rle32(body, old(rpos(body)) + 1)
  ensures [offset] err == nil ==> as(r, *susp.ContinuationAreaEntry).off == rle32(body, old(rpos(body)) + 9)
  ensures [length] err == nil ==> as(r, *susp.ContinuationAreaEntry).len == rle32(body, old(rpos(body)) + 17)
  ensures [consumed] err == nil ==> consumed(body, 25)

func iso9660.decodeST(body) (r, err)
  props C06
  requires body != nil
  modifies R(body)
  ensures [kind] err == nil ==> typeis(r, *susp.TerminatorEntry) && consumed(body, 1)

func iso9660.decodeSP(body) (r, err)
  props C06
  requires body != nil
  modifies R(body)
  ensures [kind] err == nil ==> typeis(r, *susp.SharingProtocolEntry) && as(r, *susp.SharingProtocolEntry) != nil && consumed(body, 4) && as(r, *susp.SharingProtocolEntry).lenSkp == rbyte(body, old(rpos(body)) + 3)

func iso9660.decodeNM(body) (r, err)
  props C06 C07
  requires body != nil
  modifies R(body)
  ensures [kind] err == nil ==> typeis(r, *rrip.Name) && as(r, *rrip.Name) != nil
  ensures [flag] err == nil ==> (as(r, *rrip.Name).cont <==> rbyte(body, old(rpos(body)) + 1) % 2 == 1)
  ensures [text] err == nil ==> len(as(r, *rrip.Name).data) == rpos(body) - old(rpos(body)) - 2 && forall(i, 0, len(as(r, *rrip.Name).data), as(r, *rrip.Name).data[i] == rbyte(body, old(rpos(body)) + 2 + i))

func iso9660.decodeSL(body) (r, err)
  props C06 C07
  requires body != nil
  modifies R(body)
  ensures [kind] err == nil ==> typeis(r, *rrip.Symlink) && as(r, *rrip.Symlink) != nil
  ensures [flag] err == nil ==> (as(r, *rrip.Symlink).cont <==> rbyte(body, old(rpos(body)) + 1) % 2 == 1)
  ensures [component] err == nil ==> as(r, *rrip.Symlink).comp.flags == rbyte(body, old(rpos(body)) + 2) && len(as(r, *rrip.Symlink).comp.data) == rbyte(body, old(rpos(body)) + 3)
  ensures [text] err == nil ==> forall(i, 0, len(as(r, *rrip.Symlink).comp.data), as(r, *rrip.Symlink).comp.data[i] == rbyte(body, old(rpos(body)) + 4 + i))

func iso9660.decodeER(body) (r, err)
  props C06
  requires body != nil
  modifies R(body)
  ensures [kind] err == nil ==> typeis(r, *susp.ExtensionsReferenceEntry) && as(r, *susp.ExtensionsReferenceEntry) != nil
  ensures [version] err == nil ==> as(r, *susp.ExtensionsReferenceEntry).version == rbyte(body, old(rpos(body)) + 4)
  ensures [lengths] err == nil ==> len(as(r, *susp.ExtensionsReferenceEntry).identifier) == rbyte(body, old(rpos(body)) + 1) && len(as(r, *susp.ExtensionsReferenceEntry).descriptor) == rbyte(body, old(rpos(body)) + 2) && len(as(r, *susp.ExtensionsReferenceEntry).source) == rbyte(body, old(rpos(body)) + 3)
  ensures [identifier] err == nil ==> forall(i, 0, len(as(r, *susp.ExtensionsReferenceEntry).identifier), as(r, *susp.ExtensionsReferenceEntry).identifier[i] == rbyte(body, old(rpos(body)) + 5 + i))

func iso9660.decodeTF(body) (r, err)
  props C06
  merge
  maypanic
  requires body != nil
  modifies R(body)
  ensures [kind] err == nil ==> typeis(r, *rrip.Timestamps) && as(r, *rrip.Timestamps) != nil && fresh(r)
  ensures [form] err == nil ==> (as(r, *rrip.Timestamps).LongForm <==> rbyte(body, old(rpos(body)) + 1) >= 128)
  ensures [created] err == nil ==> (as(r, *rrip.Timestamps).Created != nil <==> rbyte(body, old(rpos(body)) + 1) % 2 == 1)
  ensures [modified] err == nil ==> (as(r, *rrip.Timestamps).Modified != nil <==> rbyte(body, old(rpos(body)) + 1) / 2 % 2 == 1)
  ensures [access] err == nil ==> (as(r, *rrip.Timestamps).Access != nil <==> rbyte(body, old(rpos(body)) + 1) / 4 % 2 == 1)
  ensures [attributes] err == nil ==> (as(r, *rrip.Timestamps).Attributes != nil <==> rbyte(body, old(rpos(body)) + 1) / 8 % 2 == 1)
  ensures [backup] err == nil ==> (as(r, *rrip.Timestamps).Backup != nil <==> rbyte(body, old(rpos(body)) + 1) / 16 % 2 == 1)
  ensures [expiration] err == nil ==> (as(r, *rrip.Timestamps).Expiration != nil <==> rbyte(body, old(rpos(body)) + 1) / 32 % 2 == 1)
  ensures [effective] err == nil ==> (as(r, *rrip.Timestamps).Effective != nil <==> rbyte(body, old(rpos(body)) + 1) / 64 % 2 == 1)

pred proper(e) = e != nil && (typeis(e, *susp.ContinuationAreaEntry) ==> as(e, *susp.ContinuationAreaEntry) != nil) && (typeis(e, *rrip.Name) ==> as(e, *rrip.Name) != nil) && (typeis(e, *rrip.Symlink) ==> as(e, *rrip.Symlink) != nil) && (typeis(e, *rrip.PosixEntry) ==> as(e, *rrip.PosixEntry) != nil) && (typeis(e, *rrip.Timestamps) ==> as(e, *rrip.Timestamps) != nil)
pred allproper(es) = forall(i, 0, len(es), proper(es[i]))

// A record read from its bytes; the length byte has been read already.
func iso9660.DecodeSystemUseEntries(r) (entries, err)
  props C06
  requires r != nil
  maypanic
  modifies R(r)
  invariant [es []susp.SystemUseEntry] allproper(es) && (len(es) > 0 ==> fresh(ref(es))) && rpos(r) >= old(rpos(r))
  ensures [entries] err == nil ==> allproper(entries) && (len(entries) > 0 ==> fresh(ref(entries)))

func iso9660.DecodeDirectoryRecord(r, rec) (err)
  props C05 C13
  requires r != nil && rec != nil
  maypanic
  modifies R(r), rec.ExtendedAttrRecordLength, rec.Start, rec.Length, rec.Recorded, rec.Flags, rec.FileUnitSize, rec.InterleaveGap, rec.VolumeID, rec.Identifier, rec.SystemUse
  ensures [start] err == nil ==> rec.Start == rle32(r, old(rpos(r)) + 1)
  ensures [length] err == nil ==> rec.Length == rle32(r, old(rpos(r)) + 9)
  ensures [flags] err == nil ==> rec.Flags == rbyte(r, old(rpos(r)) + 24) && rec.FileUnitSize == rbyte(r, old(rpos(r)) + 25) && rec.InterleaveGap == rbyte(r, old(rpos(r)) + 26)
  ensures [volume] err == nil ==> rec.VolumeID == rle16(r, old(rpos(r)) + 27)
  ensures [identifier] err == nil ==> len(rec.Identifier) == rbyte(r, old(rpos(r)) + 31) && forall(i, 0, len(rec.Identifier), rec.Identifier[i] == rbyte(r, old(rpos(r)) + 32 + i))
  ensures [pad] err == nil && len(rec.Identifier) % 2 == 0 ==> rbyte(r, old(rpos(r)) + 32 + len(rec.Identifier)) == 0
  ensures [entries] err == nil ==> allproper(rec.SystemUse) && (len(rec.SystemUse) > 0 ==> fresh(ref(rec.SystemUse)))

pred within(it) = it.dir != nil && it.dir.base >= 0 && it.dir.off >= it.dir.base && it.dir.off <= 1152921504606846976 && it.dir.limit >= it.dir.base
func (*iso9660.DirectoryRecordIterator).Next(it) (r)
  props C09
  requires within(it)
  maypanic
  modifies it.rec, it.recLen, it.err, it.dir.off
  invariant within(it) && it.dir.off >= old(it.dir.off) && it.err == nil
  ensures [stopped] old(it.err) != nil ==> !r && it.err == old(it.err)
  ensures [delivered] r ==> it.rec != nil && it.err == nil && it.recLen == it.dir.off - old(it.dir.off) && it.recLen > 0
  ensures [inside] within(it) && it.dir.off >= old(it.dir.off)
  ensures [entries] r ==> fresh(it.rec) && allproper(it.rec.SystemUse) && (len(it.rec.SystemUse) > 0 ==> fresh(ref(it.rec.SystemUse)))

func iso9660.NewDirectoryRecordIterator(iso, start, size, off) (it)
  props C09
  requires iso != nil && size >= 0 && size < 4611686018427387904
  ensures [new] fresh(it) && fresh(it.dir)
  ensures [extent] it != nil && it.dir != nil && it.dir.r == iso && it.dir.base == start * 2048 && it.dir.limit == start * 2048 + size
  ensures [resume] off >= 0 && off < 4611686018427387904 ==> it.err == nil && it.dir.off == start * 2048 + off
  ensures [refused] off < 0 ==> it.err != nil

func iso9660.NewReadDirIterator(iso, start, size, off) (it)
  props C09
  requires iso != nil && size >= 0 && size < 4611686018427387904
  ensures [new] fresh(it) && fresh(it.recIt) && fresh(it.recIt.dir)
  ensures [extent] it != nil && it.iso == iso && it.recIt != nil && it.recIt.dir != nil && it.recIt.dir.r == iso && it.recIt.dir.base == start * 2048 && it.recIt.dir.limit == start * 2048 + size
  ensures [resume] off >= 0 && off < 4611686018427387904 ==> it.recIt.err == nil && it.recIt.dir.off == start * 2048 + off
  ensures [nothing-read] it.err == nil && !it.exhausted && it.peeked == nil

// Entries of a record and of the areas it continues in.
func iso9660.allSystemUseEntries(iso, rec) (r, err)
  props C08
  requires iso != nil && rec != nil && allproper(rec.SystemUse)
  maypanic
  modifies elems(rec.SystemUse)
  invariant [es []susp.SystemUseEntry] allproper(es)
  invariant [es []susp.SystemUseEntry] forall(i, 0, len(es), !typeis(es[i], *susp.ContinuationAreaEntry))
  invariant [a []susp.SystemUseEntry, b []susp.SystemUseEntry] ref(a) != ref(b) || cap(a) == 0 || cap(b) == 0
  before DecodeSystemUseEntries [area] as(call_r, *io.SectionReader).r == iso
  ensures [entries] err == nil ==> allproper(r)
  ensures [followed] err == nil ==> forall(i, 0, len(r), !typeis(r[i], *susp.ContinuationAreaEntry))

pred readpos(it) = it.recIt.dir.off - it.recIt.dir.base - ite(it.peeked == nil, 0, it.peekedLen)
pred reading(it) = it.recIt != nil && within(it.recIt) && it.iso != nil && (it.peeked != nil ==> it.peekedLen > 0 && it.peekedLen <= it.recIt.dir.off - it.recIt.dir.base && allproper(it.peeked.SystemUse))
func (*iso9660.ReadDirIterator).Next(it) (r)
  merge
  props C09 C03
  requires reading(it)
  maypanic
  modifies it.finfo, it.finfoLen, it.peeked, it.peekedLen, it.err, it.exhausted, it.recIt.rec, it.recIt.recLen, it.recIt.err, it.recIt.dir.off, anyelems(it.peeked.SystemUse)
  invariant [n int64] n == it.recIt.dir.off - it.recIt.dir.base - old(readpos(it)) && n > 0
  invariant it.peeked == nil && within(it.recIt)
  ensures [stopped] old(it.exhausted || it.err != nil) ==> !r && it.err == old(it.err)
  ensures [delivered] r ==> it.finfo != nil && fresh(it.finfo) && it.finfoLen > 0
  ensures [length] r && !it.exhausted ==> it.finfoLen == readpos(it) - old(readpos(it))
  ensures [last] r && it.exhausted ==> it.finfoLen > 0 && it.finfoLen <= readpos(it) - old(readpos(it))
  ensures [extent] r && old(it.peeked) != nil ==> it.finfo.extent == old(it.peeked.Start)
  ensures [ready] reading(it)
  assume [representable] r ==> it.finfo.size >= 0 && it.finfo.size < 4611686018427387904

// ---- continuation areas ----
pred sectored(ca) = forall(k, 0, len(ca.sectors), ca.sectors[k].room >= 0 && ca.sectors[k].room <= 2048)
// The pointer lies inside one sector of the area.
pred inSector(ca, ce) = ce.start >= ca.start && ce.start < ca.start + len(ca.sectors) && ce.off >= 0 && ce.off + ce.len <= 2048

func iso9660.NewContinuationArea(start) (r)
  props C08
  ensures [empty] r.start == start && len(r.sectors) == 0

func (*iso9660.ContinuationArea).Len(ca) (n)
  props C08
  requires len(ca.sectors) <= 1073741824
  ensures [sectors] n == len(ca.sectors) * 2048

func (*iso9660.ContinuationArea).Append(ca, entries) (ce)
  props C08
  requires sectored(ca) && len(entries) <= 1048576 && forall(i, 0, len(entries), entries[i] != nil) && ca.start + len(ca.sectors) + len(entries) < 4294967296
  maypanic
  modifies ca.sectors, anyfield(continuationSector.room), anyfield(continuationSector.entries), anyelems(entries)
  invariant sectored(ca)
  invariant (len(ca.sectors) == old(len(ca.sectors)) && len(ca.sectors) > 0 || len(ca.sectors) == old(len(ca.sectors)) + 1 && ca.sectors[len(ca.sectors)-1].room == 2048)
  invariant [i int, n int] n == sumlen(entries, i) && n >= 0 && n <= 255 * i
  invariant [tmp []susp.SystemUseEntry, n int] n == sumlen(entries, len(tmp)) && n >= 0 && n <= 255 * len(tmp) && len(tmp) <= len(entries)
  invariant [tmp []susp.SystemUseEntry] len(tmp) <= len(entries) && (len(tmp) == 0 ==> ca.sectors[len(ca.sectors)-1].room < 283)
  invariant [extra int] extra == 0 || extra == 28
  invariant [es []susp.SystemUseEntry] forall(i, 0, len(es), es[i] != nil) && len(es) <= len(entries)
  invariant [a []susp.SystemUseEntry, b []susp.SystemUseEntry] len(a) + len(b) == len(entries)
  invariant ca.sectors[len(ca.sectors)-1].room >= 0 && ca.sectors[len(ca.sectors)-1].room <= 2048
  ensures [none] len(entries) == 0 ==> ce == nil
  ensures [some] len(entries) > 0 ==> ce != nil && inSector(ca, ce)
  ensures [sound] sectored(ca) && ca.start == old(ca.start) && len(ca.sectors) >= old(len(ca.sectors)) && len(ca.sectors) <= old(len(ca.sectors)) + len(entries)

func (*iso9660.ContinuationArea).WriteTo(ca, w) (n, err)
  props C08 C13
  requires w != nil
  maypanic
  modifies W(w)
  invariant [cw *countingWriter] kept(w) && cw.n == wlen(w) - old(wlen(w))
  invariant (wlen(w) - old(wlen(w))) % 2048 == 0
  ensures [prefix] kept(w)
  ensures [count] n == wlen(w) - old(wlen(w))
  ensures [sectors] err == nil ==> n % 2048 == 0

package iso9660/rrip

func iso9660/rrip.DecodePosixEntry(entries) (r, ok)
  props C06
  invariant [i int] forall(k, 0, i, !typeis(entries[k], *PosixEntry))
  free at int
  ensures [first] 0 <= at && at < len(entries) && typeis(entries[at], *PosixEntry) && forall(j, 0, at, !typeis(entries[j], *PosixEntry)) ==> ok && r == as(entries[at], *PosixEntry)
  ensures [none] !ok ==> r == nil

func iso9660/rrip.DecodeTimestamps(entries) (r, ok)
  props C06
  invariant [i int] forall(k, 0, i, !typeis(entries[k], *Timestamps))
  free at int
  ensures [first] 0 <= at && at < len(entries) && typeis(entries[at], *Timestamps) && forall(j, 0, at, !typeis(entries[j], *Timestamps)) ==> ok && r == as(entries[at], *Timestamps)
  ensures [none] !ok ==> r == nil



func iso9660/rrip.DecodeSymlink(entries) (r, ok)
  props C07
  requires forall(i, 0, len(entries), typeis(entries[i], *Symlink) ==> as(entries[i], *Symlink) != nil)
  invariant [i int] forall(k, 0, i, typeis(entries[k], *Symlink) ==> as(entries[k], *Symlink).cont)
  ensures [none] !ok ==> r == ""
  ensures [unended] !ok ==> forall(k, 0, len(entries), typeis(entries[k], *Symlink) ==> as(entries[k], *Symlink).cont)

// ---- looking up paths ----
package iso9660

func iso9660.isDot(name) (r)
  props C11
  ensures [dots] r <==> name == "." || name == ".."

extern (*github.com/hashicorp/golang-lru.ARCCache).Get(c, key) (v, ok)
  ensures ok ==> typeis(v, *iso9660.FileInfo) && as(v, *iso9660.FileInfo) != nil && as(v, *iso9660.FileInfo).size >= 0 && as(v, *iso9660.FileInfo).size < 4611686018427387904
extern (*github.com/hashicorp/golang-lru.ARCCache).Add(c, key, v)
  requires typeis(v, *iso9660.FileInfo) && as(v, *iso9660.FileInfo) != nil && as(v, *iso9660.FileInfo).size >= 0 && as(v, *iso9660.FileInfo).size < 4611686018427387904

pred described(fi) = fi != nil && fi.size >= 0 && fi.size < 4611686018427387904

// Entries are stored under the path that ends in their own name.
func (*iso9660.Walker).lstatCacheAdd(w, parts, fi)
  props C11
  requires w != nil && w.lstatCache != nil && len(parts) > 0 && described(fi) && parts[len(parts)-1] == fi.name

// The longest known prefix of the path, and the parts after it.
func (*iso9660.Walker).lstatCacheSearch(w, parts) (fi, rest)
  props C11
  requires w != nil && w.lstatCache != nil
  ensures [unknown] fi == nil ==> len(rest) == len(parts)
  ensures [suffix] len(rest) <= len(parts) && ref(rest) == ref(parts) && forall(i, 0, len(rest), rest[i] == parts[len(parts)-len(rest)+i])
  ensures [known] fi != nil ==> described(fi)
  assume [own-name] fi != nil && len(rest) < len(parts) ==> fi.name == parts[len(parts)-len(rest)-1]

func (*iso9660.Walker).pathParts(w, path) (parts)
  props C11
  trusted
  ensures len(parts) > 0 ==> fresh(ref(parts))

func (*iso9660.Walker).lstat(w, parts) (r, err)
  props C11
  merge
  requires w != nil && w.iso != nil && w.lstatCache != nil
  maypanic
  modifies anyelems([]susp.SystemUseEntry)
  noarith
  invariant [size int64] size >= 0 && size < 4611686018427387904
  invariant [p []string] len(p) > 0 ==> p[len(p)-1] == old(parts[len(parts)-1])
  invariant [it *iso9660.ReadDirIterator] it != nil && fresh(it) && fresh(it.recIt) && fresh(it.recIt.dir) && reading(it)
  ensures [found] err == nil ==> described(r)
  ensures [named] err == nil && len(parts) > 0 ==> r.name == old(parts[len(parts)-1])
  ensures [missing] err != nil ==> r == nil

extern path/filepath.Join(elem) (r)
extern path/filepath.IsAbs(path) (r)
  pure

func (*iso9660.Walker).stat(w, parts) (r, err)
  props C11
  requires w != nil && w.iso != nil && w.lstatCache != nil
  maypanic
  modifies anyelems([]susp.SystemUseEntry)
  ensures [found] err == nil ==> described(r)
  ensures [resolved] err == nil ==> r.mode / 134217728 % 2 == 0
  ensures [missing] err != nil ==> r == nil

func (*iso9660.Walker).Open(w, name) (f, err)
  props C11
  requires w != nil && w.iso != nil && w.lstatCache != nil
  maypanic
  modifies anyelems([]susp.SystemUseEntry)
  ensures [contents] err == nil ==> f != nil && f.name == name && f.fi != nil && f.fi.mode / 134217728 % 2 == 0 && f.r != nil && f.r.base == f.fi.extent * 2048 && f.r.limit == f.r.base + f.fi.size && f.r.off == f.r.base

func (*iso9660.Walker).Lstat(w, path) (r, err)
  props C11
  requires w != nil && w.iso != nil && w.lstatCache != nil
  maypanic
  modifies anyelems([]susp.SystemUseEntry)
  ensures [found] err == nil ==> described(r)
  ensures [missing] err != nil ==> r == nil

func (*iso9660.Walker).Stat(w, path) (r, err)
  props C11
  requires w != nil && w.iso != nil && w.lstatCache != nil
  maypanic
  modifies anyelems([]susp.SystemUseEntry)
  ensures [found] err == nil ==> described(r)
  ensures [resolved] err == nil ==> r.mode / 134217728 % 2 == 0

func (*iso9660.Walker).ReadDir(w, dirname) (r, err)
  props C11
  requires w != nil && w.iso != nil && w.lstatCache != nil
  maypanic
  noarith
  modifies anyelems([]susp.SystemUseEntry), anyelems([]*FileInfo)
  invariant [it *iso9660.ReadDirIterator] it != nil && fresh(it) && fresh(it.recIt) && fresh(it.recIt.dir) && reading(it)
  before NewReadDirIterator [directory] call_iso == w.iso && last("(*iso9660.Walker).Lstat", r).isDir && call_start == last("(*iso9660.Walker).Lstat", r).extent && call_size == last("(*iso9660.Walker).Lstat", r).size && call_off == 0
  ensures [failed] err != nil ==> len(r) == 0

// An open file: its contents are the part of the image the listing names.
pred opened(f) = f.fi != nil && (f.r != nil ==> f.r.r != nil && f.r.base >= 0 && f.r.off >= f.r.base && f.r.off <= 1152921504606846976 && f.r.limit >= f.r.base && f.r.limit <= 4611686018427387904)

func (*iso9660.File).ReadAt(f, p, off) (n, err)
  props C11
  requires opened(f)
  modifies elems(p)
  ensures [closed] f.r == nil ==> n == 0 && err == os.ErrClosed
  ensures [directory] f.r != nil && f.fi.isDir ==> n == 0 && err != nil
  ensures [count] n >= 0 && n <= len(p)
  ensures [bytes] f.r != nil && off >= 0 ==> forall(i, 0, n, p[i] == abyte(f.r.r, f.r.base + off + i))
  ensures [inside] f.r != nil && off >= 0 && n > 0 ==> f.r.base + off + n <= f.r.limit

func (*iso9660.File).Read(f, p) (n, err)
  props C11
  requires opened(f)
  modifies elems(p), f.r.off
  ensures [closed] f.r == nil ==> n == 0 && err == os.ErrClosed
  ensures [directory] f.r != nil && f.fi.isDir ==> n == 0 && err != nil
  ensures [bytes] f.r != nil && !f.fi.isDir ==> forall(i, 0, n, p[i] == abyte(f.r.r, old(f.r.off) + i)) && f.r.off == old(f.r.off) + n

func (*iso9660.File).Seek(f, offset, whence) (pos, err)
  props C11
  requires opened(f) && offset > 0 - 4611686018427387904 && offset < 4611686018427387904
  modifies f.r.off
  ensures [closed] f.r == nil ==> err == os.ErrClosed
  ensures [start] f.r != nil && !f.fi.isDir && whence == 0 && offset >= 0 ==> err == nil && pos == offset && f.r.off == f.r.base + offset
  ensures [end] f.r != nil && !f.fi.isDir && whence == 2 && f.r.limit - f.r.base + offset >= 0 ==> err == nil && pos == f.r.limit - f.r.base + offset
  ensures [refused] err != nil && f.r != nil ==> f.r.off == old(f.r.off)

func (*iso9660.File).Close(f) (err)
  props C11
  modifies f.r
  ensures [closed] f.r == nil && err == nil

func (*iso9660.File).Size(f) (n)
  props C11
  requires f.fi != nil
  ensures [size] n == f.fi.size

func (*iso9660.File).ReadDir(f) (r, err)
  props C11
  requires opened(f) && f.iso != nil && f.fi.size >= 0 && f.fi.size < 4611686018427387904
  maypanic
  noarith
  modifies anyelems([]susp.SystemUseEntry), anyelems([]*FileInfo)
  invariant [it *iso9660.ReadDirIterator] it != nil && fresh(it) && fresh(it.recIt) && fresh(it.recIt.dir) && reading(it)
  before NewReadDirIterator [directory] call_iso == f.iso && call_start == f.fi.extent && call_size == f.fi.size && call_off == 0
  ensures [closed] f.r == nil ==> len(r) == 0 && err == os.ErrClosed
  ensures [plain] f.r != nil && !f.fi.isDir ==> err != nil && len(r) == 0
