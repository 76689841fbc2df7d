// Volume descriptors and path tables.
package iso9660

// Text fields are padded with spaces to their full width (package fmt's padding, for texts of ASCII characters).
func iso9660.StrA(input, length) (r)
  trusted
  ensures length >= 0 ==> len(r) == length
func iso9660.StrD(input, length) (r)
  trusted
  ensures length >= 0 ==> len(r) == length

func iso9660.readStrA(r, size) (s, err)
  props C04
  requires r != nil && size >= 0 && size <= 65536
  modifies R(r)
  ensures [consumed] err == nil ==> rpos(r) == old(rpos(r)) + size
  ensures [bounded] rpos(r) >= old(rpos(r)) && rpos(r) <= old(rpos(r)) + size

func iso9660.readStrD(r, size) (s, err)
  props C04
  requires r != nil && size >= 0 && size <= 65536
  modifies R(r)
  ensures [consumed] err == nil ==> rpos(r) == old(rpos(r)) + size
  ensures [bounded] rpos(r) >= old(rpos(r)) && rpos(r) <= old(rpos(r)) + size

func (*iso9660.Terminator).WriteTo(t, w) (n, err)
  props C04 C13
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [count] n == wlen(w) - old(wlen(w))
  ensures [sector] err == nil ==> n == 2048
  ensures [kind] err == nil ==> wbyte(w, old(wlen(w))) == 255 && wbyte(w, old(wlen(w)) + 1) == 67 && wbyte(w, old(wlen(w)) + 2) == 68 && wbyte(w, old(wlen(w)) + 3) == 48 && wbyte(w, old(wlen(w)) + 4) == 48 && wbyte(w, old(wlen(w)) + 5) == 49 && wbyte(w, old(wlen(w)) + 6) == 1
  ensures [blank] err == nil ==> zeros(w, old(wlen(w)) + 7, wlen(w))

extern strings.Repeat(s, n) (r)
  ensures n >= 0 ==> len(r) == len(s) * n

func (*iso9660.PrimaryVolumeDescriptor).WriteTo(pvd, w) (n, err)
  merge
  props C04 C13
  requires w != nil
  maypanic
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [count] n == wlen(w) - old(wlen(w))
  ensures [sector] err == nil ==> n == 2048
  ensures [kind] err == nil ==> wbyte(w, old(wlen(w))) == 1 && wbyte(w, old(wlen(w)) + 1) == 67 && wbyte(w, old(wlen(w)) + 2) == 68 && wbyte(w, old(wlen(w)) + 3) == 48 && wbyte(w, old(wlen(w)) + 4) == 48 && wbyte(w, old(wlen(w)) + 5) == 49 && wbyte(w, old(wlen(w)) + 6) == 1
  ensures [space] err == nil ==> both32(w, old(wlen(w)) + 80, pvd.VolumeSpaceSize)
  ensures [set] err == nil ==> both16(w, old(wlen(w)) + 120, pvd.VolumeSetSize) && both16(w, old(wlen(w)) + 124, pvd.VolumeSequenceNumber)
  ensures [block] err == nil ==> both16(w, old(wlen(w)) + 128, 2048)
  ensures [tables] err == nil ==> both32(w, old(wlen(w)) + 132, pvd.PathTableSize) && le32(w, old(wlen(w)) + 140, pvd.LTableStart) && le32(w, old(wlen(w)) + 144, pvd.OptionalLTableStart) && be32(w, old(wlen(w)) + 148, pvd.MTableStart) && be32(w, old(wlen(w)) + 152, pvd.OptionalMTableStart)
  ensures [root] err == nil ==> wbyte(w, old(wlen(w)) + 156) == 34 && both32(w, old(wlen(w)) + 158, pvd.RootStart) && both32(w, old(wlen(w)) + 166, pvd.RootLength) && wbyte(w, old(wlen(w)) + 181) == 2

func iso9660.DecodePrimaryVolumeDescriptor(r, pvd) (err)
  props C04
  requires r != nil && pvd != nil
  maypanic
  modifies R(r), pvd.SystemIdentifier, pvd.VolumeIdentifier, pvd.VolumeSetIdentifier, pvd.PublisherIdentifier, pvd.DataPreparerIdentifier, pvd.ApplicationIdentifier, pvd.CopyrightFileIdentifier, pvd.AbstractFileIdentifier, pvd.BibliographicFileIdentifier, pvd.VolumeSpaceSize, pvd.VolumeSetSize, pvd.VolumeSequenceNumber, pvd.PathTableSize, pvd.LTableStart, pvd.OptionalLTableStart, pvd.MTableStart, pvd.OptionalMTableStart, pvd.RootStart, pvd.RootLength, pvd.RootModified, pvd.Created, pvd.Modified, pvd.Effective
  ensures [kind] err == nil ==> rbyte(r, old(rpos(r))) == 1 && rbyte(r, old(rpos(r)) + 1) == 67 && rbyte(r, old(rpos(r)) + 6) == 1
  ensures [space] err == nil ==> pvd.VolumeSpaceSize == rle32(r, old(rpos(r)) + 80)
  ensures [set] err == nil ==> pvd.VolumeSetSize == rle16(r, old(rpos(r)) + 120) && pvd.VolumeSequenceNumber == rle16(r, old(rpos(r)) + 124)
  ensures [block] err == nil ==> rle16(r, old(rpos(r)) + 128) == 2048
  ensures [tables] err == nil ==> pvd.PathTableSize == rle32(r, old(rpos(r)) + 132) && pvd.LTableStart == rle32(r, old(rpos(r)) + 140) && pvd.OptionalLTableStart == rle32(r, old(rpos(r)) + 144) && pvd.MTableStart == rbe32(r, old(rpos(r)) + 148) && pvd.OptionalMTableStart == rbe32(r, old(rpos(r)) + 152)
  ensures [root] err == nil ==> rbyte(r, old(rpos(r)) + 156) == 34 && pvd.RootStart == rle32(r, old(rpos(r)) + 158) && pvd.RootLength == rle32(r, old(rpos(r)) + 166)

func iso9660.NewPathTableEncoder(byteOrder, w) (e)
  props C04
  requires w != nil
  ensures [new] e != nil && fresh(e) && e.byteOrder == byteOrder && e.w != nil && fresh(e.w) && e.w.w == w && e.w.n == 0

ghost tablelen(rs []iso9660.PathTableRecord, n int) nat = ite(n <= 0, 0, tablelen(rs, n-1) + 8 + len(rs[n-1].Identifier) + len(rs[n-1].Identifier) % 2)
func (*iso9660.PathTableEncoder).Encode(e, pt) (n, err)
  props C04 C13
  requires e.w != nil && e.w.w != nil && e.byteOrder != nil && pt != nil && len(pt.Records) <= 1048576 && forall(i, 0, len(pt.Records), len(pt.Records[i].Identifier) <= 255) && e.w.n >= 0 && e.w.n <= 1073741824
  modifies W(e.w)
  invariant [i int] wlen(e.w) == old(wlen(e.w)) + tablelen(pt.Records, i) && kept(e.w) && e.w.n == old(e.w.n) + tablelen(pt.Records, i)
  ensures [prefix] kept(e.w)
  ensures [count] n == old(e.w.n) + wlen(e.w) - old(wlen(e.w))
  ensures [length] err == nil ==> wlen(e.w) == old(wlen(e.w)) + tablelen(pt.Records, len(pt.Records))
