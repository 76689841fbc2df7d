// Directory records.
package iso9660

// Total length of the first n entries of a list of system use entries.
ghost sumlen(s seq, n int) nat = ite(n <= 0, 0, sumlen(s, n-1) + s[n-1].Len())

pred idlen(rec) = 34 + len(rec.Identifier) - len(rec.Identifier) % 2
pred reclen(rec) = idlen(rec) + sumlen(rec.SystemUse, len(rec.SystemUse))

func (*iso9660.DirectoryRecord).Len(rec) (r)
  props C05 C08 C09
  requires len(rec.SystemUse) <= 1048576 && forall(i, 0, len(rec.SystemUse), rec.SystemUse[i] != nil)
  invariant [i int, n int] n == idlen(rec) + sumlen(rec.SystemUse, i) && n <= 34 + len(rec.Identifier) + 255 * i && n >= 33 && i <= len(rec.SystemUse)
  ensures [length] r == reclen(rec)

func (*iso9660.DirectoryRecord).WriteTo(rec, w) (n, err)
  props C05 C13
  requires w != nil && len(rec.SystemUse) <= 1048576 && forall(i, 0, len(rec.SystemUse), rec.SystemUse[i] != nil)
  modifies W(w)
  panics_iff len(rec.Identifier) <= 30 && reclen(rec) > 255
  invariant [i int] wlen(w) == old(wlen(w)) + idlen(rec) + sumlen(rec.SystemUse, i) && kept(w)
  ensures [prefix] kept(w)
  ensures [refused] len(rec.Identifier) > 30 ==> err != nil && n == 0 && grew(w, 0)
  ensures [length] err == nil ==> n == reclen(rec) && grew(w, n) && wbyte(w, old(wlen(w))) == n
  ensures [count] n == wlen(w) - old(wlen(w))
  ensures [start] err == nil ==> both32(w, old(wlen(w)) + 2, rec.Start)
  ensures [extent] err == nil ==> both32(w, old(wlen(w)) + 10, rec.Length)
  ensures [flags] err == nil ==> wbyte(w, old(wlen(w)) + 1) == rec.ExtendedAttrRecordLength && wbyte(w, old(wlen(w)) + 25) == rec.Flags && wbyte(w, old(wlen(w)) + 26) == rec.FileUnitSize && wbyte(w, old(wlen(w)) + 27) == rec.InterleaveGap
  ensures [volume] err == nil ==> both16(w, old(wlen(w)) + 28, rec.VolumeID)
  ensures [identifier] err == nil ==> wbyte(w, old(wlen(w)) + 32) == len(rec.Identifier) && forall(i, 0, len(rec.Identifier), wbyte(w, old(wlen(w)) + 33 + i) == rec.Identifier[i])
