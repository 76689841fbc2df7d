// Byte-level helpers of the ISO 9660 writer and reader.
package iso9660

// Everything written before the call is still there.
pred kept(w) = wlen(w) >= old(wlen(w)) && forall(i, 0, old(wlen(w)), wbyte(w, i) == old(wbyte(w, i)))
// Exactly n more bytes than at entry.
pred grew(w, n) = wlen(w) == old(wlen(w)) + n
// Little and big endian 32/16 bit numbers at position at.
pred le16(w, at, v) = wbyte(w, at) == v % 256 && wbyte(w, at+1) == v / 256
pred be16(w, at, v) = wbyte(w, at) == v / 256 && wbyte(w, at+1) == v % 256
pred le32(w, at, v) = wbyte(w, at) == v % 256 && wbyte(w, at+1) == v / 256 % 256 && wbyte(w, at+2) == v / 65536 % 256 && wbyte(w, at+3) == v / 16777216
pred be32(w, at, v) = wbyte(w, at) == v / 16777216 && wbyte(w, at+1) == v / 65536 % 256 && wbyte(w, at+2) == v / 256 % 256 && wbyte(w, at+3) == v % 256
pred both16(w, at, v) = le16(w, at, v) && be16(w, at+2, v)
pred both32(w, at, v) = le32(w, at, v) && be32(w, at+4, v)
pred zeros(w, lo, hi) = forall(i, lo, hi, wbyte(w, i) == 0)

func iso9660.bytesToSectors(n) (r)
  props C02
  pure
  ensures [at-least-one] r >= 1
  ensures [covers] r * 2048 >= n
  ensures [tight] r == 1 || (r - 1) * 2048 < n

func iso9660.sectorsToBytes(n) (r)
  props C02
  pure
  ensures [exact] r == n * 2048

func (*iso9660.SectorAllocator).Alloc(s, n) (r)
  props C02
  panics_iff s.next + bytesToSectors(n) >= 4294967296
  modifies s.next
  ensures [starts-after-previous] r == old(s.next)
  ensures [covers] (s.next - r) * 2048 >= n && s.next > r
  ensures [exact] s.next == old(s.next) + bytesToSectors(n)

func (*iso9660.SectorAllocator).Allocated(s) (r)
  props C02
  ensures [total] r == s.next

func iso9660.NewSectorAllocator() (r)
  props C02
  ensures [empty] r != nil && fresh(r) && r.next == 0

func iso9660.putBothUint16(w, v) (err)
  props C04 C13
  inline
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [bytes] err == nil ==> grew(w, 4) && both16(w, old(wlen(w)), v)

func iso9660.putBothUint32(w, v) (err)
  props C04 C13
  inline
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [bytes] err == nil ==> grew(w, 8) && both32(w, old(wlen(w)), v)

func iso9660.writeByte(w, b) (err)
  props C04 C13
  inline
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [bytes] err == nil ==> grew(w, 1) && wbyte(w, old(wlen(w))) == b

func iso9660.pad(w, n) (err)
  props C04 C13
  requires w != nil
  modifies W(w)
  invariant [i int] i <= max(n, 0) && wlen(w) == old(wlen(w)) + i && kept(w) && zeros(w, old(wlen(w)), wlen(w))
  ensures [prefix] kept(w)
  ensures [bytes] err == nil ==> (n >= 0 ==> grew(w, n)) && (n < 0 ==> grew(w, 0)) && zeros(w, old(wlen(w)), wlen(w))

func (*iso9660.CountingWriter).Write(cw, p) (n, err)
  inline
  props C13 C08
  requires cw.w != nil && cw.n >= 0 && cw.n < 1152921504606846976
  modifies W(cw)
  ensures [count] n >= 0 && n <= len(p) && cw.n == old(cw.n) + n
  ensures [forwards] grew(cw, n) && kept(cw) && forall(i, 0, n, wbyte(cw, old(wlen(cw)) + i) == p[i])
  ensures [error] err == nil ==> n == len(p)

// Readers: content is fixed, the position advances.
func iso9660.readByte(r) (b, err)
  props C05 C06 C13
  inline
  requires r != nil
  modifies R(r)
  ensures [value] err == nil ==> rpos(r) == old(rpos(r)) + 1 && b == rbyte(r, old(rpos(r))) && old(rpos(r)) < rlen(r)
  ensures [bounded] rpos(r) >= old(rpos(r)) && rpos(r) <= old(rpos(r)) + 1

func iso9660.readExpectedByte(r, x, desc) (err)
  props C04 C05 C13
  inline
  requires r != nil
  modifies R(r)
  ensures [value] err == nil ==> rpos(r) == old(rpos(r)) + 1 && rbyte(r, old(rpos(r))) == x && old(rpos(r)) < rlen(r)

func iso9660.readExpectedString(r, x, desc) (err)
  props C04 C13
  requires r != nil
  modifies R(r)
  ensures [value] err == nil ==> rpos(r) == old(rpos(r)) + len(x) && forall(i, 0, len(x), rbyte(r, old(rpos(r)) + i) == x[i])

pred rle16(r, at) = rbyte(r, at) + 256 * rbyte(r, at+1)
pred rbe16(r, at) = 256 * rbyte(r, at) + rbyte(r, at+1)
pred rle32(r, at) = rbyte(r, at) + 256 * rbyte(r, at+1) + 65536 * rbyte(r, at+2) + 16777216 * rbyte(r, at+3)
pred rbe32(r, at) = 16777216 * rbyte(r, at) + 65536 * rbyte(r, at+1) + 256 * rbyte(r, at+2) + rbyte(r, at+3)

func iso9660.getBothUint16(r) (v, err)
  props C04 C05 C13
  inline
  requires r != nil
  modifies R(r)
  ensures [value] err == nil ==> rpos(r) == old(rpos(r)) + 4 && v == rle16(r, old(rpos(r))) && v == rbe16(r, old(rpos(r)) + 2)
  ensures [agree] rle16(r, old(rpos(r))) != rbe16(r, old(rpos(r)) + 2) ==> err != nil

func iso9660.getBothUint32(r) (v, err)
  props C04 C05 C06 C13
  inline
  requires r != nil
  modifies R(r)
  ensures [value] err == nil ==> rpos(r) == old(rpos(r)) + 8 && v == rle32(r, old(rpos(r))) && v == rbe32(r, old(rpos(r)) + 4)
  ensures [agree] rle32(r, old(rpos(r))) != rbe32(r, old(rpos(r)) + 4) ==> err != nil

func iso9660.unpad(r, n) (err)
  props C04 C05 C13
  requires r != nil
  modifies R(r)
  ensures [skips] err == nil ==> rpos(r) == old(rpos(r)) + max(n, 0)
  ensures [bounded] rpos(r) >= old(rpos(r)) && rpos(r) <= old(rpos(r)) + max(n, 0)
