// System use entries: each writes exactly the bytes its length says.
package iso9660/susp

// Any entry, as seen by code that holds it through the interface. Entries are
// immutable once handed out, so the length is a function of the entry.
iface iso9660/susp.SystemUseEntry.Len(e) (r)
  pure
  ensures r >= 4 && r <= 255

iface iso9660/susp.SystemUseEntry.WriteTo(e, w) (n, err)
  requires w != nil
  modifies W(w)
  ensures kept(w)
  ensures err == nil ==> grew(w, e.Len()) && n == e.Len()
  ensures err == nil ==> wbyte(w, old(wlen(w)) + 2) == e.Len()

func iso9660/susp.writeByte(w, b) (err)
  props C06 C13
  inline
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [bytes] err == nil ==> grew(w, 1) && wbyte(w, old(wlen(w))) == b

func iso9660/susp.putBothUint32(w, v) (err)
  props C06 C13
  inline
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [bytes] err == nil ==> grew(w, 8) && both32(w, old(wlen(w)), v)

// header: signature, declared length, version 1
pred hdr4(w, at, a, b, n) = wbyte(w, at) == a && wbyte(w, at+1) == b && wbyte(w, at+2) == n && wbyte(w, at+3) == 1
pred text(w, at, s) = forall(i, 0, len(s), wbyte(w, at+i) == s[i])

func (*iso9660/susp.ContinuationAreaEntry).WriteTo(ce, w) (n, err)
  props C06 C13
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [length] err == nil ==> n == 28 && grew(w, 28) && hdr4(w, old(wlen(w)), 'C', 'E', 28)
  ensures [fields] err == nil ==> both32(w, old(wlen(w)) + 4, ce.start) && both32(w, old(wlen(w)) + 12, ce.off) && both32(w, old(wlen(w)) + 20, ce.len)
  ensures [count] n >= 0 && n <= wlen(w) - old(wlen(w))

func (*iso9660/susp.ContinuationAreaEntry).Len(ce) (r)
  props C06
  inline
  ensures [length] r == 28

func iso9660/susp.NewContinuationAreaEntry(start, off, n) (ce)
  props C06
  inline
  ensures [fields] ce.start == start && ce.off == off && ce.len == n

func (*iso9660/susp.ContinuationAreaEntry).ContinuationStart(ce) (r)
  props C06
  inline
  ensures [value] r == ce.start
func (*iso9660/susp.ContinuationAreaEntry).ContinuationOffset(ce) (r)
  props C06
  inline
  ensures [value] r == ce.off
func (*iso9660/susp.ContinuationAreaEntry).ContinuationLength(ce) (r)
  props C06
  inline
  ensures [value] r == ce.len

func (*iso9660/susp.SharingProtocolEntry).WriteTo(sp, w) (n, err)
  props C06 C13
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [length] err == nil ==> n == 7 && grew(w, 7) && hdr4(w, old(wlen(w)), 'S', 'P', 7)
  ensures [fields] err == nil ==> wbyte(w, old(wlen(w)) + 4) == 190 && wbyte(w, old(wlen(w)) + 5) == 239 && wbyte(w, old(wlen(w)) + 6) == sp.lenSkp
  ensures [count] n >= 0 && n <= wlen(w) - old(wlen(w))

func (*iso9660/susp.SharingProtocolEntry).Len(sp) (r)
  props C06
  inline
  ensures [length] r == 7

func (*iso9660/susp.TerminatorEntry).WriteTo(t, w) (n, err)
  props C06 C13
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [length] err == nil ==> n == 4 && grew(w, 4) && hdr4(w, old(wlen(w)), 'S', 'T', 4)
  ensures [count] n >= 0 && n <= wlen(w) - old(wlen(w))

func (*iso9660/susp.TerminatorEntry).Len(t) (r)
  props C06
  inline
  ensures [length] r == 4

pred validER(er) = 8 + len(er.identifier) + len(er.descriptor) + len(er.source) <= 255

func iso9660/susp.NewExtensionsReferenceEntry(version, identifier, descriptor, source) (r, err)
  props C06
  ensures [refused] 8 + len(identifier) + len(descriptor) + len(source) > 255 ==> err != nil && r == nil
  ensures [accepted] 8 + len(identifier) + len(descriptor) + len(source) <= 255 ==> err == nil && typeis(r, *ExtensionsReferenceEntry) && as(r, *ExtensionsReferenceEntry) != nil && fresh(r)
  ensures [fields] err == nil ==> as(r, *ExtensionsReferenceEntry).version == version && as(r, *ExtensionsReferenceEntry).identifier == identifier && as(r, *ExtensionsReferenceEntry).descriptor == descriptor && as(r, *ExtensionsReferenceEntry).source == source

func (*iso9660/susp.ExtensionsReferenceEntry).Len(er) (r)
  props C06
  inline
  ensures [length] r == 8 + len(er.identifier) + len(er.descriptor) + len(er.source)

func (*iso9660/susp.ExtensionsReferenceEntry).WriteTo(er, w) (n, err)
  props C06 C13
  requires w != nil && validER(er)
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [length] err == nil ==> n == 8 + len(er.identifier) + len(er.descriptor) + len(er.source) && grew(w, n) && hdr4(w, old(wlen(w)), 'E', 'R', n)
  ensures [lengths] err == nil ==> wbyte(w, old(wlen(w)) + 4) == len(er.identifier) && wbyte(w, old(wlen(w)) + 5) == len(er.descriptor) && wbyte(w, old(wlen(w)) + 6) == len(er.source) && wbyte(w, old(wlen(w)) + 7) == er.version
  ensures [texts] err == nil ==> text(w, old(wlen(w)) + 8, er.identifier) && text(w, old(wlen(w)) + 8 + len(er.identifier), er.descriptor) && text(w, old(wlen(w)) + 8 + len(er.identifier) + len(er.descriptor), er.source)
  ensures [count] n >= 0 && n <= wlen(w) - old(wlen(w))
