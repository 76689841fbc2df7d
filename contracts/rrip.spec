package iso9660/rrip

func iso9660/rrip.writeByte(w, b) (err)
  props C06 C13
  inline
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [bytes] err == nil ==> grew(w, 1) && wbyte(w, old(wlen(w))) == b

func iso9660/rrip.putBothUint32(w, v) (err)
  props C06 C13
  inline
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [bytes] err == nil ==> grew(w, 8) && both32(w, old(wlen(w)), v)

// ---- NM ----
func (*iso9660/rrip.Name).Len(nm) (r)
  props C06
  inline
  ensures [length] r == 5 + len(nm.data)

func (*iso9660/rrip.Name).WriteTo(nm, w) (n, err)
  props C06 C13
  requires w != nil && len(nm.data) <= 250
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [length] err == nil ==> n == 5 + len(nm.data) && grew(w, n) && hdr4(w, old(wlen(w)), 'N', 'M', n)
  ensures [flags] err == nil ==> wbyte(w, old(wlen(w)) + 4) == ite(nm.cont, 1, 0)
  ensures [text] err == nil ==> text(w, old(wlen(w)) + 5, nm.data)
  ensures [count] n >= 0 && n <= wlen(w) - old(wlen(w))

func iso9660/rrip.NewNamePart(data, cont) (r, err)
  props C06 C07
  ensures [refused] len(data) > 250 ==> err != nil
  ensures [fields] err == nil ==> typeis(r, *Name) && as(r, *Name) != nil && fresh(r) && as(r, *Name).data == data && as(r, *Name).cont == cont && len(data) <= 250

// ---- PX ----
func (*iso9660/rrip.PosixEntry).Len(pe) (r)
  props C06
  inline
  ensures [length] r == 44

func (*iso9660/rrip.PosixEntry).WriteTo(pe, w) (n, err)
  props C06 C13
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [length] err == nil ==> n == 44 && grew(w, 44) && hdr4(w, old(wlen(w)), 'P', 'X', 44)
  ensures [mode] err == nil ==> both32(w, old(wlen(w)) + 4, pe.Mode)
  ensures [nlink] err == nil ==> both32(w, old(wlen(w)) + 12, pe.Nlink)
  ensures [uid] err == nil ==> both32(w, old(wlen(w)) + 20, pe.Uid)
  ensures [gid] err == nil ==> both32(w, old(wlen(w)) + 28, pe.Gid)
  ensures [ino] err == nil ==> both32(w, old(wlen(w)) + 36, pe.Ino)
  ensures [count] n >= 0 && n <= wlen(w) - old(wlen(w))

// ---- SL ----
pred validComp(c) = len(c.data) <= 248 && ((c.flags == 0 || c.flags == 1) || (c.flags == 2 || c.flags == 4 || c.flags == 8) && len(c.data) == 0)

func (*iso9660/rrip.SymlinkComponent).Len(sc) (r)
  props C06
  inline
  ensures [length] (sc.flags == 0 || sc.flags == 1) ==> r == 2 + len(sc.data)
  ensures [length-special] (sc.flags == 2 || sc.flags == 4 || sc.flags == 8) ==> r == 2

func (*iso9660/rrip.SymlinkComponent).WriteTo(sc, w) (n, err)
  props C06 C13
  requires w != nil && validComp(sc)
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [length] err == nil ==> n == 2 + len(sc.data) && grew(w, n) && wbyte(w, old(wlen(w))) == sc.flags && wbyte(w, old(wlen(w)) + 1) == len(sc.data)
  ensures [text] err == nil ==> text(w, old(wlen(w)) + 2, sc.data)
  ensures [count] n >= 0 && n <= wlen(w) - old(wlen(w))

func (*iso9660/rrip.Symlink).Len(sl) (r)
  props C06
  inline
  requires validComp(sl.comp)
  ensures [length] r == 7 + len(sl.comp.data)

func (*iso9660/rrip.Symlink).WriteTo(sl, w) (n, err)
  props C06 C13
  requires w != nil && validComp(sl.comp)
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [length] err == nil ==> n == 7 + len(sl.comp.data) && grew(w, n) && hdr4(w, old(wlen(w)), 'S', 'L', n)
  ensures [flags] err == nil ==> wbyte(w, old(wlen(w)) + 4) == ite(sl.cont, 1, 0)
  ensures [component] err == nil ==> wbyte(w, old(wlen(w)) + 5) == sl.comp.flags && wbyte(w, old(wlen(w)) + 6) == len(sl.comp.data)
  ensures [text] err == nil ==> text(w, old(wlen(w)) + 7, sl.comp.data)
  ensures [count] n >= 0 && n <= wlen(w) - old(wlen(w))

func iso9660/rrip.NewSymlinkPart(flags, data, cont) (r, err)
  props C06 C07
  ensures [refused] len(data) > 248 ==> err != nil
  ensures [fields] err == nil ==> typeis(r, *Symlink) && as(r, *Symlink) != nil && fresh(r) && as(r, *Symlink).comp.data == data && as(r, *Symlink).comp.flags == flags && as(r, *Symlink).cont == cont

// ---- TF ----
pred on(x) = ite(x != nil, 1, 0)
pred stamps(tf) = on(tf.Created) + on(tf.Modified) + on(tf.Access) + on(tf.Attributes) + on(tf.Backup) + on(tf.Expiration) + on(tf.Effective)
pred tflen(tf) = 5 + ite(tf.LongForm, 17, 7) * stamps(tf)

func (*iso9660/rrip.Timestamps).Len(tf) (r)
  props C06
  ensures [length] r == tflen(tf)

func (*iso9660/rrip.Timestamps).WriteTo(tf, w) (n, err)
  merge
  props C06 C13
  requires w != nil
  modifies W(w)
  ensures [prefix] kept(w)
  ensures [length] err == nil ==> n == tflen(tf) && grew(w, n) && hdr4(w, old(wlen(w)), 'T', 'F', n)
  ensures [flags] err == nil ==> wbyte(w, old(wlen(w)) + 4) == on(tf.Created) + 2*on(tf.Modified) + 4*on(tf.Access) + 8*on(tf.Attributes) + 16*on(tf.Backup) + 32*on(tf.Expiration) + 64*on(tf.Effective) + ite(tf.LongForm, 128, 0)
  ensures [count] n >= 0 && n <= wlen(w) - old(wlen(w))
