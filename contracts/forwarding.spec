// Wrappers that only pass a call on.
package storage

func (*storage.withURL).Read(wu, p) (n, err)
  props C17
  requires wu.o != nil && ref(wu.o) != ref(wu)
  modifies R(wu.o), p[:]
  ensures [counts] 0 <= n && n <= len(p)
  ensures [advanced] rpos(wu.o) == old(rpos(wu.o)) + n
  ensures [content] forall(i, 0, n, p[i] == old(rbyte(wu.o, rpos(wu.o)+i)))

func (*storage.withURL).Seek(wu, offset, whence) (r, err)
  props C17
  requires wu.o != nil
  modifies R(wu.o)
  before Seek [same] call_offset == offset && call_whence == whence && ref(call_s) == ref(wu.o)
  ensures [answer] calls(Seek) == old(calls(Seek)) + 1 && r == last("io.Seeker.Seek", r) && err == last("io.Seeker.Seek", err)

func (*storage.withURL).Close(wu) (err)
  props C17
  requires wu.o != nil
  modifies gvar(closes, wu.o)
  ensures [closed] gvar(closes, wu.o) == old(gvar(closes, wu.o)) + 1

func (storage.part).Less(p, than) (r)
  props C14
  requires typeis(than, part)
  ensures [order] r <==> p.Offset < as(than, part).Offset

package countio

func (*countio.CountingReaderAtSeeker).Seek(c, offset, whence) (r, err)
  props C17
  requires c.r != nil && ref(c.r) != ref(c)
  modifies R(c.r)
  before Seek [same] call_offset == offset && call_whence == whence && ref(call_s) == ref(c.r)
  ensures [answer] calls(Seek) == old(calls(Seek)) + 1 && r == last("io.Seeker.Seek", r) && err == last("io.Seeker.Seek", err)

package vdisc

func (*vdisc.vdisc).Close(v) (err)
  props C20
  requires v.image != nil && v.mmapHandle != nil
  modifies anyg(closes)
  ensures [image] gvar(closes, v.image) > old(gvar(closes, v.image))
  ensures [mapping] err == nil ==> gvar(closes, v.mmapHandle) > old(gvar(closes, v.mmapHandle))

package isofuse

func isofuse.inoToExtent(ino) (r)
  props C26
  panics_iff ino > 4294967295
  ensures [same] r == ino
