// Object handles: position, positioned reads and seeking.
//
// Content of an object o: asize(o) bytes, byte i is abyte(o, i).
package storage

// What every object read through the AnonymousObject interface promises.
iface storage/driver.AnonymousObject.Size(o) (r)
  pure
  ensures r == asize(o)

iface io.ReaderAt.ReadAt(o, p, off) (n, err)
  modifies p[:]
  ensures 0 <= n && n <= len(p)
  ensures n > 0 ==> off >= 0 && off + n <= asize(o)
  ensures err == nil && len(p) > 0 ==> off >= 0 && (n == len(p) || off + n == asize(o))
  ensures forall(i, 0, n, p[i] == abyte(o, off+i))

// Where a seek lands: clamped to the object.
pred clamp(x, size) = min(max(x, 0), size)

func (*storage.concatenated).Size(c) (r)
  props C14
  ensures [size] r == c.size

func (*storage.concatenated).Seek(c, offset, whence) (r, err)
  props C14
  requires c.size >= 0 && c.pos >= 0 && c.pos <= c.size && whence >= 0 && whence <= 2
  requires offset > -4611686018427387904 && offset < 4611686018427387904 && c.size < 4611686018427387904
  modifies c.pos
  ensures [no-error] err == nil
  ensures [start] whence == 0 ==> c.pos == clamp(offset, c.size)
  ensures [current] whence == 1 ==> c.pos == clamp(old(c.pos) + offset, c.size)
  ensures [end] whence == 2 ==> c.pos == clamp(c.size + offset, c.size)
  ensures [reported] r == c.pos

pred partOf(i) = as(i, part)

// Bytes of the first n objects.
ghost joined(s []driver.AnonymousObject, n int) int = ite(n <= 0, 0, joined(s, n-1) + asize(s[n-1]))

// The total fits the type of sizes.
pred sane(s) = forall(k, 0, len(s) + 1, joined(s, k) >= 0 && joined(s, k) <= 4611686018427387904)

extern github.com/google/btree.New(degree) (t)
  ensures t != nil && fresh(t)
extern (*github.com/google/btree.BTree).ReplaceOrInsert(t, item) (r)

func storage.concat(concurrent, objects) (r)
  props C14
  requires forall(k, 0, len(objects), objects[k] != nil)
  invariant [off int64, i int] sane(objects) ==> off == joined(objects, i)
  invariant [i int] calls(ReplaceOrInsert) - pre(calls(ReplaceOrInsert)) == i
  before ReplaceOrInsert [place] typeis(call_item, part) && sane(objects) ==> as(call_item, part).Offset == joined(objects, calls(ReplaceOrInsert) - old(calls(ReplaceOrInsert)))
  before ReplaceOrInsert [object] as(call_item, part).Obj == objects[calls(ReplaceOrInsert) - old(calls(ReplaceOrInsert))]
  ensures [single] len(objects) == 1 ==> r == objects[0]
  ensures [all-kept] len(objects) != 1 ==> calls(ReplaceOrInsert) - old(calls(ReplaceOrInsert)) == len(objects)
  ensures [size] len(objects) != 1 ==> typeis(r, *concatenated) && (sane(objects) ==> as(r, *concatenated).size == joined(objects, len(objects))) && as(r, *concatenated).pos == 0 && (as(r, *concatenated).concurrent <==> concurrent)

func storage.Concat(objects) (r)
  props C14
  requires forall(k, 0, len(objects), objects[k] != nil)
  ensures [single] len(objects) == 1 ==> r == objects[0]
  ensures [size] len(objects) != 1 ==> typeis(r, *concatenated) && (sane(objects) ==> as(r, *concatenated).size == joined(objects, len(objects))) && as(r, *concatenated).pos == 0

func storage.ConcurrentConcat(objects) (r)
  props C14
  requires forall(k, 0, len(objects), objects[k] != nil)
  ensures [single] len(objects) == 1 ==> r == objects[0]
  ensures [size] len(objects) != 1 ==> typeis(r, *concatenated) && (sane(objects) ==> as(r, *concatenated).size == joined(objects, len(objects))) && as(r, *concatenated).pos == 0

extern (*github.com/google/btree.BTree).DescendLessOrEqual(t, pivot, f)
  modifies callback(f)

// One part of a read: the bytes it serves come from the right place of it.
func (*storage.concatenated).ReadAt$1(i) (more)
  props C14
  requires typeis(i, part) && partOf(i).Obj != nil && partOf(i).Offset >= 0 && asize(partOf(i).Obj) >= 0
  requires (*x).Start == *off && *off >= 0 && (*x).End > (*x).Start && (*x).End <= *off + len(*p) && *off <= 2305843009213693952
  requires *c != nil && partOf(i).Offset <= 2305843009213693952 && asize(partOf(i).Obj) <= 2305843009213693952
  modifies *workItems, anyelems([]*workItem), (*p)[:], spawned()
  steady [items] forall(k, 0, len(*workItems), (*workItems)[k] != nil)
  before ReadAt [place] call_off == max((*x).Start, partOf(i).Offset) - partOf(i).Offset
  before ReadAt [destination] ref(call_p) == ref(*p) && len(call_p) == min((*x).End, partOf(i).Offset + asize(partOf(i).Obj)) - max((*x).Start, partOf(i).Offset)
  before ReadAt [part] ref(call_o) == ref(partOf(i).Obj)
  ensures [goes-on] more <==> max((*x).Start, partOf(i).Offset) < min((*x).End, partOf(i).Offset + asize(partOf(i).Obj))
  ensures [noted] more ==> len(*workItems) == old(len(*workItems)) + 1
  ensures [not-noted] !more ==> len(*workItems) == old(len(*workItems))
  ensures [range] more ==> (*workItems)[len(*workItems)-1] != nil && len((*workItems)[len(*workItems)-1].dst) == min((*x).End, partOf(i).Offset + asize(partOf(i).Obj)) - max((*x).Start, partOf(i).Offset)
  ensures [source] more ==> ref((*workItems)[len(*workItems)-1].obj) == ref(partOf(i).Obj) && (*workItems)[len(*workItems)-1].off == max((*x).Start, partOf(i).Offset) - partOf(i).Offset

func (*storage.concatenated).Read(c, p) (n, err)
  props C14
  requires c.parts != nil && c.pos >= 0 && c.pos <= 2305843009213693952 && c.size >= 0 && c.size <= 2305843009213693952
  modifies *
  before ReadAt [place] call_off == old(c.pos) && ref(call_p) == ref(p) && len(call_p) == len(p)
  ensures [advances] c.pos == old(c.pos) + n

func (*storage.concatenated).ReadAt(c, p, off) (n, err)
  props C14
  requires c.parts != nil && off >= 0 && off <= 2305843009213693952 && c.size >= 0 && c.size <= 2305843009213693952
  modifies p[:], anyelems([]*workItem), spawned()
  assume [bounded] 0 <= n && n <= len(p)
  ensures [empty] len(p) == 0 ==> n == 0 && err == nil
  ensures [past-end] len(p) > 0 && off >= c.size ==> n == 0 && err == io.EOF

func storage.Slice(o, off, n) (r)
  props C17
  ensures [range] typeis(r, *slice) && as(r, *slice) != nil && as(r, *slice).base == off && as(r, *slice).off == off && as(r, *slice).limit == wrap64(off + n) && as(r, *slice).o == o

pred wrap64(x) = ite(x > 9223372036854775807, x - 18446744073709551616, ite(x < -9223372036854775808, x + 18446744073709551616, x))

func (*storage.slice).Size(s) (r)
  props C17
  requires s.base >= 0 && s.limit >= s.base
  ensures [length] r == s.limit - s.base

func (*storage.slice).Read(s, p) (n, err)
  props C17
  requires s.o != nil && s.base >= 0 && s.base <= s.off && s.limit >= s.base
  modifies s.off, p[:]
  ensures [advances] s.off == old(s.off) + n
  ensures [within] 0 <= n && n <= len(p) && (n > 0 ==> s.off <= s.limit)
  ensures [bytes] forall(i, 0, n, p[i] == abyte(s.o, old(s.off) + i))
  ensures [past-end] old(s.off) >= s.limit ==> n == 0 && err == io.EOF
  ensures [complete] err == nil && len(p) > 0 ==> n == min(len(p), min(s.limit, asize(s.o)) - old(s.off))

func (*storage.slice).ReadAt(s, p, off) (n, err)
  props C17
  requires s.o != nil && s.base >= 0 && s.base <= s.off && s.limit >= s.base
  modifies p[:]
  ensures [within] 0 <= n && n <= len(p) && (n > 0 ==> off >= 0 && off + n <= s.limit - s.base)
  ensures [bytes] forall(i, 0, n, p[i] == abyte(s.o, s.base + off + i))
  ensures [past-end] off >= s.limit - s.base || off < 0 ==> n == 0 && err != nil
  ensures [short] n < len(p) && s.limit <= asize(s.o) ==> err != nil

func (*storage.slice).Seek(s, offset, whence) (r, err)
  props C17
  requires s.base >= 0 && s.base <= s.off && s.limit >= s.base && s.off < 4611686018427387904 && s.limit < 4611686018427387904
  requires offset > -4611686018427387904 && offset < 4611686018427387904
  modifies s.off
  ensures [lands] err == nil ==> s.off - s.base == r && r == offset + ite(whence == 0, 0, ite(whence == 1, old(s.off) - s.base, s.limit - s.base))
  ensures [not-negative] err == nil ==> r >= 0 && whence >= 0 && whence <= 2
  ensures [refused] err != nil ==> s.off == old(s.off)
  ensures [accepts] whence >= 0 && whence <= 2 && offset + ite(whence == 0, 0, ite(whence == 1, old(s.off) - s.base, s.limit - s.base)) >= 0 ==> err == nil

func storage.WithURL(o, url) (r)
  props C17
  ensures [keeps] typeis(r, *withURL) && as(r, *withURL) != nil && as(r, *withURL).o == o && as(r, *withURL).url == url

func (*storage.withURL).URL(wu) (r)
  props C17
  ensures [url] r == wu.url

func (*storage.withURL).Size(wu) (r)
  props C17
  requires wu.o != nil
  ensures [size] r == asize(wu.o)

func (*storage.withURL).ReadAt(wu, p, off) (n, err)
  props C17
  requires wu.o != nil
  modifies p[:]
  ensures [within] 0 <= n && n <= len(p)
  ensures [bytes] forall(i, 0, n, p[i] == abyte(wu.o, off + i))
  ensures [complete] err == nil && len(p) > 0 ==> off >= 0 && (n == len(p) || off + n == asize(wu.o))

package storage/zero

func (*storage/zero.object).Size(o) (r)
  props C17
  ensures [size] r == o.size

func (*storage/zero.object).ReadAt(o, p, off) (n, err)
  props C17
  requires o.size >= 0 && off >= 0
  modifies p[:]
  invariant [i int] 0 <= i && i <= min(len(p), o.size - off) && forall(k, 0, i, p[k] == 0) && forall(k, i, len(p), p[k] == old(p[k]))
  ensures [count] off < o.size ==> n == min(len(p), o.size - off) && err == nil
  ensures [zeros] forall(k, 0, n, p[k] == 0)
  ensures [rest-untouched] forall(k, n, len(p), p[k] == old(p[k]))
  ensures [past-end] off >= o.size && len(p) > 0 ==> n == 0 && err == io.EOF
  ensures [empty] len(p) == 0 ==> n == 0 && err == nil

func (*storage/zero.object).Read(o, p) (n, err)
  props C17
  requires o.size >= 0 && o.pos >= 0
  modifies o.pos, p[:]
  ensures [advances] o.pos == old(o.pos) + n
  ensures [count] old(o.pos) < o.size ==> n == min(len(p), o.size - old(o.pos)) && err == nil
  ensures [zeros] forall(k, 0, n, p[k] == 0)
  ensures [past-end] old(o.pos) >= o.size && len(p) > 0 ==> n == 0 && err == io.EOF

func (*storage/zero.object).Seek(o, offset, whence) (r, err)
  props C17
  requires o.size >= 0 && o.pos >= 0 && o.pos <= o.size && whence >= 0 && whence <= 2
  requires offset > -4611686018427387904 && offset < 4611686018427387904 && o.size < 4611686018427387904
  modifies o.pos
  ensures [no-error] err == nil
  ensures [start] whence == 0 ==> o.pos == min(max(offset, 0), o.size)
  ensures [current] whence == 1 ==> o.pos == min(max(old(o.pos) + offset, 0), o.size)
  ensures [end] whence == 2 ==> o.pos == min(max(o.size + offset, 0), o.size)
  ensures [reported] r == o.pos
