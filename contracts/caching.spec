// Cached objects, the buffers behind them, and read-ahead.
package caching

// A slicer cuts an object into blocks of a fixed positive size.
iface caching.Slicer.Bsize(s) (r)
  pure
  ensures r > 0 && r <= 1099511627776

// Tokens of the read-ahead budget: gvar(held, s) are taken.
extern (*golang.org/x/sync/semaphore.Weighted).TryAcquire(s, n) (ok)
  modifies gvar(held, s)
  ensures gvar(held, s) == ite(ok, old(gvar(held, s)) + n, old(gvar(held, s)))

extern (*golang.org/x/sync/semaphore.Weighted).Release(s, n)
  modifies gvar(held, s)
  ensures gvar(held, s) == old(gvar(held, s)) - n

extern (*sync.Mutex).Lock(m)
extern (*sync.Mutex).Unlock(m)

// A slice of an object: remembered by the ghost variables of the result.
iface caching.Slicer.Slice(s, obj, offset) (r)
  requires obj != nil && offset >= 0 && offset <= asize(obj)
  modifies anyg(sliceoff), anyg(sliceobj), anyg(slicer)
  ensures r != nil && gvar(sliceoff, r) == offset && gvar(sliceobj, r) == ref(obj) && gvar(slicer, r) == ref(s)

// The blocks prefetched: how many, and what the last one was.
iface caching.Slice.ReadAhead(s)
  modifies gvar(prefetches), gvar(prefetchoff), gvar(prefetchobj)
  ensures gvar(prefetches) == old(gvar(prefetches)) + 1 && gvar(prefetchoff) == gvar(sliceoff, s) && gvar(prefetchobj) == gvar(sliceobj, s)

// The block holding byte off, and the number of blocks of n bytes.
pred blockOf(off, b) = off / b
pred blocks(n, b) = (n + b - 1) / b

func caching.NewReadAheadController(window, readAheadTokens, slicer, obj) (r)
  props C16
  requires slicer != nil && obj != nil
  ensures [blocks] r != nil && r.numBlocks == blocks(asize(obj), slicer.Bsize())
  ensures [window] r.window == window && r.readAheadTokens == readAheadTokens && r.slicer == slicer && r.obj == obj
  ensures [start] r.pos == 0 && r.runLength == 0 && r.nextBlock == 1

pred racOK(c) = c.slicer != nil && c.obj != nil && c.readAheadTokens != nil && c.numBlocks == blocks(asize(c.obj), c.slicer.Bsize()) && c.runLength >= 0 && c.runLength <= 1152921504606846976 && c.window >= 0 && c.window <= 1099511627776 && c.nextBlock >= 1 && c.nextBlock <= 1152921504606846976

// First block worth prefetching after a read at off.
pred firstBlock(c, off) = ite(old(c.pos) != off, off / c.slicer.Bsize() + 1, max(old(c.nextBlock), off / c.slicer.Bsize() + 1))

func (*caching.ReadAheadController).Update(rac, off, n)
  noauto
  props C16
  requires racOK(rac) && off >= 0 && off <= 1152921504606846976 && n >= 0 && n <= 140737488355328
  modifies rac.pos, rac.runCount, rac.runLength, rac.nextBlock, gvar(held, rac.readAheadTokens), spawned()
  invariant [d int] d + (spawned() - old(spawned())) == blocks(rac.runLength, rac.slicer.Bsize()) && d >= 0
  invariant [d int] rac.nextBlock == firstBlock(rac, off) + (spawned() - old(spawned()))
  invariant [d int] gvar(held, rac.readAheadTokens) == old(gvar(held, rac.readAheadTokens)) + (spawned() - old(spawned()))
  invariant [d int] spawned() >= old(spawned()) && (spawned() > old(spawned()) ==> rac.nextBlock <= off / rac.slicer.Bsize() + rac.window + 1)
  spawn [after-current] spawn_block > off / rac.slicer.Bsize()
  spawn [in-window] spawn_block <= off / rac.slicer.Bsize() + rac.window
  spawn [exists] spawn_block < blocks(asize(rac.obj), rac.slicer.Bsize())
  spawn [once] spawn_block == firstBlock(rac, off) + (spawned() - old(spawned()))
  spawn [own] spawn_rac == rac
  ensures [next] rac.nextBlock == firstBlock(rac, off) + (spawned() - old(spawned()))
  ensures [position] rac.pos == off + n
  ensures [run] rac.runLength == ite(old(rac.pos) == off, old(rac.runLength) + n, n)
  ensures [damped] spawned() - old(spawned()) <= blocks(rac.runLength, rac.slicer.Bsize())
  ensures [one-token-each] gvar(held, rac.readAheadTokens) == old(gvar(held, rac.readAheadTokens)) + (spawned() - old(spawned()))
  ensures [valid] rac.nextBlock >= 1

func (*caching.ReadAheadController).readBlock(rac, block)
  props C16
  requires rac.slicer != nil && rac.obj != nil && rac.readAheadTokens != nil && block >= 0 && block < blocks(asize(rac.obj), rac.slicer.Bsize())
  modifies gvar(held, rac.readAheadTokens), gvar(prefetches), gvar(prefetchoff), gvar(prefetchobj), anyg(sliceoff), anyg(sliceobj), anyg(slicer)
  ensures [token-returned] gvar(held, rac.readAheadTokens) == old(gvar(held, rac.readAheadTokens)) - 1
  ensures [one-block] gvar(prefetches) == old(gvar(prefetches)) + 1
  ensures [whole-block] gvar(prefetchoff) == block * rac.slicer.Bsize() && gvar(prefetchobj) == ref(rac.obj)

func (*caching.memSlice).Seek(o, offset, whence) (r, err)
  props C15 C17
  requires o.size >= 0 && o.pos >= 0 && o.pos <= o.size && whence >= 0 && whence <= 2
  requires offset > -4611686018427387904 && offset < 4611686018427387904 && o.size < 4611686018427387904
  modifies o.pos
  ensures [no-error] err == nil
  ensures [start] whence == 0 ==> o.pos == min(max(offset, 0), o.size)
  ensures [current] whence == 1 ==> o.pos == min(max(old(o.pos) + offset, 0), o.size)
  ensures [end] whence == 2 ==> o.pos == min(max(o.size + offset, 0), o.size)
  ensures [reported] r == o.pos

func (*caching.diskSlice).Seek(o, offset, whence) (r, err)
  props C15 C17
  requires o.size >= 0 && o.pos >= 0 && o.pos <= o.size && whence >= 0 && whence <= 2
  requires offset > -4611686018427387904 && offset < 4611686018427387904 && o.size < 4611686018427387904
  modifies o.pos
  ensures [no-error] err == nil
  ensures [start] whence == 0 ==> o.pos == min(max(offset, 0), o.size)
  ensures [current] whence == 1 ==> o.pos == min(max(old(o.pos) + offset, 0), o.size)
  ensures [end] whence == 2 ==> o.pos == min(max(o.size + offset, 0), o.size)
  ensures [reported] r == o.pos

func (*caching.withCaching).Seek(o, offset, whence) (r, err)
  props C17
  requires o.obj != nil && asize(o.obj) >= 0 && o.pos >= 0 && o.pos <= asize(o.obj) && whence >= 0 && whence <= 2
  requires offset > -4611686018427387904 && offset < 4611686018427387904 && asize(o.obj) < 4611686018427387904
  modifies o.pos
  ensures [no-error] err == nil
  ensures [start] whence == 0 ==> o.pos == min(max(offset, 0), asize(o.obj))
  ensures [current] whence == 1 ==> o.pos == min(max(old(o.pos) + offset, 0), asize(o.obj))
  ensures [end] whence == 2 ==> o.pos == min(max(asize(o.obj) + offset, 0), asize(o.obj))
  ensures [reported] r == o.pos

// Memory cache: the content belonging to a key has klen(key) bytes, byte i is
// kbyte(key, i); a fill function f delivers flen(f) bytes, byte i is fbyte(f, i).
ghost klen(k string) int
ghost kbyte(k string, i int) int
ghost flen(f int) int
ghost fbyte(f int, i int) int

functype caching.memBufFillFunc(f, buf) (n, err)
  requires len(buf) >= flen(ref(f))
  modifies buf[:]
  ensures 0 <= n && n <= len(buf)
  ensures err == nil ==> n == flen(ref(f)) && forall(i, 0, n, buf[i] == fbyte(ref(f), i))

// A buffer that carries a key holds exactly the content of that key.
pred bufOK(b) = b.n >= 0 && b.n <= len(b.buf) && (b.key != "" ==> b.n == klen(b.key) && forall(i, 0, b.n, b.buf[i] == kbyte(b.key, i)))
// The fill function delivers the content of the key.
pred fills(f, key, room) = f != nil && key != "" && flen(ref(f)) == klen(key) && klen(key) >= 0 && klen(key) <= room && forall(i, 0, klen(key), fbyte(ref(f), i) == kbyte(key, i))

func caching.newMemBuf(bsize) (r)
  props C15
  requires bsize >= 0 && bsize <= 1099511627776
  ensures [empty] r != nil && fresh(r) && fresh(r.buf) && len(r.buf) == bsize && r.key == "" && r.n == 0

func (*caching.memBuf).Fill(b, key, ff) (err)
  props C15
  requires bufOK(b) && fills(ff, key, len(b.buf))
  modifies b.key, b.n, b.buf[:]
  ensures [valid] bufOK(b)
  ensures [filled] err == nil ==> b.key == key
  ensures [failure-forgotten] err != nil ==> b.key == "" && b.n == 0
  ensures [hit] old(b.key) == key ==> err == nil

func (*caching.memBuf).FillAndCopyAt(b, key, ff, p, off) (n, err)
  props C15
  requires bufOK(b) && fills(ff, key, len(b.buf)) && off >= 0 && ref(p) != ref(b.buf)
  modifies b.key, b.n, b.buf[:], p[:]
  ensures [valid] bufOK(b)
  ensures [bytes] 0 <= n && n <= len(p) && forall(i, 0, n, p[i] == kbyte(key, off + i))
  ensures [complete] err == nil && len(p) > 0 ==> n == min(len(p), klen(key) - off)
  ensures [past-end] err == nil && len(p) > 0 ==> off < klen(key)
  ensures [failure-forgotten] err != nil ==> n == 0 && (b.key == key || b.key == "")
  ensures [hit] old(b.key) == key && off < klen(key) ==> err == nil

// What the pool's table holds was put there by the pool.
extern (*github.com/hashicorp/golang-lru/simplelru.LRU).Get(c, key) (v, ok)
  ensures ok ==> typeis(v, *memBuf) && as(v, *memBuf) != nil && bufOK(as(v, *memBuf)) && len(as(v, *memBuf).buf) == gvar(poolbsize, c) && gvar(pooled, as(v, *memBuf).buf) == 1
extern (*github.com/hashicorp/golang-lru/simplelru.LRU).RemoveOldest(c) (k, v, ok)
  ensures typeis(v, *memBuf) && as(v, *memBuf) != nil && bufOK(as(v, *memBuf)) && len(as(v, *memBuf).buf) == gvar(poolbsize, c) && gvar(pooled, as(v, *memBuf).buf) == 1
extern (*github.com/hashicorp/golang-lru/simplelru.LRU).Add(c, key, v) (evicted)
  requires typeis(v, *memBuf) && as(v, *memBuf) != nil && bufOK(as(v, *memBuf)) && len(as(v, *memBuf).buf) == gvar(poolbsize, c)

func (*caching.memPool).Get(mp, key) (buffer)
  props C15
  requires mp.lru != nil && mp.bsize >= 0 && mp.bsize <= 1099511627776 && mp.next >= 0 && gvar(poolbsize, mp.lru) == mp.bsize
  modifies mp.next
  ensures [usable] buffer != nil && bufOK(buffer) && len(buffer.buf) == mp.bsize
  ensures [own-memory] fresh(buffer.buf) || gvar(pooled, buffer.buf) == 1
  ensures [bounded] mp.next <= max(old(mp.next), mp.bcount)

func (*caching.memSlice).ReadAt(ms, p, off) (n, err)
  props C15
  requires ms.pool != nil && ms.pool.lru != nil && ms.pool.bsize >= 0 && ms.pool.bsize <= 1099511627776 && ms.pool.next >= 0 && gvar(poolbsize, ms.pool.lru) == ms.pool.bsize
  requires fills(ms.ff, ms.key, ms.pool.bsize) && off >= 0 && alive(p) && gvar(pooled, p) == 0
  modifies *
  ensures [bytes] 0 <= n && n <= len(p) && forall(i, 0, n, p[i] == kbyte(old(ms.key), off + i))
  ensures [complete] err == nil && len(p) > 0 ==> n == min(len(p), klen(old(ms.key)) - off)

func (*caching.memSlicer).Slice(ms, obj, offset) (r)
  props C15
  requires obj != nil && offset >= 0 && offset <= asize(obj) && ms.bsize > 0
  ensures [size] typeis(r, *memSlice) && as(r, *memSlice).size == min(ms.bsize, asize(obj) - offset)
  ensures [pool] as(r, *memSlice).pool == ms.pool && as(r, *memSlice).pos == 0

// The fill function of a slice: the bytes of the object at the slice's place.
func (*caching.memSlicer).Slice$1(buf) (n, err)
  props C15
  requires *obj != nil && *offset >= 0 && *size >= 0 && *offset + *size <= asize(*obj) && *size <= 1099511627776
  maypanic
  modifies buf[:]
  ensures [count] err == nil ==> n == *size && n <= len(buf)
  ensures [bytes] err == nil ==> forall(i, 0, n, buf[i] == abyte(*obj, *offset + i))
  ensures [failure] err != nil ==> n == 0

iface storage/driver.Object.URL(o) (r)
  pure

func (*caching.memSlice).Size(o) (r)
  props C15 C17
  ensures [size] r == o.size

func (*caching.memSlice).Read(ms, p) (n, err)
  props C15 C17
  requires ms.pool != nil && ms.pool.lru != nil && ms.pool.bsize >= 0 && ms.pool.bsize <= 1099511627776 && ms.pool.next >= 0 && gvar(poolbsize, ms.pool.lru) == ms.pool.bsize
  requires fills(ms.ff, ms.key, ms.pool.bsize) && ms.pos >= 0 && ms.pos <= 4611686018427387904 && alive(p) && gvar(pooled, p) == 0
  modifies *
  before ReadAt [place] call_off == old(ms.pos) && ref(call_p) == ref(p) && len(call_p) == len(p)
  ensures [bytes] 0 <= n && n <= len(p) && forall(i, 0, n, p[i] == kbyte(old(ms.key), old(ms.pos) + i))

func (*caching.diskSlice).Size(o) (r)
  props C15 C17
  ensures [size] r == o.size

func (*caching.withCaching).Size(o) (r)
  props C15 C17
  requires o.obj != nil
  ensures [size] r == asize(o.obj)

func (*caching.withCaching).URL(o) (r)
  props C15 C17
  requires o.obj != nil
  ensures [url] r == o.obj.URL()

func (*caching.cache).WithCaching(c, obj) (r)
  props C15
  requires c.slicer != nil && obj != nil
  ensures [wraps] typeis(r, *withCaching) && as(r, *withCaching).obj == obj && as(r, *withCaching).slicer == c.slicer && as(r, *withCaching).pos == 0

func (caching.nopCache).WithCaching(c, obj) (r)
  props C15
  ensures [itself] r == obj

// Which blocks a cached read is made of, and which part of them it takes.
pred readFrom(off) = max(off, 0)
pred readTo(w, off, n) = min(off + n, asize(w.obj))
func (*caching.withCaching).ReadAt(w, p, off) (n, err)
  props C15
  requires w.obj != nil && w.slicer != nil && w.readAheadController != nil && racOK(w.readAheadController) && off >= 0 && off <= 1152921504606846976 && asize(w.obj) >= 0 && asize(w.obj) <= 1152921504606846976
  noarith
  modifies *
  invariant [block int64, s []storage.AnonymousObject] block == off / w.slicer.Bsize() + len(s) && calls(Slice) - pre(calls(Slice)) == len(s)
  invariant [s []storage.AnonymousObject] forall(k, 0, len(s), s[k] != nil)
  invariant [block int64] block >= off / w.slicer.Bsize() && block <= max(readTo(w, off, len(p)) / w.slicer.Bsize() + 1, off / w.slicer.Bsize())
  before Slice [block] call_obj == w.obj && call_offset == (off / w.slicer.Bsize() + calls(Slice) - old(calls(Slice))) * w.slicer.Bsize()
  before ConcurrentConcat [all] (off / w.slicer.Bsize() + len(call_objects)) * w.slicer.Bsize() >= readTo(w, off, len(p))
  before ReadAt [place] call_off == off % w.slicer.Bsize()
  before ReadAt [whole] ref(call_p) == ref(p) && len(call_p) == readTo(w, off, len(p)) - off
  ensures [empty] len(p) == 0 ==> n == 0 && err == nil
  ensures [past-end] len(p) > 0 && off >= asize(w.obj) ==> n == 0 && err == io.EOF

// The disk cache. The name of a block's file depends on the block only.
func (*caching.diskSlice).cacheFname(ds) (r)
  trusted
  pure

iface storage/driver.XattrObject.GetXattr(o, name) (v, err)
  ensures alive(v)
iface storage/driver.XattrObjectWriter.SetXattr(w, name, value) (err)
extern bytes.Equal(a, b) (r)
  pure
  ensures r == (len(a) == len(b) && forall(i, 0, len(a), a[i] == b[i]))
extern os.IsNotExist(err) (r)
  pure
extern caching.cacheLogger() (r)
  ensures r != nil

pred diskOK(ds) = ds.obj != nil && ds.bufPool != nil && gvar(buflen, ds.bufPool) == ds.bsize && ds.wg != nil && ds.offset >= 0 && ds.size >= 0 && ds.size <= ds.bsize && ds.bsize <= 1099511627776 && ds.offset + ds.size <= asize(ds.obj) && ds.offset <= 1152921504606846976

func (*caching.diskSlice).fill(ds, p, off) (n, err)
  props C15
  requires driverRegistry() && diskOK(ds) && off >= 0 && off <= ds.size && alive(p)
  modifies p[:], spawned(), anyg(closes)
  ensures [bytes] 0 <= n && n <= len(p) && forall(i, 0, n, p[i] == abyte(ds.obj, ds.offset + off + i))
  ensures [complete] n > 0 ==> err == nil && n == min(len(p), ds.size - off)
  ensures [lock-released] calls(Close) + spawned() > old(calls(Close) + spawned()) || (err != nil && err == last("storage.Lock", err))

// Writing a filled block back: only a whole block with its key is committed.
extern io.MultiWriter(ws) (r)
  ensures r != nil && gvar(tee, r) == ref(ws[0]) && wlen(r) == 0
extern github.com/OneOfOne/xxhash.New64() (r)
  ensures r != nil
func (*caching.diskSlice).fill$2()
  props C15
  requires driverRegistry() && *ds != nil && diskOK(*ds) && len(*b) == (*ds).bsize && *unlock != nil
  modifies *
  before Commit [whole] wlen(last("io.MultiWriter", r)) == (*ds).size && forall(i, 0, (*ds).size, wbyte(last("io.MultiWriter", r), i) == (*b)[i])
  before SetXattr [key] call_name == "user.vdisc-cache-key" ==> ref(call_value) == ref((*ds).key) && len(call_value) == len((*ds).key)

func (*caching.diskSlice).ReadAt(ds, p, off) (n, err)
  props C15
  requires driverRegistry() && diskOK(ds) && off >= 0 && alive(p)
  modifies p[:], spawned(), anyg(closes)
  before ReadAt [own-key] len(last("storage/driver.XattrObject.GetXattr", v)) == len(ds.key) && forall(i, 0, len(ds.key), last("storage/driver.XattrObject.GetXattr", v)[i] == ds.key[i])
  before ReadAt [place] call_off == off && ref(call_p) == ref(p) && len(call_p) == len(p)
  ensures [empty] len(p) == 0 ==> n == 0 && err == nil
  ensures [past-end] len(p) > 0 && off >= ds.size ==> n == 0 && err == io.EOF
  ensures [filled] calls(ReadAt) == old(calls(ReadAt)) && err == nil ==> forall(i, 0, n, p[i] == abyte(ds.obj, ds.offset + off + i)) && (len(p) > 0 ==> n == min(len(p), ds.size - off))

extern encoding/json.Marshal(v) (r, err)

func (*caching.DiskSlicer).Slice(ds, obj, offset) (r)
  props C15
  requires obj != nil && offset >= 0 && offset <= asize(obj) && ds.bsize > 0
  maypanic
  before Marshal [key] typeis(call_v, *diskKey) && as(call_v, *diskKey).Url == obj.URL() && as(call_v, *diskKey).Off == offset && as(call_v, *diskKey).Len == min(ds.bsize, asize(obj) - offset)
  ensures [size] typeis(r, *diskSlice) && as(r, *diskSlice).size == min(ds.bsize, asize(obj) - offset) && as(r, *diskSlice).bsize == ds.bsize
  ensures [place] as(r, *diskSlice).obj == obj && as(r, *diskSlice).offset == offset && as(r, *diskSlice).pos == 0
  ensures [cache] as(r, *diskSlice).root == ds.root && as(r, *diskSlice).bufPool == ds.bufPool && as(r, *diskSlice).wg == &ds.wg

func (*caching.diskSlice).Read(ds, p) (n, err)
  props C15 C17
  requires driverRegistry() && diskOK(ds) && ds.pos >= 0 && ds.pos <= 4611686018427387904 && alive(p)
  modifies p[:], spawned(), anyg(closes), ds.pos
  before ReadAt [place] call_off == old(ds.pos) && ref(call_p) == ref(p) && len(call_p) == len(p)
  ensures [advanced] n >= 0 && n <= len(p) ==> ds.pos == old(ds.pos) + n

func (*caching.withCaching).Read(w, p) (n, err)
  props C15 C17
  requires w.obj != nil && w.slicer != nil && w.readAheadController != nil && racOK(w.readAheadController) && w.pos >= 0 && w.pos <= 1152921504606846976 && asize(w.obj) >= 0 && asize(w.obj) <= 1152921504606846976
  modifies *
  before ReadAt [place] call_off == old(w.pos) && ref(call_p) == ref(p) && len(call_p) == len(p)
