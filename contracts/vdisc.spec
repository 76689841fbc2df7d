// Images: extents, their sizes and addresses, and the table of URLs.
package vdisc

// The encoded message: reading it has no effect.
extern (vdisc/types/v1.Extent_List).At(l, i) (r)
  pure
extern (vdisc/types/v1.ITrie_List).At(l, i) (r)
  pure
extern (vdisc/types/v1.Extent).Blocks(x) (r)
  pure
extern (vdisc/types/v1.Extent).Padding(x) (r)
  pure
extern (vdisc/types/v1.Extent).UriPrefix(x) (r)
  pure
extern (vdisc/types/v1.Extent).UriSuffix(x) (r, err)
  pure
extern (vdisc/types/v1.ITrie).Parent(x) (r)
  pure
extern (vdisc/types/v1.ITrie).Content(x) (r, err)
  pure

func vdisc.bytesToSectors(bytes) (r)
  props C20
  requires bytes >= 0 && bytes <= 8796093020160
  ensures [holds] r * 2048 >= bytes && r >= 1
  ensures [least] r == 1 || (r - 1) * 2048 < bytes

func vdisc.sectorsToBytes(sectors) (r)
  props C20
  ensures [bytes] r == sectors * 2048

pred xsize(e) = ite(e.extents.At(e.idx).Blocks() == 0, 0, e.extents.At(e.idx).Blocks() * e.blockSize - e.extents.At(e.idx).Padding())

func (*vdisc.extent).Size(e) (r)
  props C20
  ensures [size] r == xsize(e)

func (*vdisc.extent).Close(e) (err)
  props C20
  modifies e.closed
  ensures [closed] e.closed && err == nil

func (*vdisc.extent).Seek(e, offset, whence) (r, err)
  props C20
  requires e.pos >= 0 && e.pos < 4611686018427387904 && offset > -4611686018427387904 && offset < 4611686018427387904 && whence >= 0 && whence <= 2
  requires xsize(e) >= 0 && e.pos <= xsize(e)
  modifies e.pos
  ensures [closed] e.closed ==> err == os.ErrClosed && e.pos == old(e.pos)
  ensures [start] !e.closed && whence == 0 ==> e.pos == min(max(offset, 0), xsize(e))
  ensures [current] !e.closed && whence == 1 ==> e.pos == min(max(old(e.pos) + offset, 0), xsize(e))
  ensures [end] !e.closed && whence == 2 ==> e.pos == min(max(xsize(e) + offset, 0), xsize(e))
  ensures [reported] !e.closed ==> r == e.pos && err == nil

// The URL of entry k of the table: its content after that of its parents.
// The URL of entry k of the table: its content after that of its parents.
ghost chain(l vdisc_types_v1.ITrie_List, k uint32) string = ite(l.At(k).Parent() == k, l.At(k).Content(), chain(l, l.At(k).Parent()) + l.At(k).Content())

extern (*net/url.URL).IsAbs(u) (r)
  ensures r <==> u.Scheme != ""
extern (*net/url.URL).ResolveReference(u, rel) (r)
  ensures r != nil && fresh(r)
extern strings.TrimPrefix(s, p) (r)
  ensures len(s) >= len(p) && forall(i, 0, len(p), s[i] == p[i]) ==> r == s[len(p):]
  ensures !(len(s) >= len(p) && forall(i, 0, len(p), s[i] == p[i])) ==> r == s

pred stored(e) = chain(e.uris, e.extents.At(e.idx).UriPrefix()) + e.extents.At(e.idx).UriSuffix()

func (*vdisc.extent).URL(e) (r)
  props C20
  requires e.baseURL != nil && driverRegistry()
  maypanic
  invariant [uri string, parent uint32] chain(e.uris, parent) + uri == stored(e)
  before Parse [whole] call_s == stored(e)
  before ResolveReference [base] call_u == e.baseURL && call_rel.Path == urlpath(stored(e))
  ensures [absolute] urlscheme(stored(e)) != "" ==> r == stored(e)

func (*vdisc.extent).ReadAt(e, p, off) (n, err)
  props C20
  requires e.baseURL != nil && driverRegistry()
  maypanic
  modifies *
  before OpenContextSize [size] call_size == xsize(e)
  before ReadAt [place] call_off == off && ref(call_p) == ref(p) && len(call_p) == len(p)
  ensures [closed] old(e.closed) ==> n == 0 && err == os.ErrClosed
  ensures [within] 0 <= n && n <= len(p)

func (*vdisc.extent).Read(e, p) (n, err)
  props C20
  requires e.baseURL != nil && driverRegistry() && e.pos >= 0 && e.pos < 4611686018427387904
  maypanic
  modifies *
  before ReadAt [place] call_off == old(e.pos)
  ensures [within] 0 <= n && n <= len(p)

iface caching.Cache.WithCaching(c, o) (r)
  ensures r != nil

func (*vdisc.vdisc).OpenExtent(v, lba) (o, err)
  props C20
  requires v.cache != nil
  before WithCaching [extent] typeis(call_o, *extent) && as(call_o, *extent).idx == v.extentIndices[lba] && as(call_o, *extent).extents == v.extents && as(call_o, *extent).uris == v.uris && as(call_o, *extent).blockSize == v.blockSize && as(call_o, *extent).baseURL == v.baseURL && as(call_o, *extent).pos == 0 && !as(call_o, *extent).closed
  ensures [known] (err == nil) <==> has(v.extentIndices, lba)
  ensures [opened] err == nil ==> o != nil

func (*vdisc.vdisc).ExtentURL(v, lba) (url, err)
  props C20
  requires v.baseURL != nil && driverRegistry()
  maypanic
  before URL [extent] call_e.idx == v.extentIndices[lba] && call_e.extents == v.extents && call_e.uris == v.uris && call_e.baseURL == v.baseURL
  ensures [known] (err == nil) <==> has(v.extentIndices, lba)

// ---- loading ----
// The address of extent k: the sectors of those before it.
ghost address(l vdisc_types_v1.Extent_List, k int) int = ite(k <= 0, 0, (address(l, k-1) + l.At(k-1).Blocks()) % 4294967296)

extern (zombiezen.com/go/capnproto2.List).Len(l) (r)
  pure
  ensures r >= 0 && r <= 536870912
extern vdisc.downloadMemoryMapped(url) (data, c, err)
  ensures err == nil ==> c != nil
extern zombiezen.com/go/capnproto2.Unmarshal(data) (msg, err)
  ensures err == nil ==> msg != nil && fresh(msg)
extern vdisc/types.ReadRootVDisc(msg) (root, err)
extern (vdisc/types.VDisc).V1(root) (v1, err)
extern (vdisc/types/v1.VDisc).FsType(v1) (r, err)
  pure
extern (vdisc/types/v1.VDisc).BlockSize(v1) (r)
  pure
extern (vdisc/types/v1.VDisc).Uris(v1) (r, err)
  pure
extern (vdisc/types/v1.VDisc).Extents(v1) (r, err)
  pure

pred disc(r) = as(r, *vdisc)
func vdisc.Load(url, cache) (r, err)
  props C20
  requires cache != nil && driverRegistry()
  maypanic
  noarith
  modifies anyg(closes)
  invariant [s []storage.AnonymousObject] forall(k, 0, len(s), s[k] != nil)
  invariant [i int] i >= 0 && i <= last("(vdisc/types/v1.VDisc).Extents", r).List.Len()
  invariant [i int, pos iso9660.LogicalBlockAddress] i >= 0 && pos == address(last("(vdisc/types/v1.VDisc).Extents", r), i)
  invariant [m map[iso9660.LogicalBlockAddress]int, i int] m != nil && forallv(a, iso9660.LogicalBlockAddress, has(m, a) ==> m[a] >= 0 && m[a] < i && address(last("(vdisc/types/v1.VDisc).Extents", r), m[a]) == a)
  invariant [m map[iso9660.LogicalBlockAddress]int, i int] forall(k, 0, i, has(m, address(last("(vdisc/types/v1.VDisc).Extents", r), k)))
  before downloadMemoryMapped [own] call_url == url
  before WithCaching [extent] typeis(call_o, *extent) && as(call_o, *extent).extents == last("(vdisc/types/v1.VDisc).Extents", r) && as(call_o, *extent).uris == last("(vdisc/types/v1.VDisc).Uris", r) && as(call_o, *extent).pos == 0 && !as(call_o, *extent).closed
  ensures [either] (err == nil) <==> r != nil
  ensures [addresses] err == nil ==> typeis(r, *vdisc) && forallv(a, iso9660.LogicalBlockAddress, has(disc(r).extentIndices, a) ==> disc(r).extentIndices[a] >= 0 && disc(r).extentIndices[a] < disc(r).extents.List.Len() && address(disc(r).extents, disc(r).extentIndices[a]) == a)
  ensures [every-extent] err == nil ==> forall(k, 0, disc(r).extents.List.Len(), has(disc(r).extentIndices, address(disc(r).extents, k)))
  ensures [tables] err == nil ==> disc(r).extents == last("(vdisc/types/v1.VDisc).Extents", r) && disc(r).uris == last("(vdisc/types/v1.VDisc).Uris", r) && disc(r).blockSize == last("(vdisc/types/v1.VDisc).BlockSize", r) && disc(r).fsType == last("(vdisc/types/v1.VDisc).FsType", r)
  ensures [base] err == nil ==> disc(r).baseURL != nil && disc(r).baseURL.Path == urlpath(url) && disc(r).cache == cache

func (*vdisc.vdisc).FsType(v) (r)
  props C20
  ensures [kept] r == v.fsType

func (*vdisc.vdisc).BlockSize(v) (r)
  props C20
  ensures [kept] r == v.blockSize

func (*vdisc.vdisc).Image(v) (r)
  props C20
  ensures [kept] r == v.image

// ---- building ----
// Adds to the volume's own tree only.
extern (*iso9660.Volume).AddFile(v, path, o) (err)
  modifies gvar(added)
func (*vdisc.builder).AddFile(b, path, url, size) (err)
  props C20
  requires driverRegistry() && b.volume != nil && b.numFiles >= 0 && b.numFiles < 2147483647
  modifies b.numFiles, gvar(added)
  ensures [counted] b.numFiles == old(b.numFiles) + ite(err == nil, 1, 0)
  before OpenContextSize [what] call_url == url && call_size == size
  before AddFile [where] call_path == path && call_v == b.volume

extern (vdisc/types/v1.Extent).SetUriPrefix(x, v)
extern (vdisc/types/v1.Extent).SetUriSuffix(x, v) (err)
extern (vdisc/types/v1.Extent).SetBlocks(x, v)
extern (vdisc/types/v1.Extent).SetPadding(x, v)
extern (*vdisc.TrieMap).Get(t, key) (lba, ok)
  pure

extern (*vdisc.TrieMap).Put(t, key, value)
// Every file's URL is entered under the file's address.
func (*vdisc.builder).Build$1(finode) (err)
  props C20
  requires finode != nil && finode.o != nil && *trie != nil
  before Put [entry] call_t == *trie && call_key == finode.o.URL() && call_value == finode.start
  ensures [goes-on] err == nil

// One extent for each file, as many sectors as its bytes need.
func (*vdisc.builder).Build$2(finode) (err)
  props C20
  requires finode != nil && finode.o != nil && *leaves != nil && *trie != nil && asize(finode.o) >= 0 && asize(finode.o) <= 8796093020160
  requires *currExtent >= 0 && *currExtent < 2147483647
  requires forallv(k, iso9660.LogicalBlockAddress, has(*leaves, k) ==> (*leaves)[k].Parent >= 0 && (*leaves)[k].Parent < 4294967296)
  modifies *currExtent
  before SetBlocks [cover] call_v * 2048 >= asize(finode.o)
  before SetBlocks [entry] call_x == (*extents).At(old(*currExtent))
  before SetPadding [exact] ite(asize(finode.o) == 0, 1, (asize(finode.o) + 2047) / 2048) * 2048 - call_v == asize(finode.o)
  before SetPadding [entry] call_x == (*extents).At(old(*currExtent))
  before SetUriPrefix [leaf] call_v == (*leaves)[(*trie).Get(finode.o.URL())].Parent
  before SetUriSuffix [leaf] call_v == (*leaves)[(*trie).Get(finode.o.URL())].Content
  ensures [next] *currExtent == old(*currExtent) + 1 && err == nil
