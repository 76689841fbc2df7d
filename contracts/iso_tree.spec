// Inodes, extents and directories under construction.
package iso9660

// Extent k of a file of the given size that starts at the given sector.
pred isPart(p, start, size, k) = typeis(p, *part) && as(p, *part).start == start + k * 2097151 && as(p, *part).size == min(4294965248, size - k * 4294965248)

func iso9660.InodeParts(start, size) (parts)
  props C03
  panics start + size / 2048 + 1 >= 4294967296
  invariant [left uint64, parts []InodePart, at LogicalBlockAddress] left + 4294965248 * len(parts) == size && forall(k, 0, len(parts), isPart(parts[k], start, size, k)) && at == start + 2097151 * len(parts) && (len(parts) > 0 ==> left > 0)
  ensures [some] len(parts) >= 1
  ensures [extents] forall(k, 0, len(parts), isPart(parts[k], start, size, k))
  ensures [complete] (len(parts) - 1) * 4294965248 <= size && size <= len(parts) * 4294965248
  ensures [no-empty] len(parts) > 1 ==> size > (len(parts) - 1) * 4294965248

func (*iso9660.part).Start(p) (r)
  props C03
  ensures [field] r == p.start

func (*iso9660.part).Size(p) (r)
  props C03
  ensures [field] r == p.size

func (*iso9660.inodeAllocator).Next(ia) (r, err)
  props C10
  modifies ia.next, ia.exhausted
  ensures [exhausted] old(ia.exhausted) <==> err != nil
  ensures [next] err == nil ==> r == old(ia.next) && (ia.exhausted && ia.next == 0 || !ia.exhausted && ia.next == r + 1)
  ensures [refused] err != nil ==> ia.exhausted

func iso9660.NewInodeAllocator() (r)
  props C10
  ensures [start] typeis(r, *inodeAllocator) && as(r, *inodeAllocator).next == 1 && !as(r, *inodeAllocator).exhausted

extern encoding/binary.PutUvarint(b, x) (n)
  modifies b[:]
  ensures n >= 1 && n <= 10

extern (*encoding/base32.Encoding).EncodedLen(e, n) (r)
  pure
  ensures n >= 0 && n <= 1000 ==> r >= 0 && r <= 8 * ((n + 4) / 5)

extern (*encoding/base32.Encoding).Encode(e, dst, src)
  modifies dst[:]

func (*iso9660.IdentifierAllocator).Next(ia) (r)
  props C10
  modifies ia.count
  ensures [advances] ia.count == (old(ia.count) + 1) % 18446744073709551616
  ensures [short] len(r) <= 16

// A name validator only looks at the name.
iface iso9660.NameValidator.IsValid(v, name) (err)
  pure

iface iso9660.Inode.Type(i) (r)
  pure

iface iso9660.Inode.AddParent(i, d)
  maypanic
  modifies anyfield(DirectoryInode.parent), anyfield(FileInode.nlink), anyfield(SymlinkInode.parent)

// The ordered map that holds the entries by identifier.
extern (*github.com/emirpasic/gods/maps/treemap.Map).Put(m, k, v)
extern (*github.com/emirpasic/gods/maps/treemap.Map).Get(m, k) (v, ok)

func (*iso9660.DirectoryInode).AddChild(d, name, child) (err)
  props C10
  requires child != nil && d.nameValidator != nil && d.names != nil && d.idAlloc != nil && d.children != nil
  maypanic
  modifies d.idAlloc.count, mapof(d.names), anyfield(DirectoryInode.parent), anyfield(FileInode.nlink), anyfield(SymlinkInode.parent)
  ensures [empty-refused] name == "" ==> err != nil
  ensures [reserved-refused] name == "." || name == ".." ==> err != nil
  ensures [duplicate-refused] old(has(d.names, name)) ==> err != nil
  ensures [invalid-refused] d.nameValidator.IsValid(name) != nil ==> err != nil
  ensures [accepted] name != "" && name != "." && name != ".." && !old(has(d.names, name)) && d.nameValidator.IsValid(name) == nil ==> err == nil
  ensures [present] err == nil ==> has(d.names, name)
  free other string
  ensures [others] other != name ==> (has(d.names, other) <==> old(has(d.names, other))) && d.names[other] == old(d.names[other])
  ensures [refused-unchanged] err != nil ==> (has(d.names, other) <==> old(has(d.names, other)))
