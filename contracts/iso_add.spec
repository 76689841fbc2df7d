// Adding entries to the tree.
package iso9660

pred usable(d) = d != nil && d.nameValidator != nil && d.names != nil && d.idAlloc != nil && d.children != nil

extern github.com/emirpasic/gods/maps/treemap.NewWithStringComparator() (m)
  ensures m != nil && fresh(m)
iface iso9660.InodeAllocator.Next(a) (ino, err)
extern iso9660.NewIdentifierAllocator() (a)
  ensures a != nil && fresh(a)

func iso9660.NewDirectoryInode(ia, validator) (d, err)
  props C10
  requires ia != nil && validator != nil
  maypanic
  ensures [usable] err == nil ==> usable(d) && fresh(d)
  ensures [empty] err == nil ==> foralls(n, !has(d.names, n)) && d.parent == nil && d.perm == 365

// What the ordered map holds under a name that is present: every directory in
// the tree was made by NewDirectoryInode.
extern (*iso9660.DirectoryInode).GetChild(d, name) (r, ok)
  ensures ok ==> r != nil && (typeis(r, *DirectoryInode) ==> usable(as(r, *DirectoryInode)))

// Success means the last thing done was to add the entry itself, and that it
// was accepted.
func (*iso9660.Volume).addLeaf(v, pth, leaf) (err)
  props C10
  requires v != nil && usable(v.root) && leaf != nil && v.nameValidator != nil && v.inodeAlloc != nil
  maypanic
  modifies *
  invariant [d *DirectoryInode] usable(d)
  invariant [i int, parts []string] i < len(parts)
  invariant v.nameValidator != nil && v.inodeAlloc != nil
  invariant calls(AddChild) > pre(calls(AddChild)) ==> last("(*iso9660.DirectoryInode).AddChild", err) == nil
  before AddChild [none-refused] calls(AddChild) > old(calls(AddChild)) ==> last("(*iso9660.DirectoryInode).AddChild", err) == nil
  ensures [added] err == nil ==> last("(*iso9660.DirectoryInode).AddChild", child) == leaf && last("(*iso9660.DirectoryInode).AddChild", err) == nil && calls(AddChild) > old(calls(AddChild))

func (*iso9660.Volume).AddSymlink(v, pth, target) (err)
  props C10
  requires v != nil && usable(v.root) && v.nameValidator != nil && v.inodeAlloc != nil
  maypanic
  modifies *
  ensures [added] err == nil ==> calls(addLeaf) == old(calls(addLeaf)) + 1 && last("(*iso9660.Volume).addLeaf", err) == nil && last("(*iso9660.Volume).addLeaf", pth) == pth
  before addLeaf [target] typeis(call_leaf, *SymlinkInode) && as(call_leaf, *SymlinkInode).target == target
