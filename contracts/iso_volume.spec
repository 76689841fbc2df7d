// The volume: identifiers, the tree's attributes, visiting and writing it.
package iso9660

func (*iso9660.DirectoryInode).InodeNumber(d) (r)
  props C10
  ensures [own] r == d.ino
func (*iso9660.DirectoryInode).Perm(d) (r)
  props C11
  ensures [own] r == d.perm
func (*iso9660.DirectoryInode).SetPerm(d, perm)
  props C11
  modifies d.perm
  ensures [bits] d.perm == perm % 512
func (*iso9660.DirectoryInode).Start(d) (r)
  props C02
  ensures [own] r == d.start
func (*iso9660.DirectoryInode).SetStart(d, start)
  props C02
  modifies d.start
  ensures [set] d.start == start
func (*iso9660.DirectoryInode).SetSize(d, size)
  props C02
  modifies d.size
  ensures [set] d.size == size
func (*iso9660.DirectoryInode).IsRoot(d) (r)
  props C02
  ensures [root] r <==> d.parent == nil
func (*iso9660.DirectoryInode).AddParent(d, parent)
  props C10
  panics_iff d.parent != nil
  modifies d.parent
  ensures [set] d != parent ==> d.parent == parent
  ensures [itself] d == parent ==> d.parent == nil

func (*iso9660.Volume).SetSystemIdentifier(v, val)
  props C04
  modifies v.pvd.SystemIdentifier
  ensures [set] v.pvd.SystemIdentifier == val
func (*iso9660.Volume).SetVolumeIdentifier(v, val)
  props C04
  modifies v.pvd.VolumeIdentifier
  ensures [set] v.pvd.VolumeIdentifier == val
func (*iso9660.Volume).SetVolumeSetIdentifier(v, val)
  props C04
  modifies v.pvd.VolumeSetIdentifier
  ensures [set] v.pvd.VolumeSetIdentifier == val
func (*iso9660.Volume).SetPublisherIdentifier(v, val)
  props C04
  modifies v.pvd.PublisherIdentifier
  ensures [set] v.pvd.PublisherIdentifier == val
func (*iso9660.Volume).SetDataPreparerIdentifier(v, val)
  props C04
  modifies v.pvd.DataPreparerIdentifier
  ensures [set] v.pvd.DataPreparerIdentifier == val
func (*iso9660.Volume).SetApplicationIdentifier(v, val)
  props C04
  modifies v.pvd.ApplicationIdentifier
  ensures [set] v.pvd.ApplicationIdentifier == val
func (*iso9660.Volume).SetCopyrightFileIdentifier(v, val)
  props C04
  modifies v.pvd.CopyrightFileIdentifier
  ensures [set] v.pvd.CopyrightFileIdentifier == val
func (*iso9660.Volume).SetAbstractFileIdentifier(v, val)
  props C04
  modifies v.pvd.AbstractFileIdentifier
  ensures [set] v.pvd.AbstractFileIdentifier == val
func (*iso9660.Volume).SetBibliographicFileIdentifier(v, val)
  props C04
  modifies v.pvd.BibliographicFileIdentifier
  ensures [set] v.pvd.BibliographicFileIdentifier == val

// A visitor is called for one entry at a time; gvar(visitfails) counts the
// calls that returned an error. It does not add or remove entries.
functype iso9660.Visitor(rel) (err)
  modifies gvar(visitfails)
  ensures gvar(visitfails) == old(gvar(visitfails)) + ite(err == nil, 0, 1)

extern (*github.com/emirpasic/gods/maps/treemap.Map).Iterator(m) (it)
extern (*github.com/emirpasic/gods/maps/treemap.Iterator).Next(it) (ok)
extern (*github.com/emirpasic/gods/maps/treemap.Iterator).Key(it) (k)
extern (*github.com/emirpasic/gods/maps/treemap.Iterator).Value(it) (v)

func (*iso9660.DirectoryInode).VisitDirectories(d, visit) (err)
  props C02 C13
  requires visit != nil
  maypanic
  modifies gvar(visitfails), callback(visit), anyg(reach), anyg(foreign)
  invariant gvar(visitfails) == old(gvar(visitfails))
  ensures [reported] err == nil ==> gvar(visitfails) == old(gvar(visitfails))

func (*iso9660.DirectoryInode).VisitFiles(d, visit) (err)
  props C02 C13
  requires visit != nil
  maypanic
  modifies gvar(visitfails), callback(visit), anyg(reach), anyg(foreign)
  invariant gvar(visitfails) == old(gvar(visitfails))
  ensures [reported] err == nil ==> gvar(visitfails) == old(gvar(visitfails))

// The directory as it will be written; the tree is not changed.
func (*iso9660.DirectoryInode).ToDirectory(d) (dir, cont, err)
  props C02
  maypanic
  trusted
  ensures err == nil ==> len(cont.sectors) <= 1048576 && len(dir.Records) <= 1048576 && forall(k, 0, len(dir.Records), len(dir.Records[k].SystemUse) <= 1048576 && forall(i, 0, len(dir.Records[k].SystemUse), dir.Records[k].SystemUse[i] != nil))

func (*iso9660.DirectoryInode).ToPathTable(d) (t)
  props C04
  maypanic
  trusted
  ensures len(t.Records) <= 1048576 && forall(i, 0, len(t.Records), len(t.Records[i].Identifier) <= 255)

// Sizes are measured by writing to ioutil.Discard.
func (*iso9660.Directory).Size(d) (r)
  props C02 C09
  requires ioutil.Discard != nil && len(d.Records) <= 1048576 && forall(k, 0, len(d.Records), len(d.Records[k].SystemUse) <= 1048576 && forall(i, 0, len(d.Records[k].SystemUse), d.Records[k].SystemUse[i] != nil))
  maypanic
  modifies W(ioutil.Discard)
  ensures [sectors] 0 <= r && r % 2048 == 0 && r <= 4294965248
  ensures [room] r >= wlen(ioutil.Discard) - old(wlen(ioutil.Discard)) && r <= wlen(ioutil.Discard) - old(wlen(ioutil.Discard)) + 2048

func iso9660.PathTableEncodedLen(pt) (n)
  props C04
  requires ioutil.Discard != nil && pt != nil && len(pt.Records) <= 1048576 && forall(i, 0, len(pt.Records), len(pt.Records[i].Identifier) <= 255)
  maypanic
  modifies W(ioutil.Discard)
  ensures [length] n == tablelen(pt.Records, len(pt.Records))

iface iso9660.InodePart.Size(p) (r)
  pure
iface iso9660.InodePart.Start(p) (r)
  pure

// Directory extents and continuation areas fill whole sectors, in place.
func (*iso9660.Volume).WriteMetadataTo$3(rel) (err)
  props C02 C13
  requires *cw != nil && (*cw).w != nil && (*cw).n >= 0 && (*cw).n <= 576460752303423488
  maypanic
  modifies W(*cw)
  before WriteTo [in-place] (*cw).n % 2048 == 0
  steady [count] (*cw).n - wlen(*cw) == old((*cw).n - wlen(*cw)) && kept(*cw)
  progress [sectors] (*cw).n % 2048 == 0

func (*iso9660.Volume).WriteTo$3(rel) (err)
  props C02 C13 C20
  requires *cw != nil && (*cw).w != nil && (*cw).n >= 0 && (*cw).n <= 576460752303423488
  maypanic
  modifies W(*cw)
  before WriteTo [in-place] (*cw).n == as(rel.Child, *FileInode).start * 2048
  steady [count] (*cw).n - wlen(*cw) == old((*cw).n - wlen(*cw)) && kept(*cw)
  progress [sectors] (*cw).n % 2048 == 0

// Writes the system area, the descriptors, the path tables and the directories.
func (*iso9660.Volume).assignLogicalBlockAddresses(v) (err)
  props C02
  requires v.root != nil && ioutil.Discard != nil
  maypanic
  modifies W(ioutil.Discard), v.pvd.LTableStart, v.pvd.MTableStart, v.pvd.RootStart, v.pvd.RootLength, v.pvd.RootModified, v.pvd.VolumeSpaceSize, gvar(visitfails), anyg(reach), anyg(foreign), anyfield(DirectoryInode.start), anyfield(DirectoryInode.size), anyfield(FileInode.start)
  ensures [tables] err == nil ==> v.pvd.LTableStart == 18 && v.pvd.MTableStart == 18 + bytesToSectors(v.pvd.PathTableSize)
  ensures [covers] err == nil ==> v.pvd.VolumeSpaceSize >= v.pvd.MTableStart + bytesToSectors(v.pvd.PathTableSize)

func (*iso9660.Volume).assignLogicalBlockAddresses$1(rel) (err)
  props C02
  requires *sectors != nil && *v != nil && ioutil.Discard != nil
  maypanic
  modifies W(ioutil.Discard), (*sectors).next, (*v).pvd.RootStart, (*v).pvd.RootLength, (*v).pvd.RootModified, anyfield(DirectoryInode.start), anyfield(DirectoryInode.size)
  steady [forward] (*sectors).next >= old((*sectors).next)
  ensures [own-sectors] err == nil && typeis(rel.Child, *DirectoryInode) ==> as(rel.Child, *DirectoryInode).start == old((*sectors).next) && (*sectors).next >= old((*sectors).next) + bytesToSectors(as(rel.Child, *DirectoryInode).size)

func (*iso9660.Volume).assignLogicalBlockAddresses$2(rel) (err)
  props C02
  requires *sectors != nil && *inodesVisited != nil
  maypanic
  modifies (*sectors).next, mapof(*inodesVisited), anyfield(FileInode.start)
  steady [forward] (*sectors).next >= old((*sectors).next)
  ensures [own-sectors] typeis(rel.Child, *FileInode) && !old(has(*inodesVisited, as(rel.Child, *FileInode).ino)) ==> as(rel.Child, *FileInode).start == old((*sectors).next) && (*sectors).next > old((*sectors).next)
  ensures [once] typeis(rel.Child, *FileInode) && old(has(*inodesVisited, as(rel.Child, *FileInode).ino)) ==> as(rel.Child, *FileInode).start == old(as(rel.Child, *FileInode).start) && (*sectors).next == old((*sectors).next)

func (*iso9660.Volume).WriteMetadataTo(v, w) (n, err)
  props C02 C04 C13
  requires w != nil && v.root != nil && ioutil.Discard != nil && ref(w) != ref(ioutil.Discard)
  maypanic
  modifies W(w), W(ioutil.Discard), v.pvd.PathTableSize, v.pvd.LTableStart, v.pvd.MTableStart, v.pvd.RootStart, v.pvd.RootLength, v.pvd.RootModified, v.pvd.VolumeSpaceSize, gvar(visitfails), anyg(reach), anyg(foreign), anyfield(DirectoryInode.start), anyfield(DirectoryInode.size), anyfield(FileInode.start)
  ensures [prefix] kept(w)
  ensures [count] n == wlen(w) - old(wlen(w))
  ensures [sectors] err == nil ==> n % 2048 == 0
  ensures [descriptors] err == nil ==> n >= 40960 && zeros(w, old(wlen(w)), old(wlen(w)) + 32768) && wbyte(w, old(wlen(w)) + 32768) == 1 && wbyte(w, old(wlen(w)) + 34816) == 255

func (*iso9660.Volume).WriteTo(v, w) (n, err)
  props C02 C13 C20
  requires w != nil && v.root != nil && ioutil.Discard != nil && ref(w) != ref(ioutil.Discard)
  maypanic
  modifies W(w), W(ioutil.Discard), v.pvd.PathTableSize, v.pvd.LTableStart, v.pvd.MTableStart, v.pvd.RootStart, v.pvd.RootLength, v.pvd.RootModified, v.pvd.VolumeSpaceSize, gvar(visitfails), anyg(reach), anyg(foreign), anyfield(DirectoryInode.start), anyfield(DirectoryInode.size), anyfield(FileInode.start)
  ensures [prefix] kept(w)
  ensures [count] n == wlen(w) - old(wlen(w))
  ensures [sectors] err == nil ==> n % 2048 == 0
