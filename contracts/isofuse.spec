// The mounted image: inode table, open handles, listings.
package isofuse

iface isofuse.Volume.OpenExtent(v, lba) (o, err)
  ensures err == nil ==> o != nil && alive(o)
iface isofuse.Volume.Image(v) (o)
  ensures o != nil

pred table(fs) = fs.finfos != nil && fs.logger != nil && forallv(k, fuseops.InodeID, has(fs.finfos, k) ==> fs.finfos[k] != nil && fs.finfos[k].Info != nil && fs.finfos[k].Info.size >= 0 && fs.finfos[k].Info.size < 4611686018427387904)
pred handles(fs) = fs.fileHandles != nil && fs.logger != nil && forallv(k, fuseops.HandleID, has(fs.fileHandles, k) ==> fs.fileHandles[k] != nil && k < fs.nextFileHandle)

func (*isofuse.isoFS).OpenFile(fs, ctx, op) (err)
  props C26
  requires fs != nil && op != nil && fs.volume != nil && table(fs) && handles(fs) && fs.nextFileHandle < 18446744073709551615
  modifies fs.nextFileHandle, mapof(fs.fileHandles), op.Handle, op.KeepPageCache
  before OpenExtent [extent] call_lba == fs.finfos[op.Inode].Info.extent
  ensures [known] !has(fs.finfos, op.Inode) ==> err == fuse.EINVAL
  ensures [new] forallv(k, fuseops.HandleID, err == nil && k == op.Handle ==> has(fs.fileHandles, k) && !old(has(fs.fileHandles, k)))
  ensures [others] forallv(k, fuseops.HandleID, !(err == nil && k == op.Handle) ==> (has(fs.fileHandles, k) <==> old(has(fs.fileHandles, k))) && fs.fileHandles[k] == old(fs.fileHandles[k]))
  ensures [sound] handles(fs)

func (*isofuse.isoFS).ReleaseFileHandle(fs, ctx, op) (err)
  props C26
  requires fs != nil && op != nil && handles(fs)
  modifies *
  ensures [known] (err == nil) <==> old(has(fs.fileHandles, op.Handle))

func (*isofuse.isoFS).ReadFile(fs, ctx, op) (err)
  props C26
  requires fs != nil && op != nil && handles(fs) && op.Offset >= 0
  modifies *
  before ReadAt [place] call_off == op.Offset && ref(call_p) == ref(op.Dst) && len(call_p) == len(op.Dst)
  ensures [known] !old(has(fs.fileHandles, op.Handle)) ==> err == fuse.EINVAL && op.BytesRead == old(op.BytesRead)
  ensures [eof] err != io.EOF

func (*isofuse.isoFS).ForgetInode(fs, ctx, op) (err)
  props C26
  requires fs != nil && op != nil && table(fs)
  modifies mapof(fs.finfos), anyfield(finfosEntry.RefCnt)
  ensures [root] op.Inode == 1 ==> err == nil
  ensures [unknown] op.Inode != 1 ==> ((err == nil) <==> old(has(fs.finfos, op.Inode)))
  ensures [kept] op.Inode != 1 && old(has(fs.finfos, op.Inode)) && old(fs.finfos[op.Inode].RefCnt) > op.N ==> has(fs.finfos, op.Inode) && fs.finfos[op.Inode] == old(fs.finfos[op.Inode]) && fs.finfos[op.Inode].RefCnt == old(fs.finfos[op.Inode].RefCnt) - op.N
  ensures [forgotten] op.Inode != 1 && old(has(fs.finfos, op.Inode)) && old(fs.finfos[op.Inode].RefCnt) <= op.N ==> !has(fs.finfos, op.Inode)
  ensures [others] forallv(k, fuseops.InodeID, k != op.Inode || op.Inode == 1 ==> (has(fs.finfos, k) <==> old(has(fs.finfos, k))) && fs.finfos[k] == old(fs.finfos[k]))
  ensures [sound] table(fs)

func (*isofuse.isoFS).GetInodeAttributes(fs, ctx, op) (err)
  props C26
  requires fs != nil && op != nil && table(fs)
  maypanic
  modifies op.Attributes, op.AttributesExpiration
  ensures [known] (err == nil) <==> has(fs.finfos, op.Inode)
  ensures [size] err == nil ==> op.Attributes.Size == fs.finfos[op.Inode].Info.size && op.Attributes.Nlink == fs.finfos[op.Inode].Info.nlink && op.Attributes.Mode == fs.finfos[op.Inode].Info.mode

func (*isofuse.isoFS).ReadSymlink(fs, ctx, op) (err)
  props C26
  requires fs != nil && op != nil && table(fs)
  modifies op.Target
  ensures [known] (err == nil) <==> has(fs.finfos, op.Inode)
  ensures [target] err == nil ==> op.Target == fs.finfos[op.Inode].Info.target

func (*isofuse.isoFS).StatFS(fs, ctx, op) (err)
  props C26
  requires fs != nil && op != nil && fs.volume != nil
  maypanic
  modifies op.BlockSize, op.Blocks, op.IoSize
  ensures [blocks] op.BlockSize == 2048 && err == nil

// The cache answers with what was stored under the same directory and name.
iface isofuse.FileInfoCache.Get(c, parent, name) (fi, ok)
  ensures ok ==> fi != nil && fi.name == name && fi.size >= 0 && fi.size < 4611686018427387904
iface isofuse.FileInfoCache.Put(c, parent, name, fi)
  requires fi != nil && fi.name == name && fi.size >= 0 && fi.size < 4611686018427387904

func (*isofuse.isoFS).LookUpInode$1(child)
  props C26
  requires *fs != nil && *op != nil && child != nil && table(*fs) && child.size >= 0 && child.size < 4611686018427387904
  modifies mapof((*fs).finfos), anyfield(finfosEntry.RefCnt), (*op).Entry
  ensures [sound] table(*fs)
  ensures [child] (*op).Entry.Child == child.ino
  ensures [attributes] (*op).Entry.Attributes.Size == child.size && (*op).Entry.Attributes.Nlink == child.nlink && (*op).Entry.Attributes.Mode == child.mode
  ensures [listed] forallv(k, fuseops.InodeID, k == child.ino ==> has((*fs).finfos, k) && (old(has((*fs).finfos, k)) ==> (*fs).finfos[k] == old((*fs).finfos[k])))
  ensures [counted] forallv(k, fuseops.InodeID, k == child.ino && old(has((*fs).finfos, k)) && old((*fs).finfos[k].RefCnt) < 18446744073709551615 ==> (*fs).finfos[k].RefCnt == old((*fs).finfos[k].RefCnt) + 1)
  ensures [first] forallv(k, fuseops.InodeID, k == child.ino && !old(has((*fs).finfos, k)) ==> (*fs).finfos[k].RefCnt == 1 && (*fs).finfos[k].Info == child)
  ensures [others] forallv(k, fuseops.InodeID, k != child.ino ==> (has((*fs).finfos, k) <==> old(has((*fs).finfos, k))) && (*fs).finfos[k] == old((*fs).finfos[k]))

func (*isofuse.isoFS).LookUpInode(fs, ctx, op) (err)
  props C26
  requires fs != nil && op != nil && fs.volume != nil && fs.finfoCache != nil && table(fs)
  maypanic
  modifies mapof(fs.finfos), anyfield(finfosEntry.RefCnt), op.Entry, anyelems([]susp.SystemUseEntry)
  invariant table(fs)
  invariant [it *iso9660.ReadDirIterator] it != nil && fresh(it) && fresh(it.recIt) && fresh(it.recIt.dir) && reading(it)
  before NewReadDirIterator [directory] call_start == fs.finfos[op.Parent].Info.extent && call_size == fs.finfos[op.Parent].Info.size && call_off == 0
  before Put [parent] call_parent == op.Parent
  before LookUpInode$1 [name] call_child.name == op.Name
  ensures [sound] table(fs)
  ensures [answered] err == nil ==> has(fs.finfos, op.Entry.Child)
  ensures [refused] err != nil ==> op.Entry == old(op.Entry)

func (*isofuse.isoFS).ReadDir(fs, ctx, op) (err)
  props C26
  requires fs != nil && op != nil && fs.volume != nil && fs.finfoCache != nil && table(fs) && op.BytesRead == 0 && op.Offset <= 576460752303423488
  maypanic
  modifies op.BytesRead, elems(op.Dst), anyelems([]susp.SystemUseEntry)
  invariant [it *iso9660.ReadDirIterator] it != nil && fresh(it) && fresh(it.recIt) && fresh(it.recIt.dir) && reading(it)
  invariant op.BytesRead >= 0 && op.BytesRead <= len(op.Dst)
  before NewReadDirIterator [directory] call_start == fs.finfos[op.Inode].Info.extent && call_size == fs.finfos[op.Inode].Info.size && call_off == op.Offset
  before Put [parent] call_parent == op.Inode
  invariant [off fuseops.DirOffset, it *iso9660.ReadDirIterator] off >= op.Offset && off <= readpos(it)
  before WriteDirent [resume] call_d.Offset > op.Offset
  ensures [known] !has(fs.finfos, op.Inode) ==> err == fuse.EINVAL
  ensures [filled] op.BytesRead >= 0 && op.BytesRead <= len(op.Dst)

extern github.com/jacobsa/fuse/fuseutil.WriteDirent(buf, d) (n)
  modifies elems(buf)
  ensures n >= 0 && n <= len(buf)
