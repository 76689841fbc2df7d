// Stores: handles on committed objects, and writers.
package storage/ram

func (*storage/ram.object).Close(o) (err)
  props C17
  modifies o.closed
  ensures [closed] o.closed && err == nil

func (*storage/ram.object).Size(o) (r)
  props C17
  requires o.br != nil
  ensures [size] r == len(o.br.s)

func (*storage/ram.object).URL(o) (r)
  props C17
  ensures [url] r == o.url

func (*storage/ram.object).Read(o, p) (n, err)
  props C17
  requires o.br != nil && o.br.i >= 0
  modifies o.br.i, o.br.prevRune, p[:]
  ensures [closed] old(o.closed) ==> n == 0 && err == os.ErrClosed && o.br.i == old(o.br.i)
  ensures [count] !old(o.closed) && old(o.br.i) < len(o.br.s) ==> n == min(len(p), len(o.br.s) - old(o.br.i)) && err == nil
  ensures [advances] o.br.i == old(o.br.i) + n
  ensures [bytes] forall(i, 0, n, p[i] == old(o.br.s[o.br.i + i]))
  ensures [past-end] !old(o.closed) && old(o.br.i) >= len(o.br.s) ==> n == 0 && err == io.EOF

func (*storage/ram.object).ReadAt(o, p, off) (n, err)
  props C17
  requires o.br != nil && o.br.i >= 0
  modifies p[:]
  ensures [closed] o.closed ==> n == 0 && err == os.ErrClosed
  ensures [negative] !o.closed && off < 0 ==> n == 0 && err != nil
  ensures [count] !o.closed && off >= 0 && off < len(o.br.s) ==> n == min(len(p), len(o.br.s) - off)
  ensures [short] !o.closed && n < len(p) ==> err != nil
  ensures [full] !o.closed && off >= 0 && off < len(o.br.s) && n == len(p) ==> err == nil
  ensures [bytes] forall(i, 0, n, p[i] == old(o.br.s[off + i]))
  ensures [past-end] !o.closed && off >= len(o.br.s) ==> n == 0 && err == io.EOF

func (*storage/ram.object).Seek(o, offset, whence) (n, err)
  props C17
  requires o.br != nil && o.br.i >= 0 && o.br.i < 4611686018427387904
  requires offset > -4611686018427387904 && offset < 4611686018427387904
  modifies o.br.i, o.br.prevRune
  ensures [closed] o.closed ==> err == os.ErrClosed && o.br.i == old(o.br.i)
  ensures [lands] err == nil ==> n == o.br.i && n == offset + ite(whence == 0, 0, ite(whence == 1, old(o.br.i), len(o.br.s)))
  ensures [not-negative] err == nil ==> n >= 0 && whence >= 0 && whence <= 2
  ensures [refused] err != nil ==> o.br.i == old(o.br.i)
  ensures [accepts] !o.closed && whence >= 0 && whence <= 2 && offset + ite(whence == 0, 0, ite(whence == 1, old(o.br.i), len(o.br.s))) >= 0 ==> err == nil

// What a writer's commit does: gvar(commits) counts the calls.
functype storage/ram.writer.commit(f, path, data) (err)
  modifies gvar(commits), gvar(failed)
  ensures gvar(commits) == old(gvar(commits)) + 1

func (*storage/ram.writer).Write(w, b) (n, err)
  props C18
  modifies W(&w.buf)
  ensures [all] n == len(b) && err == nil
  ensures [appended] wlen(&w.buf) == old(wlen(&w.buf)) + len(b) && forall(i, 0, len(b), wbyte(&w.buf, old(wlen(&w.buf)) + i) == b[i])
  ensures [kept] forall(i, 0, old(wlen(&w.buf)), wbyte(&w.buf, i) == old(wbyte(&w.buf, i)))

func (*storage/ram.writer).Commit(w) (info, err)
  props C18
  requires w.state >= 0 && w.state <= 2 && w.commit != nil
  modifies w.state, gvar(commits), gvar(failed)
  before commit [content] len(call_data) == wlen(&w.buf) && forall(i, 0, len(call_data), call_data[i] == wbyte(&w.buf, i)) && call_path == w.path
  before commit [creating] old(w.state) == 0
  ensures [once] gvar(commits) == old(gvar(commits)) + ite(old(w.state) == 0, 1, 0)
  ensures [aborted] old(w.state) == 2 ==> err == ErrCommitAbortedWriter && info == nil && w.state == 2
  ensures [repeat] old(w.state) == 1 ==> err == nil && info != nil && w.state == 1
  ensures [done] old(w.state) == 0 && err == nil ==> w.state == 1 && info != nil
  ensures [failed] old(w.state) == 0 && err != nil ==> w.state == 2 && info == nil

func (*storage/ram.writer).Abort(w)
  props C18
  requires w.state >= 0 && w.state <= 2
  modifies w.state
  ensures [aborted] old(w.state) != 1 ==> w.state == 2
  ensures [committed-stays] old(w.state) == 1 ==> w.state == 1

package storage/data

func (*storage/data.object).Close(o) (err)
  props C17
  modifies o.closed
  ensures [closed] o.closed && err == nil

func (*storage/data.object).Size(o) (r)
  props C17
  requires o.sr != nil && o.sr.base == 0 && o.sr.limit >= 0
  ensures [size] r == o.sr.limit

func (*storage/data.object).URL(o) (r)
  props C17
  ensures [url] r == o.url

pred datahandle(o) = o.sr != nil && o.sr.r != nil && o.sr.base == 0 && o.sr.off >= 0 && o.sr.limit >= 0

func (*storage/data.object).Read(o, p) (n, err)
  props C17
  requires datahandle(o)
  modifies o.sr.off, p[:]
  ensures [closed] o.closed ==> n == 0 && err == os.ErrClosed && o.sr.off == old(o.sr.off)
  ensures [advances] o.sr.off == old(o.sr.off) + n
  ensures [within] 0 <= n && n <= len(p)
  ensures [bytes] forall(i, 0, n, p[i] == abyte(o.sr.r, old(o.sr.off) + i))
  ensures [past-end] !o.closed && old(o.sr.off) >= o.sr.limit ==> n == 0 && err == io.EOF
  ensures [complete] !o.closed && err == nil && len(p) > 0 ==> n == min(len(p), min(o.sr.limit, asize(o.sr.r)) - old(o.sr.off))

func (*storage/data.object).ReadAt(o, p, off) (n, err)
  props C17
  requires datahandle(o)
  modifies p[:]
  ensures [closed] o.closed ==> n == 0 && err == os.ErrClosed
  ensures [within] 0 <= n && n <= len(p) && (n > 0 ==> off >= 0 && off + n <= o.sr.limit)
  ensures [bytes] forall(i, 0, n, p[i] == abyte(o.sr.r, off + i))
  ensures [past-end] !o.closed && (off < 0 || off >= o.sr.limit) ==> n == 0 && err == io.EOF

func (*storage/data.object).Seek(o, offset, whence) (n, err)
  props C17
  requires datahandle(o) && o.sr.off < 4611686018427387904 && o.sr.limit < 4611686018427387904
  requires offset > -4611686018427387904 && offset < 4611686018427387904
  modifies o.sr.off
  ensures [closed] o.closed ==> err == os.ErrClosed && o.sr.off == old(o.sr.off)
  ensures [lands] err == nil ==> n == o.sr.off && n == offset + ite(whence == 0, 0, ite(whence == 1, old(o.sr.off), o.sr.limit))
  ensures [not-negative] err == nil ==> n >= 0 && whence >= 0 && whence <= 2
  ensures [refused] err != nil ==> o.sr.off == old(o.sr.off)
  ensures [accepts] !o.closed && whence >= 0 && whence <= 2 && offset + ite(whence == 0, 0, ite(whence == 1, old(o.sr.off), o.sr.limit)) >= 0 ==> err == nil

extern github.com/vincent-petithory/dataurl.New(data, mediatype, params) (d)
  ensures d != nil && fresh(d)
extern (*github.com/vincent-petithory/dataurl.DataURL).String(d) (r)

func (*storage/data.objectWriter).Abort(ow)
  props C18
  modifies ow.buf
  ensures [aborted] ow.buf == nil

func (*storage/data.objectWriter).Write(ow, p) (n, err)
  props C18
  modifies W(ow.buf)
  ensures [aborted] ow.buf == nil ==> n == 0 && err == os.ErrClosed
  ensures [all] ow.buf != nil ==> n == len(p) && err == nil && wlen(ow.buf) == old(wlen(ow.buf)) + len(p) && forall(i, 0, len(p), wbyte(ow.buf, old(wlen(ow.buf)) + i) == p[i])

func (*storage/data.objectWriter).Commit(ow) (info, err)
  props C18
  before New [content] len(call_data) == wlen(ow.buf) && forall(i, 0, len(call_data), call_data[i] == wbyte(ow.buf, i))
  ensures [aborted] ow.buf == nil ==> info == nil && err == driver.CommitOnAbortedObjectWriter
  ensures [committed] ow.buf != nil ==> info != nil && err == nil

package storage/ram

pred isdir(m) = (m / 2147483648) % 2 == 1

// The tree: the root is a directory, every entry leads to an inode, directories
// have a listing and files do not.
pred sound(d) = d.inodes != nil && d.nextIno > 1 && has(d.inodes, 1) && root(d.inodes[1]) && forallv(k, int64, has(d.inodes, k) ==> k < d.nextIno && node(d, d.inodes[k]))
pred node(d, n) = n != nil && (isdir(n.Mode) ==> listing(n) && foralls(s, has(n.Dir.entries, s) && s != ".." ==> has(d.inodes, n.Dir.entries[s])))
pred listing(n) = n.Dir != nil && n.Dir.entries != nil
pred root(n) = isdir(n.Mode) && has(n.Dir.entries, "..") && n.Dir.entries[".."] == 1

// Cleaned paths have parent references only in front.
ghost cleanpath(s string) bool
ghost lastpart(s string) string
ghost cleaned(s string) string
extern path/filepath.Clean(s) (r)
  ensures r == cleaned(s) && cleanpath(r)
pred cleanparts(p) = forall(i, 1, len(p), p[i] == ".." ==> p[i-1] == "..")

extern strings.Split(s, sep) (r)
  ensures len(r) >= 1 && fresh(r)
  ensures sep == "/" ==> r[len(r)-1] == lastpart(s)
  ensures sep == "/" && cleanpath(s) ==> cleanparts(r) && (r[0] != "" || len(r) > 1)

func storage/ram.newDirectory(parent, self) (d)
  props C18
  ensures [listing] d != nil && fresh(d) && d.entries != nil && fresh(d.entries)
  ensures [links] has(d.entries, "..") && d.entries[".."] == parent && has(d.entries, ".") && d.entries["."] == self
  ensures [empty] foralls(s, has(d.entries, s) ==> s == ".." || s == ".")

func storage/ram.newDirInode(parent, self) (n)
  props C18
  ensures [directory] n != nil && fresh(n) && isdir(n.Mode) && n.Dir != nil && fresh(n.Dir) && n.Dir.entries != nil && fresh(n.Dir.entries)
  ensures [links] has(n.Dir.entries, "..") && n.Dir.entries[".."] == parent && has(n.Dir.entries, ".") && n.Dir.entries["."] == self
  ensures [empty] foralls(s, has(n.Dir.entries, s) ==> s == ".." || s == ".")

func storage/ram.newFileInode(data) (n)
  props C18
  ensures [file] n != nil && fresh(n) && !isdir(n.Mode) && len(n.File) == len(data) && ref(n.File) == ref(data)

func (*storage/ram.directory).Set(d, name, ino)
  props C18
  requires d.entries != nil
  modifies mapof(d.entries)
  ensures [set] has(d.entries, name) && d.entries[name] == ino
  ensures [others] foralls(s, s != name ==> (has(d.entries, s) <==> old(has(d.entries, s))) && d.entries[s] == old(d.entries[s]))

func (*storage/ram.directory).Delete(d, name)
  props C18
  modifies mapof(d.entries)
  ensures [gone] !has(d.entries, name)
  ensures [others] foralls(s, s != name ==> (has(d.entries, s) <==> old(has(d.entries, s))) && d.entries[s] == old(d.entries[s]))

func (*storage/ram.directory).Lookup(d, name) (ino, ok)
  props C18
  ensures [found] ok <==> has(d.entries, name)
  ensures [entry] ok ==> ino == d.entries[name]

func storage/ram.NewDriver() (d)
  props C18
  ensures [sound] d != nil && sound(d)
  ensures [empty] forallv(k, int64, has(d.inodes, k) ==> k == 1) && foralls(s, has(d.inodes[1].Dir.entries, s) ==> s == ".." || s == ".")

func (*storage/ram.Driver).traverse(d, op, path) (f, err)
  props C18
  requires sound(d) && cleanpath(path)
  invariant [parts []string] len(parts) >= 1 && cleanparts(parts) && parts[len(parts)-1] == lastpart(path)
  invariant [parts []string, curr *inode] node(d, curr) && (parts[0] == ".." ==> curr == d.inodes[1])
  invariant [curr *inode] existsv(p, int64, has(d.inodes, p) && d.inodes[p] == curr)
  ensures [parent-known] err == nil ==> existsv(p, int64, has(d.inodes, p) && d.inodes[p] == f.Parent)
  ensures [found] err == nil ==> f != nil && fresh(f) && f.Parent != nil && isdir(f.Parent.Mode) && has(f.Parent.Dir.entries, f.Name) && f.Ino == f.Parent.Dir.entries[f.Name]
  ensures [exists] err == nil ==> has(d.inodes, f.Ino) && node(d, d.inodes[f.Ino]) && node(d, f.Parent)
  ensures [name] err == nil ==> f.Name == lastpart(path)

pred entry(d, p, name, k) = has(d.inodes, p) && isdir(d.inodes[p].Mode) && has(d.inodes[p].Dir.entries, name) && d.inodes[p].Dir.entries[name] == k

func (*storage/ram.Driver).commit(d, path, data) (err)
  props C18
  merge
  noauto
  requires sound(d) && cleanpath(path) && d.nextIno < 4611686018427387904
  modifies d.nextIno, mapof(d.inodes), anyfield(inode.File), anymap(d.inodes[1].Dir.entries)
  invariant sound(d) && d.inodes == old(d.inodes)
  invariant [parts []string] len(parts) >= 1 && cleanparts(parts) && parts[len(parts)-1] == lastpart(path) && d.nextIno <= 4611686018427387904 + 281474976710656 - len(parts)
  invariant [parts []string, at int64, curr *inode] has(d.inodes, at) && d.inodes[at] == curr && (parts[0] == ".." ==> at == 1)
  invariant forallv(k, int64, old(has(d.inodes, k)) ==> has(d.inodes, k) && d.inodes[k] == old(d.inodes[k]))
  invariant forallv(x, *directory, foralls(s, old(alive(x) && alive(x.entries) && has(x.entries, s)) ==> has(x.entries, s) && x.entries[s] == old(x.entries[s])))
  ensures [sound] sound(d)
  ensures [stored] err == nil ==> existsv(k, int64, has(d.inodes, k) && !isdir(d.inodes[k].Mode) && ref(d.inodes[k].File) == ref(data) && len(d.inodes[k].File) == len(data) && existsv(p, int64, entry(d, p, lastpart(path), k)))
  ensures [inodes-kept] forallv(k, int64, old(has(d.inodes, k)) ==> has(d.inodes, k) && d.inodes[k] == old(d.inodes[k]))
  ensures [entries-kept] forallv(x, *directory, foralls(s, old(alive(x) && alive(x.entries) && has(x.entries, s)) ==> has(x.entries, s) && x.entries[s] == old(x.entries[s])))
  ensures [failure-keeps] err != nil ==> forallv(k, *inode, len(k.File) == old(len(k.File)) && ref(k.File) == old(ref(k.File)))
  ensures [others-keep] forallv(k, *inode, ref(k.File) == ref(data) && len(k.File) == len(data) || len(k.File) == old(len(k.File)) && ref(k.File) == old(ref(k.File)))

pred urlplace(url) = ite(urlopaque(url) == "", urlpath(url), urlopaque(url))
pred relative(p) = ite(len(p) > 0 && p[0] == 47, p[1:], p)
pred place(url) = cleaned(relative(cleaned(urlplace(url))))

func storage/ram.urlToPath(url) (r, err)
  props C18
  ensures [scheme] err == nil <==> urlok(url) && urlscheme(url) == "ram"
  ensures [place] err == nil ==> r == place(url) && cleanpath(r)

ghost ramurl(p string) string
extern storage/ram.pathToUrl(p) (r)
  ensures r == ramurl(p)

pred unclosed(o) = !o.closed && o.br != nil && o.br.i == 0

func (*storage/ram.Driver).Open(d, ctx, url, size) (o, err)
  props C18
  requires sound(d)
  ensures [opened] err == nil ==> typeis(o, *object) && unclosed(as(o, *object)) && fresh(as(o, *object)) && as(o, *object).url == ramurl(place(url))
  ensures [content] err == nil ==> existsv(k, int64, has(d.inodes, k) && !isdir(d.inodes[k].Mode) && ref(as(o, *object).br.s) == ref(d.inodes[k].File) && len(as(o, *object).br.s) == ite(size > -1, min(size, len(d.inodes[k].File)), len(d.inodes[k].File)) && existsv(p, int64, entry(d, p, lastpart(place(url)), k)))
  ensures [failed] err != nil ==> o == nil

func (*storage/ram.Driver).Create(d, ctx, url) (w, err)
  props C18
  ensures [scheme] err == nil ==> urlok(url) && urlscheme(url) == "ram"
  ensures [writer] err == nil ==> typeis(w, *writer) && as(w, *writer).path == place(url) && as(w, *writer).url == ramurl(place(url)) && as(w, *writer).state == 0 && as(w, *writer).commit != nil && fresh(as(w, *writer))
  ensures [failed] err != nil ==> w == nil

func (*storage/ram.Driver).Stat(d, ctx, url) (info, err)
  props C18
  requires sound(d)
  ensures [described] err == nil ==> typeis(info, *finfo) && as(info, *finfo).name == lastpart(place(url)) && existsv(k, int64, has(d.inodes, k) && as(info, *finfo).size == len(d.inodes[k].File) && as(info, *finfo).mode == d.inodes[k].Mode && existsv(p, int64, entry(d, p, lastpart(place(url)), k)))
  ensures [failed] err != nil ==> info == nil

func (*storage/ram.Driver).Remove(d, ctx, url) (err)
  props C18
  requires sound(d)
  modifies mapof(d.inodes), anymap(d.inodes[1].Dir.entries)
  ensures [refused] err != nil ==> forallv(k, int64, has(d.inodes, k) <==> old(has(d.inodes, k))) && forallv(x, *directory, foralls(s, has(x.entries, s) <==> old(has(x.entries, s))))
  ensures [gone] err == nil ==> existsv(p, int64, old(has(d.inodes, p) && isdir(d.inodes[p].Mode) && has(d.inodes[p].Dir.entries, lastpart(place(url)))) && !has(old(d.inodes[p]).Dir.entries, lastpart(place(url))) && !has(d.inodes, old(d.inodes[p].Dir.entries[lastpart(place(url))])))
  ensures [root-stays] has(d.inodes, 1)
  ensures [one-only] forallv(k, int64, forallv(j, int64, old(has(d.inodes, k) && has(d.inodes, j)) && !has(d.inodes, k) && !has(d.inodes, j) ==> k == j))
  ensures [one-entry] forallv(x, *directory, foralls(s, old(has(x.entries, s)) && s != lastpart(place(url)) ==> has(x.entries, s) && x.entries[s] == old(x.entries[s])))
  ensures [nothing-new] forallv(k, int64, has(d.inodes, k) ==> old(has(d.inodes, k)) && d.inodes[k] == old(d.inodes[k]))

// ---- files ----
package storage/file

ghost fname(f *os.File) string
ghost dirof(p string) string
extern (*os.File).Name(f) (r)
  ensures r == fname(f)
extern (*os.File).Sync(f) (err)
  modifies gvar(synced, f)
  ensures err == nil ==> gvar(synced, f) == 1
extern (*os.File).Write(f, p) (n, err)
  modifies gvar(synced, f), gvar(fsize, f)
  ensures 0 <= n && n <= len(p) && (n < len(p) ==> err != nil)
  ensures gvar(fsize, f) == old(gvar(fsize, f)) + n
extern (*os.File).Close(f) (err)
  modifies gvar(fclosed, f)
  ensures gvar(fclosed, f) == 1
extern (*os.File).Read(f, p) (n, err)
  modifies p[:], gvar(fpos, f)
  ensures 0 <= n && n <= len(p) && gvar(fpos, f) == old(gvar(fpos, f)) + n && forall(i, 0, n, p[i] == abyte(f, old(gvar(fpos, f)) + i))
  ensures n == 0 && len(p) > 0 ==> err != nil
extern (*os.File).ReadAt(f, p, off) (n, err)
  modifies p[:]
  ensures 0 <= n && n <= len(p) && (n < len(p) ==> err != nil) && forall(i, 0, n, p[i] == abyte(f, off + i))
extern (*os.File).Seek(f, offset, whence) (r, err)
  modifies gvar(fpos, f)
  ensures err == nil ==> r == gvar(fpos, f)
  ensures err == nil && whence == 0 ==> r == offset
  ensures err == nil && whence == 1 ==> r == old(gvar(fpos, f)) + offset
extern os.Rename(from, to) (err)
  modifies gvar(renames)
  ensures gvar(renames) == old(gvar(renames)) + ite(err == nil, 1, 0)
extern os.Remove(name) (err)
  modifies gvar(removes)
  ensures gvar(removes) == old(gvar(removes)) + 1
extern os.MkdirAll(p, perm) (err)
extern os.Open(name) (f, err)
  ensures err == nil ==> f != nil && fresh(f) && fname(f) == name && gvar(fpos, f) == 0
extern os.Stat(name) (info, err)
  ensures (err == nil) <==> info != nil
extern (*os.File).Stat(f) (info, err)
  ensures err == nil ==> info != nil
iface io/fs.FileInfo.Size(fi) (r)
  pure
extern io/ioutil.TempFile(dir, pattern) (f, err)
  ensures err == nil ==> f != nil && fresh(f) && dirof(fname(f)) == dir
extern path/filepath.Dir(p) (r)
  ensures r == dirof(p)

func (*storage/file.object).Close(o) (err)
  props C17
  requires o.f != nil
  modifies gvar(fclosed, o.f)
  ensures [closed] gvar(fclosed, o.f) == 1

func (*storage/file.object).Size(o) (r)
  props C17
  ensures [size] r == o.size

func (*storage/file.object).URL(o) (r)
  props C17
  ensures [url] r == o.url

func (*storage/file.object).Read(o, p) (n, err)
  props C17
  requires o.f != nil
  modifies p[:], gvar(fpos, o.f)
  ensures [advances] gvar(fpos, o.f) == old(gvar(fpos, o.f)) + n && 0 <= n && n <= len(p)
  ensures [bytes] forall(i, 0, n, p[i] == abyte(o.f, old(gvar(fpos, o.f)) + i))
  ensures [end] n == 0 && len(p) > 0 ==> err != nil

func (*storage/file.object).ReadAt(o, p, off) (n, err)
  props C17
  requires o.f != nil
  modifies p[:]
  ensures [bytes] 0 <= n && n <= len(p) && forall(i, 0, n, p[i] == abyte(o.f, off + i))
  ensures [short] n < len(p) ==> err != nil

func (*storage/file.object).Seek(o, offset, whence) (r, err)
  props C17
  requires o.f != nil
  modifies gvar(fpos, o.f)
  ensures [reported] err == nil ==> r == gvar(fpos, o.f)
  ensures [start] err == nil && whence == 0 ==> r == offset
  ensures [current] err == nil && whence == 1 ==> r == old(gvar(fpos, o.f)) + offset

func (*storage/file.objectWriter).Write(ow, p) (n, err)
  props C18
  requires ow.f != nil
  modifies gvar(synced, ow.f), gvar(fsize, ow.f)
  ensures [counted] 0 <= n && n <= len(p) && (n < len(p) ==> err != nil) && gvar(fsize, ow.f) == old(gvar(fsize, ow.f)) + n

func (*storage/file.objectWriter).Commit(ow) (info, err)
  props C18
  requires ow.f != nil
  modifies gvar(synced, ow.f), gvar(renames)
  before Rename [flushed] gvar(synced, ow.f) == 1
  before Rename [published] call_from == fname(ow.f) && call_to == ow.path
  ensures [outcome] (err == nil) <==> info != nil
  ensures [renamed] gvar(renames) == old(gvar(renames)) + ite(err == nil, 1, 0)

func (*storage/file.objectWriter).Abort(ow)
  props C18
  requires ow.f != nil
  modifies gvar(removes), gvar(fclosed, ow.f)
  before Remove [temporary-only] call_name == fname(ow.f)
  ensures [removed] gvar(removes) == old(gvar(removes)) + 1 && gvar(fclosed, ow.f) == 1

pred rooted(p) = len(p) > 0 && p[0] == 47
pred filepathOf(url) = cleaned(ite(urlscheme(url) == "" && !rooted(urlpath(url)), ite(len(urlpath(url)) == 0, "", urlpath(url)), ite(len(urlopaque(url)) == 0, urlpath(url), urlopaque(url))))

func storage/file.urlToPath(url) (r, err)
  props C18
  ensures [parses] (err == nil) <==> urlok(url)
  ensures [path] err == nil ==> r == filepathOf(url)

func (*storage/file.Driver).Open(d, ctx, url, size) (o, err)
  props C18
  before Open [path] call_name == filepathOf(url)
  ensures [opened] err == nil ==> typeis(o, *object) && as(o, *object).f != nil && fname(as(o, *object).f) == filepathOf(url) && as(o, *object).url == url && gvar(fpos, as(o, *object).f) == 0
  ensures [given-size] err == nil && size >= 0 ==> as(o, *object).size == size
  ensures [failed] err != nil ==> o == nil

func (*storage/file.Driver).Create(d, ctx, url) (w, err)
  props C18
  before TempFile [beside-target] call_dir == dirof(filepathOf(url))
  ensures [writer] err == nil ==> typeis(w, *objectWriter) && as(w, *objectWriter).path == filepathOf(url) && as(w, *objectWriter).f != nil && dirof(fname(as(w, *objectWriter).f)) == dirof(filepathOf(url))
  ensures [failed] err != nil ==> w == nil

func (*storage/file.Driver).Remove(d, ctx, url) (err)
  props C18
  modifies gvar(removes)
  before Remove [path] call_name == filepathOf(url)
  ensures [once] gvar(removes) == old(gvar(removes)) + ite(urlok(url), 1, 0)

func (*storage/file.Driver).Stat(d, ctx, url) (info, err)
  props C18
  before Stat [path] call_name == filepathOf(url)
  ensures [outcome] (err == nil) <==> info != nil

// ---- S3 writers ----
package storage/s3

extern io.Pipe() (r, w)
  ensures r != nil && w != nil && fresh(r) && fresh(w) && gvar(pclosed, w) == 0
extern (*io.PipeWriter).Close(w) (err)
  modifies gvar(pclosed, w)
  ensures gvar(pclosed, w) == 1
extern (*io.PipeWriter).CloseWithError(w, e) (err)
  modifies gvar(pclosed, w)
  ensures gvar(pclosed, w) == ite(e == nil, 1, 2)
extern (*io.PipeWriter).Write(w, b) (n, err)
  modifies gvar(piped, w)
  ensures 0 <= n && n <= len(b) && (n < len(b) ==> err != nil) && gvar(piped, w) == old(gvar(piped, w)) + n
extern (*io.PipeReader).Close(r) (err)
  modifies gvar(rclosed, r)
  ensures gvar(rclosed, r) == 1
extern (*io.PipeReader).CloseWithError(r, e) (err)
  modifies gvar(rclosed, r)
  ensures gvar(rclosed, r) == ite(e == nil, 1, 2)

extern github.com/aws/aws-sdk-go/aws.String(s) (p)
  ensures p != nil && fresh(p) && *p == s

extern (s3util.S3Uploader).Upload(u, in, opts) (out, err)
  modifies gvar(uploads), gvar(uploadfault)
  ensures gvar(uploads) == old(gvar(uploads)) + 1
  ensures (err == nil) <==> out != nil
  ensures gvar(uploadfault) == ite(err == nil, 0, 1)
extern (s3util.S3Uploader).UploadWithContext(u, ctx, in, opts) (out, err)
  modifies gvar(uploads), gvar(uploadfault), R(in.Body)
  ensures gvar(uploads) == old(gvar(uploads)) + 1
  ensures (err == nil) <==> out != nil
  ensures gvar(uploadfault) == ite(err == nil, 0, 1)

extern (*storage/s3.objectWriter).storeVersion(ow, version)
  modifies ow.version, ow.err, ow.canonicalURL
  ensures old(ow.err) != nil ==> ow.err != nil

pred ready(ow) = ow.uploader != nil && ow.wg != nil && ow.state >= 0 && ow.state <= 3 && (ow.state == 1 ==> ow.pipeWriter != nil && ow.pipeReader != nil)

func (*storage/s3.objectWriter).startPiped$1()
  props C18
  requires *ow != nil && (*ow).uploader != nil && (*ow).wg != nil && (*ow).pipeReader != nil && (*ow).err == nil
  modifies (*ow).err, (*ow).version, (*ow).canonicalURL, gvar(uploads), gvar(uploadfault), gvar(rclosed, (*ow).pipeReader)
  before Upload [what] *call_in.Bucket == (*ow).bucket && *call_in.Key == (*ow).key && ref(call_in.Body) == ref((*ow).pipeReader)
  ensures [once] gvar(uploads) == old(gvar(uploads)) + 1
  ensures [failure-kept] gvar(uploadfault) != 0 ==> (*ow).err != nil && gvar(rclosed, (*ow).pipeReader) == 2
  ensures [reader-closed] gvar(rclosed, (*ow).pipeReader) != 0

func (*storage/s3.objectWriter).Write(ow, b) (n, err)
  props C18
  requires ready(ow)
  modifies ow.state, ow.pipeReader, ow.pipeWriter, spawned(), anyg(piped)
  ensures [opened] old(ow.state) == 0 ==> ow.state == 1 && ow.pipeWriter != nil && spawned() == old(spawned()) + 1
  ensures [again] old(ow.state) != 0 ==> ow.state == old(ow.state) && spawned() == old(spawned())
  ensures [mixed] old(ow.state) == 2 ==> n == 0 && err != nil
  ensures [aborted] old(ow.state) == 3 ==> n == 0 && err == errAborted
  ensures [piped] old(ow.state) == 1 ==> gvar(piped, ow.pipeWriter) == old(gvar(piped, ow.pipeWriter)) + n

func (*storage/s3.objectWriter).Commit(ow) (info, err)
  props C18
  requires ready(ow)
  shared ow.err, ow.version, ow.canonicalURL
  rely old(ow.err) != nil ==> ow.err != nil
  modifies ow.state, ow.pipeReader, ow.pipeWriter, ow.err, ow.version, ow.canonicalURL, spawned(), anyg(pclosed)
  before Wait [told] gvar(pclosed, ow.pipeWriter) == 1
  ensures [empty-object] old(ow.state) == 0 ==> ow.state == 1 && spawned() == old(spawned()) + 1
  ensures [aborted] old(ow.state) == 3 ==> info == nil && err == errAborted
  ensures [failed-before] old(ow.err) != nil ==> err != nil
  ensures [outcome] (err == nil) <==> info != nil
  ensures [no-hidden-failure] err == nil ==> ow.err == nil

func (*storage/s3.objectWriter).Abort(ow)
  props C18
  requires ready(ow)
  shared ow.err, ow.version, ow.canonicalURL
  modifies ow.state, ow.err, ow.version, ow.canonicalURL, anyg(pclosed)
  before Wait [told] gvar(pclosed, ow.pipeWriter) == 2
  ensures [aborted] old(ow.state) == 0 ==> ow.state == 3
  ensures [cut-short] old(ow.state) == 1 ==> gvar(pclosed, ow.pipeWriter) == 2

func (*storage/s3.objectWriter).ReadFromContext(ow, ctx, r, counter) (err)
  props C18
  requires ready(ow) && ow.err == nil
  modifies ow.state, ow.err, ow.version, ow.canonicalURL, gvar(uploads), gvar(uploadfault), R(r)
  before UploadWithContext [what] *call_in.Bucket == ow.bucket && *call_in.Key == ow.key && ref(call_in.Body) == ref(r)
  ensures [direct] old(ow.state) == 0 ==> ow.state == 2 && gvar(uploads) == old(gvar(uploads)) + 1
  ensures [refused] old(ow.state) != 0 ==> err != nil && ow.state == old(ow.state) && gvar(uploads) == old(gvar(uploads))
  ensures [aborted] old(ow.state) == 3 ==> err == errAborted
  ensures [failure-kept] old(ow.state) == 0 && err != nil ==> ow.err != nil
  ensures [fault-reported] old(ow.state) == 0 && gvar(uploadfault) != 0 ==> err != nil
