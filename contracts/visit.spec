// Visiting a tree of directories with several workers.
package storage/driver

// gvar(failures): calls of the visitor that failed.
iface storage/driver.VisitorPredicate.ShouldVisitDir(v, url) (r, err)
  modifies gvar(failures)
  ensures gvar(failures) == old(gvar(failures)) + ite(err != nil, 1, 0)
iface storage/driver.Visitor.VisitDir(v, baseURL, files) (err)
  modifies gvar(failures)
  ensures gvar(failures) == old(gvar(failures)) + ite(err != nil, 1, 0)
iface storage/driver.VisitorConcurrency.Concurrency(v) (r)
iface storage/driver.VisitorTraversal.DepthFirst(v) (r)
iface io/fs.FileInfo.IsDir(f) (r)
  pure
iface io/fs.FileInfo.Name(f) (r)
  pure


iface context.Context.Done(c) (r)
  pure
iface context.Context.Err(c) (r)

func storage/driver.minI(a, b) (r)
  props C27
  ensures [smaller] r == min(a, b)

pred listedDir() = last("storage/driver.Readdirer.Readdir", url)
pred childName() = last("io/fs.FileInfo.Name", r)
func storage/driver.visitWorker(ctx, workerId, drvr, paths, nextPaths, errors, visitor, wg)
  props C27
  requires ctx != nil && drvr != nil && visitor != nil && wg != nil && nextPaths != paths && ref(errors) != ref(nextPaths)
  maypanic
  noauto
  shared gvar(others)
  modifies gvar(others), gvar(failures)
  invariant gvar(failures) - pre(gvar(failures)) == sends(errors) - pre(sends(errors))
  ensures [failures-reported] sends(errors) - old(sends(errors)) >= gvar(failures) - old(gvar(failures))
  before VisitDir [listed] call_baseURL == listedDir() && ref(call_files) == ref(last("storage/driver.Readdirer.Readdir", r)) && len(call_files) == len(last("storage/driver.Readdirer.Readdir", r)) && last("storage/driver.Readdirer.Readdir", err) == nil
  before Readdir [wanted] typeis(visitor, VisitorPredicate) ==> last("storage/driver.VisitorPredicate.ShouldVisitDir", url) == call_url && last("storage/driver.VisitorPredicate.ShouldVisitDir", r)
  onsend nextPaths [directory] last("io/fs.FileInfo.IsDir", r) && last("io/fs.FileInfo.IsDir", f) == last("io/fs.FileInfo.Name", f)
  onsend nextPaths [named] childName() != "." && childName() != ".."
  onsend nextPaths [child] msg == ite(listedDir() == "", childName(), listedDir() + "/" + childName())
  onsend errors [error] msg != nil && (msg == last("storage/driver.Readdirer.Readdir", err) || msg == last("storage/driver.Visitor.VisitDir", err) || msg == last("storage/driver.VisitorPredicate.ShouldVisitDir", err))

func storage/driver.Visit(ctx, drvr, root, visitor) (err)
  props C27
  merge
  requires ctx != nil && drvr != nil && visitor != nil
  maypanic
  noauto
  shared gvar(others)
  modifies gvar(others), gvar(failures), spawned(), anyelems([]string)
  spawn visitWorker [own] spawn_drvr == drvr && spawn_visitor == visitor

extern context.WithCancel(parent) (c, cancel)
  ensures c != nil && cancel != nil
functype context.CancelFunc()
