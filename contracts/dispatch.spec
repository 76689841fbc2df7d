// Driver registry and dispatch by URL scheme.
package storage/driver

// Whether a URL parses, and the scheme it has.
ghost urlok(s string) bool
ghost urlscheme(s string) string
ghost urlpath(s string) string
ghost urlopaque(s string) string

extern net/url.Parse(s) (u, err)
  ensures (err == nil) <==> urlok(s)
  ensures err == nil ==> u != nil && fresh(u) && u.Scheme == urlscheme(s) && u.Path == urlpath(s) && u.Opaque == urlopaque(s)


// The scheme that decides: a URL without one belongs to the file driver.
pred schemeOf(url) = ite(urlscheme(url) == "", "file", urlscheme(url))
pred known(url) = urlok(url) && has(drivers, schemeOf(url))
// The driver registered for the scheme of the URL.
pred serving(url) = drivers[schemeOf(url)]

func storage/driver.Find(url) (r, err)
  props C29
  requires drivers != nil
  ensures [registered-driver] known(url) ==> err == nil && r == serving(url)
  ensures [unknown-refused] !known(url) ==> err != nil && r == nil

func storage/driver.Register(scheme, driver)
  props C29
  requires drivers != nil
  panics_iff driver == nil || has(drivers, scheme)
  modifies mapof(drivers)
  ensures [registered] has(drivers, scheme) && drivers[scheme] == driver
  free other string
  ensures [others-kept] other != scheme ==> (has(drivers, other) <==> old(has(drivers, other))) && drivers[other] == old(drivers[other])

iface storage/driver.Driver.Name(d) (r)
  pure

iface storage/driver.Driver.Open(d, ctx, url, size) (r, err)
  pure
  ensures err == nil ==> r != nil
iface storage/driver.Driver.Stat(d, ctx, url) (r, err)
  pure
iface storage/driver.Creator.Create(d, ctx, url) (r, err)
  pure
  ensures err == nil ==> r != nil
iface storage/driver.Remover.Remove(d, ctx, url) (err)
  pure
iface storage/driver.Readdirer.Readdir(d, ctx, url) (r, err)
  pure
iface storage/driver.Locker.Lock(d, ctx, url) (r, err)
  pure
  ensures err == nil ==> r != nil
iface storage/driver.Locker.RLock(d, ctx, url) (r, err)
  pure
  ensures err == nil ==> r != nil

pred driverRegistry() = drivers != nil && foralls(k, has(drivers, k) ==> drivers[k] != nil)

extern context.Background() (r)
  pure
  ensures r != nil

package storage

func storage.OpenContextSize(ctx, url, size) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) ==> r == serving(url).Open(ctx, url, size) && err == second(serving(url).Open(ctx, url, size))
  ensures [object] err == nil ==> r != nil
  ensures [refused] !(known(url)) ==> err != nil && r == nil

func storage.Open(url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) ==> r == serving(url).Open(context.Background(), url, -1) && err == second(serving(url).Open(context.Background(), url, -1))
  ensures [object] err == nil ==> r != nil
  ensures [refused] !(known(url)) ==> err != nil && r == nil

func storage.OpenSize(url, size) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) ==> r == serving(url).Open(context.Background(), url, size) && err == second(serving(url).Open(context.Background(), url, size))
  ensures [object] err == nil ==> r != nil
  ensures [refused] !(known(url)) ==> err != nil && r == nil

func storage.CreateContext(ctx, url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Creator) ==> r == as(serving(url), driver.Creator).Create(ctx, url) && err == second(as(serving(url), driver.Creator).Create(ctx, url))
  ensures [object] err == nil ==> r != nil
  ensures [refused] !(known(url) && typeis(serving(url), driver.Creator)) ==> err != nil && r == nil

func storage.Create(url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Creator) ==> r == as(serving(url), driver.Creator).Create(context.Background(), url) && err == second(as(serving(url), driver.Creator).Create(context.Background(), url))
  ensures [object] err == nil ==> r != nil
  ensures [refused] !(known(url) && typeis(serving(url), driver.Creator)) ==> err != nil && r == nil

func storage.RemoveContext(ctx, url) (err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Remover) ==> err == as(serving(url), driver.Remover).Remove(ctx, url)
  ensures [refused] !(known(url) && typeis(serving(url), driver.Remover)) ==> err != nil

func storage.Remove(url) (err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Remover) ==> err == as(serving(url), driver.Remover).Remove(context.Background(), url)
  ensures [refused] !(known(url) && typeis(serving(url), driver.Remover)) ==> err != nil

func storage.StatContext(ctx, url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) ==> r == serving(url).Stat(ctx, url) && err == second(serving(url).Stat(ctx, url))
  ensures [refused] !(known(url)) ==> err != nil && r == nil

func storage.Stat(url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) ==> r == serving(url).Stat(context.Background(), url) && err == second(serving(url).Stat(context.Background(), url))
  ensures [refused] !(known(url)) ==> err != nil && r == nil

func storage.LockContext(ctx, url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Locker) ==> r == as(serving(url), driver.Locker).Lock(ctx, url) && err == second(as(serving(url), driver.Locker).Lock(ctx, url))
  ensures [object] err == nil ==> r != nil
  ensures [refused] !(known(url) && typeis(serving(url), driver.Locker)) ==> err != nil && r == nil

func storage.Lock(url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Locker) ==> r == as(serving(url), driver.Locker).Lock(context.Background(), url) && err == second(as(serving(url), driver.Locker).Lock(context.Background(), url))
  ensures [object] err == nil ==> r != nil
  ensures [refused] !(known(url) && typeis(serving(url), driver.Locker)) ==> err != nil && r == nil

func storage.RLockContext(ctx, url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Locker) ==> r == as(serving(url), driver.Locker).RLock(ctx, url) && err == second(as(serving(url), driver.Locker).RLock(ctx, url))
  ensures [object] err == nil ==> r != nil
  ensures [refused] !(known(url) && typeis(serving(url), driver.Locker)) ==> err != nil && r == nil

func storage.RLock(url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Locker) ==> r == as(serving(url), driver.Locker).RLock(context.Background(), url) && err == second(as(serving(url), driver.Locker).RLock(context.Background(), url))
  ensures [object] err == nil ==> r != nil
  ensures [refused] !(known(url) && typeis(serving(url), driver.Locker)) ==> err != nil && r == nil

// Visiting goes to the driver of the URL, with the caller's context and visitor.
func storage.VisitContext(ctx, url, visitor) (err)
  props C29
  requires driverRegistry() && ctx != nil && visitor != nil
  maypanic
  modifies *
  before Visit [same] call_ctx == ctx && call_root == url && call_visitor == visitor && ref(call_drvr) == ref(serving(url))
  ensures [refused] !old(known(url) && typeis(serving(url), driver.Readdirer)) ==> err != nil

func storage.Visit(url, visitor) (err)
  props C29
  requires driverRegistry() && visitor != nil
  maypanic
  modifies *
  before VisitContext [same] call_ctx == context.Background() && call_url == url && call_visitor == visitor
  ensures [refused] !old(known(url) && typeis(serving(url), driver.Readdirer)) ==> err != nil

func storage.ReaddirContext(ctx, url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Readdirer) ==> ref(r) == ref(as(serving(url), driver.Readdirer).Readdir(ctx, url)) && err == second(as(serving(url), driver.Readdirer).Readdir(ctx, url))
  ensures [refused] !(known(url) && typeis(serving(url), driver.Readdirer)) ==> err != nil

func storage.Readdir(url) (r, err)
  props C29
  requires driverRegistry()
  ensures [handed-over] known(url) && typeis(serving(url), driver.Readdirer) ==> ref(r) == ref(as(serving(url), driver.Readdirer).Readdir(context.Background(), url)) && err == second(as(serving(url), driver.Readdirer).Readdir(context.Background(), url))
  ensures [refused] !(known(url) && typeis(serving(url), driver.Readdirer)) ==> err != nil
