// Objects read over HTTP.
package storage/http

// What came back from the last exchange with the server:
//   gvar(heads), gvar(gets)   exchanges made so far
//   gvar(headstatus), gvar(headlen), gvar(getstatus), gvar(getlen)
extern (*net/http.Client).Head(c, url) (resp, err)
  modifies gvar(heads), gvar(headstatus), gvar(headlen)
  ensures gvar(heads) == old(gvar(heads)) + 1
  ensures err == nil ==> resp != nil && fresh(resp) && resp.Body != nil && fresh(resp.Body)
  ensures err == nil ==> gvar(headstatus) == resp.StatusCode && gvar(headlen) == resp.ContentLength
  ensures err == nil ==> resp.ContentLength < 4611686018427387904 // no resource of 2^62 bytes or more
  ensures err != nil ==> gvar(headstatus) == 0

extern (*net/http.Client).Get(c, url) (resp, err)
  modifies gvar(gets), gvar(getstatus), gvar(getlen)
  ensures gvar(gets) == old(gvar(gets)) + 1
  ensures err == nil ==> resp != nil && fresh(resp) && resp.Body != nil && fresh(resp.Body)
  ensures err == nil ==> gvar(getstatus) == resp.StatusCode && gvar(getlen) == rlen(resp.Body) && rpos(resp.Body) == 0
  ensures err != nil ==> gvar(getstatus) == 0

extern (*net/http.Client).Do(c, req) (resp, err)
  requires req != nil
  modifies gvar(gets), gvar(getstatus), gvar(answer), gvar(bodyid)
  ensures gvar(gets) == old(gvar(gets)) + 1
  ensures err == nil ==> resp != nil && fresh(resp) && resp.Body != nil && fresh(resp.Body) && rpos(resp.Body) == 0
  ensures err == nil ==> gvar(getstatus) == resp.StatusCode && gvar(answer) == ref(resp) && gvar(bodyid) == ref(resp.Body)
  ensures err != nil ==> gvar(getstatus) == 0

extern net/http.NewRequest(method, url, body) (req, err)
  ensures err == nil ==> req != nil && fresh(req) && req.Header != nil && fresh(req.Header) && req.Method == method && len(req.Header["Range"]) == 0 && !has(req.Header, "Range")

func storage/http.Stat(c, url) (r, err)
  props C21
  modifies gvar(heads), gvar(headstatus), gvar(headlen), gvar(gets), gvar(getstatus), gvar(getlen)
  ensures [refused] err != nil ==> r == -1
  ensures [size] err == nil ==> r >= 0 && r < 4611686018427387904 && ((gvar(headstatus) == 200 && r == gvar(headlen)) || (gvar(headstatus) == 405 && gvar(getstatus) == 200 && r == gvar(getlen)))
  ensures [asked-once] gvar(heads) == old(gvar(heads)) + 1 && gvar(gets) <= old(gvar(gets)) + 1
  ensures [missing] gvar(headstatus) == 404 ==> err == os.ErrNotExist

func (*storage/http.object).Size(o) (r)
  props C21
  modifies o.size, o.sizeErr, gvar(once, &o.sizeOnce), gvar(heads), gvar(headstatus), gvar(headlen), gvar(gets), gvar(getstatus), gvar(getlen)
  ensures [once] gvar(once, &o.sizeOnce) == 1
  ensures [value] r == o.size
  ensures [known-kept] old(o.size) >= 0 ==> o.size == old(o.size) && o.sizeErr == old(o.sizeErr)
  ensures [asked-before] old(gvar(once, &o.sizeOnce)) == 1 ==> o.size == old(o.size) && o.sizeErr == old(o.sizeErr)
  ensures [found] old(o.size) < 0 && old(gvar(once, &o.sizeOnce)) != 1 ==> (o.sizeErr == nil ==> r >= 0 && r < 4611686018427387904)

func (*storage/http.object).Close(o) (err)
  props C21
  modifies o.closed
  ensures [closed] o.closed && err == nil

func (*storage/http.object).Seek(o, offset, whence) (r, err)
  props C21
  requires whence >= 0 && whence <= 2 && o.pos >= 0
  requires offset > -4611686018427387904 && offset < 4611686018427387904 && o.size < 4611686018427387904 && o.pos < 4611686018427387904
  modifies o.pos
  ensures [closed] o.closed ==> err != nil && o.pos == old(o.pos)
  ensures [lands] err == nil && o.size >= 0 ==> r == min(max(ite(whence == 0, offset, ite(whence == 1, old(o.pos) + offset, o.size + offset)), 0), o.size)
  ensures [lands-unknown-size] err == nil && o.size < 0 ==> whence != 2 && r == max(ite(whence == 0, offset, old(o.pos) + offset), 0)
  ensures [position] err == nil ==> o.pos == r && r >= 0
  ensures [refused] err != nil ==> o.closed || (whence == 2 && o.size < 0)

func (*storage/http.object).ReadAt(o, p, off) (n, err)
  props C21
  requires o.client != nil && o.u != nil && o.size < 4611686018427387904
  requires o.size >= 0 || gvar(once, &o.sizeOnce) != 1 || o.sizeErr != nil
  modifies p[:], o.size, o.sizeErr, gvar(once, &o.sizeOnce), gvar(heads), gvar(headstatus), gvar(headlen), gvar(gets), gvar(getstatus), gvar(getlen), gvar(answer), gvar(bodyid)
  before Do [exact-range] len(call_req.Header["Range"]) == 1 && call_req.Header["Range"][0] == sprintf("bytes=%d-%d", off, int64(min(off + len(p), o.size) - 1))
  before Do [inside] off >= 0 && off < o.size && len(p) > 0 && !o.closed
  before Do [get] call_req.Method == "GET"
  ensures [counts] 0 <= n && n <= len(p)
  ensures [complete] err == nil && len(p) > 0 ==> off >= 0 && n == min(len(p), o.size - off)
  ensures [status] err == nil && len(p) > 0 ==> gvar(getstatus) == 206
  ensures [content] err == nil ==> forall(i, 0, n, p[i] == content(gvar(bodyid), i))
  ensures [refused] len(p) > 0 && (o.closed || off < 0) ==> err != nil && n == 0 && gvar(gets) == old(gvar(gets))
  ensures [answer-for-range] err == nil && len(p) > 0 ==> dec(rangepart(crhdr(obj(gvar(answer), http.Response)), 1)) == off && dec(rangepart(crhdr(obj(gvar(answer), http.Response)), 2)) == off + n - 1
  ensures [answer-for-size] err == nil && len(p) > 0 ==> dec(rangepart(crhdr(obj(gvar(answer), http.Response)), 3)) >= o.size
  ensures [end] err == nil && len(p) > 0 ==> off < o.size
  ensures [nothing-else] n > 0 ==> gvar(getstatus) == 206

func (*storage/http.object).Read(o, p) (n, err)
  props C21
  requires o.client != nil && o.u != nil && o.size < 4611686018427387904 && o.pos >= 0 && o.pos < 4611686018427387904
  requires o.size >= 0 || gvar(once, &o.sizeOnce) != 1 || o.sizeErr != nil
  modifies p[:], o.pos, o.size, o.sizeErr, gvar(once, &o.sizeOnce), gvar(heads), gvar(headstatus), gvar(headlen), gvar(gets), gvar(getstatus), gvar(getlen), gvar(answer), gvar(bodyid)
  ensures [counts] 0 <= n && n <= len(p)
  ensures [advanced] o.pos == old(o.pos) + n
  ensures [complete] err == nil && len(p) > 0 ==> n == min(len(p), o.size - old(o.pos)) && n > 0
  ensures [content] err == nil ==> forall(i, 0, n, p[i] == content(gvar(bodyid), i))
