// Trusted contracts of standard library functions, as far as the code under
// contract uses them.
package httputil

extern strings.LastIndex(s, sep) (r)
  ensures -1 <= r && r <= len(s)
  ensures r >= 0 ==> r + len(sep) <= len(s)
  ensures len(sep) == 1 && r >= 0 ==> s[r] == sep[0]
  ensures len(sep) == 1 ==> forall(j, r+1, len(s), s[j] != sep[0])

iface io.Closer.Close(c) (err)
  modifies gvar(closes, c)
  ensures gvar(closes, c) == old(gvar(closes, c)) + 1

// Reads to the end of the stream.
extern io/ioutil.ReadAll(r) (b, err)
  modifies R(r)
  ensures fresh(b)
  ensures err == nil ==> len(b) == old(rlen(r) - rpos(r)) && rpos(r) == old(rlen(r))
  ensures err == nil ==> forall(i, 0, len(b), b[i] == old(rbyte(r, rpos(r)+i)))

// A reader with the content left in r.
extern io/ioutil.NopCloser(r) (c)
  ensures c != nil && fresh(c)
  ensures rpos(c) == 0 && rlen(c) == rlen(r) - rpos(r)
  ensures forall(i, 0, rlen(c), rbyte(c, i) == rbyte(r, rpos(r)+i))

// ---- net/http, as far as the code below uses it ----

// Keys already in canonical form are looked up as they are.
pred canonical(k) = k == "Content-Range" || k == "Authorization" || k == "Range" || k == "Accept-Encoding" || k == "Date" || k == "Last-Modified"

extern (net/http.Header).Get(h, key) (v)
  ensures canonical(key) ==> v == ite(has(h, key) && len(h[key]) > 0, h[key][0], "")

extern (net/http.Header).Set(h, key, value)
  requires canonical(key)
  modifies mapof(h)
  ensures has(h, key) && len(h[key]) == 1 && h[key][0] == value && fresh(h[key])
  ensures foralls(k, k != key ==> (has(h, k) <==> old(has(h, k))) && h[k] == old(h[k]))

extern (net/http.Header).Add(h, key, value)
  requires canonical(key)
  modifies mapof(h)
  ensures has(h, key) && len(h[key]) == old(len(h[key])) + 1 && h[key][len(h[key])-1] == value && fresh(h[key])
  ensures foralls(k, k != key ==> (has(h, k) <==> old(has(h, k))) && h[k] == old(h[k]))

// Sends the request: may consume its body, changes nothing else.
//   gvar(sent)  requests handed to the transport so far
//   gvar(answer), gvar(fault), gvar(status)  what the last one came back with
iface net/http.RoundTripper.RoundTrip(rt, req) (resp, err)
  requires req != nil
  modifies R(req.Body), gvar(sent), gvar(answer), gvar(fault), gvar(status)
  ensures gvar(sent) == old(gvar(sent)) + 1
  ensures gvar(answer) == ref(resp)
  ensures (gvar(fault) == 0) <==> err == nil
  ensures err != nil ==> gvar(fault) == ref(err)
  ensures err == nil ==> resp != nil && gvar(status) == resp.StatusCode


extern strings.HasPrefix(s, p) (r)
  ensures r <==> len(s) >= len(p) && forall(i, 0, len(p), s[i] == p[i])

extern os.NewSyscallError(call, err) (r)
  ensures (r == nil) <==> err == nil
