// Escaping of object paths in signed requests.
package s3util

pred unreserved(c) = ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~'
// Bytes that have to be written as %XX.
pred escaped(c) = !unreserved(c) && c != '/'
pred hex(d) = ite(d < 10, '0' + d, 'A' + d - 10)

// Escaped bytes among the first n of s; byte i of s is written at i + 2*esc(s, i).
ghost esc(s string, n int) int = ite(n <= 0, 0, esc(s, n-1) + ite(escaped(s[n-1]), 1, 0))

pred at(s, i) = i + 2*esc(s, i)

func s3util.shouldEscapeEncodePath(c) (r)
  props C25
  pure
  ensures [exactly] r <==> escaped(c)

func s3util.encodePathCanonical(s) (r)
  props C25
  requires len(s) <= 35184372088832
  invariant [i int, n int] n == esc(s, i) && 0 <= n && n <= i
  invariant [i int, n int] forall(k, 0, i, esc(s, k) + ite(escaped(s[k]), 1, 0) <= n && esc(s, k) >= 0)
  invariant [i int, j int] j == i + 2*esc(s, i) && j >= i
  invariant [i int, j int] forall(k, 0, i, k + 2*esc(s, k) + ite(escaped(s[k]), 3, 1) <= j)
  invariant [i int, t []byte] forall(k, 0, i, escaped(s[k]) ==> t[k+2*esc(s, k)] == '%' && t[k+2*esc(s, k)+1] == hex(s[k]/16) && t[k+2*esc(s, k)+2] == hex(s[k]%16))
  invariant [i int, t []byte] forall(k, 0, i, !escaped(s[k]) ==> t[k+2*esc(s, k)] == s[k])
  ensures [length] len(r) == len(s) + 2*esc(s, len(s))
  ensures [escaped-bytes] forall(k, 0, len(s), escaped(s[k]) ==> r[k+2*esc(s, k)] == '%' && r[k+2*esc(s, k)+1] == hex(s[k]/16) && r[k+2*esc(s, k)+2] == hex(s[k]%16))
  ensures [kept-bytes] forall(k, 0, len(s), !escaped(s[k]) ==> r[k+2*esc(s, k)] == s[k])

// Signs the request for its present URL and headers and the content of body.
//   gvar(signed)  requests signed successfully so far
extern (github.com/aws/aws-sdk-go/aws/signer/v4.Signer).Sign(s, r, body, service, region, t) (h, err)
  requires r != nil && r.URL != nil
  modifies r.Body, mapof(r.Header), r.URL.RawQuery, gvar(signed)
  ensures gvar(signed) == old(gvar(signed)) + ite(err == nil, 1, 0)
  ensures err == nil && body == nil ==> r.Body == nil
  ensures err == nil && body != nil ==> r.Body != nil && fresh(r.Body) && rlen(r.Body) - rpos(r.Body) == rlen(body) - rpos(body)
  ensures err == nil && body != nil ==> forall(i, 0, rlen(body) - rpos(body), rbyte(r.Body, rpos(r.Body)+i) == rbyte(body, rpos(body)+i))

extern (time.Time).Format(t, layout) (s)

pred signedAlready(req) = has(req.Header, "Authorization") && len(req.Header["Authorization"]) > 0 && hasprefix4(req.Header["Authorization"][0])
pred hasprefix4(s) = len(s) >= 4 && s[0] == 'A' && s[1] == 'W' && s[2] == 'S' && s[3] == '4'

func (*s3util.signer).RoundTrip(s, req) (resp, err)
  props C25
  requires s.transport != nil && s.v4 != nil && req != nil && req.URL != nil && req.Header != nil
  requires len(req.URL.Path) <= 35184372088832
  requires req.Body != nil ==> rpos(req.Body) == 0
  free other string
  modifies mapof(req.Header), req.Body, R(req.Body), req.URL.Scheme, req.URL.RawPath, req.URL.RawQuery, gvar(signed), gvar(sent), gvar(answer), gvar(fault), gvar(status)
  before RoundTrip [same-request] call_req == req
  before RoundTrip [signed] old(signedAlready(req)) || gvar(signed) == old(gvar(signed)) + 1
  before RoundTrip [signed-untouched] old(signedAlready(req)) ==> gvar(signed) == old(gvar(signed)) && req.URL.Scheme == old(req.URL.Scheme) && req.URL.RawPath == old(req.URL.RawPath) && req.URL.RawQuery == old(req.URL.RawQuery) && req.Body == old(req.Body)
  before RoundTrip [signed-headers-kept] old(signedAlready(req)) ==> (has(req.Header, other) <==> old(has(req.Header, other))) && req.Header[other] == old(req.Header[other])
  before RoundTrip [no-body] old(req.Body) == nil ==> req.Body == nil
  before RoundTrip [body-size] old(req.Body) != nil ==> req.Body != nil && rlen(req.Body) - rpos(req.Body) == old(rlen(req.Body))
  before RoundTrip [body] old(req.Body) != nil ==> forall(i, 0, old(rlen(req.Body)), rbyte(req.Body, rpos(req.Body)+i) == old(rbyte(req.Body, i)))
  before Sign [https] req.URL.Scheme == "https"
  before Sign [same-request] call_r == req
  before Sign [region] call_region == s.region
  before Sign [escaped-length] len(req.URL.RawPath) == len(req.URL.Path) + 2*esc(req.URL.Path, len(req.URL.Path))
  before Sign [escaped-bytes] forall(k, 0, len(req.URL.Path), escaped(req.URL.Path[k]) ==> req.URL.RawPath[k+2*esc(req.URL.Path, k)] == '%' && req.URL.RawPath[k+2*esc(req.URL.Path, k)+1] == hex(req.URL.Path[k]/16) && req.URL.RawPath[k+2*esc(req.URL.Path, k)+2] == hex(req.URL.Path[k]%16))
  before Sign [kept-bytes] forall(k, 0, len(req.URL.Path), !escaped(req.URL.Path[k]) ==> req.URL.RawPath[k+2*esc(req.URL.Path, k)] == req.URL.Path[k])
  ensures [path-kept] req.URL.Path == old(req.URL.Path)
  ensures [failure-not-sent] gvar(sent) == old(gvar(sent)) ==> err != nil
  ensures [answer] gvar(sent) > old(gvar(sent)) ==> ref(resp) == gvar(answer) && ((err == nil) <==> gvar(fault) == 0)
  ensures [sent-once] gvar(sent) <= old(gvar(sent)) + 1
