// HTTP helpers: content ranges, authorization, retries, round robin.
package httputil

// ---- content ranges ----

// Text of the k-th group the Content-Range pattern matches, and whether the
// text is a decimal number fitting 64 bits.
ghost rangepart(s string, k int) string
ghost isdec(s string) bool
ghost dec(s string) int

extern (*regexp.Regexp).FindStringSubmatch(re, s) (parts)
  ensures len(parts) == 0 || (len(parts) == 4 && forall(i, 0, 4, parts[i] == rangepart(s, i)))
  ensures fresh(parts) || len(parts) == 0

extern strconv.ParseUint(s, base, bits) (n, err)
  ensures base == 10 && bits == 64 ==> ((err == nil) <==> isdec(s))
  ensures base == 10 && bits == 64 && err == nil ==> n == dec(s)

func (httputil.ContentRange).Len(cr) (n)
  props C21
  ensures [length] cr.First <= cr.Last && cr.Last < 18446744073709551615 ==> n == cr.Last - cr.First + 1

func (httputil.ContentRange).Terminal(cr) (b)
  props C21
  ensures [terminal] cr.Total > 0 ==> (b <==> cr.Last == cr.Total - 1)

pred crhdr(resp) = resp.Header["Content-Range"][0]

func httputil.GetContentRange(resp) (cr, err)
  props C21
  requires resp != nil
  ensures [either] (err == nil) <==> cr != nil
  ensures [range] err == nil ==> cr.First <= cr.Last && cr.Last < cr.Total
  ensures [present] err == nil ==> has(resp.Header, "Content-Range") && len(resp.Header["Content-Range"]) > 0
  ensures [first] err == nil ==> cr.First == dec(rangepart(crhdr(resp), 1))
  ensures [last] err == nil ==> cr.Last == dec(rangepart(crhdr(resp), 2))
  ensures [total] err == nil ==> cr.Total == dec(rangepart(crhdr(resp), 3))

// ---- authorization ----

func (*httputil.authz).RoundTrip(a, req) (resp, err)
  props C22
  requires req != nil && req.Header != nil && a.transport != nil
  free other string
  modifies mapof(req.Header), R(req.Body), gvar(sent), gvar(answer), gvar(fault), gvar(status)
  before RoundTrip [same-request] call_req == req
  before RoundTrip [own-kept] old(has(req.Header, "Authorization")) ==> req.Header["Authorization"] == old(req.Header["Authorization"])
  before RoundTrip [added] !old(has(req.Header, "Authorization")) ==> len(req.Header["Authorization"]) == 1 && req.Header["Authorization"][0] == a.value
  ensures [others-kept] other != "Authorization" ==> (has(req.Header, other) <==> old(has(req.Header, other))) && req.Header[other] == old(req.Header[other])
  ensures [one-request] gvar(sent) == old(gvar(sent)) + 1
  ensures [answer] ref(resp) == gvar(answer) && ((err == nil) <==> gvar(fault) == 0)

// ---- retries ----

extern (*github.com/cenkalti/backoff.ExponentialBackOff).NextBackOff(b) (d)
extern github.com/cenkalti/backoff.NewExponentialBackOff() (b)
  ensures b != nil && fresh(b)
extern (*net/url.URL).String(u) (s)

pred retryable() = gvar(fault) != 0 || gvar(status) >= 500 || gvar(status) == 429

func (*httputil.retryingRoundTripper).RoundTrip(r, req) (resp, err)
  props C22
  requires req != nil && r.rt != nil && req.URL != nil
  requires req.Body != nil ==> rpos(req.Body) == 0
  modifies req.Body, R(req.Body), gvar(closes, req.Body), gvar(sent), gvar(answer), gvar(fault), gvar(status)
  merge helpers
  invariant gvar(sent) >= pre(gvar(sent))
  invariant pre(req.Body) == nil ==> req.Body == nil
  invariant gvar(sent) > pre(gvar(sent)) ==> retryable()
  before RoundTrip [same-request] call_req == req
  before RoundTrip [only-after-failure] gvar(sent) == old(gvar(sent)) || retryable()
  before RoundTrip [no-body] old(req.Body) == nil ==> req.Body == nil
  before RoundTrip [same-body-size] old(req.Body) != nil ==> req.Body != nil && rlen(req.Body) - rpos(req.Body) == old(rlen(req.Body))
  before RoundTrip [same-body] old(req.Body) != nil ==> forall(i, 0, old(rlen(req.Body)), rbyte(req.Body, rpos(req.Body)+i) == old(rbyte(req.Body, i)))
  ensures [answer] gvar(sent) > old(gvar(sent)) ==> ref(resp) == gvar(answer) && ((err == nil) <==> gvar(fault) == 0)
  ensures [gave-up] gvar(sent) > old(gvar(sent)) && retryable() ==> last("(*github.com/cenkalti/backoff.ExponentialBackOff).NextBackOff", d) < 0
  ensures [sent] err == nil ==> gvar(sent) > old(gvar(sent))

// ---- round robin ----

extern (*net/http.Transport).RoundTrip(t, req) (resp, err)
  requires req != nil
  modifies R(req.Body), gvar(sent), gvar(answer), gvar(fault), gvar(status)
  ensures gvar(sent) == old(gvar(sent)) + 1
  ensures gvar(answer) == ref(resp)
  ensures (gvar(fault) == 0) <==> err == nil

func (*httputil.hostRoundRobinTransport).RoundTrip(h, req) (resp, err)
  props C22
  requires req != nil
  requires forall(i, 0, len(h.ips), has(h.transports, h.ips[i]))
  modifies h.reqnum, R(req.Body), gvar(sent), gvar(answer), gvar(fault), gvar(status)
  ensures [counted] h.reqnum == (old(h.reqnum) + 1) % 18446744073709551616
  before RoundTrip [in-turn] len(h.ips) > 0 && ref(call_t) == ref(h.transports[h.ips[h.reqnum % len(h.ips)]])
  before RoundTrip [same-request] call_req == req
  ensures [no-address] len(h.ips) == 0 ==> resp == nil && err != nil && gvar(sent) == old(gvar(sent))
  ensures [answer] len(h.ips) > 0 ==> gvar(sent) == old(gvar(sent)) + 1 && ref(resp) == gvar(answer) && ((err == nil) <==> gvar(fault) == 0)

// The addresses the latest lookup of a host gave.
ghost resolved(lookup int, ip string) bool

functype httputil.LookupHostFunc(f, host) (addrs, err)
  modifies gvar(lookups)
  ensures gvar(lookups) == old(gvar(lookups)) + 1
  ensures err == nil ==> forall(i, 0, len(addrs), resolved(gvar(lookups), addrs[i]))
extern net.LookupHost(host) (addrs, err)
  modifies gvar(lookups)
  ensures gvar(lookups) == old(gvar(lookups)) + 1
  ensures err == nil ==> forall(i, 0, len(addrs), resolved(gvar(lookups), addrs[i]))

extern (*math/rand.Rand).Shuffle(r, n, swap)
  modifies callback(swap)

func (*httputil.hostRoundRobinTransport).Resolve$1(i, j)
  props C22
  requires 0 <= i && i < len(*ips) && 0 <= j && j < len(*ips)
  modifies elems(*ips)
  steady [resolved] forall(k, 0, len(*ips), resolved(gvar(lookups), (*ips)[k]))
  ensures [swapped] (*ips)[i] == old((*ips)[j]) && (*ips)[j] == old((*ips)[i])

func (*httputil.hostRoundRobinTransport).Resolve(h)
  props C22
  requires h.rand != nil
  modifies h.ips, h.transports, gvar(lookups), anyelems([]string)
  invariant [m map[string]*http.Transport, i int, s []string] forall(k, 0, i, has(m, s[k]))
  before LookupHostFunc [own-name] call_host == h.host
  before LookupHost [own-name] call_host == h.host
  ensures [looked-up] gvar(lookups) == old(gvar(lookups)) + 1
  ensures [current] ref(h.ips) != old(ref(h.ips)) ==> forall(k, 0, len(h.ips), resolved(gvar(lookups), h.ips[k]))
  ensures [each-reachable] ref(h.ips) != old(ref(h.ips)) ==> forall(k, 0, len(h.ips), has(h.transports, h.ips[k]))

extern net.JoinHostPort(host, port) (s)
  pure

functype httputil.DialFunc(f, ctx, network, addr) (conn, err)
  modifies gvar(dials), gvar(conn)
  ensures gvar(dials) == old(gvar(dials)) + 1 && gvar(conn) == ref(conn)

func (*httputil.staticIPDialer).DialContext(d, ctx, network, addr) (conn, err)
  props C22
  requires d.dial != nil
  modifies gvar(dials), gvar(conn)
  free k int
  before DialFunc [original-port] 0 <= k && k <= len(addr) && (k == 0 || addr[k-1] == ':') && forall(j, k, len(addr), addr[j] != ':') ==> call_addr == net.JoinHostPort(d.ipaddr, addr[k:])
  before DialFunc [same-network] call_network == network && call_ctx == ctx
  ensures [dialled-once] gvar(dials) == old(gvar(dials)) + 1 && gvar(conn) == ref(conn)
