package t

func t.OkAdd(a, b) (r)
  ensures r == a + b
func t.BadAdd(a, b) (r)
  ensures r == a + b
func t.OkNarrow(n) (r, err)
  ensures err == nil ==> r == n
func t.BadNarrow(n) (r, err)
  ensures err == nil ==> r == n
ghost total(s seq, n int) nat = ite(n <= 0, 0, total(s, n-1) + s[n-1])
func t.OkSum(xs) (s)
  invariant [i int, s int] s == total(xs, i) && s <= 255 * i && s >= 0
  ensures s == total(xs, len(xs))
func t.BadSum(xs) (s)
  invariant [i int, s int] s == total(xs, i) && s <= 255 * i && s >= 0
  ensures s == total(xs, len(xs))
func t.OkLast(xs) (r)
  ensures len(xs) > 0 ==> r == xs[len(xs)-1]
func t.BadLast(xs) (r)
  ensures len(xs) > 0 ==> r == xs[len(xs)-1]
func t.OkSetA(p, v)
  requires p != nil
  modifies p.A
  ensures p.A == v
func t.BadSetA(p, v)
  requires p != nil
  modifies p.A
  ensures p.A == v
func t.BadAlias(p, q) (r)
  requires p != nil && q != nil
  modifies p.A, q.A
  ensures r == 1
func t.OkAlias(p, q) (r)
  requires p != nil && q != nil
  modifies p.A, q.A
  ensures r == 2
func t.BadStored(b, xs, n) (r)
  requires b != nil
  modifies b.S
  ensures r == ite(n >= 0 && n <= len(xs), n, -1)
func t.OkStored(b, xs, n) (r)
  requires b != nil
  modifies b.S
  ensures r == ite(n >= 0 && n <= len(xs), n, -1)
func t.BadAppended(b, xs) (r)
  requires b != nil
  modifies b.S
  ensures r == ite(len(xs) > 0, 1, 0)
func t.OkAppended(b, xs) (r)
  requires b != nil
  modifies b.S
  ensures r == ite(len(xs) > 0, 1, 0)
func t.OkWrite(w, p) (err)
  requires w != nil
  modifies W(w)
  ensures err == nil ==> wlen(w) == old(wlen(w)) + len(p)
func t.BadWrite(w, p) (err)
  requires w != nil
  modifies W(w)
  ensures err == nil ==> wlen(w) == old(wlen(w)) + len(p)
func t.OkPut(m, k)
  requires m != nil
  modifies mapof(m)
  ensures has(m, k) && m[k] == 3
  ensures foralls(s, s != k && old(has(m, s)) ==> has(m, s) && m[s] == old(m[s]))
func t.BadPut(m, k)
  requires m != nil
  modifies mapof(m)
  ensures has(m, k) && m[k] == 3
  ensures foralls(s, s != k && old(has(m, s)) ==> has(m, s) && m[s] == old(m[s]))
func t.callee(n) (r)
  requires n >= 0
  ensures r >= 0 && r <= n
func t.OkCaller(n) (r)
  ensures r >= 0
func t.BadCaller(n) (r)
  ensures r >= 0
func t.BadShare(xs) (r)
  requires len(xs) >= 3
  modifies elems(xs)
  ensures r == 5
func t.OkShare(xs) (r)
  requires len(xs) >= 3
  modifies elems(xs)
  ensures r == 5
func t.BadInPlace(xs) (r)
  requires len(xs) >= 2
  modifies elems(xs)
  ensures r == old(xs[1])
func t.OkInPlace(xs) (r)
  requires len(xs) >= 2
  ensures r == old(xs[1])
func t.OkDefer(p) (r)
  requires p != nil
  modifies p.B
  ensures r == 4 && p.B == 0
func t.BadDefer(p) (r)
  requires p != nil
  ensures r == 4
func t.BadClosure(n) (r)
  requires n >= 0 && n < 1000
  ensures r == n
func t.OkClosure(n) (r)
  ensures r == 1
func t.OkRound(n) (r)
  ensures n <= 1048576 ==> r >= n && r < n + 2048 && r % 2048 == 0
func t.BadRound(n) (r)
  ensures r >= n && r < n + 2048 && r % 2048 == 0
func t.OkHigh(n) (r)
  ensures r == n / 256
func t.BadHigh(n) (r)
  ensures r == n / 256
func t.OkRem(n) (r)
  ensures r >= 0 && r < 16
func t.BadRem(n) (r)
  ensures r >= 0 && r < 16
func t.OkType(v) (r)
  ensures typeis(v, string) ==> r >= 0
func t.BadType(v) (r)
  ensures true
func t.OkCopy(dst, src) (n)
  modifies elems(dst)
  ensures n == ite(len(dst) < len(src), len(dst), len(src))
  ensures forall(i, 0, n, dst[i] == old(src[i]))
func t.BadCopy(dst, src) (b)
  requires len(dst) > 0
  modifies elems(dst)
  ensures b == old(src[0])
func t.OkFind(xs, v) (r)
  invariant [i int] forall(j, 0, i, xs[j] != v)
  ensures r >= 0 ==> xs[r] == v
  ensures r < 0 ==> forall(j, 0, len(xs), xs[j] != v)
func t.BadFind(xs, v) (r)
  invariant [i int] forall(j, 0, i, xs[j] != v)
  ensures r >= 0 ==> xs[r] == v
  ensures r < 0 ==> forall(j, 0, len(xs), xs[j] != v)
func t.OkZero(xs)
  modifies elems(xs)
  invariant [i int] forall(j, 0, i, xs[j] == 0)
  ensures forall(j, 0, len(xs), xs[j] == 0)
func t.BadZero(xs)
  modifies elems(xs)
  invariant [i int] forall(j, 0, i, xs[j] == 0)
  ensures forall(j, 0, len(xs), xs[j] == 0)
func t.bump(p)
  requires p != nil
  modifies p.A
  ensures old(p.A) < 100 ==> p.A == old(p.A) + 1
func t.BadEffect(p) (r)
  requires p != nil
  modifies p.A
  ensures r == 1
func t.OkEffect(p) (r)
  requires p != nil
  modifies p.A
  ensures r == 2
func t.may(n) (r, err)
  ensures err == nil ==> r == n + 1
func t.OkMay(n) (r, err)
  ensures err == nil ==> r == n + 1
func t.BadMay(n) (r, err)
  ensures err == nil ==> r == n + 1
func t.OkPrefix(s, p) (r)
  ensures r ==> len(s) >= len(p)
func t.BadPrefix(s, p) (r)
  ensures r ==> len(s) >= len(p)
func t.BadValue(p) (r)
  requires p != nil
  modifies p.A
  ensures r == p.A
func t.OkValue(p) (r)
  requires p != nil
  ensures r == p.A
func t.BadChan(p) (r)
  requires p != nil
  modifies p.A
  ensures r == 2
func t.BadSelect(a, b) (r)
  modifies *
  ensures r == 1
func t.OkSelect(a, b) (r)
  modifies *
  ensures r == 1 || r == 2
func t.poke(p)
  requires p != nil
  modifies p.A
  ensures p.A == 0
func t.fires(p)
  requires p != nil
  modifies p.A
  ensures calls(poke) == old(calls(poke)) + 2
func t.BadRecords(p) (r)
  requires p != nil
  modifies p.A
  ensures r == 0
func t.OkRecords(p) (r)
  requires p != nil
  modifies p.A
  ensures r == 0
func t.BadUnknown(p, v) (r)
  requires p != nil && v != nil
  modifies *
  ensures r == 1
func t.BadInner(o, q) (r)
  requires o != nil && q != nil
  modifies o.P.A, q.A
  ensures r == 1
func t.OkInner(o) (r)
  requires o != nil
  modifies o.P.A
  ensures r == 2
func t.BadElems(ps, i, j) (r)
  requires 0 <= i && i < len(ps) && 0 <= j && j < len(ps)
  modifies anyfield(Pair.A)
  ensures r == 1
func t.OkElems(ps, i, j) (r)
  requires 0 <= i && i < len(ps) && 0 <= j && j < len(ps)
  modifies anyfield(Pair.A)
  ensures r == 2
func t.BadDiff(a, b) (r)
  ensures a < b ==> r == 0
func t.OkDiff(a, b) (r)
  ensures a < b ==> r == 0
func t.BadWrap(n) (r)
  invariant [i uint16, c uint16] 2 * c == i
  ensures 2 * r == n
func t.BadRecover(xs) (r)
  ensures r == xs[0]
func t.BadRange(m) (n)
  ensures n == 0
func t.BadString(b) (s)
  requires len(b) > 0
  modifies elems(b)
  ensures s == "x"
func t.OkString(b) (s)
  requires len(b) > 0
  modifies elems(b)
  ensures len(s) == len(b) && s[0] == old(b[0])
func t.BadNestedLoops(n, m) (c)
  requires 0 <= n && n < 1000 && 0 <= m && m < 1000
  invariant [i int, c int] c == i * m
  ensures c == n * m
func t.BadFall(n) (r)
  ensures n == 1 ==> r == 1
func t.BadSign(b) (r)
  ensures r >= 0
func t.OkSign(b) (r)
  ensures r >= 0
func t.BadLookup(m, k) (r)
  requires m != nil
  ensures true
func t.OkLookup(m, k) (r)
  ensures true
func t.BadLate(p) (r)
  requires p != nil
  modifies p.A
  ensures p.A == 1
func t.OkLate(p) (r)
  requires p != nil
  modifies p.A
  ensures p.A == 1
