// Counting readers and writers, memory objects.
package countio

// Counters wrap like the machine integers they are.
pred plus(a, n) = ite(a + n > 9223372036854775807, a + n - 18446744073709551616, a + n)

func (*countio.Reader).Read(c, p) (n, err)
  props C17
  requires c.r != nil && ref(c.r) != ref(c)
  modifies R(c.r), p[:], c.n, *c.pn
  ensures [counts] 0 <= n && n <= len(p)
  ensures [advanced] rpos(c.r) == old(rpos(c.r)) + n
  ensures [content] forall(i, 0, n, p[i] == old(rbyte(c.r, rpos(c.r)+i)))
  ensures [counted] c.n == plus(old(c.n), n)
  ensures [shared-counter] c.pn != nil ==> *c.pn == plus(old(*c.pn), n)

func (*countio.Reader).BytesRead(c) (n)
  props C17
  ensures [count] n == c.n

func (*countio.Writer).Write(c, p) (n, err)
  props C17
  requires c.w != nil && ref(c.w) != ref(c)
  modifies W(c.w), c.n, *c.pn
  ensures [counts] 0 <= n && n <= len(p)
  ensures [error] n < len(p) ==> err != nil
  ensures [written] wlen(c.w) == old(wlen(c.w)) + n && forall(i, 0, n, wbyte(c.w, old(wlen(c.w))+i) == p[i])
  ensures [counted] c.n == plus(old(c.n), n)
  ensures [shared-counter] c.pn != nil ==> *c.pn == plus(old(*c.pn), n)

func (*countio.Writer).BytesWritten(c) (n)
  props C17
  ensures [count] n == c.n

func (*countio.CountingReaderAtSeeker).Read(c, p) (n, err)
  props C17
  requires c.r != nil && ref(c.r) != ref(c)
  modifies R(c.r), p[:], c.n, *c.pn
  ensures [counts] 0 <= n && n <= len(p)
  ensures [advanced] rpos(c.r) == old(rpos(c.r)) + n
  ensures [content] forall(i, 0, n, p[i] == old(rbyte(c.r, rpos(c.r)+i)))
  ensures [counted] c.n == plus(old(c.n), n)
  ensures [shared-counter] c.pn != nil ==> *c.pn == plus(old(*c.pn), n)

func (*countio.CountingReaderAtSeeker).ReadAt(c, p, off) (n, err)
  props C17
  requires c.r != nil && ref(c.r) != ref(c)
  modifies p[:], c.n, *c.pn
  ensures [counts] 0 <= n && n <= len(p)
  ensures [inside] n > 0 ==> off >= 0 && off + n <= asize(c.r)
  ensures [content] forall(i, 0, n, p[i] == abyte(c.r, off+i))
  ensures [position-kept] rpos(c.r) == old(rpos(c.r))
  ensures [counted] c.n == plus(old(c.n), n)
  ensures [shared-counter] c.pn != nil ==> *c.pn == plus(old(*c.pn), n)

func (*countio.CountingReaderAtSeeker).BytesRead(c) (n)
  props C17
  ensures [count] n == c.n
