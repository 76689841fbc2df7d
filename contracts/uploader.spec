// Multipart uploads.
package s3util

// Buffers in a pool of the uploader have the size of a part.
extern (*sync.Pool).Get(p) (x)
  ensures typeis(x, []byte) && len(as(x, []byte)) == gvar(buflen, p) && cap(as(x, []byte)) >= len(as(x, []byte)) && fresh(as(x, []byte))

// gvar(pending, ref): requests still to be sent whose bytes are in this memory.
extern (*sync.Pool).Put(p, x)

// Bytes left in a stream that can seek.
extern github.com/aws/aws-sdk-go/aws.SeekerLen(s) (n, err)
  ensures err == nil ==> n >= 0 && n == seeklen(s)
ghost seeklen(s io.Seeker) int
ghost seekpos(s io.Seeker) int

iface io.Seeker.Seek(s, offset, whence) (r, err)
  modifies R(s)
  ensures offset == 0 && whence == 1 ==> rpos(s) == old(rpos(s))
  ensures offset == 0 && whence == 1 && err == nil ==> r == seekpos(s) && r >= 0 && r < 4611686018427387904
  ensures whence == 0 && err == nil && offset >= 0 && offset <= rlen(s) ==> rpos(s) == offset && r == offset

func s3util.readFillBuf(r, b) (n, err)
  props C24
  requires r != nil
  modifies R(r), b[:]
  invariant [k int] rpos(r) == pre(rpos(r)) + k
  invariant [k int] 0 <= k && k <= len(b) && forall(i, 0, k, b[i] == pre(rbyte(r, rpos(r)+i)))
  invariant [e error] e == io.EOF ==> rpos(r) == rlen(r)
  ensures [counts] 0 <= n && n <= len(b)
  ensures [full] err == nil ==> n == len(b)
  ensures [content] forall(i, 0, n, b[i] == old(rbyte(r, rpos(r)+i)))
  ensures [advanced] rpos(r) == old(rpos(r)) + n
  ensures [end] err == io.EOF ==> rpos(r) == rlen(r)

pred positioned(u) = typeis(u.in.Body, readerAtSeeker)
pred sec(r) = as(r, *io.SectionReader)

func (*s3util.uploader).initSize(u)
  props C24
  timeout 500
  requires u.in != nil && u.cfg.PartSize > 0 && u.cfg.MaxUploadParts > 0 && u.readerPos == 0
  requires u.cfg.PartSize < 4611686018427387904
  requires seeklen(u.in.Body) < 4611686018427387904
  modifies u.totalSize, u.cfg.PartSize, u.readerPos, R(u.in.Body)
  ensures [unknown] !typeis(u.in.Body, io.Seeker) ==> u.totalSize == -1
  ensures [larger-only] u.cfg.PartSize >= old(u.cfg.PartSize)
  ensures [start] u.readerPos == 0 || (u.readerPos == seekpos(u.in.Body) && typeis(u.in.Body, io.ReaderAt))
  ensures [start-positive] u.readerPos >= 0 && u.readerPos < 4611686018427387904
  ensures [size-bound] u.cfg.PartSize <= max(old(u.cfg.PartSize), seeklen(u.in.Body) + 1)
  ensures [total] u.totalSize >= 0 ==> u.totalSize - u.readerPos == seeklen(u.in.Body) && seeklen(u.in.Body) >= 0
  ensures [parts-fit] u.totalSize >= 0 ==> (u.totalSize - u.readerPos) / u.cfg.PartSize < u.cfg.MaxUploadParts

func (*s3util.uploader).nextReader(u) (r, n, part, err)
  props C24
  requires u.in != nil && u.in.Body != nil && u.cfg.PartSize > 0 && u.cfg.PartSize < 4611686018427387904
  requires gvar(buflen, &u.bufferPool) == u.cfg.PartSize
  requires u.readerPos >= 0 && u.readerPos < 4611686018427387904 && u.totalSize < 4611686018427387904 && (!positioned(u) || u.totalSize < 0 || u.readerPos <= u.totalSize)
  modifies u.readerPos, R(u.in.Body)
  ensures [advanced] u.readerPos == old(u.readerPos) + n && n >= 0 && n <= u.cfg.PartSize
  ensures [inside] positioned(u) && u.totalSize >= 0 ==> u.readerPos <= u.totalSize
  ensures [reader] r != nil
  ensures [window] positioned(u) ==> typeis(r, *io.SectionReader) && sec(r).r == u.in.Body && sec(r).base == old(u.readerPos) && sec(r).off == old(u.readerPos) && sec(r).limit == u.readerPos
  ensures [size] positioned(u) && u.totalSize >= 0 ==> n == min(u.cfg.PartSize, u.totalSize - old(u.readerPos))
  ensures [last] positioned(u) && u.totalSize >= 0 ==> ((err == io.EOF) <==> u.totalSize - old(u.readerPos) <= u.cfg.PartSize) && (err == nil || err == io.EOF)
  ensures [unsized] positioned(u) && u.totalSize < 0 ==> n == u.cfg.PartSize && err == nil
  ensures [buffered] !positioned(u) ==> rlen(r) - rpos(r) == n && forall(i, 0, n, rbyte(r, rpos(r)+i) == old(rbyte(u.in.Body, rpos(u.in.Body)+i)))
  ensures [buffered-full] !positioned(u) && err == nil ==> n == u.cfg.PartSize
  ensures [buffered-taken] !positioned(u) ==> rpos(u.in.Body) == old(rpos(u.in.Body)) + n
  ensures [buffered-end] !positioned(u) && err == io.EOF ==> rpos(u.in.Body) == rlen(u.in.Body)

// ---- the storage service ----
//   gvar(created), gvar(uploaded), gvar(completed), gvar(aborted), gvar(puts)
//   successful or attempted requests of each kind so far

iface github.com/aws/aws-sdk-go/service/s3/s3iface.S3API.CreateMultipartUploadWithContext(s, ctx, in, opts) (out, err)
  modifies gvar(created)
  ensures gvar(created) == old(gvar(created)) + 1
  ensures err == nil ==> out != nil && fresh(out) && out.UploadId != nil

iface github.com/aws/aws-sdk-go/service/s3/s3iface.S3API.UploadPartRequest(s, in) (req, out)
  ensures req != nil && out != nil && fresh(req) && fresh(out) && req.HTTPRequest != nil && req.HTTPRequest.Header != nil && fresh(req.HTTPRequest) && fresh(req.HTTPRequest.Header)

iface github.com/aws/aws-sdk-go/service/s3/s3iface.S3API.CompleteMultipartUploadWithContext(s, ctx, in, opts) (out, err)
  modifies gvar(completed)
  ensures gvar(completed) == old(gvar(completed)) + ite(err == nil, 1, 0)
  ensures err == nil ==> out != nil

iface github.com/aws/aws-sdk-go/service/s3/s3iface.S3API.AbortMultipartUploadWithContext(s, ctx, in, opts) (out, err)
  modifies gvar(aborted)
  ensures gvar(aborted) == old(gvar(aborted)) + 1

extern (*github.com/aws/aws-sdk-go/aws/request.Request).SetContext(r, ctx)
extern (*github.com/aws/aws-sdk-go/aws/request.Request).Send(r) (err)
  modifies gvar(uploaded)
  ensures gvar(uploaded) == old(gvar(uploaded)) + ite(err == nil, 1, 0)

// Copies the fields the two structures share.
extern github.com/aws/aws-sdk-go/aws/awsutil.Copy(dst, src)
extern github.com/aws/aws-sdk-go/aws/awserr.New(code, msg, cause) (err)
  ensures err != nil
extern github.com/aws/aws-sdk-go/aws.StringValue(s) (r)
// Sorts by the type's own Less and Swap, which are checked below.
extern sort.Sort(x)
  modifies elems(as(x, completedParts))
  ensures forall(i, 0, len(as(x, completedParts)) - 1, *as(x, completedParts)[i].PartNumber <= *as(x, completedParts)[i+1].PartNumber)

func (s3util.completedParts).Len(a) (n)
  props C24
  ensures [all] n == len(a)
func (s3util.completedParts).Less(a, i, j) (r)
  props C24
  requires 0 <= i && i < len(a) && 0 <= j && j < len(a) && a[i] != nil && a[j] != nil && a[i].PartNumber != nil && a[j].PartNumber != nil
  ensures [by-number] r <==> *a[i].PartNumber < *a[j].PartNumber
func (s3util.completedParts).Swap(a, i, j)
  props C24
  requires 0 <= i && i < len(a) && 0 <= j && j < len(a)
  modifies elems(a)
  ensures [swapped] a[i] == old(a[j]) && a[j] == old(a[i])
  ensures [others] forall(k, 0, len(a), k != i && k != j ==> a[k] == old(a[k]))
extern s3util.computeHashes(r, req) (err)

// The body is at the place it was before, ready to be sent.
func s3util.copySeekableBody(dst, src) (n, err)
  props C24
  requires dst != nil && src != nil
  maypanic
  modifies *
  ensures [rewound] err == nil ==> calls(Seek) == old(calls(Seek)) + 2 && last("io.Seeker.Seek", whence) == 0 && last("io.Seeker.Seek", offset) == seekpos(src) && ref(last("io.Seeker.Seek", s)) == ref(src)

func (*s3util.multiuploader).geterr(u) (err)
  props C24
  ensures [stored] err == u.err

func (*s3util.multiuploader).seterr(u, e)
  props C24
  modifies u.err
  ensures [stored] u.err == e

func (*s3util.multiuploader).fail(u)
  props C24
  requires u.uploader != nil && u.in != nil && u.cfg.S3 != nil
  modifies gvar(aborted)
  ensures [aborted] gvar(aborted) == old(gvar(aborted)) + 1

func (*s3util.multiuploader).send(u, c) (err)
  props C24
  requires u.uploader != nil && u.in != nil && u.cfg.S3 != nil && c.buf != nil
  modifies u.parts, elems(u.parts), gvar(uploaded)
  before (*sync.Pool).Put [sent-before] gvar(uploaded) > old(gvar(uploaded))
  before UploadPartRequest [number] *call_in.PartNumber == c.num
  before UploadPartRequest [upload] *call_in.UploadId == u.uploadID
  before UploadPartRequest [target] call_in.Bucket == u.in.Bucket && call_in.Key == u.in.Key
  before UploadPartRequest [body] u.cfg.ProgressCounter == nil ==> ref(call_in.Body) == ref(c.buf)
  before UploadPartRequest [counted-body] u.cfg.ProgressCounter != nil ==> as(call_in.Body, *countio.CountingReaderAtSeeker).r == c.buf
  ensures [uploaded] gvar(uploaded) == old(gvar(uploaded)) + ite(err == nil, 1, 0)
  ensures [recorded] err == nil ==> len(u.parts) == old(len(u.parts)) + 1 && *u.parts[len(u.parts)-1].PartNumber == c.num
  ensures [earlier-kept] err == nil ==> forall(i, 0, old(len(u.parts)), u.parts[i] == old(u.parts[i]))
  ensures [failure-not-recorded] err != nil ==> len(u.parts) == old(len(u.parts))

func (*s3util.multiuploader).complete(u) (out)
  props C24
  requires u.uploader != nil && u.in != nil && u.cfg.S3 != nil
  modifies u.err, elems(u.parts), gvar(completed), gvar(aborted)
  invariant gvar(completed) == pre(gvar(completed))
  invariant [i int, e error] 0 <= i && i <= 20 && (i > 0 ==> e != nil)
  before CompleteMultipartUploadWithContext [no-failure] old(u.err) == nil
  before CompleteMultipartUploadWithContext [all-parts] len(call_in.MultipartUpload.Parts) == len(u.parts) && ref(call_in.MultipartUpload.Parts) == ref(u.parts)
  before CompleteMultipartUploadWithContext [ordered] forall(i, 0, len(u.parts) - 1, *u.parts[i].PartNumber <= *u.parts[i+1].PartNumber)
  before CompleteMultipartUploadWithContext [upload] *call_in.UploadId == u.uploadID
  ensures [failed-stays-failed] old(u.err) != nil ==> u.err == old(u.err) && out == nil && gvar(completed) == old(gvar(completed)) && gvar(aborted) == old(gvar(aborted)) + 1
  ensures [completed-once] u.err == nil ==> out != nil && gvar(completed) == old(gvar(completed)) + 1 && gvar(aborted) == old(gvar(aborted))
  ensures [failure-kept] u.err != nil ==> gvar(completed) == old(gvar(completed)) && gvar(aborted) == old(gvar(aborted)) + 1

func (*s3util.multiuploader).readChunk(u, ch)
  props C24
  requires u.uploader != nil && u.in != nil && u.cfg.S3 != nil
  shared u.err, u.parts, elems(u.parts)
  rely old(u.err) != nil ==> u.err != nil
  modifies u.err, u.parts, anyelems(u.parts), gvar(uploaded)
  onrecv msg.buf != nil
  before send [while-no-failure] u.err == nil && ref(call_u) == ref(u)
  before seterr [cause] call_e != nil && ref(call_u) == ref(u)

func (*s3util.multiuploader).upload(u, firstBuf, firstPart) (out, err)
  props C24
  requires u.uploader != nil && u.in != nil && u.in.Body != nil && u.cfg.S3 != nil && firstBuf != nil
  requires u.cfg.PartSize > 0 && u.cfg.PartSize < 4611686018427387904 && gvar(buflen, &u.bufferPool) == u.cfg.PartSize
  requires u.readerPos >= 0 && u.readerPos < 2305843009213693952 && u.totalSize < 4611686018427387904 && (!positioned(u) || u.totalSize < 0 || u.readerPos <= u.totalSize)
  requires u.cfg.PartSize <= 70368744177664
  invariant [num int64] 1 <= num && num <= 10000 && u.readerPos >= 0 && u.readerPos < 2305843009213693952 + 70368744177664*num
  invariant [num int64] num == sends() - pre(sends()) && calls(nextReader) - pre(calls(nextReader)) == num - 1
  invariant positioned(u) && u.totalSize >= 0 ==> u.readerPos <= u.totalSize
  requires u.err == nil && u.cfg.MaxUploadParts > 0 && u.cfg.Concurrency >= 0
  shared u.err, u.parts, elems(u.parts)
  rely old(u.err) != nil ==> u.err != nil
  modifies *
  onsend [message] msg.buf != nil
  onsend [numbered] msg.num == sends() - old(sends()) + 1
  onsend [within-limit] msg.num <= u.cfg.MaxUploadParts && msg.num <= 10000
  onsend [none-skipped] sends() - old(sends()) == calls(nextReader) - old(calls(nextReader))
  onsend [first] sends() == old(sends()) ==> msg.buf == firstBuf
  onsend [window] sends() > old(sends()) && positioned(u) ==> typeis(msg.buf, *io.SectionReader) && sec(msg.buf).limit == u.readerPos
  spawn [workers] ref(spawn_u) == ref(u)
  before complete [workers-told] true
  ensures [outcome] err == nil <==> out != nil

func s3util.wrapReader(cfg, r) (w)
  props C24
  requires r != nil
  ensures [plain] cfg.ProgressCounter == nil ==> w == r
  ensures [counted] cfg.ProgressCounter != nil ==> typeis(w, *countio.CountingReaderAtSeeker) && as(w, *countio.CountingReaderAtSeeker).r == r && as(w, *countio.CountingReaderAtSeeker).pn == cfg.ProgressCounter && fresh(w)
  ensures [reader] w != nil

extern (*s3util.uploader).singlePart(u, buf) (out, err)
  modifies gvar(puts), gvar(whole)
  ensures gvar(puts) == old(gvar(puts)) + 1 && gvar(whole) == ref(buf)
  ensures (err == nil) <==> out != nil

func (*s3util.uploader).init(u)
  props C24
  requires u.in != nil && u.cfg.PartSize >= 0 && u.cfg.MaxUploadParts >= 0 && u.readerPos == 0 && u.cfg.PartSize < 4611686018427387904
  requires seeklen(u.in.Body) < 4611686018427387904
  modifies u.cfg.Concurrency, u.cfg.PartSize, u.cfg.MaxUploadParts, u.bufferPool, gvar(buflen, &u.bufferPool), u.totalSize, u.readerPos, R(u.in.Body)
  ensures [defaults] u.cfg.PartSize > 0 && u.cfg.MaxUploadParts > 0
  ensures [workers] old(u.cfg.Concurrency) >= 0 ==> u.cfg.Concurrency > 0
  ensures [given-parts] old(u.cfg.MaxUploadParts) > 0 ==> u.cfg.MaxUploadParts == old(u.cfg.MaxUploadParts)
  ensures [given-size] old(u.cfg.PartSize) > 0 ==> u.cfg.PartSize >= old(u.cfg.PartSize)
  ensures [parts-fit] u.totalSize >= 0 ==> (u.totalSize - u.readerPos) / u.cfg.PartSize < u.cfg.MaxUploadParts
  ensures [size-bound] u.cfg.PartSize <= max(max(old(u.cfg.PartSize), 5242880), seeklen(u.in.Body) + 1)
  ensures [total] u.totalSize >= 0 ==> u.totalSize - u.readerPos == seeklen(u.in.Body)
  ensures [start-known] u.readerPos == 0 || u.readerPos == seekpos(u.in.Body)
  assume [buffers] gvar(buflen, &u.bufferPool) == u.cfg.PartSize
  ensures [start] u.readerPos >= 0 && u.readerPos < 4611686018427387904 && (u.totalSize < 0 || u.readerPos <= u.totalSize)

// Sizes are taken to be below 64 TiB, over ten times what the service accepts.
func (*s3util.uploader).upload(u) (out, err)
  props C24
  requires u.in != nil && u.in.Body != nil && u.cfg.S3 != nil && u.cfg.Concurrency >= 0
  requires u.cfg.PartSize >= 0 && u.cfg.PartSize < 70368744177664 && u.cfg.MaxUploadParts >= 0 && u.readerPos == 0
  requires seeklen(u.in.Body) < 70368744177663 && seekpos(u.in.Body) < 1152921504606846976
  modifies *
  before nextReader [large-enough] u.cfg.PartSize >= 5242880
  before singlePart [whole] calls(nextReader) == old(calls(nextReader)) + 1
  ensures [outcome] err == nil <==> out != nil
