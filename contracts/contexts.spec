// Settings carried in a context: each setter changes its own setting and no
// other value the context carries; each getter reads what the setter stored.

extern context.WithValue(parent, key, val) (r)
  ensures r != nil
  ensures r.Value(key) == val
  ensures forallv(k, any, k != key ==> r.Value(k) == parent.Value(k))

iface context.Context.Value(c, key) (v)
  pure

package storage/http


func storage/http.CtxWithAuthz(ctx, authz) (r)
  props C23
  requires ctx != nil
  free other any
  ensures [stored] typeis(r.Value(keyof(ctxAuthzKey)), *string) && as(r.Value(keyof(ctxAuthzKey)), *string) != nil && *as(r.Value(keyof(ctxAuthzKey)), *string) == authz
  ensures [others-kept] other != keyof(ctxAuthzKey) ==> r.Value(other) == ctx.Value(other)
  ensures [timeout-kept] r.Value(keyof(ctxTimeoutKey)) == ctx.Value(keyof(ctxTimeoutKey))

func storage/http.CtxWithTimeout(ctx, timeout) (r)
  props C23
  requires ctx != nil
  free other any
  ensures [stored] typeis(r.Value(keyof(ctxTimeoutKey)), *time.Duration) && as(r.Value(keyof(ctxTimeoutKey)), *time.Duration) != nil && *as(r.Value(keyof(ctxTimeoutKey)), *time.Duration) == timeout
  ensures [others-kept] other != keyof(ctxTimeoutKey) ==> r.Value(other) == ctx.Value(other)
  ensures [authz-kept] r.Value(keyof(ctxAuthzKey)) == ctx.Value(keyof(ctxAuthzKey))

func storage/http.AuthzFromCtx(ctx) (v, ok)
  props C23
  requires ctx != nil
  ensures [present] ok == typeis(ctx.Value(keyof(ctxAuthzKey)), *string)
  ensures [value] ok ==> ref(v) == ref(ctx.Value(keyof(ctxAuthzKey)))
  ensures [absent] !ok ==> v == nil

func storage/http.TimeoutFromCtx(ctx) (v, ok)
  props C23
  requires ctx != nil
  ensures [present] ok == typeis(ctx.Value(keyof(ctxTimeoutKey)), *time.Duration)
  ensures [value] ok ==> ref(v) == ref(ctx.Value(keyof(ctxTimeoutKey)))
  ensures [absent] !ok ==> v == nil

package storage/s3

func storage/s3.CtxWithCredentials(ctx, creds) (r)
  props C23
  requires ctx != nil
  free other any
  ensures [stored] typeis(r.Value(keyof(ctxCredentialsKey)), *credentials.Credentials) && ref(r.Value(keyof(ctxCredentialsKey))) == ref(creds)
  ensures [others-kept] other != keyof(ctxCredentialsKey) ==> r.Value(other) == ctx.Value(other)
  ensures [timeout-kept] r.Value(keyof(ctxTimeoutKey)) == ctx.Value(keyof(ctxTimeoutKey))

func storage/s3.CtxWithTimeout(ctx, timeout) (r)
  props C23
  requires ctx != nil
  free other any
  ensures [stored] typeis(r.Value(keyof(ctxTimeoutKey)), *time.Duration) && as(r.Value(keyof(ctxTimeoutKey)), *time.Duration) != nil && *as(r.Value(keyof(ctxTimeoutKey)), *time.Duration) == timeout
  ensures [others-kept] other != keyof(ctxTimeoutKey) ==> r.Value(other) == ctx.Value(other)
  ensures [credentials-kept] r.Value(keyof(ctxCredentialsKey)) == ctx.Value(keyof(ctxCredentialsKey))

func storage/s3.CredentialsFromCtx(ctx) (v, ok)
  props C23
  requires ctx != nil
  ensures [present] ok == typeis(ctx.Value(keyof(ctxCredentialsKey)), *credentials.Credentials)
  ensures [value] ok ==> ref(v) == ref(ctx.Value(keyof(ctxCredentialsKey)))
  ensures [absent] !ok ==> v == nil

func storage/s3.TimeoutFromCtx(ctx) (v, ok)
  props C23
  requires ctx != nil
  ensures [present] ok == typeis(ctx.Value(keyof(ctxTimeoutKey)), *time.Duration)
  ensures [value] ok ==> ref(v) == ref(ctx.Value(keyof(ctxTimeoutKey)))
  ensures [absent] !ok ==> v == nil

package storage/swift

func storage/swift.CtxWithCredentials(ctx, creds) (r)
  props C23
  requires ctx != nil
  free other any
  ensures [stored] typeis(r.Value(keyof(ctxCredentialsKey)), *SwiftCreds) && ref(r.Value(keyof(ctxCredentialsKey))) == ref(creds)
  ensures [others-kept] other != keyof(ctxCredentialsKey) ==> r.Value(other) == ctx.Value(other)
  ensures [timeout-kept] r.Value(keyof(ctxTimeoutKey)) == ctx.Value(keyof(ctxTimeoutKey))
  ensures [region-kept] r.Value(keyof(ctxRegionKey)) == ctx.Value(keyof(ctxRegionKey))

func storage/swift.CtxWithTimeout(ctx, timeout) (r)
  props C23
  requires ctx != nil
  free other any
  ensures [stored] typeis(r.Value(keyof(ctxTimeoutKey)), *time.Duration) && as(r.Value(keyof(ctxTimeoutKey)), *time.Duration) != nil && *as(r.Value(keyof(ctxTimeoutKey)), *time.Duration) == timeout
  ensures [others-kept] other != keyof(ctxTimeoutKey) ==> r.Value(other) == ctx.Value(other)
  ensures [credentials-kept] r.Value(keyof(ctxCredentialsKey)) == ctx.Value(keyof(ctxCredentialsKey))
  ensures [region-kept] r.Value(keyof(ctxRegionKey)) == ctx.Value(keyof(ctxRegionKey))

func storage/swift.CtxWithRegion(ctx, region) (r)
  props C23
  requires ctx != nil
  free other any
  ensures [stored] typeis(r.Value(keyof(ctxRegionKey)), string) && as(r.Value(keyof(ctxRegionKey)), string) == region
  ensures [others-kept] other != keyof(ctxRegionKey) ==> r.Value(other) == ctx.Value(other)
  ensures [credentials-kept] r.Value(keyof(ctxCredentialsKey)) == ctx.Value(keyof(ctxCredentialsKey))
  ensures [timeout-kept] r.Value(keyof(ctxTimeoutKey)) == ctx.Value(keyof(ctxTimeoutKey))

func storage/swift.CredentialsFromCtx(ctx) (v, ok)
  props C23
  requires ctx != nil
  ensures [present] ok == typeis(ctx.Value(keyof(ctxCredentialsKey)), *SwiftCreds)
  ensures [value] ok ==> ref(v) == ref(ctx.Value(keyof(ctxCredentialsKey)))
  ensures [absent] !ok ==> v == nil

func storage/swift.TimeoutFromCtx(ctx) (v, ok)
  props C23
  requires ctx != nil
  ensures [present] ok == typeis(ctx.Value(keyof(ctxTimeoutKey)), *time.Duration)
  ensures [value] ok ==> ref(v) == ref(ctx.Value(keyof(ctxTimeoutKey)))
  ensures [absent] !ok ==> v == nil

func storage/swift.RegionFromCtx(ctx) (v, ok)
  props C23
  requires ctx != nil
  ensures [present] ok == typeis(ctx.Value(keyof(ctxRegionKey)), string)
  ensures [value] ok ==> v == as(ctx.Value(keyof(ctxRegionKey)), string)
  ensures [absent] !ok ==> v == ""
