// Which names may be given to new entries.
package iso9660

pred portable(c) = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c == '.'

func (*iso9660.PosixPortableNameValidator).IsValid(v, s) (err)
  props C10
  requires v != nil
  invariant [at strpos] forall(i, 0, at, s[i] < 128 ==> has(v.allowedRunes, s[i]))
  invariant [at int] at >= 0 && at <= len(s) && forall(i, 0, at, s[i] < 128 ==> has(v.allowedRunes, s[i]))
  ensures [refused] err == nil ==> forall(i, 0, len(s), s[i] < 128 ==> has(v.allowedRunes, s[i]))
  ensures [accepted] forall(i, 0, len(s), s[i] < 128 && has(v.allowedRunes, s[i])) ==> err == nil

func iso9660.NewPosixPortableNameValidator() (v)
  props C10
  invariant [m map[rune]struct{}] forall(c, 0, 128, has(m, c) ==> portable(c))
  invariant [xs []rune] forall(j, 0, len(xs), portable(xs[j]))
  ensures [made] v != nil && fresh(v)
  ensures [only-portable] forall(c, 0, 128, has(v.allowedRunes, c) ==> portable(c))

func (*iso9660.NvidiaExtendedNameValidator).IsValid(v, s) (err)
  props C10
  requires v != nil
  invariant [at strpos] forall(i, 0, at, s[i] < 128 ==> !has(v.invalidRunes, s[i]))
  invariant [at int] at >= 0 && at <= len(s) && forall(i, 0, at, s[i] < 128 ==> !has(v.invalidRunes, s[i]))
  ensures [refused] err == nil ==> forall(i, 0, len(s), s[i] < 128 ==> !has(v.invalidRunes, s[i]))

func iso9660.NewNvidiaExtendedNameValidator() (v)
  props C10
  invariant [m map[rune]struct{}, i int, xs []rune] forall(j, 0, i, has(m, xs[j]))
  invariant [xs []rune] exists(j, 0, len(xs), xs[j] == '/')
  ensures [made] v != nil && fresh(v)
  ensures [slash] has(v.invalidRunes, '/')
