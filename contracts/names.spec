// Splitting names over NM entries and joining them again.
package iso9660/rrip

extern unicode.IsPrint(r) (ok)
  pure

func iso9660/rrip.isValid(s) (ok)
  props C07
  pure
  invariant [at strpos] forall(i, 0, at, s[i] != '/')
  ensures [slash-refused] forall(i, 0, len(s), s[i] == '/' ==> !ok)

// Piece k of a name.
pred isPiece(e, name, k) = typeis(e, *Name) && as(e, *Name).data == name[250*k : min(250*k+250, len(name))] && (as(e, *Name).cont <==> 250*k+250 < len(name))

func iso9660/rrip.NewName(name) (r, err)
  props C07
  invariant [es []susp.SystemUseEntry] forall(k, 0, len(es), typeis(es[k], *Name)) && forall(k, 0, len(es), as(es[k], *Name).data == name[250*k : min(250*k+250, len(name))]) && forall(k, 0, len(es), as(es[k], *Name).cont <==> 250*k+250 < len(name))
  invariant [rest string, es slice] len(rest) == max(len(name) - 250 * len(es), 0) && (len(rest) > 0 ==> 250 * len(es) < len(name))
  invariant [rest string, es slice] 250 * len(es) < len(name) + 250 && rest == name[min(250*len(es), len(name)) : len(name)]
  ensures [pieces] err == nil ==> forall(k, 0, len(r), isPiece(r[k], name, k))
  ensures [complete] err == nil ==> 250 * len(r) >= len(name) && 250 * (len(r) - 1) < len(name)

// The pieces of a name, wherever they start in the list of entries, read back
// as that name.
pred holdsName(es, name, base) = base >= 0 && len(name) > 0 && 250 * (len(es) - base) >= len(name) && forall(j, 0, base, !typeis(es[j], *Name)) && forall(j, base, len(es), 250*(j-base) < len(name) ==> isPiece(es[j], name, j-base))

func iso9660/rrip.DecodeName(entries) (r, ok)
  props C07
  requires forall(i, 0, len(entries), typeis(entries[i], *Name) ==> as(entries[i], *Name) != nil)
  free name string
  free base int
  invariant [i int, sofar string] (holdsName(entries, name, base) ==> sofar == name[0 : 250*max(i-base, 0)]) && (holdsName(entries, name, base) ==> 250*(i-base) < len(name))
  ensures [round-trip] holdsName(entries, name, base) ==> ok && r == name
  ensures [none] !ok ==> r == ""
