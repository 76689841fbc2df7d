package iso9660

func iso9660.newEnc(w) (e)
  ensures e != nil && fresh(e) && e.w == w

func iso9660.BadNested(w, p) (n, err)
  requires w != nil
  modifies W(w)
  ensures err == nil ==> n == len(p)
func iso9660.OkNested(w, p) (n, err)
  requires w != nil
  modifies W(w)
  ensures err == nil ==> n == len(p)
func iso9660.BadNestedMade(w, p) (n, err)
  requires w != nil
  modifies W(w)
  ensures err == nil ==> n == len(p)
