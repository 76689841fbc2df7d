// Intersections of half-open byte ranges.
package interval

func interval.minI64(a, b) (r)
  props C14 C15
  pure
  ensures [least] r == min(a, b)

func interval.maxI64(a, b) (r)
  props C14 C15
  pure
  ensures [greatest] r == max(a, b)

func interval.Intersection(a, b) (r, ok)
  props C14 C15
  ensures [exists-exactly] ok <==> max(a.Start, b.Start) < min(a.End, b.End)
  ensures [bounds] ok ==> r != nil && r.Start == max(a.Start, b.Start) && r.End == min(a.End, b.End)
  ensures [none] !ok ==> r == nil
