// Timestamps. The calendar itself is package time's.
package iso9660/datetime

extern (time.Time).UTC(t) (r)
  pure
extern (time.Time).Year(t) (r)
  pure
extern (time.Time).Month(t) (r)
  pure
  ensures r >= 1 && r <= 12
extern (time.Time).Day(t) (r)
  pure
  ensures r >= 1 && r <= 31
extern (time.Time).Hour(t) (r)
  pure
  ensures r >= 0 && r <= 23
extern (time.Time).Minute(t) (r)
  pure
  ensures r >= 0 && r <= 59
extern (time.Time).Second(t) (r)
  pure
  ensures r >= 0 && r <= 59
extern (time.Time).Nanosecond(t) (r)
  pure
  ensures r >= 0 && r <= 999999999

extern (time.Time).Date(t) (y, m, d)
  ensures y == t.Year() && m == t.Month() && d == t.Day()
extern (time.Time).Clock(t) (h, m, s)
  ensures h == t.Hour() && m == t.Minute() && s == t.Second()

func iso9660/datetime.NewEntryDateTime(t) (r)
  props C12
  ensures [year] t.UTC().Year() >= 1900 && t.UTC().Year() <= 2155 ==> 1900 + r[0] == t.UTC().Year()
  ensures [month] r[1] == t.UTC().Month()
  ensures [day] r[2] == t.UTC().Day()
  ensures [hour] r[3] == t.UTC().Hour()
  ensures [minute] r[4] == t.UTC().Minute()
  ensures [second] r[5] == t.UTC().Second()

extern time.Date(y, mo, d, h, mi, s, ns, loc) (r)
  pure
  ensures loc == time.UTC ==> r.UTC() == r

func (iso9660/datetime.EntryDateTime).Timestamp(e) (r)
  props C12
  ensures [fields] r == time.Date(1900 + e[0], e[1], e[2], e[3], e[4], e[5], 0, time.UTC)

pred two(s, at, v) = s[at] == 48 + v / 10 && s[at+1] == 48 + v % 10
pred four(s, at, v) = s[at] == 48 + v / 1000 && s[at+1] == 48 + v / 100 % 10 && s[at+2] == 48 + v / 10 % 10 && s[at+3] == 48 + v % 10

// Zero padded decimal numbers.
pred anyint(x) = ite(typeis(x, time.Month), as(x, time.Month), as(x, int))
extern fmt.Sprintf(f, args) (r)
  ensures f == "%02d" && len(args) == 1 && (typeis(args[0], int) || typeis(args[0], time.Month)) && anyint(args[0]) >= 0 && anyint(args[0]) <= 99 ==> len(r) == 2 && two(r, 0, anyint(args[0]))
  ensures f == "%04d" && len(args) == 1 && typeis(args[0], int) && anyint(args[0]) >= 0 && anyint(args[0]) <= 9999 ==> len(r) == 4 && four(r, 0, anyint(args[0]))

func iso9660/datetime.NewDecDateTime(t) (r)
  props C12
  ensures [year] t.UTC().Year() >= 0 && t.UTC().Year() <= 9999 ==> four(r, 0, t.UTC().Year())
  ensures [month] two(r, 4, t.UTC().Month())
  ensures [day] two(r, 6, t.UTC().Day())
  ensures [hour] two(r, 8, t.UTC().Hour())
  ensures [minute] two(r, 10, t.UTC().Minute())
  ensures [second] two(r, 12, t.UTC().Second())
  ensures [hundredths] two(r, 14, t.UTC().Nanosecond() / 10000000)

// A string of fourteen digits that names a date parses to that date.
pred digits(s, n) = forall(i, 0, n, s[i] >= 48 && s[i] <= 57)
pred val2(s, at) = (s[at] - 48) * 10 + s[at+1] - 48
pred val4(s, at) = val2(s, at) * 100 + val2(s, at+2)
extern time.Parse(layout, s) (r, err)
  ensures layout == "20060102150405" && len(s) == 14 && err == nil ==> digits(s, 14) && r == time.Date(val4(s, 0), val2(s, 4), val2(s, 6), val2(s, 8), val2(s, 10), val2(s, 12), 0, time.UTC)
  ensures layout == "20060102150405" && len(s) == 14 && digits(s, 14) && val2(s, 4) >= 1 && val2(s, 4) <= 12 && val2(s, 6) >= 1 && val2(s, 6) <= 28 && val2(s, 8) <= 23 && val2(s, 10) <= 59 && val2(s, 12) <= 59 ==> err == nil
extern time.Unix(s, ns) (r)
  pure

func (iso9660/datetime.DecDateTime).Timestamp(e) (r)
  props C12
  ensures [fields] r == time.Date(val4(e, 0), val2(e, 4), val2(e, 6), val2(e, 8), val2(e, 10), val2(e, 12), 0, time.UTC) || r == time.Unix(0, 0).UTC()
  ensures [valid] digits(e, 14) && val2(e, 4) >= 1 && val2(e, 4) <= 12 && val2(e, 6) >= 1 && val2(e, 6) <= 28 && val2(e, 8) <= 23 && val2(e, 10) <= 59 && val2(e, 12) <= 59 ==> r == time.Date(val4(e, 0), val2(e, 4), val2(e, 6), val2(e, 8), val2(e, 10), val2(e, 12), 0, time.UTC)

extern log.Printf(f, args)
