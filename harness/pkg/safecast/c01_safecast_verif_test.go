// Generated by tools/mkh_safecast.py.
package safecast_test

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/safecast"
)

type conv struct {
	name     string
	from, to string
	f        func(v *big.Int) (r *big.Int, panicked bool)
}

func rng(t string) (*big.Int, *big.Int) {
	bits := 64
	if s := strings.TrimLeft(t, "uint"); s != "" {
		bits, _ = strconv.Atoi(s)
	}
	one := big.NewInt(1)
	if t[0] == 'u' {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

func catch(f func() *big.Int) (r *big.Int, p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	return f(), false
}

var convs = []conv{
	{"Int8ToUint", "int8", "uint", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int8ToUint(int8(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"Int8ToUint8", "int8", "uint8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int8ToUint8(int8(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"Int8ToUint16", "int8", "uint16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int8ToUint16(int8(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"Int8ToUint32", "int8", "uint32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int8ToUint32(int8(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"Int8ToUint64", "int8", "uint64", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int8ToUint64(int8(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"Int16ToInt8", "int16", "int8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int16ToInt8(int16(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"Int16ToUint", "int16", "uint", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int16ToUint(int16(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"Int16ToUint8", "int16", "uint8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int16ToUint8(int16(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int16ToUint16", "int16", "uint16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int16ToUint16(int16(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int16ToUint32", "int16", "uint32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int16ToUint32(int16(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int16ToUint64", "int16", "uint64", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int16ToUint64(int16(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int32ToInt8", "int32", "int8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int32ToInt8(int32(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"Int32ToInt16", "int32", "int16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int32ToInt16(int32(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"Int32ToUint", "int32", "uint", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int32ToUint(int32(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"Int32ToUint8", "int32", "uint8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int32ToUint8(int32(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int32ToUint16", "int32", "uint16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int32ToUint16(int32(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int32ToUint32", "int32", "uint32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int32ToUint32(int32(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int32ToUint64", "int32", "uint64", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int32ToUint64(int32(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int64ToInt", "int64", "int", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int64ToInt(int64(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"Int64ToInt8", "int64", "int8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int64ToInt8(int64(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"Int64ToInt16", "int64", "int16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int64ToInt16(int64(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"Int64ToInt32", "int64", "int32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int64ToInt32(int64(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"Int64ToUint", "int64", "uint", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Int64ToUint(int64(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"Int64ToUint8", "int64", "uint8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int64ToUint8(int64(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int64ToUint16", "int64", "uint16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int64ToUint16(int64(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int64ToUint32", "int64", "uint32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int64ToUint32(int64(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Int64ToUint64", "int64", "uint64", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Int64ToUint64(int64(v.Int64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"IntToInt8", "int", "int8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.IntToInt8(int(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"IntToInt16", "int", "int16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.IntToInt16(int(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"IntToInt32", "int", "int32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.IntToInt32(int(v.Int64())); return big.NewInt(int64(x)) })
	}},
	{"IntToUint8", "int", "uint8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.IntToUint8(int(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"IntToUint16", "int", "uint16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.IntToUint16(int(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"IntToUint32", "int", "uint32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.IntToUint32(int(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"IntToUint64", "int", "uint64", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.IntToUint64(int(v.Int64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"Uint8ToInt8", "uint8", "int8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint8ToInt8(uint8(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint16ToInt8", "uint16", "int8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint16ToInt8(uint16(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint16ToInt16", "uint16", "int16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint16ToInt16(uint16(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint16ToUint8", "uint16", "uint8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Uint16ToUint8(uint16(v.Uint64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Uint32ToInt", "uint32", "int", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint32ToInt(uint32(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint32ToInt8", "uint32", "int8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint32ToInt8(uint32(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint32ToInt16", "uint32", "int16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint32ToInt16(uint32(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint32ToInt32", "uint32", "int32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint32ToInt32(uint32(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint32ToUint8", "uint32", "uint8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Uint32ToUint8(uint32(v.Uint64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Uint32ToUint16", "uint32", "uint16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Uint32ToUint16(uint32(v.Uint64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Uint64ToInt", "uint64", "int", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint64ToInt(uint64(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint64ToInt8", "uint64", "int8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint64ToInt8(uint64(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint64ToInt16", "uint64", "int16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint64ToInt16(uint64(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint64ToInt32", "uint64", "int32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint64ToInt32(uint64(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint64ToInt64", "uint64", "int64", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.Uint64ToInt64(uint64(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"Uint64ToUint", "uint64", "uint", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Uint64ToUint(uint64(v.Uint64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Uint64ToUint8", "uint64", "uint8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Uint64ToUint8(uint64(v.Uint64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Uint64ToUint16", "uint64", "uint16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Uint64ToUint16(uint64(v.Uint64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"Uint64ToUint32", "uint64", "uint32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.Uint64ToUint32(uint64(v.Uint64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"UintToInt8", "uint", "int8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.UintToInt8(uint(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"UintToInt16", "uint", "int16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.UintToInt16(uint(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"UintToInt32", "uint", "int32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.UintToInt32(uint(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"UintToInt64", "uint", "int64", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.UintToInt64(uint(v.Uint64())); return big.NewInt(int64(x)) })
	}},
	{"UintToUint8", "uint", "uint8", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.UintToUint8(uint(v.Uint64())); return new(big.Int).SetUint64(uint64(x)) })
	}},
	{"UintToUint16", "uint", "uint16", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.UintToUint16(uint(v.Uint64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
	{"UintToUint32", "uint", "uint32", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int {
			x := safecast.UintToUint32(uint(v.Uint64()))
			return new(big.Int).SetUint64(uint64(x))
		})
	}},
}

func models() map[string][]*big.Int {
	out := map[string][]*big.Int{}
	b, err := os.ReadFile(os.Getenv("VERIF_MODEL"))
	if err != nil {
		return out
	}
	var d struct {
		Units []struct {
			Name string
			Obls []struct{ Model map[string]string }
		} `json:"units"`
	}
	if json.Unmarshal(b, &d) != nil {
		return out
	}
	for _, u := range d.Units {
		for _, o := range u.Obls {
			for _, s := range o.Model {
				s = strings.NewReplacer("(", "", ")", "", " ", "").Replace(s)
				if v, ok := new(big.Int).SetString(s, 10); ok {
					n := strings.TrimPrefix(u.Name, "safecast.")
					out[n] = append(out[n], v)
				}
			}
		}
	}
	return out
}

func TestVerif_C01_conversions(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed))
	ms := models()
	cases := 0
	for _, c := range convs {
		lo, hi := rng(c.from)
		dlo, dhi := rng(c.to)
		var vs []*big.Int
		vs = append(vs, ms[c.name]...)
		for i := uint(0); i <= 64; i++ {
			p := new(big.Int).Lsh(big.NewInt(1), i)
			for d := int64(-3); d <= 3; d++ {
				x := new(big.Int).Add(p, big.NewInt(d))
				vs = append(vs, x, new(big.Int).Neg(x))
			}
		}
		if hi.BitLen() <= 16 {
			for x := new(big.Int).Set(lo); x.Cmp(hi) <= 0; x = new(big.Int).Add(x, big.NewInt(1)) {
				vs = append(vs, x)
			}
		} else {
			for i := 0; i < 4000; i++ {
				x := new(big.Int).Rsh(new(big.Int).SetUint64(r.Uint64()), uint(r.Intn(64)))
				if r.Intn(2) == 0 {
					x.Neg(x)
				}
				vs = append(vs, x)
			}
		}
		for _, v := range vs {
			if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
				continue
			}
			cases++
			fits := v.Cmp(dlo) >= 0 && v.Cmp(dhi) <= 0
			got, p := c.f(v)
			if p == fits || fits && got.Cmp(v) != 0 {
				fmt.Printf("VERIF-FAIL key=%s %s(%v): panicked=%v result=%v, representable=%v\n", c.name, c.name, v, p, got, fits)
				t.Fail()
				break
			}
		}
	}
	fmt.Printf("VERIF-CASES conversions=%d\n", cases)
}
