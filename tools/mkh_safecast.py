#!/usr/bin/env python3
"""Writes harness/pkg/safecast/c01_safecast_verif_test.go from the package's API."""
import re
names = re.findall(r'^func ([A-Za-z0-9]+)\(', open('/repo/pkg/safecast/safecast.go').read(), re.M)
out = ['''// Generated by tools/mkh_safecast.py.
package safecast_test

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/safecast"
)

type conv struct {
	name     string
	from, to string
	f        func(v *big.Int) (r *big.Int, panicked bool)
}

func rng(t string) (*big.Int, *big.Int) {
	bits := 64
	if s := strings.TrimLeft(t, "uint"); s != "" {
		bits, _ = strconv.Atoi(s)
	}
	one := big.NewInt(1)
	if t[0] == 'u' {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

func catch(f func() *big.Int) (r *big.Int, p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	return f(), false
}

var convs = []conv{''']
for n in names:
    a, b = n.split('To')
    a, b = a.lower(), b.lower()
    arg = '%s(v.%s())' % (a, 'Uint64' if a[0] == 'u' else 'Int64')
    res = 'new(big.Int).SetUint64(uint64(x))' if b[0] == 'u' else 'big.NewInt(int64(x))'
    out.append('''	{"%s", "%s", "%s", func(v *big.Int) (*big.Int, bool) {
		return catch(func() *big.Int { x := safecast.%s(%s); return %s })
	}},''' % (n, a, b, n, arg, res))
out.append('''}

func models() map[string][]*big.Int {
	out := map[string][]*big.Int{}
	b, err := os.ReadFile(os.Getenv("VERIF_MODEL"))
	if err != nil {
		return out
	}
	var d struct {
		Units []struct {
			Name string
			Obls []struct{ Model map[string]string }
		} `json:"units"`
	}
	if json.Unmarshal(b, &d) != nil {
		return out
	}
	for _, u := range d.Units {
		for _, o := range u.Obls {
			for _, s := range o.Model {
				s = strings.NewReplacer("(", "", ")", "", " ", "").Replace(s)
				if v, ok := new(big.Int).SetString(s, 10); ok {
					n := strings.TrimPrefix(u.Name, "safecast.")
					out[n] = append(out[n], v)
				}
			}
		}
	}
	return out
}

func TestVerif_C01_conversions(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed))
	ms := models()
	cases := 0
	for _, c := range convs {
		lo, hi := rng(c.from)
		dlo, dhi := rng(c.to)
		var vs []*big.Int
		vs = append(vs, ms[c.name]...)
		for i := uint(0); i <= 64; i++ {
			p := new(big.Int).Lsh(big.NewInt(1), i)
			for d := int64(-3); d <= 3; d++ {
				x := new(big.Int).Add(p, big.NewInt(d))
				vs = append(vs, x, new(big.Int).Neg(x))
			}
		}
		if hi.BitLen() <= 16 {
			for x := new(big.Int).Set(lo); x.Cmp(hi) <= 0; x = new(big.Int).Add(x, big.NewInt(1)) {
				vs = append(vs, x)
			}
		} else {
			for i := 0; i < 4000; i++ {
				x := new(big.Int).Rsh(new(big.Int).SetUint64(r.Uint64()), uint(r.Intn(64)))
				if r.Intn(2) == 0 {
					x.Neg(x)
				}
				vs = append(vs, x)
			}
		}
		for _, v := range vs {
			if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
				continue
			}
			cases++
			fits := v.Cmp(dlo) >= 0 && v.Cmp(dhi) <= 0
			got, p := c.f(v)
			if p == fits || fits && got.Cmp(v) != 0 {
				fmt.Printf("VERIF-FAIL key=%s %s(%v): panicked=%v result=%v, representable=%v\\n", c.name, c.name, v, p, got, fits)
				t.Fail()
				break
			}
		}
	}
	fmt.Printf("VERIF-CASES conversions=%d\\n", cases)
}
''')
open('/verif/harness/pkg/safecast/c01_safecast_verif_test.go', 'w').write('\n'.join(out))
import subprocess; subprocess.run(['gofmt', '-w', '/verif/harness/pkg/safecast/c01_safecast_verif_test.go'])
