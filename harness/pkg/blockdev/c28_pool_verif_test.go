package blockdev_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/tnarg/go-tcmu"

	"github.com/NVIDIA/vdisc/pkg/blockdev"
)

// pworld: what all handlers of one pool observe.
type pworld struct {
	mu    sync.Mutex
	bufs  map[*byte]string
	bad   string
	seed  int64
	swap  bool
	empty int
}

func (w *pworld) note(s string) {
	w.mu.Lock()
	if w.bad == "" {
		w.bad = s
	}
	w.mu.Unlock()
}

func pjitter(n int64) {
	for i := n % 5; i > 0; i-- {
		runtime.Gosched()
	}
	if n%11 == 0 {
		time.Sleep(time.Duration(n%40) * time.Microsecond)
	}
}

type phandler struct {
	w       *pworld
	dev     int
	nums    map[*tcmu.SCSICmd]int
	handled []int32
}

func (h *phandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse, error) {
	i, ok := h.nums[cmd]
	if !ok {
		h.w.note(fmt.Sprintf("the handler of device %d got a command of another device", h.dev))
		return cmd.RespondSenseData(0, nil), nil
	}
	atomic.AddInt32(&h.handled[i], 1)
	me := fmt.Sprintf("device %d command %d", h.dev, i)
	if len(cmd.Buf) == 0 {
		h.w.note(me + " has no buffer")
	} else {
		p := &cmd.Buf[0]
		mark := byte(h.dev*31 + i)
		h.w.mu.Lock()
		if other, dup := h.w.bufs[p]; dup && h.w.bad == "" {
			h.w.bad = me + " shares its buffer with " + other + " in flight"
		}
		h.w.bufs[p] = me
		h.w.mu.Unlock()
		cmd.Buf[0] = mark
		pjitter(h.w.seed + int64(i*7+h.dev))
		if cmd.Buf[0] != mark {
			h.w.note(me + ": its buffer was written by another command")
		}
		h.w.mu.Lock()
		delete(h.w.bufs, p)
		h.w.mu.Unlock()
		if h.w.swap && i%3 == 0 {
			cmd.Buf = make([]byte, len(cmd.Buf)+1)
		}
	}
	return cmd.RespondSenseData(byte(h.dev), psense(h.dev, i)), nil
}

func psense(dev, i int) []byte { return []byte(fmt.Sprintf("answer of device %d command %d", dev, i)) }

func TestVerif_C28_Pool(t *testing.T) {
	r := vrand()
	rounds := 15000
	if vthorough() {
		rounds = 300000
	}
	for k := 0; k < rounds; k++ {
		if !ppool(t, r, k) {
			break
		}
	}
	vcases("pools", rounds)
}

// ppool runs devices on a pool; false when the pool hangs.
func ppool(t *testing.T, r *rand.Rand, k int) bool {
	workers, devs := 1+r.Intn(4), 1+r.Intn(4)
	early := r.Intn(4) == 0 // the pool is closed while commands are still coming
	in := fmt.Sprintf("round %d: %d workers, %d devices, closed early %v", k, workers, devs, early)
	w := &pworld{bufs: map[*byte]string{}, seed: r.Int63n(1000), swap: r.Intn(3) == 0}
	pool := blockdev.NewCmdPool(workers, 1+r.Intn(64))
	var hs []*phandler
	got := make([]map[int]int, devs)
	strange := make([]string, devs)
	var feeders, readers sync.WaitGroup
	stop := make(chan struct{})
	quit := make(chan struct{})
	for d := 0; d < devs; d++ {
		n := r.Intn(12)
		h := &phandler{w: w, dev: d, nums: map[*tcmu.SCSICmd]int{}, handled: make([]int32, n)}
		var cmds []*tcmu.SCSICmd
		for i := 0; i < n; i++ {
			c := &tcmu.SCSICmd{}
			h.nums[c] = i
			cmds = append(cmds, c)
		}
		hs = append(hs, h)
		cin := make(chan *tcmu.SCSICmd)
		cout := make(chan tcmu.SCSIResponse, r.Intn(3))
		got[d] = map[int]int{}
		if err := pool.DevReady(h)(cin, cout); err != nil {
			vfail(t, "c28:ready", "%s: %v", in, err)
			return true
		}
		feeders.Add(1)
		go func(d int) {
			defer feeders.Done()
			for i, c := range cmds {
				pjitter(w.seed + int64(i+d))
				select {
				case cin <- c:
				case <-stop:
					return
				}
			}
			close(cin)
		}(d)
		readers.Add(1)
		go func(d int) {
			defer readers.Done()
			for {
				select {
				case rsp, ok := <-cout:
					if !ok {
						if !early && len(got[d]) != len(cmds) {
							strange[d] = fmt.Sprintf("the response channel was closed after %d of %d answers", len(got[d]), len(cmds))
						}
						return
					}
					found := false
					for i := range cmds {
						if reflect.DeepEqual(rsp, cmds[i].RespondSenseData(byte(d), psense(d, i))) {
							got[d][i]++
							found = true
						}
					}
					if !found {
						strange[d] = fmt.Sprintf("unexpected response %+v", rsp)
					}
				case <-quit:
					// what was sent before the pool ended
					select {
					case rsp, ok := <-cout:
						if ok {
							for i := range cmds {
								if reflect.DeepEqual(rsp, cmds[i].RespondSenseData(byte(d), psense(d, i))) {
									got[d][i]++
								}
							}
							continue
						}
					default:
					}
					return
				}
			}
		}(d)
	}
	wait := func(what string, f func()) bool {
		done := make(chan struct{})
		go func() { f(); close(done) }()
		select {
		case <-done:
			return true
		case <-time.After(30 * time.Second):
			vfail(t, "c28:hang", "%s: %s did not end within 30 s", in, what)
			return false
		}
	}
	if early {
		pjitter(r.Int63n(1000))
	} else if !wait("answering all commands", func() { feeders.Wait(); readers.Wait() }) {
		return false
	}
	if !wait("closing the pool", func() { pool.Close() }) {
		return false
	}
	close(stop)
	close(quit)
	if !wait("the devices", func() { feeders.Wait(); readers.Wait() }) {
		return false
	}
	if w.bad != "" {
		vfail(t, "c28:handler", "%s: %s", in, w.bad)
	}
	for d, h := range hs {
		if strange[d] != "" {
			vfail(t, "c28:response", "%s: device %d: %s", in, d, strange[d])
		}
		for i := range h.handled {
			n := int(atomic.LoadInt32(&h.handled[i]))
			if n > 1 || !early && n != 1 {
				vfail(t, "c28:handled", "%s: command %d of device %d was handled %d times", in, i, d, n)
			}
			if got[d][i] != n {
				vfail(t, "c28:answered", "%s: command %d of device %d was handled %d times and answered %d times", in, i, d, n, got[d][i])
			}
		}
	}
	return true
}
