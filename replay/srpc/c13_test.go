package srpc_test

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
)

// C13: random registrations and calls against a reference table.
func TestVerifReplay_C13(t *testing.T) {
	r := vrRand()
	svcs := []string{"", "a", "b", "a/b"}
	meths := []string{"", "x", "y", "z", "a"}
	for round := 0; round < 3000; round++ {
		var log []string
		var fb []srpc.Invoker
		fbFound := r.Intn(2) == 0
		if r.Intn(2) == 0 {
			fb = append(fb, &vrInvoker{name: "fallback", found: fbFound, log: &log})
		}
		m := srpc.NewMux(fb...)
		ref := map[string]map[string]*vrHandler{}
		var hist []string
		for op := 0; op < 8; op++ {
			if r.Intn(2) == 0 {
				h := &vrHandler{vrInvoker: vrInvoker{name: fmt.Sprintf("h%d", op), found: r.Intn(3) != 0, log: &log}, svc: svcs[r.Intn(len(svcs))]}
				if r.Intn(3) == 0 {
					h.err = vrErrs[r.Intn(len(vrErrs))]
				}
				for i := r.Intn(4); i > 0; i-- {
					h.ids = append(h.ids, meths[r.Intn(len(meths))])
				}
				err := m.Register(h)
				hist = append(hist, fmt.Sprintf("Register(%s svc=%q ids=%q)=%v", h.name, h.svc, h.ids, err))
				if (err == srpc.ErrEmptyServiceID) != (h.svc == "") || (err != nil) != (h.svc == "") {
					vrFail(t, "history %v: unexpected registration result", hist)
				}
				if err == nil {
					if ref[h.svc] == nil {
						ref[h.svc] = map[string]*vrHandler{}
					}
					for _, id := range h.ids {
						if id != "" {
							ref[h.svc][id] = h
						}
					}
				}
				continue
			}
			svc, meth := svcs[r.Intn(len(svcs))], meths[r.Intn(len(meths))]
			hist = append(hist, fmt.Sprintf("InvokeMethod(%q,%q)", svc, meth))
			if svc != "" && m.HasService(svc) != (len(ref[svc]) != 0) || svc == "" && m.HasService(svc) {
				vrFail(t, "history %v: HasService(%q)=%v", hist, svc, m.HasService(svc))
			}
			_, want := ref[svc][meth]
			if m.HasServiceMethod(svc, meth) != (svc != "" && meth != "" && want) {
				vrFail(t, "history %v: HasServiceMethod(%q,%q)=%v", hist, svc, meth, m.HasServiceMethod(svc, meth))
			}
			log = nil
			strm := &vrStream{id: op}
			found, err := m.InvokeMethod(svc, meth, strm)
			call := fmt.Sprintf("(%q,%q,%p)", svc, meth, strm)
			cands := map[string]*vrHandler{}
			if svc == "" {
				for _, ms := range ref {
					if h := ms[meth]; h != nil {
						cands[h.name+call] = h
					}
				}
			} else if h := ref[svc][meth]; h != nil {
				cands[h.name+call] = h
			}
			if len(cands) > 0 {
				if len(log) == 0 || cands[log[0]] == nil {
					vrFail(t, "history %v: called %v", hist, log)
				}
				if h := cands[log[0]]; found != h.found || err != h.err || len(log) != 1 {
					vrFail(t, "history %v: calls %v answered %v, %v", hist, log, found, err)
				}
				continue
			}
			wantLog := []string{}
			if len(fb) > 0 {
				wantLog = append(wantLog, "fallback"+call)
			}
			if strings.Join(log, ",") != strings.Join(wantLog, ",") || found != (len(fb) > 0 && fbFound) || err != nil {
				vrFail(t, "history %v: calls %v answered %v, %v", hist, log, found, err)
			}
		}
	}
	// a handler may use the mux while it runs
	m := srpc.NewMux()
	h := &vrReenter{m: m}
	_ = m.Register(h)
	vrWithin(t, 10e9, "handler registering on its own mux", func() { _, _ = m.InvokeMethod("svc", "m", &vrStream{}) })
	vrConcMux(t)
}

// concurrent registrations and calls
func vrConcMux(t *testing.T) {
	deadline := time.Now().Add(20 * time.Second)
	for round := 0; time.Now().Before(deadline) && round < 60000; round++ {
		m := srpc.NewMux()
		var wg, start sync.WaitGroup
		start.Add(1)
		const n = 6
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var log []string
				h := &vrHandler{vrInvoker: vrInvoker{name: "h", found: true, log: &log}, svc: "s", ids: []string{fmt.Sprint("m", g)}}
				start.Wait()
				_ = m.Register(h)
				if round%16 == 0 {
					m.HasService("s")
					m.HasServiceMethod("s", "m0")
				}
			}()
		}
		start.Done()
		wg.Wait()
		for g := 0; g < n; g++ {
			if !m.HasServiceMethod("s", fmt.Sprint("m", g)) {
				vrFail(t, "concurrent registration of %d methods of one service: m%d is missing (round %d)", n, g, round)
			}
		}
	}
}

type vrReenter struct{ m srpc.Mux }

func (h *vrReenter) GetServiceID() string   { return "svc" }
func (h *vrReenter) GetMethodIDs() []string { return []string{"m"} }
func (h *vrReenter) InvokeMethod(s, m string, strm srpc.Stream) (bool, error) {
	return true, h.m.Register(h)
}
