package srpc_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/aperturerobotics/starpc/srpc"
)

// C14: random invoker lists against the specified order.
func TestVerifReplay_C14(t *testing.T) {
	r := vrRand()
	for round := 0; round < 20000; round++ {
		var log, want []string
		var list srpc.InvokerSlice
		var desc []string
		strm := &vrStream{}
		wantFound, wantErr, decided := false, error(nil), false
		for i := r.Intn(6); i > 0; i-- {
			if r.Intn(4) == 0 {
				list = append(list, nil)
				desc = append(desc, "nil")
				continue
			}
			v := &vrInvoker{name: fmt.Sprint("i", i), found: r.Intn(4) == 0, log: &log}
			if r.Intn(5) == 0 {
				v.err = vrErrs[r.Intn(len(vrErrs))]
			}
			list = append(list, v)
			desc = append(desc, fmt.Sprintf("%s:(%v,%v)", v.name, v.found, v.err))
			if !decided {
				want = append(want, fmt.Sprintf("%s(%q,%q,%p)", v.name, "s", "m", strm))
				if v.found || v.err != nil {
					decided, wantFound, wantErr = true, v.found, v.err
				}
			}
		}
		found, err := list.InvokeMethod("s", "m", strm)
		if strings.Join(log, ",") != strings.Join(want, ",") || found != decided || err != wantErr {
			vrFail(t, "list %v: calls %v answered (%v, %v)", desc, log, found, err)
		}
		log = nil
		found, err = srpc.NewMux(list...).InvokeMethod("s", "m", strm)
		if strings.Join(log, ",") != strings.Join(want, ",") || found != wantFound || err != wantErr {
			vrFail(t, "mux with fallback %v: calls %v answered (%v, %v)", desc, log, found, err)
		}
	}
	var nilf srpc.InvokerFunc
	if ok, err := nilf.InvokeMethod("s", "m", &vrStream{}); ok || err != nil {
		vrFail(t, "nil invoker function answered (%v, %v)", ok, err)
	}
	for k := 0; k < 4; k++ {
		n := 0
		strm := &vrStream{}
		var e error
		if k&1 != 0 {
			e = errVrA
		}
		f := srpc.InvokerFunc(func(s, m string, st srpc.Stream) (bool, error) {
			n++
			if s != "s" || m != "m" || st != srpc.Stream(strm) {
				vrFail(t, "invoker function got (%q, %q)", s, m)
			}
			return k&2 != 0, e
		})
		if ok, err := f.InvokeMethod("s", "m", strm); n != 1 || ok != (k&2 != 0) || err != e {
			vrFail(t, "invoker function called %d times, answered (%v, %v)", n, ok, err)
		}
	}
}
