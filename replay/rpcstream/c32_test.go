package rpcstream_test

import (
	"bytes"
	"encoding/base64"
	stdjson "encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

type vrJSONMsg interface {
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
}

// vrF is one field: json name, proto name, value as encoding/json shows it.
type vrF struct {
	j, p string
	v    any
}

func vrC32Str(r *rand.Rand) string {
	opts := []string{"", "x", "a/b", "\"q\\", "é世", "line\nfeed", "rpcService", "null"}
	return opts[r.Intn(len(opts))]
}

func vrC32Bytes(r *rand.Rand) []byte {
	b := make([]byte, []int{0, 0, 1, 2, 3, 40}[r.Intn(6)])
	_, _ = r.Read(b)
	return b
}

func vrC32Bool(r *rand.Rand) bool { return r.Intn(2) == 0 }

// vrC32Make gives a message, an empty one of its type, its fields, and a
// comparison of the two.
func vrC32Make(r *rand.Rand) (m, d vrJSONMsg, fs []vrF, same func() bool) {
	add := func(j, p string, v any) {
		switch x := v.(type) {
		case string:
			if x != "" {
				fs = append(fs, vrF{j, p, x})
			}
		case []byte:
			if len(x) != 0 {
				fs = append(fs, vrF{j, p, base64.StdEncoding.EncodeToString(x)})
			}
		case bool:
			if x {
				fs = append(fs, vrF{j, p, true})
			}
		}
	}
	obj := func() map[string]any {
		o := map[string]any{}
		for _, f := range fs {
			o[f.j] = f.v
		}
		fs = nil
		return o
	}
	start := func() *srpc.CallStart {
		x := &srpc.CallStart{RpcService: vrC32Str(r), RpcMethod: vrC32Str(r), Data: vrC32Bytes(r), DataIsZero: vrC32Bool(r)}
		add("rpcService", "rpc_service", x.RpcService)
		add("rpcMethod", "rpc_method", x.RpcMethod)
		add("data", "data", x.Data)
		add("dataIsZero", "data_is_zero", x.DataIsZero)
		return x
	}
	data := func() *srpc.CallData {
		x := &srpc.CallData{Data: vrC32Bytes(r), DataIsZero: vrC32Bool(r), Complete: vrC32Bool(r), Error: vrC32Str(r)}
		add("data", "data", x.Data)
		add("dataIsZero", "data_is_zero", x.DataIsZero)
		add("complete", "complete", x.Complete)
		add("error", "error", x.Error)
		return x
	}
	initm := func() *rpcstream.RpcStreamInit {
		x := &rpcstream.RpcStreamInit{ComponentId: vrC32Str(r)}
		add("componentId", "component_id", x.ComponentId)
		return x
	}
	ack := func() *rpcstream.RpcAck {
		x := &rpcstream.RpcAck{Error: vrC32Str(r)}
		add("error", "error", x.Error)
		return x
	}
	pkt := func(b *srpc.Packet, f vrF) (vrJSONMsg, vrJSONMsg, []vrF, func() bool) {
		d := &srpc.Packet{}
		return b, d, []vrF{f}, func() bool { return b.EqualVT(d) && reflect.TypeOf(b.Body) == reflect.TypeOf(d.Body) }
	}
	rpkt := func(b *rpcstream.RpcStreamPacket, f vrF) (vrJSONMsg, vrJSONMsg, []vrF, func() bool) {
		d := &rpcstream.RpcStreamPacket{}
		return b, d, []vrF{f}, func() bool { return b.EqualVT(d) && reflect.TypeOf(b.Body) == reflect.TypeOf(d.Body) }
	}
	switch r.Intn(12) {
	case 0:
		x, y := start(), &srpc.CallStart{}
		return x, y, fs, func() bool { return x.EqualVT(y) }
	case 1:
		x, y := data(), &srpc.CallData{}
		return x, y, fs, func() bool { return x.EqualVT(y) }
	case 2:
		x, y := initm(), &rpcstream.RpcStreamInit{}
		return x, y, fs, func() bool { return x.EqualVT(y) }
	case 3:
		x, y := ack(), &rpcstream.RpcAck{}
		return x, y, fs, func() bool { return x.EqualVT(y) }
	case 4:
		x, y := &echo.EchoMsg{Body: vrC32Str(r)}, &echo.EchoMsg{}
		add("body", "body", x.Body)
		return x, y, fs, func() bool { return x.EqualVT(y) }
	case 5:
		x, y := &mock.MockMsg{Body: vrC32Str(r)}, &mock.MockMsg{}
		add("body", "body", x.Body)
		return x, y, fs, func() bool { return x.EqualVT(y) }
	case 6:
		x := start()
		return pkt(&srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: x}}, vrF{"callStart", "call_start", obj()})
	case 7:
		x := data()
		return pkt(&srpc.Packet{Body: &srpc.Packet_CallData{CallData: x}}, vrF{"callData", "call_data", obj()})
	case 8:
		b := vrC32Bool(r)
		return pkt(&srpc.Packet{Body: &srpc.Packet_CallCancel{CallCancel: b}}, vrF{"callCancel", "call_cancel", b})
	case 9:
		x := initm()
		return rpkt(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: x}}, vrF{"init", "init", obj()})
	case 10:
		x := ack()
		return rpkt(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: x}}, vrF{"ack", "ack", obj()})
	default:
		x := vrC32Bytes(r)
		return rpkt(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: x}}, vrF{"data", "data", base64.StdEncoding.EncodeToString(x)})
	}
}

// vrC32Text writes the fields by hand, under either name, between unknown ones.
func vrC32Text(r *rand.Rand, fs []vrF) []byte {
	unknown := []string{`"zz":1`, `"unknown":{"data":"eA==","error":"no","complete":true}`, `"zzz":["a",{"b":null}]`, `"nothing":null`}
	var parts []string
	for _, f := range fs {
		n := f.j
		if r.Intn(2) == 0 {
			n = f.p
		}
		v, _ := stdjson.Marshal(f.v)
		parts = append(parts, fmt.Sprintf("%q:%s", n, v))
	}
	for i := r.Intn(3); i > 0; i-- {
		parts = append(parts, unknown[r.Intn(len(unknown))])
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	var b bytes.Buffer
	b.WriteByte('{')
	for i, p := range parts {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(p)
	}
	b.WriteByte('}')
	return b.Bytes()
}

func TestVerifReplayC32(t *testing.T) {
	r := vrRand()
	for i := 0; i < 20000; i++ {
		m, d, fs, same := vrC32Make(r)
		want := map[string]any{}
		for _, f := range fs {
			want[f.j] = f.v
		}
		b, err := m.MarshalJSON()
		if err != nil {
			vrFail(t, "encoding a %T as JSON failed: %v", m, err)
		}
		var got any
		if err := stdjson.Unmarshal(b, &got); err != nil {
			vrFail(t, "a %T encodes to %q, which is not JSON: %v", m, b, err)
		}
		if !reflect.DeepEqual(got, any(want)) {
			vrFail(t, "a %T with the fields %v encodes to %s", m, want, b)
		}
		if r.Intn(2) == 0 {
			b = vrC32Text(r, fs)
		}
		if err := d.UnmarshalJSON(b); err != nil {
			vrFail(t, "decoding %s into a %T failed: %v", b, d, err)
		}
		if !same() {
			vrFail(t, "%s decodes to another %T than the one it stands for", b, d)
		}
		if err := d.UnmarshalJSON([]byte("null")); err != nil || !same() {
			vrFail(t, "decoding null changes a %T (error %v)", d, err)
		}
	}
	// decoding into a used packet leaves the message it handed out before alone
	rp := &rpcstream.RpcStreamPacket{}
	for _, k := range []string{"init", "ack"} {
		f := map[string]string{"init": "componentId", "ack": "error"}[k]
		val := func() string { return rp.GetInit().GetComponentId() + rp.GetAck().GetError() }
		if err := rp.UnmarshalJSON([]byte(`{"` + k + `":{"` + f + `":"first"}}`)); err != nil || val() != "first" {
			vrFail(t, "decoding a %s gives %v (error %v)", k, rp, err)
		}
		i, a := rp.GetInit(), rp.GetAck()
		if err := rp.UnmarshalJSON([]byte(`{"` + k + `":{}}`)); err != nil || val() != "" || i.GetComponentId()+a.GetError() != "first" {
			vrFail(t, "decoding an empty %s into a used packet gives %v, the earlier message is now %v%v (error %v)", k, rp, i, a, err)
		}
	}
	pk := &srpc.Packet{}
	for _, k := range []string{"callStart", "callData"} {
		f := map[string]string{"callStart": "rpcMethod", "callData": "error"}[k]
		val := func() string { return pk.GetCallStart().GetRpcMethod() + pk.GetCallData().GetError() }
		if err := pk.UnmarshalJSON([]byte(`{"` + k + `":{"` + f + `":"first"}}`)); err != nil || val() != "first" {
			vrFail(t, "decoding a %s gives %v (error %v)", k, pk, err)
		}
		cs, cd := pk.GetCallStart(), pk.GetCallData()
		if err := pk.UnmarshalJSON([]byte(`{"` + k + `":{}}`)); err != nil || val() != "" || cs.GetRpcMethod()+cd.GetError() != "first" {
			vrFail(t, "decoding an empty %s into a used packet gives %v, the earlier message is now %v%v (error %v)", k, pk, cs, cd, err)
		}
	}
	for _, m := range []vrJSONMsg{(*srpc.Packet)(nil), (*srpc.CallStart)(nil), (*srpc.CallData)(nil), (*rpcstream.RpcStreamPacket)(nil),
		(*rpcstream.RpcStreamInit)(nil), (*rpcstream.RpcAck)(nil), (*echo.EchoMsg)(nil), (*mock.MockMsg)(nil)} {
		if b, err := m.MarshalJSON(); err != nil || string(b) != "null" {
			vrFail(t, "a nil %T encodes to %q (error %v)", m, b, err)
		}
	}
}
