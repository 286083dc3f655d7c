package vm

import (
	"net"

	"verif/engine/smt"
)

// Opaque string parts are injective renderings of their arguments:
//
//	"ip"       args: 16 bytes (canonical IPv6 form)   net.IP.String
//	"hostport" args: host string, port string         net.JoinHostPort
//	"dec"      args: integer term                     strconv
//	"hex"      args: bytes                            hex rendering
func (th *thread) equalOpaque(pa, pb []value) value {
	ctx := th.vm.ctx
	// strip equal concrete prefixes/suffixes
	if len(pa) == len(pb) {
		acc := ctx.Bool(true)
		okAll := true
		for i := range pa {
			r, ok := th.equalPart(pa[i], pb[i])
			if !ok {
				okAll = false
				break
			}
			switch r := r.(type) {
			case bool:
				if !r {
					return false
				}
			case *smt.T:
				acc = ctx.And(acc, r)
			}
		}
		if okAll {
			return lower(acc)
		}
	}
	// a single opaque part against a plain string
	if len(pa) == 1 {
		if o, ok := pa[0].(*opaquePart); ok {
			if r, ok := th.equalOpaqueStr(o, pb); ok {
				return r
			}
		}
	}
	if len(pb) == 1 {
		if o, ok := pb[0].(*opaquePart); ok {
			if r, ok := th.equalOpaqueStr(o, pa); ok {
				return r
			}
		}
	}
	panic(unsupported{"comparison of opaque strings of different shape"})
}

func (th *thread) equalPart(a, b value) (value, bool) {
	oa, ok1 := a.(*opaquePart)
	ob, ok2 := b.(*opaquePart)
	if ok1 != ok2 {
		return nil, false
	}
	if !ok1 {
		return th.equal(a, b, byteType), true
	}
	if oa.tag != ob.tag {
		return nil, false
	}
	switch oa.tag {
	case "hostport":
		ctx := th.vm.ctx
		acc := ctx.Bool(true)
		for i := range oa.args {
			switch r := th.equalStr(oa.args[i], ob.args[i]).(type) {
			case bool:
				if !r {
					return false, true
				}
			case *smt.T:
				acc = ctx.And(acc, r)
			}
		}
		return lower(acc), true
	case "ip", "hex", "dec":
		if len(oa.args) != len(ob.args) {
			return false, true
		}
		ctx := th.vm.ctx
		acc := ctx.Bool(true)
		for i := range oa.args {
			switch r := th.equal(oa.args[i], ob.args[i], nil).(type) {
			case bool:
				if !r {
					return false, true
				}
			case *smt.T:
				acc = ctx.And(acc, r)
			}
		}
		return lower(acc), true
	}
	return nil, false
}

func (th *thread) equalOpaqueStr(o *opaquePart, s []value) (value, bool) {
	str, ok := mkString(s).(string)
	if !ok {
		return nil, false
	}
	switch o.tag {
	case "ip":
		ip := net.ParseIP(str)
		if ip == nil || ip.String() != str {
			return false, true
		}
		return th.equalSeq(o.args, bytesVal(ip.To16()), byteType), true
	case "hostport":
		h, p, err := net.SplitHostPort(str)
		if err != nil || net.JoinHostPort(h, p) != str {
			return false, true
		}
		a := th.equalStr(o.args[0], h)
		b := th.equalStr(o.args[1], p)
		return lower(th.vm.ctx.And(th.vm.term(a, 0), th.vm.term(b, 0))), true
	case "dec":
		if str == "" || str[0] == '0' && str != "0" {
			return false, true
		}
		var n uint64
		for i := 0; i < len(str); i++ {
			if str[i] < '0' || str[i] > '9' || n > 1<<58 {
				return false, true
			}
			n = n*10 + uint64(str[i]-'0')
		}
		return th.eqInt(o.args[0], n, 64), true
	}
	return nil, false
}
