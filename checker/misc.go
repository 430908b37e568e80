package main

import "go/types"

// instantNs: nanoseconds since the epoch of a time value.
func instantNs(t *Term) *Term {
	if t.k == KOp && len(t.args) > 0 {
		switch t.op {
		case "ext:time.Unix":
			return tAdd(tScale(t.args[0], 1000000000), t.args[1])
		case "ext:time.UnixMilli":
			return tScale(t.args[0], 1000000)
		case "ext:time.UnixMicro":
			return tScale(t.args[0], 1000)
		case "ext:(time.Time).Add":
			if b := instantNs(t.args[0]); b != nil {
				return tAdd(b, t.args[1])
			}
		case "ext:(time.Time).UTC", "ext:(time.Time).Local", "ext:(time.Time).In":
			return instantNs(t.args[0])
		}
	}
	return nil
}

// timestampTerm: t is the instant given by the 8-byte millisecond count at off.
func timestampTerm(t, src *Term, off int64) bool {
	ns := instantNs(t)
	if ns == nil {
		return false
	}
	// x%k -> x - k*(x/k)
	sub := map[*Term]*Term{}
	_, ms, _ := linParts(ns)
	for _, m := range ms {
		if m.k == KOp && m.op == "rem" && m.args[1].k == KInt {
			sub[m] = tSub(m.args[0], tScale(mkDiv(m.args[0], m.args[1]), m.args[1].i))
		}
	}
	if len(sub) > 0 {
		ns = subst(ns, sub)
	}
	hi, lo := mkRead(4, src, mkInt(off)), mkRead(4, src, mkInt(off+4))
	two := tScale(tAdd(tScale(hi, 1<<32), lo), 1000000)
	one := tScale(mkRead(8, src, mkInt(off)), 1000000)
	return ns == two || ns == one
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
