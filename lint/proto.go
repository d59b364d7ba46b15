package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C23"] = ruleC23
}

// lin splits v into a term and a constant offset.
func lin(v *Val) (*Val, int64) {
	off := int64(0)
	for v != nil && (v.Op == "bin+" || v.Op == "bin-" || v.Op == "bin" && (v.Name == "+" || v.Name == "-")) && len(v.Args) == 2 {
		minus := v.Op == "bin-" || v.Name == "-"
		if n, ok := v.Args[1].constInt(); ok {
			if minus {
				n = -n
			}
			off += n
			v = v.Args[0]
			continue
		}
		if n, ok := v.Args[0].constInt(); ok && !minus {
			off += n
			v = v.Args[1]
			continue
		}
		break
	}
	return v, off
}

// isField reports a read of the field named f of a struct type declared as name.
func isFieldNamed(v *Val, typ *types.Named, f string) bool {
	if v == nil || typ == nil {
		return false
	}
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if fld, _ := v.loadedField(); fld != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == fld && fld.Name() == f {
				return true
			}
		}
	}
	if v.Op == "vfield" && v.Fld != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == v.Fld && v.Fld.Name() == f {
				return true
			}
		}
	}
	return false
}

func ruleC23(c *Ctx) {
	const B, T, P, S = "attempts-bounded", "attempt-context", "payload", "success"
	c.Rule(B, "Every attempt of Client.Get and Client.Send lies in a loop with an integer variable that changes by exactly one per attempt on every path of the loop; an attempt is made only under a condition on it that gives exactly the given number of tries (first attempt included), or when the number is -1. Between two attempts the caller's context was asked whether it has ended and had not.")
	c.Rule(T, "Every attempt has a context of its own made since the last one, derived from the caller's with the given timeout.")
	c.Rule(P, "The body of every attempt is a reader made since the last one over all of the encoded payload, which was encoded without error.")
	c.Rule(S, "Get and Send return a nil error only when the last response has status 200, its body was read to the end without error before the attempt's context was released and is what Get returns, or 205. The body of every response is closed before the next attempt and before returning.")
	p := c.P
	rT := p.Type("proto", "R")
	get, send := p.Func("proto", "Client", "Get"), p.Func("proto", "Client", "Send")
	if rT == nil || get == nil || send == nil {
		c.Missing(B, "proto.R / proto.Client.Get / proto.Client.Send")
		return
	}
	nDo := 0
	for _, root := range []*ssa.Function{get, send} {
		root := root
		c.Fn(root)
		x := NewExec(p, root)
		x.Inline = samePkg("proto")
		x.CtxTerms = true
		x.BlockEvents = true
		pb, pt, pp, ps := c.pathRule(B, x), c.pathRule(T, x), c.pathRule(P, x), c.pathRule(S, x)
		var ctx, data *Val
		const (
			aTried    = iota // attempts made (0, 1, 2 = more)
			aIter            // attempts in this round of the loop
			aAsked           // the context was asked since the last attempt
			aCtx             // a context was made since the last attempt
			aReader          // a reader was made since the last attempt
			aEnc             // payload encoded
			aPayEnc          // payload taken after encoding
			aStatus          // status of the last response, if known
			aOpen            // body of the last response may be open
			aReleased        // context of the last attempt released
			aRead            // body read (1) before release
			aWhole           // reader over the whole payload
			aZeroPay         // payload empty
		)
		const (
			rResp = iota
			rErr
			rBody
			rReadErr
			rCancel
			rReader
			rPay
			rEncErr
			rCtxErr
			rReq
		)
		// the loop with the attempts
		reaches := func(in ssa.Instruction) bool {
			return p.instrReaches(in, func(n string, cc *ssa.CallCommon) bool { return strings.HasPrefix(n, "(*net/http.Client).") })
		}
		loops := map[*ssa.BasicBlock]bool{}
		for fn := range p.Reach(root) {
			if !p.IsRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(ssa.CallInstruction); ok && reaches(in) {
						if ls := p.loopsOf(b); len(ls) > 0 {
							loops[ls[len(ls)-1]] = true
						}
					}
				}
			}
		}
		type phiInfo struct {
			init    *Val
			bad     bool
			step    int64
			started bool
		}
		phis := map[*ssa.Phi]*phiInfo{}
		cur := map[*Val]*ssa.Phi{}
		x.Hook = func(x *Exec, s *State, e *Event) {
			if ctx = x.ArgVal(1); root == send {
				data = x.ArgVal(3)
			}
			switch e.Kind {
			case EvBlock:
				if !loops[e.Block] {
					return
				}
				fr := s.frames[len(s.frames)-1]
				pi := -1
				for i, q := range e.Block.Preds {
					if q == e.From {
						pi = i
					}
				}
				for _, in := range e.Block.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if !isIntVal(ph) {
						continue
					}
					v := x.val(s, fr, ph.Edges[pi])
					inf := phis[ph]
					if inf == nil {
						inf = &phiInfo{}
						phis[ph] = inf
					}
					if !e.Back {
						if inf.init != nil && inf.init != v {
							inf.bad = true
						}
						inf.init = v
						continue
					}
					old := x.val(s, fr, ph)
					if strings.HasPrefix(old.Name, "undef") || old.Op == "undef" {
						old = x.T.sym(x.symName(fr, ph, "phi"), ph.Type())
						if _, ok := v.constInt(); ok { // first round, starting from a constant
							old = inf.init
						}
					}
					a, m := lin(old)
					b, n := lin(v)
					if oc, ok := old.constInt(); ok {
						if vc, ok2 := v.constInt(); ok2 {
							a, b, m, n = nil, nil, oc, vc
						}
					}
					if a != b || (n-m != 1 && n-m != -1) || s.A[aIter] != 1 || inf.started && inf.step != n-m {
						inf.bad = true
					}
					inf.started, inf.step = true, n-m
				}
				s.A[aIter] = 0
			case EvCall:
				switch e.Callee {
				case "(*net/http.Client).Do":
				case "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).Head", "(*net/http.Client).PostForm", "net/http.Get", "net/http.Post", "net/http.Head", "net/http.PostForm":
					pt.fail(s, e, "no context", "a request is made without a context")
					return
				case "invoke context.Context.Err":
					return
				case "io.ReadAll", "io/ioutil.ReadAll":
					if s.A[aReleased] == 1 {
						ps.fail(s, e, "released", "the body is read after the attempt's context was released, so it can be cut off")
					}
					return
				case "invoke io.ReadCloser.Close":
					if f, b := e.Args[0].loadedField(); f != nil && f.Name() == "Body" && b == s.RV[rResp] {
						s.A[aOpen] = 0
					}
					return
				default:
					if e.FnVal != nil && e.FnVal == s.RV[rCancel] {
						s.A[aReleased] = 1
					}
					return
				}
				nDo++
				pb.obl(e, "attempt")
				pt.obl(e, "attempt")
				pp.obl(e, "attempt")
				// how many
				unlimited, bounded := false, false
				for f, t := range s.facts {
					if f.Op == "eq" && t && isFieldNamed(f.Args[0], rT, "Tries") {
						if n, ok := f.Args[1].constInt(); ok && n == -1 {
							unlimited = true
						}
					}
					if (f.Op == "lss" || f.Op == "eq") && len(f.Args) == 2 {
						l, r := f.Args[0], f.Args[1]
						la, lo := lin(l)
						ra, ro := lin(r)
						phOf := func(v *Val) (*ssa.Phi, *phiInfo) {
							if ph := cur[v]; ph != nil {
								return ph, phis[ph]
							}
							for ph, inf := range phis {
								for _, fr := range s.frames {
									if fr.env[ph] == v {
										return ph, inf
									}
								}
							}
							return nil, nil
						}
						start := func(inf *phiInfo) (int64, bool) {
							if inf == nil || inf.init == nil {
								return 0, false
							}
							return inf.init.constInt()
						}
						// p+lo < Tries (step one from init)
						if f.Op == "lss" && t && isFieldNamed(ra, rT, "Tries") {
							if n, ok := l.constInt(); ok { // first round, not yet widened
								if n-ro == 0 {
									bounded = true
								}
								_ = n
							} else if ph, inf := phOf(la); ph != nil {
								if st, ok := start(inf); ok && st+lo-ro == 0 {
									bounded = true
									cur[la] = ph
								}
							}
						}
						// !(Tries < p+lo)
						if f.Op == "lss" && !t && isFieldNamed(la, rT, "Tries") {
							if n, ok := r.constInt(); ok {
								if n-lo == 1 {
									bounded = true
								}
							} else if ph, inf := phOf(ra); ph != nil {
								if st, ok := start(inf); ok && st+ro-lo == 1 {
									bounded = true
									cur[ra] = ph
								}
							}
						}
						// counting down from Tries: 0 < p, or p != 0
						var dn *Val
						if f.Op == "lss" && t {
							if n, ok := l.constInt(); ok && n == 0 {
								dn = r
							}
						}
						if f.Op == "eq" && !t {
							if n, ok := r.constInt(); ok && n == 0 {
								dn = l
							}
						}
						if dn != nil {
							if isFieldNamed(dn, rT, "Tries") && s.A[aTried] == 0 {
								bounded = true
							} else if ph, inf := phOf(dn); ph != nil && inf.init != nil && isFieldNamed(inf.init, rT, "Tries") {
								bounded = true
								cur[dn] = ph
							}
						}
					}
				}
				if !unlimited && !bounded {
					pb.fail(s, e, "bound", "an attempt is made without comparing the attempts made with the number of tries")
				}
				if s.A[aIter] > 0 {
					pb.fail(s, e, "twice", "two attempts are made where one is counted")
				}
				if s.A[aTried] > 0 {
					if s.A[aAsked] != 2 {
						pb.fail(s, e, "ended", "another attempt is made although the caller's context may have ended")
					}
				}
				// context
				okCtx := s.RV[rReq] != nil && e.Args[1] == s.RV[rReq] && s.A[aCtx] == 1
				if !okCtx {
					pt.fail(s, e, "context", "the attempt is not made with a context derived from the caller's with the given timeout, made for this attempt")
				}
				if s.A[aReader] == 0 {
					pp.fail(s, e, "reader", "the attempt does not have a reader of its own, so only the first one sends the payload")
				} else if data != nil {
					isnil, known := x.IsNil(s, data)
					if (!known || !isnil) && (s.A[aEnc] == 0 || s.A[aPayEnc] == 0 || s.A[aWhole] == 0) {
						pp.fail(s, e, "payload", "the attempt does not send all of the encoded payload")
					}
					if s.A[aEnc] == 1 {
						if nn, k := x.IsNil(s, s.RV[rEncErr]); !k || !nn {
							pp.fail(s, e, "encoding", "the payload is sent although encoding it may have failed")
						}
					}
				}
				if s.A[aOpen] == 1 {
					nn, k := x.IsNil(s, s.RV[rErr])
					if !k || nn {
						ps.fail(s, e, "open", "the body of the last response is not closed before the next attempt")
					}
				}
				if s.A[aTried] < 2 {
					s.A[aTried]++
				}
				s.A[aIter]++
				s.A[aAsked], s.A[aCtx], s.A[aReader], s.A[aStatus], s.A[aReleased], s.A[aRead] = 0, 0, 0, 0, 0, 0
				s.RV[rBody], s.RV[rReadErr], s.RV[rReq], s.RV[rReader] = nil, nil, nil, nil
				s.A[aOpen] = 1
			case EvRet:
				switch e.Callee {
				case "(*net/http.Client).Do":
					s.RV[rResp], s.RV[rErr] = e.Res[0], e.Res[1]
				case "invoke context.Context.Err":
					if e.Args[0] == ctx {
						s.A[aAsked] = 1
						s.RV[rCtxErr] = e.Res[0]
					}
				case "context.WithTimeout":
					s.RV[rCancel] = e.Res[1]
					s.A[aCtx] = 0
					v := e.Res[0]
					if v.Op == "ctxwith" && ctxBase(v) == ctx && isFieldNamed(v.Args[2], rT, "Timeout") {
						s.A[aCtx] = 1
					}
					s.RV[rReq] = v
				case "context.WithCancel", "context.WithDeadline":
					s.RV[rCancel] = e.Res[1]
				case "net/http.NewRequestWithContext":
					if e.Args[0] != s.RV[rReq] {
						s.A[aCtx] = 0
					}
					s.RV[rReq] = e.Res[0]
					b := unboxed(e.Args[3])
					switch {
					case b == s.RV[rReader] && b != nil:
					case b.isNil() || b.Op == "load" && strings.Contains(b.String(), "NoBody"):
						s.A[aReader], s.A[aWhole] = 1, 0
					default:
						s.A[aReader] = 0
					}
				case "net/http.NewRequest":
					s.A[aCtx], s.A[aReader] = 0, 1
				case "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
					if e.Callee == "bytes.NewBuffer" && e.Args[0].isNil() {
						return
					}
					s.RV[rReader] = e.Res[0]
					s.A[aReader] = 1
					s.A[aWhole] = 0
					if v := stripConv(e.Args[0]); v == s.RV[rPay] && v != nil {
						s.A[aWhole] = 1
					}
				case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
					s.RV[rPay] = e.Res[0]
					s.A[aPayEnc] = s.A[aEnc]
				case "(*encoding/json.Encoder).Encode":
					if data != nil && stripConv(e.Args[1]) == data {
						s.A[aEnc] = 1
						s.RV[rEncErr] = e.Res[0]
					}
				case "encoding/json.Marshal":
					if data != nil && stripConv(e.Args[0]) == data {
						s.A[aEnc], s.A[aPayEnc] = 1, 1
						s.RV[rEncErr] = e.Res[1]
						s.RV[rPay] = e.Res[0]
					}
				case "io.ReadAll", "io/ioutil.ReadAll":
					if v := e.Args[0]; v != nil {
						if f, b := unboxed(v).loadedField(); f != nil && f.Name() == "Body" && b == s.RV[rResp] {
							s.RV[rBody], s.RV[rReadErr] = e.Res[0], e.Res[1]
							s.A[aRead] = 1
						}
					}
				case "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate", "(*bytes.Buffer).Next", "(*bytes.Buffer).Read", "(*bytes.Buffer).WriteTo", "(*bytes.Buffer).ReadByte":
					s.A[aEnc], s.A[aPayEnc] = 0, 0
				}
			case EvSelect:
				if ch := recvCase(e); e.Case == -1 || ch != nil {
					for _, a := range e.Args {
						if a.Op == "pure" && a.Name == "invoke context.Context.Done" && a.Args[0] == ctx && ch != a {
							s.A[aAsked] = 2
						}
					}
				}
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				for cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				if cond.Op == "eq" && cond.Args[0] == s.RV[rCtxErr] && cond.Args[1].isNil() && s.A[aAsked] == 1 {
					s.A[aAsked] = 3
					if taken {
						s.A[aAsked] = 2
					}
				}
				if cond.Op == "eq" && taken {
					if f, b := cond.Args[0].loadedField(); f != nil && f.Name() == "StatusCode" && b == s.RV[rResp] {
						if n, ok := cond.Args[1].constInt(); ok {
							s.A[aStatus] = int16(n)
						}
					}
				}
			case EvReturn:
				if e.Fn != root {
					return
				}
				ps.obl(e, "end")
				if s.A[aOpen] == 1 {
					if nn, k := x.IsNil(s, s.RV[rErr]); !k || nn {
						ps.fail(s, e, "open", "the body of the last response is not closed")
					}
				}
				err := e.Res[len(e.Res)-1]
				if nn, k := x.IsNil(s, err); k && !nn {
					return
				}
				if err.Op == "load" && err.Args[0].Op == "global" { // an error variable
					return
				}
				switch s.A[aStatus] {
				case 205:
				case 200:
					if s.A[aRead] == 0 || s.RV[rReadErr] == nil {
						ps.fail(s, e, "read", "success is reported without reading the body")
						return
					}
					if nn, k := x.IsNil(s, s.RV[rReadErr]); !k || !nn {
						ps.fail(s, e, "read error", "success is reported although reading the body may have failed")
					}
					if len(e.Res) == 3 && e.Res[1] != s.RV[rBody] {
						ps.fail(s, e, "body", "the body returned is not that of the response")
					}
				default:
					ps.fail(s, e, "status", "success is reported although the server may have answered neither 200 nor 205")
				}
				if len(e.Res) == 3 && e.Res[0] != s.RV[rResp] {
					ps.fail(s, e, "response", "the response returned is not that of the last attempt")
				}
			}
		}
		x.Run(nil, nil)
		for ph, inf := range phis {
			used := false
			for _, q := range cur {
				used = used || q == ph
			}
			if used {
				c.Obl(B, p.Pos(ph.Pos())+" counter")
				if inf.bad || !inf.started {
					c.Fail(B, shortFn(ph.Parent())+":counter", ph.Pos(), "the count of attempts does not change by exactly one per attempt")
				} else if isFieldNamed(inf.init, rT, "Tries") && inf.step != -1 || !isFieldNamed(inf.init, rT, "Tries") && inf.step != 1 {
					c.Fail(B, shortFn(ph.Parent())+":direction", ph.Pos(), "the count of attempts does not approach the number of tries")
				}
			}
		}
		c.finish(B, x)
	}
	c.Require(B, nDo, 2, "attempts")
}
