package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C22"] = ruleC22
	rules["C44"] = ruleC44
}

const (
	protoGet  = "(*" + modPath + "/proto.Client).Get"
	protoSend = "(*" + modPath + "/proto.Client).Send"
)

var fileWrites = map[string]int{
	"os.OpenFile": 0, "os.Create": 0, "os.WriteFile": 0, "io/ioutil.WriteFile": 0, "os.Rename": 1, "os.Symlink": 1, "os.Link": 1,
	"os.Mkdir": 0, "os.MkdirAll": 0, "os.CreateTemp": 0, "os.MkdirTemp": 0, "io/ioutil.TempFile": 0, "io/ioutil.TempDir": 0, "os.RemoveAll": 0, "os.Remove": 0, "os.Chmod": 0, "os.Truncate": 0,
}

// inRange: 0 <= i < len(of).
func inRange(s *State, i *Val, isLen func(v *Val) bool) (low, high bool) {
	for f, t := range s.facts {
		if f.Op == "eq" && t && f.Args[0] == i && f.Args[1].isConst() {
			if n, ok := f.Args[1].constInt(); ok && n == 0 {
				low = true
			}
		}
		if f.Op != "lss" {
			continue
		}
		a, b := f.Args[0], f.Args[1]
		if a == i && !t {
			if n, ok := b.constInt(); ok && n >= 0 {
				low = true
			}
		}
		if b == i && t {
			if n, ok := a.constInt(); ok && n >= -1 {
				low = true
			}
		}
		if a == i && t && isLen(b) {
			high = true
		}
		if b == i && !t && strings.HasPrefix(a.Op, "bin") && len(a.Args) == 2 { // !(len-1 < i)
			l, k := a.Args[0], a.Args[1]
			if n, ok := k.constInt(); ok && isLen(l) && (a.Op == "bin-" && n >= 1 || a.Op == "bin+" && n <= -1) {
				high = true
			}
		}
		if b == i && !t && len(a.Args) == 2 && a.Name == "-" {
			if n, ok := a.Args[1].constInt(); ok && n >= 1 && isLen(a.Args[0]) {
				high = true
			}
		}
	}
	if n, ok := i.constInt(); ok && n >= 0 {
		low = true
	}
	return
}

func ruleC22(c *Ctx) {
	const S, W = "served-files", "stored-files"
	c.Rule(S, "The only files read by code reachable from a request handler are, in the handler of /file, the File of an element of the transactions of the stage the instance is assigned to, with an index known on that path to be at least 0 and below their number; what is sent is what was read.")
	c.Rule(W, "Every file a remote creates lies directly in a temporary directory it made: the name is a format with fixed text of integers and base names only, containing the index of the transaction file, stored as that transaction's file; the content is that fetched with the same index.")
	r := c.computeRoles(S)
	if r == nil {
		return
	}
	p := c.P
	// all reads reachable from handlers
	sites := map[ssa.Instruction]bool{}
	for path, hf := range r.handlers {
		for fn := range p.Reach(hf) {
			if !p.IsRepo(fn) {
				continue
			}
			for _, ci := range callsOf(fn) {
				n := calleeName(ci.Common())
				if _, ok := fileReads[n]; !ok {
					continue
				}
				sites[ci] = true
				if path != "/file" {
					if p.Reach(r.handlers["/file"])[fn] {
						continue
					}
					c.Fail(S, shortFn(fn)+":"+path, ci.Pos(), "the handler of "+path+" can read a file")
				}
			}
		}
	}
	seen := map[ssa.Instruction]bool{}
	n := 0
	for path := range r.handlers {
		h := &handlerRun{c: c, r: r, path: path}
		var pr *pathRule
		h.read = func(h *handlerRun, s *State, e *Event) {
			if pr == nil {
				pr = c.pathRule(S, h.x)
			}
			n++
			seen[e.Instr] = true
			pr.obl(e, "file read")
			v := e.Args[fileReads[e.Callee]]
			f, el := v.loadedField()
			if path != "/file" {
				pr.fail(s, e, "handler", "a request other than /file reads a file")
				return
			}
			if f == nil || f.Name() != "File" || el.Op != "elem" {
				pr.fail(s, e, "path", "the path read is not that of one of the stage's transaction files")
				return
			}
			tf, cfgA := el.Args[0].loadedField()
			okk := tf != nil && tf.Name() == "Trx" && cfgA != nil && cfgA.Op == "field" && cfgA.Fld == r.cfg
			if okk {
				sf, _ := cfgA.Args[0].loadedField()
				okk = sf == r.instStage || sf == r.apiStage
			}
			if !okk {
				pr.fail(s, e, "stage", "the file read is not one of the stage the instance is assigned to")
			}
			i := el.Args[1]
			low, high := inRange(s, i, func(l *Val) bool { l = stripConv(l); return l.Op == "len" && l.Args[0] == el.Args[0] })
			if !low || !high {
				pr.fail(s, e, "index", "the index of the file is not known to be within the stage's transaction files")
			}
			s.RV[5] = v
		}
		h.effect = func(h *handlerRun, s *State, e *Event, what string) {
			if path != "/file" || what != "a response body sent" || !strings.HasSuffix(e.Callee, ".Write") {
				return
			}
			if s.RV[5] == nil {
				pr = c.pathRule(S, h.x)
				pr.fail(s, e, "content", "something other than a file of the stage is sent")
			}
		}
		h.run()
		if path == "/file" {
			c.finish(S, h.x)
		}
	}
	for in := range sites {
		if !seen[in] {
			c.Fail(S, shortFn(in.Parent())+":unreached", in.Pos(), "a file can be read by a request on a path the analysis does not cover")
		}
	}
	c.Require(S, n, 1, "reads of a file")

	// remote
	run := p.Func("compute", "Client", "Run")
	if run == nil {
		c.Missing(W, "compute.Client.Run")
		return
	}
	c.Fn(run)
	x := NewExec(p, run)
	x.Inline = samePkg("compute")
	pw := c.pathRule(W, x)
	created, stored := 0, 0
	isTmp := func(v *Val) bool {
		return v.Op == "sym" && strings.Contains(v.Name, "MkdirTemp/0") || v.Op == "sym" && strings.Contains(v.Name, "TempDir/0")
	}
	// index of the element of Trx in a value
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvCall:
			if e.Callee == protoGet {
				s.RV[0] = nil
				if ep, ok := e.Args[2].constStr(); ok && ep == "/file" {
					if ps, ok := x.VarArgs(s, e.Args[3]); ok {
						for _, q := range ps {
							if kv, ok := x.VarArgs(s, q); ok && len(kv) == 2 {
								if k, _ := kv[0].constStr(); k == "i" {
									s.RV[0] = kv[1]
								}
							}
						}
					}
				}
				return
			}
			switch e.Callee {
			case "(*os.File).Write", "(*os.File).WriteString", "io.Copy":
				if s.RV[1] != nil {
					pw.obl(e, "content")
					s.A[0] = 1
					if s.RV[3] == nil || e.Args[1].find(func(t *Val) bool { return t == s.RV[3] }) == nil {
						pw.fail(s, e, "content", "what is written is not the file fetched from the server")
					}
				}
				return
			case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "fmt.Fprint", "fmt.Fprintf":
				s.A[0] = 0
			}
			ai, ok := fileWrites[e.Callee]
			if !ok {
				return
			}
			if e.Callee == "os.WriteFile" || e.Callee == "io/ioutil.WriteFile" {
				pw.obl(e, "content")
				s.A[0] = 1
				if s.RV[3] == nil || e.Args[1].find(func(t *Val) bool { return t == s.RV[3] }) == nil {
					pw.fail(s, e, "content", "what is written is not the file fetched from the server")
				}
			} else if e.Callee == "os.OpenFile" || e.Callee == "os.Create" {
				s.A[0] = 0
			}
			switch e.Callee {
			case "os.MkdirTemp", "io/ioutil.TempDir":
				return
			case "os.RemoveAll", "os.Remove":
				if !isTmp(e.Args[0]) && !(e.Args[0].Op == "pure" && strings.HasPrefix(e.Args[0].Name, "path/filepath.Join") && isTmp(e.Args[0].Args[0])) {
					pw.fail(s, e, "removed", "something other than the remote's temporary directory is removed")
				}
				return
			case "os.OpenFile":
				if fl, ok := e.Args[1].constInt(); ok && fl&0x43 == 0 {
					return // read only
				}
			case "os.CreateTemp", "io/ioutil.TempFile":
				created++
				pw.obl(e, "file created")
				if !isTmp(e.Args[0]) {
					pw.fail(s, e, "directory", "a file is created outside the remote's temporary directory")
				}
				return
			}
			created++
			pw.obl(e, "file created")
			v := e.Args[ai]
			s.RV[1], s.RV[2] = v, nil
			if v.Op != "pure" || !strings.HasPrefix(v.Name, "path/filepath.Join") || len(v.Args) != 2 || !isTmp(v.Args[0]) {
				pw.fail(s, e, "directory", "a file is created outside the remote's temporary directory")
				return
			}
			nm := v.Args[1]
			if nm.Op != "pure" || !strings.HasPrefix(nm.Name, "fmt.Sprint") || len(nm.Args) == 0 {
				pw.fail(s, e, "name", "the name of a fetched file can leave the directory or collide with another file")
				return
			}
			f, isF := nm.Args[0].constStr()
			if !strings.HasPrefix(nm.Name, "fmt.Sprintf") || !isF || strings.Contains(f, "/") || strings.Contains(f, "..") {
				pw.fail(s, e, "name", "the name of a fetched file can leave the directory")
				return
			}
			idx := false
			for _, a := range nm.Args[1:] {
				a = unboxed(a)
				switch {
				case a.Op == "pure" && strings.HasPrefix(a.Name, "path/filepath.Base"):
				case a.T != nil && isBasicInt(a.T):
					idx = true
					s.RV[2] = a
				default:
					pw.fail(s, e, "name", "the name of a fetched file contains text that can name another directory")
				}
			}
			if !idx {
				pw.fail(s, e, "unique", "two fetched files can have the same name")
			}
		case EvRet:
			if e.Callee == protoGet && len(e.Res) == 3 {
				s.RV[3] = e.Res[1]
			}
		case EvStore:
			if e.Addr.Op == "field" && e.Addr.Fld.Name() == "File" && e.Addr.Args[0].Op == "elem" {
				stored++
				if s.A[0] == 0 {
					pw.fail(s, e, "written", "a transaction is given a file that was not written")
				}
				pw.obl(e, "file of a transaction")
				i := e.Addr.Args[0].Args[1]
				if s.RV[1] == nil || e.Val != s.RV[1] {
					pw.fail(s, e, "file", "the file of a transaction is not the one fetched for it")
				}
				if s.RV[2] != nil && i != s.RV[2] {
					pw.fail(s, e, "index", "the name of the fetched file does not have the index of its transaction")
				}
				if s.RV[0] == nil || s.RV[0].find(func(t *Val) bool { return t == i }) == nil {
					pw.fail(s, e, "request", "the file fetched is not that of the transaction it is used for")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(W, x)
	c.Require(W, created, 1, "files created")
	c.Require(W, stored, 1, "files used")
	_ = token.NoPos
}

// ctxTimed: the context has a deadline of its own or of an ancestor.
func ctxTimed(v *Val) bool {
	for v != nil && v.Op == "ctxwith" {
		if strings.Contains(v.Name, "WithTimeout") || strings.Contains(v.Name, "WithDeadline") {
			return true
		}
		v = v.Args[1]
	}
	return false
}

func isBasicInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func ruleC44(c *Ctx) {
	const R, D, F, T, P = "run-after-signal", "always-done", "boot-failure", "cleanup", "watch"
	c.Rule(R, "On every path of Client.Run, Stage.Run is called only after Prepare returned nil, POST /boot without error text succeeded and GET /run succeeded without being a reset; its context is derived from Finch's.")
	c.Rule(D, "After Stage.Run every path to the end calls POST /run exactly once, with a context that is not derived from Finch's and has a timeout; before it none does.")
	c.Rule(F, "A path on which Prepare failed, or which ends without Prepare after the instance was given a stage, sends POST /boot with an error text and returns an error without running the stage.")
	c.Rule(T, "Every path that made a temporary directory removes it, unless debugging.")
	c.Rule(P, "Stage.Run runs with a goroutine that pings the server, ends only when told so, when a ping failed after its retries or when the server answered reset, and cancels the context of the run in the latter cases; it is told to end on every path.")
	p := c.P
	run := p.Func("compute", "Client", "Run")
	if run == nil {
		c.Missing(R, "compute.Client.Run")
		return
	}
	c.Fn(run)
	x := NewExec(p, run)
	x.Inline = samePkg("compute")
	x.CtxTerms = true
	pr, pd, pf, pt, pp := c.pathRule(R, x), c.pathRule(D, x), c.pathRule(F, x), c.pathRule(T, x), c.pathRule(P, x)
	const (
		aPrep = iota // 1 Prepare called
		aAck         // POST /boot without text sent (after Prepare)
		aNack        // with text
		aWait        // GET /run
		aRan
		aDone
		aTmp
		aRemoved
		aWatch // watch goroutine started
		aClosed
		aDebug
		aReset // reply known not to be a reset
	)
	nRun, nDone := 0, 0
	var watchers []*ssa.Function
	nilKnown := func(s *State, v *Val) (isNil, known bool) {
		if v == nil {
			return false, false
		}
		return x.IsNil(s, v)
	}
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvCall:
			switch e.Callee {
			case stageRun:
				nRun++
				pr.obl(e, "stage run")
				if n, k := nilKnown(s, s.RV[0]); !k || !n {
					pr.fail(s, e, "prepared", "the stage is run although Prepare may have failed")
				}
				if n, k := nilKnown(s, s.RV[1]); !k || !n || s.A[aAck] == 0 {
					pr.fail(s, e, "acknowledged", "the stage is run although the boot acknowledgement may have failed")
				}
				if n, k := nilKnown(s, s.RV[2]); !k || !n || s.A[aWait] == 0 {
					pr.fail(s, e, "signal", "the stage is run although no run signal was received")
				}
				if s.A[aReset] == 0 {
					pr.fail(s, e, "reset", "the stage is run although the server may have answered reset")
				}
				if s.A[aRan] > 0 {
					pr.fail(s, e, "twice", "the stage is run twice")
				}
				if len(e.Args) > 1 {
					if ctxBase(e.Args[1]) != x.ArgVal(1) {
						pr.fail(s, e, "context", "the stage is not run with a context derived from Finch's")
					}
					pp.obl(e, "watched run")
					if s.A[aWatch] == 0 {
						pp.fail(s, e, "unwatched", "the stage is run without watching the server")
					}
					s.RV[3] = e.Args[1]
					if e.Args[1] == x.ArgVal(1) {
						pp.fail(s, e, "cancel", "the watch cannot stop the run")
					}
				}
				s.A[aRan]++
			case protoSend:
				ep, _ := e.Args[2].constStr()
				switch ep {
				case "/boot":
					if unboxed(e.Args[3]).isNil() {
						s.A[aAck]++
						if n, k := nilKnown(s, s.RV[0]); !k || !n {
							pf.fail(s, e, "acknowledged", "a successful boot is acknowledged although Prepare may have failed")
						}
					} else {
						s.A[aNack]++
						if n, k := nilKnown(s, s.RV[0]); k && n {
							pf.fail(s, e, "failed", "a failed boot is sent although Prepare succeeded")
						}
					}
				case "/run":
					nDone++
					pd.obl(e, "done signal")
					if s.A[aRan] == 0 {
						pd.fail(s, e, "early", "the server is told that the instance is done before it ran")
					}
					if s.A[aDone] > 0 {
						pd.fail(s, e, "twice", "the server is told twice that the instance is done")
					}
					s.A[aDone]++
					ctx := e.Args[1]
					if ctxBase(ctx) == x.ArgVal(1) {
						pd.fail(s, e, "context", "the done signal is not sent when Finch was interrupted: its context is derived from Finch's")
					}
					if !ctxTimed(ctx) {
						pd.fail(s, e, "timeout", "the done signal has no overall timeout")
					}
				}
			case "os.RemoveAll":
				if s.RV[4] != nil && e.Args[0] == s.RV[4] {
					s.A[aRemoved] = 1
				}
			case "builtin close":
				if s.RV[5] != nil && e.Args[0] == s.RV[5] {
					s.A[aClosed] = 1
				}
			}
		case EvRet:
			switch e.Callee {
			case stagePrepare:
				s.A[aPrep]++
				s.RV[0] = e.Res[0]
			case protoSend:
				if len(e.Args) > 3 && e.Args[2] != nil {
					if ep, _ := e.Args[2].constStr(); ep == "/boot" && unboxed(e.Args[3]).isNil() {
						s.RV[1] = e.Res[0]
					}
				}
			case protoGet:
				if ep, _ := e.Args[2].constStr(); ep == "/boot" {
					s.RV[8], s.RV[9] = e.Res[2], nil
				} else if ep == "/run" {
					s.A[aWait]++
					s.RV[2] = e.Res[2]
					s.RV[6] = e.Res[0]
					s.A[aReset] = 0
				}
			case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
				if s.RV[8] != nil && s.RV[9] == nil {
					s.RV[9] = e.Res[0] // the stage it was given
				}
			case "os.MkdirTemp", "io/ioutil.TempDir":
				s.RV[4] = e.Res[0]
				s.RV[7] = e.Res[1]
				s.A[aTmp] = 1
			}
		case EvBranch:
			cond, taken := e.Cond, e.Taken
			for cond.Op == "not" {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Op == "load" && cond.Args[0].Op == "global" && strings.Contains(cond.Args[0].String(), "Debugging") && taken {
				s.A[aDebug] = 1
			}
			if cond.Op == "eq" {
				if f, b := cond.Args[0].loadedField(); f != nil && f.Name() == "StatusCode" && s.RV[6] != nil && b == s.RV[6] {
					n, _ := cond.Args[1].constInt()
					if n == 205 && !taken || n == 200 && taken {
						s.A[aReset] = 1
					}
				}
			}
		case EvGo:
			if e.Target == nil || !p.reachesCall(e.Target, func(n string, cc *ssa.CallCommon) bool { return n == protoGet }) {
				return
			}
			s.A[aWatch] = 1
			dup := false
			for _, w := range watchers {
				dup = dup || w == e.Target
			}
			if !dup {
				watchers = append(watchers, e.Target)
			}
			// the channel that ends it: captured or passed
			cand := append([]*Val(nil), e.Args...)
			if e.FnVal != nil {
				cand = append(cand, e.FnVal.Args...)
			}
			for _, a := range cand {
				v := a
				if a.Op == "alloc" {
					v = x.Load(s, a, deref(a.T))
				}
				if v.T != nil {
					if _, ok := v.T.Underlying().(*types.Chan); ok {
						s.RV[5] = v
					}
				} else if v.Op == "makechan" {
					s.RV[5] = v
				}
			}
		case EvReturn:
			if e.Fn != run {
				return
			}
			pd.obl(e, "end")
			if s.A[aRan] > 0 && s.A[aDone] == 0 {
				pd.fail(s, e, "missing", "the instance ran but the server is not told that it is done")
			}
			if s.RV[0] != nil && s.A[aPrep] > 0 {
				if n, k := nilKnown(s, s.RV[0]); k && !n {
					pf.obl(e, "boot failed")
					if s.A[aNack] == 0 {
						pf.fail(s, e, "failed", "a failed boot is not reported to the server")
					}
				}
			}
			if s.A[aPrep] == 0 && s.RV[9] != nil {
				n1, k1 := nilKnown(s, s.RV[8])
				n2, k2 := nilKnown(s, s.RV[9])
				if k1 && n1 && k2 && n2 {
					pf.obl(e, "boot failed before Prepare")
					if s.A[aNack] == 0 {
						pf.fail(s, e, "failed early", "an instance that was given a stage ends without preparing it and without telling the server: the server keeps waiting for it")
					}
				}
			}
			if s.A[aTmp] == 1 {
				if n, k := nilKnown(s, s.RV[7]); k && n {
					pt.obl(e, "temporary directory")
					if s.A[aRemoved] == 0 && s.A[aDebug] == 0 {
						pt.fail(s, e, "left", "the temporary directory is not removed")
					}
				}
			}
			if s.A[aWatch] == 1 && s.A[aClosed] == 0 {
				pp.fail(s, e, "goroutine", "the watch of the server is not told to end")
			}
		}
	}
	x.Run(nil, nil)
	c.finish(R, x)
	c.Require(R, nRun, 1, "stage runs")
	c.Require(D, nDone, 1, "done signals")
	// the watch
	for _, fn := range watchers {
		c.Fn(fn)
		y := NewExec(p, fn)
		y.Inline = samePkg("compute")
		py := c.pathRule(P, y)
		n := 0
		y.Hook = func(y *Exec, s *State, e *Event) {
			switch e.Kind {
			case EvRet:
				if e.Callee == protoGet {
					s.RV[0], s.RV[1] = e.Res[2], e.Res[0]
					s.A[1] = 0
					ep, _ := e.Args[2].constStr()
					if ep != "/ping" {
						py.fail(s, e, "ping", "the watch does not ping the server")
					}
					n++
					py.obl(e, "ping")
				}
			case EvCall:
				if e.Callee == protoGet && s.RV[0] != nil {
					if nn, k := y.IsNil(s, s.RV[0]); !k || !nn {
						py.fail(s, e, "lost", "the watch goes on although the server may not have answered")
					}
					if s.A[1] != 2 {
						py.fail(s, e, "reset", "the watch goes on although the server may have ended the stage")
					}
				}
				if e.FnVal != nil && e.Target == nil && (e.FnVal.Op == "sym" || e.FnVal.Op == "load") && e.FnVal.T != nil && strings.Contains(e.FnVal.T.String(), "CancelFunc") {
					s.A[0] = 1
				}
			case EvBranch:
				cond, taken := e.Cond, e.Taken
				for cond.Op == "not" {
					cond, taken = cond.Args[0], !taken
				}
				if cond.Op == "eq" {
					if f, b := cond.Args[0].loadedField(); f != nil && f.Name() == "StatusCode" && b == s.RV[1] {
						if k, _ := cond.Args[1].constInt(); k == 205 {
							s.A[1] = 2
							if taken {
								s.A[1] = 1
							}
						}
					}
				}
			case EvRecv, EvSelect:
				if ch := recvCase(e); ch != nil && (ch.Op != "pure") {
					if _, timer := ch.loadedField(); timer != nil && strings.Contains(ch.String(), "Ticker") {
						return
					}
					if !strings.Contains(ch.String(), "time.") {
						s.A[2] = 1
					}
				} else if ch != nil && strings.Contains(ch.Name, "Context.Done") {
					s.A[2] = 1
				}
			case EvReturn:
				if e.Fn != fn {
					return
				}
				py.obl(e, "watch ends")
				if s.A[0] == 0 && s.A[2] == 0 {
					py.fail(s, e, "not cancelled", "the watch ends without stopping the run")
				}
				if s.A[2] == 0 {
					lost := false
					if s.RV[0] != nil {
						nn, k := y.IsNil(s, s.RV[0])
						lost = k && !nn
					}
					if !lost && s.A[1] != 1 {
						py.fail(s, e, "early", "the watch ends although the server neither failed to answer nor ended the stage")
					}
				}
			}
		}
		y.Run(nil, nil)
		c.finish(P, y)
		c.Require(P, n, 1, "pings")
	}
	c.Require(P, len(watchers), 1, "watches")
}
