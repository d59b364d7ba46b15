package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C40"] = ruleC40
}

func ruleC40(c *Ctx) {
	const DS, CR, TL, LD, CN, SV, RD = "dsn", "credentials", "tls", "load", "my.cnf", "verify", "rds"
	c.Rule(DS, "On every path of dbconn.Make to sql.Open: the DSN is mysql.dsn as is if set; else it is user:password@net(address)/db?params with net unix and the socket if set, else tcp and the host name (127.0.0.1 only if none is set), the database, and the connect timeout exactly if set. my.cnf is read exactly if set and fills in the rest before anything of it is used. A new configuration forgets the DSN.")
	c.Rule(CR, "On those paths the user is the one set (finch only if none), the password is what the password file contains if set, else the password set; the default password is used only if no user and no password are set.")
	c.Rule(TL, "On those paths: the DSN names the TLS configuration that was loaded from mysql.tls exactly if one is loaded, after registering it under that name, else that of Amazon RDS exactly if the address matches and it is not disabled, after registering it.")
	c.Rule(LD, "On every path of TLS.LoadTLS and TLS.Set: without TLS set there is no configuration; else there is one for the server given, with the CA of the CA file if set and the certificate of the files if set, or an error.")
	c.Rule(CN, "ParseMyCnf takes each setting from its own variable of section client only; no TLS files if ssl-mode is DISABLED, or PREFERRED on a socket.")
	c.Rule(SV, "InsecureSkipVerify is set only from mysql.tls.skip-verify, which the code turns on only for a socket with TLS and no host name; no DSN asks for TLS without verification.")
	c.Rule(RD, "The RDS CA is registered under the name the DSN uses, from the built-in bundle; its host name pattern matches RDS host names, with or without port, and no others (samples evaluated at analysis time).")
	d := &dsnRules{c: c, p: c.P}
	if !d.anchors(DS) {
		return
	}
	d.open(DS, CR, TL, SV)
	d.setConfig(DS)
	d.loadTLS(LD)
	d.mycnf(CN)
	d.skipVerify(SV)
	d.rds(RD)
}

type dsnRules struct {
	c             *Ctx
	p             *Prog
	mk            *ssa.Function
	cfg, tls      *types.Named
	f, tf         map[string]*types.Var // settings by Go name
	parse, loadT  *ssa.Function
	with, setTLS  *ssa.Function
	rdsName       string
	rdsPattern    *ssa.Global
	registerRDS   *ssa.Function
	registeredRDS bool
}

func fieldsOf(t *types.Named) map[string]*types.Var {
	m := map[string]*types.Var{}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			m[st.Field(i).Name()] = st.Field(i)
		}
	}
	return m
}

func (d *dsnRules) anchors(rule string) bool {
	c, p := d.c, d.p
	d.mk, d.parse = p.Func("dbconn", "", "Make"), p.Func("dbconn", "", "ParseMyCnf")
	d.cfg, d.tls = p.Type("config", "MySQL"), p.Type("config", "TLS")
	d.loadT, d.setTLS, d.with = p.Func("config", "TLS", "LoadTLS"), p.Func("config", "TLS", "Set"), p.Func("config", "MySQL", "With")
	d.registerRDS = p.Func("aws", "", "RegisterRDSCA")
	for what, ok := range map[string]bool{"dbconn.Make": d.mk != nil, "dbconn.ParseMyCnf": d.parse != nil, "config.MySQL": d.cfg != nil, "config.TLS": d.tls != nil,
		"config.TLS.LoadTLS": d.loadT != nil, "config.TLS.Set": d.setTLS != nil, "config.MySQL.With": d.with != nil, "aws.RegisterRDSCA": d.registerRDS != nil} {
		if !ok {
			c.Missing(rule, what)
			return false
		}
	}
	d.f, d.tf = fieldsOf(d.cfg), fieldsOf(d.tls)
	for _, n := range []string{"DSN", "MyCnf", "Socket", "Hostname", "TimeoutConnect", "Username", "Password", "PasswordFile", "Db", "DisableAutoTLS", "TLS"} {
		if d.f[n] == nil {
			c.Missing(rule, "config.MySQL."+n)
			return false
		}
	}
	for _, n := range []string{"CA", "Cert", "Key", "SkipVerify", "Disable", "MySQLMode"} {
		if d.tf[n] == nil {
			c.Missing(rule, "config.TLS."+n)
			return false
		}
	}
	return true
}

// pieces flattens a string made by concatenation or formatting with %s.
func (x *Exec) pieces(v *Val) []*Val {
	var out []*Val
	add := func(vs ...*Val) {
		for _, w := range vs {
			if s, ok := w.constStr(); ok {
				if s == "" {
					continue
				}
				if n := len(out); n > 0 {
					if o, ok := out[n-1].constStr(); ok {
						out[n-1] = x.T.konst(constant.MakeString(o+s), types.Typ[types.String])
						continue
					}
				}
			}
			out = append(out, w)
		}
	}
	v = stripIface(v)
	switch {
	case v.Op == "bin+":
		add(x.pieces(v.Args[0])...)
		add(x.pieces(v.Args[1])...)
	case v.Op == "pure" && v.Name == "fmt.Sprintf/0" && len(v.Args) > 0:
		f, ok := v.Args[0].constStr()
		parts := strings.Split(f, "%s")
		if !ok || len(parts) != len(v.Args) || strings.Contains(strings.Join(parts, ""), "%") {
			add(v)
			break
		}
		for i, p := range parts {
			if i > 0 {
				add(x.pieces(v.Args[i])...)
			}
			add(x.T.konst(constant.MakeString(p), types.Typ[types.String]))
		}
	case v.Op == "conv" && len(v.Args) == 1 && v.T != nil && isString(v.T) && v.Args[0].T != nil && isString(v.Args[0].T):
		add(x.pieces(v.Args[0])...)
	default:
		add(v)
	}
	return out
}

// setting: the setting a term is the value of, also before it was changed.
func (d *dsnRules) setting(x *Exec, v *Val) string {
	for v != nil {
		if f, _ := v.loadedField(); f != nil {
			if d.f[f.Name()] == f || d.tf[f.Name()] == f {
				return f.Name()
			}
			return ""
		}
		v = x.wasOf[v]
	}
	return ""
}

func isEmptyStr(v *Val) bool { s, ok := v.constStr(); return ok && s == "" }

// empty: whether the setting was empty, as far as the path asked.
func (d *dsnRules) empty(x *Exec, s *State, name string) (bool, bool) {
	for f, v := range s.facts {
		switch {
		case f.Op == "eq" && isEmptyStr(f.Args[1]) && d.setting(x, f.Args[0]) == name:
			return v, true
		case f.Op == "eq" && f.Args[0].Op == "len" && d.setting(x, f.Args[0].Args[0]) == name:
			if k, ok := f.Args[1].constInt(); ok && k == 0 {
				return v, true
			}
		}
	}
	return false, false
}

func (d *dsnRules) open(ds, cr, tl, sv string) {
	c := d.c
	x := NewExec(d.p, d.mk)
	x.Inline = func(f *ssa.Function) bool {
		return fnPkgPath(f) == modPath+"/dbconn" && f != d.parse && f.Name() != "RedactedDSN"
	}
	x.FactKeep = func(f *Val) bool {
		return f.find1(func(u *Val) bool {
			return d.setting(x, u) != "" || u.Op == "pure" || u.Op == "sym" && strings.Contains(u.Name, "LoadTLS")
		})
	}
	x.MaxTerm, x.MaxBin = 120, 120
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		sig := e.Instr.(ssa.CallInstruction).Common().Signature()
		switch {
		case e.Callee == modPath+"/config.True", e.Callee == "(*regexp.Regexp).MatchString", e.Callee == "(*regexp.Regexp).ReplaceAllString", e.Callee == "(*regexp.Regexp).Match":
			return []*Val{x.T.mk(Val{Op: "pure", Name: e.Callee + "/0", Args: e.Args, T: sig.Results().At(0).Type()})}
		case e.Callee == "fmt.Sprintf", e.Callee == "strings.Join":
			a := append([]*Val(nil), e.Args...)
			if els, ok := x.VarArgs(s, a[len(a)-1]); ok && e.Callee == "fmt.Sprintf" {
				a = append(a[:len(a)-1], els...)
			}
			return []*Val{x.T.mk(Val{Op: "pure", Name: e.Callee + "/0", Args: a, T: types.Typ[types.String]})}
		case strings.HasSuffix(e.Callee, ".ReadFile") && len(e.Args) == 1:
			v := x.T.mk(Val{Op: "pure", Name: "ReadFile/0", Args: e.Args, T: sig.Results().At(0).Type()})
			er := x.T.mk(Val{Op: "pure", Name: "ReadFile/1", Args: e.Args, T: sig.Results().At(1).Type()})
			return []*Val{v, er}
		}
		return nil
	}
	// A: 0 my.cnf read and merged, 1 benchmark registered, 2 RDS registered, 3 a setting used before my.cnf, 4 timeout in params, 5 tls in params: 1 other
	// RV: 0 tls loaded, 1 name registered, 2 tls name in the params, 3 error of loading, 4 parsed my.cnf, 5 TLS loaded term
	opens := 0
	fail := func(rule string, s *State, e *Event, what, msg string) {
		c.Fail(rule, siteName(e, what), e.Pos(), msg, x.TraceStr(s, 30)...)
	}
	param := func(s *State, e *Event, v *Val) {
		ps := x.pieces(v)
		if len(ps) == 0 {
			return
		}
		k, ok := ps[0].constStr()
		if !ok {
			return
		}
		switch {
		case strings.HasPrefix(k, "tls="):
			if len(ps) == 1 {
				s.RV[2] = x.T.konst(constant.MakeString(strings.TrimPrefix(k, "tls=")), types.Typ[types.String])
			} else {
				s.RV[2] = x.T.sym("tls", nil)
			}
		case k == "timeout=" && len(ps) == 2 && d.setting(x, ps[1]) == "TimeoutConnect":
			s.A[4] = 1
		case strings.HasPrefix(k, "timeout="):
			fail(ds, s, e, "timeout", "the connect timeout is not the one set")
		}
	}
	x.LoadEvents = true
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvLoad:
			// used before my.cnf is merged
			if e.Addr == nil || e.Addr.Op != "field" || e.Addr.Fld == nil || s.A[0] != 0 {
				return
			}
			if n := e.Addr.Fld.Name(); d.f[n] == e.Addr.Fld && n != "DSN" && n != "MyCnf" {
				s.A[3] = 1
			}
		case EvCall:
			switch {
			case e.Target == d.parse:
				if d.setting(x, e.Args[0]) != "MyCnf" {
					fail(ds, s, e, "my.cnf", "another file than mysql.mycnf is read")
				}
				if s.A[3] == 1 {
					fail(ds, s, e, "my.cnf", "settings are used before my.cnf is read")
				}
			case e.Target == d.with:
				if len(e.Args) == 2 && s.RV[4] != nil && e.Args[1] == s.RV[4] {
					s.A[0] = 1
				}
			case strings.HasSuffix(e.Callee, "mysql.RegisterTLSConfig"):
				if s.RV[0] != nil && e.Args[1] == s.RV[0] {
					s.RV[1] = e.Args[0]
				} else {
					fail(tl, s, e, "register", "a TLS configuration other than the one loaded is registered")
				}
			case e.Target == d.registerRDS:
				s.A[2] = 1
			case e.Target == d.loadT:
				arg := e.Args[0]
				if !arg.find1(func(u *Val) bool { return fieldIs(u, d.f["TLS"]) }) && d.setting(x, arg) == "" && !d.ofTLS(x, arg) {
					fail(tl, s, e, "load", "another TLS configuration than mysql.tls is loaded")
				}
				if emp, known := d.empty(x, s, "Hostname"); !(known && emp) {
					if !e.Args[1].find1(func(u *Val) bool { return d.setting(x, u) == "Hostname" }) {
						fail(tl, s, e, "server", "the certificate is not verified for the host name")
					} else if d.setting(x, e.Args[1]) == "Hostname" {
						fail(tl, s, e, "server", "the certificate is verified for a host name with port")
					} else if a := e.Args[1]; a.Op == "pure" && strings.HasPrefix(a.Name, "(*regexp.Regexp).ReplaceAllString") && len(a.Args) == 3 {
						d.portPattern(tl, a, func(msg string) { fail(tl, s, e, "server", msg) })
					}
				}
			case e.Callee == "database/sql.Open":
				opens++
				d.opened(x, s, e, fail, ds, cr, tl)
			}
		case EvRet:
			if e.Target == d.loadT && len(e.Res) == 2 {
				s.RV[0], s.RV[3] = e.Res[0], e.Res[1]
			}
			if e.Target == d.parse && len(e.Res) == 2 {
				s.RV[4] = e.Res[0]
			}
		case EvStore:
			if e.Addr.Op == "elem" {
				param(s, e, e.Val)
			}
			if e.Addr.Op == "field" && e.Addr.Fld != nil && isString(e.Addr.Fld.Type()) && d.f[e.Addr.Fld.Name()] != e.Addr.Fld {
				s.RV[5], s.RV[6] = e.Val, e.Raw
			}
			if e.Addr.Op == "field" && e.Addr.Fld == d.tf["SkipVerify"] {
				c.Obl(sv, siteName(e, "auto"))
				sock, k1 := d.empty(x, s, "Socket")
				host, k2 := d.empty(x, s, "Hostname")
				if !k1 || sock || !k2 || !host {
					fail(sv, s, e, "auto", "verification is turned off though there is a host name to verify")
				}
			}
		}
	}
	x.Run(nil, nil)
	c.finish(ds, x)
	if opens == 0 {
		c.Missing(ds, "sql.Open in dbconn.Make")
	}
	c.Obl(ds, "paths to sql.Open")
	c.Obl(cr, "paths to sql.Open")
	c.Obl(tl, "paths to sql.Open")
	c.Count("paths_to_open", opens)
}

// ofTLS: the value of the TLS settings.
func (d *dsnRules) ofTLS(x *Exec, v *Val) bool {
	for v != nil {
		if v.T != nil && namedOf(v.T) == d.tls || v.Op == "with" || v.Op == "withe" {
			return true
		}
		v = x.wasOf[v]
	}
	return false
}

func (d *dsnRules) opened(x *Exec, s *State, e *Event, fail func(rule string, s *State, e *Event, what, msg string), ds, cr, tl string) {
	arg := e.Args[1]
	if arg == s.RV[5] && s.RV[6] != nil {
		arg = s.RV[6]
	}
	ps := x.pieces(arg)
	isDSN := len(ps) == 1 && d.setting(x, ps[0]) == "DSN"
	if emp, known := d.empty(x, s, "DSN"); known && !emp {
		if !isDSN {
			fail(ds, s, e, "explicit", "mysql.dsn is not used as is")
		}
		return
	}
	if len(ps) == 1 && !isDSN {
		if f, _ := ps[0].loadedField(); f != nil && isString(f.Type()) && f.Pkg() != nil && f.Pkg().Path() == modPath+"/dbconn" {
			return // set before
		}
	}
	if emp, known := d.empty(x, s, "DSN"); !known || !emp || isDSN {
		fail(ds, s, e, "explicit", "mysql.dsn does not come first")
		return
	}
	// my.cnf
	if emp, known := d.empty(x, s, "MyCnf"); !known && s.A[0] == 0 || known && !emp && s.A[0] == 0 {
		fail(ds, s, e, "my.cnf", "my.cnf is not used")
	}
	str := func(i int) (string, bool) {
		if i < 0 || i >= len(ps) {
			return "", false
		}
		return ps[i].constStr()
	}
	// find "@net(" and ")/"
	at := -1
	for i := range ps {
		if k, ok := str(i); ok && (strings.Contains(k, "@tcp(") || strings.Contains(k, "@unix(")) {
			at = i
		}
	}
	if at < 0 {
		fail(ds, s, e, "shape", "the DSN has no network and address")
		return
	}
	k, _ := str(at)
	net := "tcp"
	if strings.Contains(k, "@unix(") {
		net = "unix"
	}
	i := strings.Index(k, "@"+net+"(")
	cred := append([]*Val{}, ps[:at]...)
	if i > 0 {
		cred = append(cred, x.T.konst(constant.MakeString(k[:i]), types.Typ[types.String]))
	}
	rest := k[i+len(net)+2:]
	var addr *Val
	next := at + 1
	if rest != "" { // constant address
		j := strings.Index(rest, ")/")
		if j < 0 {
			fail(ds, s, e, "shape", "the DSN has no database")
			return
		}
		addr = x.T.konst(constant.MakeString(rest[:j]), types.Typ[types.String])
		rest = rest[j:]
	} else if next < len(ps) {
		addr = ps[next]
		rest, _ = str(next + 1)
		next += 2
	}
	if !strings.HasPrefix(rest, ")/") || addr == nil {
		fail(ds, s, e, "shape", "the DSN has no address")
		return
	}
	// socket or host
	sock, known := d.empty(x, s, "Socket")
	switch {
	case !known:
		fail(ds, s, e, "socket", "the socket does not come first")
	case !sock:
		if net != "unix" || d.setting(x, addr) != "Socket" {
			fail(ds, s, e, "socket", "the socket is not used")
		}
	default:
		host, known := d.empty(x, s, "Hostname")
		a, isConst := addr.constStr()
		switch {
		case net != "tcp":
			fail(ds, s, e, "address", "a socket is used though there is none")
		case !known:
			fail(ds, s, e, "address", "the default address is not considered")
		case host && (!isConst || a != "127.0.0.1"):
			fail(ds, s, e, "address", "the default address is not 127.0.0.1")
		case !host && d.setting(x, addr) != "Hostname":
			fail(ds, s, e, "address", "the host name is not used")
		}
	}
	// database
	if rest != ")/" {
		fail(ds, s, e, "database", "the database is not the one set")
	} else if next >= len(ps) || d.setting(x, ps[next]) != "Db" {
		fail(ds, s, e, "database", "the database is not the one set")
	}
	// parameters
	tail := ps[min(next+1, len(ps)):]
	joined := false
	for _, t := range tail {
		joined = joined || t.find1(func(u *Val) bool { return u.Op == "pure" && u.Name == "strings.Join/0" && len(u.Args) == 2 })
		if w, ok := t.constStr(); ok {
			for _, prm := range strings.Split(strings.TrimPrefix(w, "?"), "&") {
				if strings.HasPrefix(prm, "tls=") {
					s.RV[2] = x.T.konst(constant.MakeString(strings.TrimPrefix(prm, "tls=")), types.Typ[types.String])
				}
			}
		}
		if d.setting(x, t) == "TimeoutConnect" {
			s.A[4] = 1
		}
	}
	if q, ok := str(next + 1); !ok || !strings.HasPrefix(q, "?") {
		fail(ds, s, e, "params", "the DSN has no parameters")
	} else if !joined && (s.A[4] == 1 || s.RV[2] != nil) && len(tail) < 2 && len(q) == 1 {
		fail(ds, s, e, "params", "the parameters are not in the DSN")
	}
	if emp, known := d.empty(x, s, "TimeoutConnect"); !known || emp == (s.A[4] == 1) {
		fail(ds, s, e, "timeout", "the connect timeout is not set exactly if configured")
	}
	d.credentials(x, s, e, fail, cr, cred)
	d.tlsParam(x, s, e, fail, tl, addr)
}

func (d *dsnRules) credentials(x *Exec, s *State, e *Event, fail func(rule string, s *State, e *Event, what, msg string), cr string, cred []*Val) {
	user, pass := (*Val)(nil), []*Val(nil)
	if len(cred) > 0 {
		user = cred[0]
		if k, ok := user.constStr(); ok {
			if j := strings.Index(k, ":"); j >= 0 {
				user = x.T.konst(constant.MakeString(k[:j]), types.Typ[types.String])
				if k[j+1:] != "" {
					pass = append(pass, x.T.konst(constant.MakeString(k[j+1:]), types.Typ[types.String]))
				}
				pass = append(pass, cred[1:]...)
			} else if len(cred) > 1 {
				fail(cr, s, e, "shape", "user and password are not separated")
				return
			}
		} else if len(cred) > 1 {
			k, ok := cred[1].constStr()
			if !ok || !strings.HasPrefix(k, ":") {
				fail(cr, s, e, "shape", "user and password are not separated")
				return
			}
			if k != ":" {
				pass = append(pass, x.T.konst(constant.MakeString(k[1:]), types.Typ[types.String]))
			}
			pass = append(pass, cred[2:]...)
		}
	}
	noUser, known := d.empty(x, s, "Username")
	switch {
	case !known || user == nil:
		fail(cr, s, e, "user", "the default user is not considered")
		return
	case noUser:
		if u, ok := user.constStr(); !ok || u != "finch" {
			fail(cr, s, e, "user", "the default user is not finch")
		}
	case d.setting(x, user) != "Username":
		fail(cr, s, e, "user", "the user is not the one set")
	}
	noFile, known := d.empty(x, s, "PasswordFile")
	if !known {
		fail(cr, s, e, "password", "the password file does not come first")
		return
	}
	var from *Val
	if len(pass) == 1 {
		from = pass[0]
	} else if len(pass) > 1 {
		fail(cr, s, e, "password", "the password is not the one set")
		return
	}
	isFile := func(v *Val) bool {
		return v.find1(func(u *Val) bool {
			return u.Op == "pure" && u.Name == "ReadFile/0" && d.setting(x, u.Args[0]) == "PasswordFile"
		})
	}
	isNone := func() bool { // the path found the password to be empty
		for f, v := range s.facts {
			if f.Op == "eq" && v && isEmptyStr(f.Args[1]) && (d.setting(x, f.Args[0]) == "Password" && noFile || isFile(f.Args[0])) {
				return true
			}
			if f.Op == "eq" && v && f.Args[0].Op == "len" && isFile(f.Args[0]) {
				return true
			}
		}
		return false
	}
	switch {
	case from == nil:
		if !isNone() {
			fail(cr, s, e, "password", "the password is not used")
		} else if noUser && noFile {
			fail(cr, s, e, "password", "the default password is not used")
		}
	case from.isConst():
		w, _ := from.constStr()
		if noPass, _ := d.empty(x, s, "Password"); w != "amazing" || !noUser || !noPass || !isNone() {
			fail(cr, s, e, "password", "the default password is used though a user or password is set")
		}
	case !noFile:
		if !isFile(from) {
			fail(cr, s, e, "password", "the password is not that of the password file")
		}
	default:
		if d.setting(x, from) != "Password" {
			fail(cr, s, e, "password", "the password is not the one set")
		}
	}
}

func (d *dsnRules) tlsParam(x *Exec, s *State, e *Event, fail func(rule string, s *State, e *Event, what, msg string), tl string, addr *Val) {
	if s.RV[0] == nil {
		fail(tl, s, e, "load", "mysql.tls is not loaded")
		return
	}
	if nl, known := x.IsNil(s, s.RV[3]); !known || !nl {
		fail(tl, s, e, "error", "TLS is used though loading it failed")
	}
	none, known := x.IsNil(s, s.RV[0])
	name := ""
	if s.RV[2] != nil {
		name, _ = s.RV[2].constStr()
		if name == "" {
			fail(tl, s, e, "name", "cannot tell which TLS configuration the DSN names")
			return
		}
	}
	switch {
	case !known:
		fail(tl, s, e, "loaded", "whether TLS is configured makes no difference")
	case !none:
		reg := ""
		if s.RV[1] != nil {
			reg, _ = s.RV[1].constStr()
		}
		if reg == "" {
			fail(tl, s, e, "register", "the TLS configuration is not registered")
		} else if name != reg {
			fail(tl, s, e, "param", "the DSN does not name the TLS configuration")
		}
	default:
		// Amazon RDS
		match, asked := false, false
		disabled, asked2 := false, false
		for f, v := range s.facts {
			if f.Op != "pure" {
				continue
			}
			if strings.HasPrefix(f.Name, "(*regexp.Regexp).Match") && len(f.Args) == 2 && f.Args[0].Op == "load" && f.Args[0].Args[0].Op == "global" {
				if f.Args[1] == addr || d.setting(x, f.Args[1]) == "Hostname" || d.setting(x, f.Args[1]) != "" && d.setting(x, f.Args[1]) == d.setting(x, addr) || f.Args[1].isConst() {
					match, asked = v, true
					d.rdsPattern = d.global(f.Args[0].Args[0].Name)
				}
			}
			if f.Name == modPath+"/config.True/0" && d.setting(x, f.Args[0]) == "DisableAutoTLS" {
				disabled, asked2 = v, true
			}
		}
		want := asked && match && asked2 && !disabled
		if name != "" {
			if !want {
				fail(tl, s, e, "rds", "RDS TLS is used for another address, or though it is disabled")
			}
			if s.A[2] == 0 {
				fail(tl, s, e, "rds", "the RDS CA is not registered")
			}
			if d.rdsName == "" {
				d.rdsName = name
			} else if d.rdsName != name {
				fail(tl, s, e, "rds", "the RDS CA has several names")
			}
		} else if !(asked && !match || asked2 && disabled) {
			fail(tl, s, e, "rds", "RDS TLS is not used for an RDS address")
		}
	}
}

func (d *dsnRules) global(name string) *ssa.Global {
	for _, fn := range d.p.FuncsOf("dbconn") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && (g.Name() == name || g.String() == name || strings.HasSuffix(name, "."+g.Name())) {
						return g
					}
				}
			}
		}
	}
	return nil
}

// portPattern: what the pattern removes from a host name.
func (d *dsnRules) portPattern(rule string, a *Val, bad func(msg string)) {
	if a.Args[0].Op != "load" || a.Args[0].Args[0].Op != "global" {
		return
	}
	g := d.global(a.Args[0].Args[0].Name)
	re, err := regexp.Compile(d.pattern(g))
	to, ok := a.Args[2].constStr()
	if g == nil || err != nil || !ok || d.pattern(g) == "" {
		d.c.Missing(rule, "constant pattern of ports")
		return
	}
	for h, want := range map[string]string{"db.example.com:3306": "db.example.com", "db.example.com": "db.example.com", "10.0.0.1:13306": "10.0.0.1", "db1:1": "db1", "db2": "db2"} {
		if got := re.ReplaceAllString(h, to); got != want {
			bad(fmt.Sprintf("for address %s, the certificate is verified for %q", h, got))
		}
	}
}

// pattern: the constant the global regular expression is made of.
func (d *dsnRules) pattern(g *ssa.Global) string {
	pat := ""
	for _, fn := range d.p.FuncsOf("dbconn") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && g != nil && st.Addr == ssa.Value(g) {
					if cl, ok := st.Val.(*ssa.Call); ok && len(cl.Call.Args) == 1 {
						if k, ok := cl.Call.Args[0].(*ssa.Const); ok {
							pat = constant.StringVal(k.Value)
						}
					}
				}
			}
		}
	}
	return pat
}

// setConfig: a new configuration forgets the DSN.
func (d *dsnRules) setConfig(rule string) {
	c, p := d.c, d.p
	set := p.Func("dbconn", "", "SetConfig")
	if set == nil {
		c.Missing(rule, "dbconn.SetConfig")
		return
	}
	c.Obl(rule, "SetConfig")
	x := NewExec(p, set)
	x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/dbconn" }
	x.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvStore:
			if e.Val == x.ArgVal(0) || e.Raw == x.ArgVal(0) {
				s.A[0] = 1
			}
			if e.Addr.Op == "field" && isString(e.Addr.Fld.Type()) && isEmptyStr(e.Val) {
				s.A[1] = 1
			}
			if e.Addr.Op == "global" && s.A[0] == 1 {
				s.A[1] = 1 // a new factory
			}
		case EvReturn:
			if s.A[0] == 0 {
				c.Fail(rule, siteName(e, "config"), e.Pos(), "the configuration is not kept", x.TraceStr(s, 14)...)
			}
			if s.A[1] == 0 {
				c.Fail(rule, siteName(e, "forget"), e.Pos(), "the DSN of the previous configuration is still used", x.TraceStr(s, 14)...)
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
}

// loadTLS decides TLS.Set and TLS.LoadTLS.
func (d *dsnRules) loadTLS(rule string) {
	c, p := d.c, d.p
	is := func(v *Val, name string) bool {
		return v != nil && v.find1(func(u *Val) bool { return (u.Op == "vfield" || u.Op == "load") && tlsField(u) == d.tf[name] })
	}
	emptyOf := func(s *State, name string) (bool, bool) {
		for f, v := range s.facts {
			if f.Op == "eq" && isEmptyStr(f.Args[1]) && tlsField(f.Args[0]) == d.tf[name] {
				return v, true
			}
		}
		return false, false
	}
	trueFn := modPath + "/config.True"
	model := func(x *Exec, s *State, e *Event) []*Val {
		sig := e.Instr.(ssa.CallInstruction).Common().Signature()
		var out []*Val
		switch {
		case e.Callee == trueFn, strings.HasSuffix(e.Callee, ".ReadFile"), e.Callee == "crypto/tls.LoadX509KeyPair":
			n := e.Callee[strings.LastIndex(e.Callee, ".")+1:]
			for i := 0; i < sig.Results().Len(); i++ {
				out = append(out, x.T.mk(Val{Op: "pure", Name: fmt.Sprintf("%s/%d", n, i), Args: e.Args, T: sig.Results().At(i).Type()}))
			}
		}
		return out
	}
	// Set
	c.Obl(rule, "Set")
	x := NewExec(p, d.setTLS)
	x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/config" && f.Name() != "True" }
	x.FactKeep = func(*Val) bool { return true }
	x.Model = model
	x.Hook = func(x *Exec, s *State, e *Event) {
		if e.Kind != EvReturn {
			return
		}
		r := e.Res[0]
		res, known := x.Ask(s, r)
		for _, v := range []bool{true, false} {
			if known && v != res {
				continue
			}
			o := s.clone()
			if !known && !x.Assume(o, r, v) {
				continue
			}
			disabled, kd := false, false
			mode, km := false, false
			for f, t := range o.facts {
				if f.Op == "pure" && f.Name == "True/0" && is(f.Args[0], "Disable") {
					disabled, kd = t, true
				}
				if f.Op == "eq" && tlsField(f.Args[0]) == d.tf["MySQLMode"] {
					if w, ok := f.Args[1].constStr(); ok && w == "DISABLED" {
						mode, km = t, true
					}
				}
			}
			some, none := false, 0
			for _, n := range []string{"CA", "Cert", "Key"} {
				emp, k := emptyOf(o, n)
				some = some || k && !emp
				if k && emp {
					none++
				}
			}
			ok := v && kd && !disabled && km && !mode && some || !v && (kd && disabled || km && mode || none == 3)
			if !ok {
				c.Fail(rule, siteName(e, "set"), e.Pos(), fmt.Sprintf("TLS counts as set: %v, against disable, ssl-mode or the files", v), x.TraceStr(s, 14)...)
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	// LoadTLS
	c.Obl(rule, "LoadTLS")
	y := NewExec(p, d.loadT)
	y.Inline = func(f *ssa.Function) bool {
		return fnPkgPath(f) == modPath+"/config" && f.Name() != "True" && f != d.setTLS
	}
	y.FactKeep = func(*Val) bool { return true }
	pair := func(els []*Val) bool {
		for _, v := range els {
			if v.Op == "pure" && v.Name == "LoadX509KeyPair/0" && tlsField(v.Args[0]) == d.tf["Cert"] && tlsField(v.Args[1]) == d.tf["Key"] {
				return true
			}
		}
		return false
	}
	y.Model = func(x *Exec, s *State, e *Event) []*Val {
		if e.Target == d.setTLS {
			return []*Val{x.T.sym("tls set", types.Typ[types.Bool])}
		}
		return model(x, s, e)
	}
	y.Hook = func(x *Exec, s *State, e *Event) {
		switch e.Kind {
		case EvStore:
			if e.Addr.Op == "field" && e.Addr.Fld != nil && e.Addr.Fld.Pkg() != nil && e.Addr.Fld.Pkg().Path() == "crypto/tls" {
				switch e.Addr.Fld.Name() {
				case "ServerName":
					s.RV[1] = e.Val
				case "RootCAs":
					s.RV[2] = e.Val
				case "Certificates":
					s.RV[3] = e.Val
					els, is := x.VarArgs(s, e.Val)
					if s.A[0] = 0; is && pair(els) || !is && s.A[1] == 1 {
						s.A[0] = 1
					}
				}
			}
		case EvCall:
			if e.Callee == "builtin append" && pair(e.Args) {
				s.A[1] = 1
			}
			if e.Callee == "(*crypto/x509.CertPool).AppendCertsFromPEM" {
				if e.Args[1].Op == "pure" && e.Args[1].Name == "ReadFile/0" && is(e.Args[1], "CA") {
					s.RV[0] = e.Args[0]
				}
			}
		case EvReturn:
			set, known := false, false
			for f, v := range s.facts {
				if f.Op == "sym" && f.Name == "tls set" {
					set, known = v, true
				}
			}
			errNil, ke := x.IsNil(s, e.Res[1])
			if ke && !errNil {
				return
			}
			cfg := e.Res[0]
			if !known {
				c.Fail(rule, siteName(e, "set"), e.Pos(), "whether TLS is set makes no difference", x.TraceStr(s, 14)...)
				return
			}
			if !set {
				if !cfg.isNil() {
					c.Fail(rule, siteName(e, "none"), e.Pos(), "there is a TLS configuration though TLS is not set", x.TraceStr(s, 14)...)
				}
				return
			}
			if cfg.Op != "alloc" {
				c.Fail(rule, siteName(e, "config"), e.Pos(), "there is no TLS configuration though TLS is set", x.TraceStr(s, 14)...)
				return
			}
			if v := s.RV[1]; v != x.ArgVal(1) {
				c.Fail(rule, siteName(e, "server"), e.Pos(), "the server name is not that given", x.TraceStr(s, 14)...)
			}
			if emp, k := emptyOf(s, "CA"); !k {
				c.Fail(rule, siteName(e, "ca"), e.Pos(), "the CA file makes no difference", x.TraceStr(s, 14)...)
			} else if v := s.RV[2]; !emp && (v == nil || s.RV[0] == nil || v != s.RV[0]) {
				c.Fail(rule, siteName(e, "ca"), e.Pos(), "the CA of the CA file is not used", x.TraceStr(s, 14)...)
			}
			e1, k1 := emptyOf(s, "Cert")
			e2, k2 := emptyOf(s, "Key")
			if !(k1 && e1) && !(k2 && e2) {
				ok := s.A[0] == 1
				if !ok {
					c.Fail(rule, siteName(e, "cert"), e.Pos(), "the certificate of the files is not used", x.TraceStr(s, 14)...)
				}
			}
		}
	}
	y.Run(nil, nil)
	c.finish(rule, y)
}

// tlsField: the field read, of a value or through a pointer.
func tlsField(v *Val) *types.Var {
	if v == nil {
		return nil
	}
	if v.Op == "vfield" {
		return v.Fld
	}
	f, _ := v.loadedField()
	return f
}

// mycnf decides ParseMyCnf.
func (d *dsnRules) mycnf(rule string) {
	c, p := d.c, d.p
	want := map[string]string{"Username": "user", "Password": "password", "Hostname": "host", "Socket": "socket"}
	wantTLS := map[string]string{"CA": "ssl-ca", "Cert": "ssl-cert", "Key": "ssl-key", "MySQLMode": "ssl-mode"}
	x := NewExec(p, d.parse)
	x.Inline = func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/dbconn" }
	x.MaxTerm, x.MaxBin = 120, 120
	x.FactKeep = func(*Val) bool { return true }
	x.Model = func(x *Exec, s *State, e *Event) []*Val {
		sig := e.Instr.(ssa.CallInstruction).Common().Signature()
		if strings.Contains(e.Callee, "ini.") && !strings.Contains(e.Callee, "ini.Load") || e.Target == d.setTLS {
			var out []*Val
			n := e.Callee[strings.LastIndex(e.Callee, ".")+1:]
			args := e.Args
			if e.Target == d.setTLS {
				args = nil
				n = "tls set"
			}
			for i := 0; i < sig.Results().Len(); i++ {
				out = append(out, x.T.mk(Val{Op: "pure", Name: fmt.Sprintf("ini %s/%d", n, i), Args: args, T: sig.Results().At(i).Type()}))
			}
			return out
		}
		return nil
	}
	vars := func(v *Val) (keys, sections []string) {
		v.find(func(u *Val) bool {
			if u.Op == "pure" && strings.HasPrefix(u.Name, "ini ") {
				for _, a := range u.Args {
					if k, ok := a.constStr(); ok {
						if strings.HasPrefix(u.Name, "ini Section") || strings.HasPrefix(u.Name, "ini GetSection") {
							sections = append(sections, k)
						} else {
							keys = append(keys, k)
						}
					}
				}
			}
			return false
		})
		return
	}
	for f := range want {
		c.Obl(rule, f)
	}
	for f := range wantTLS {
		c.Obl(rule, "TLS."+f)
	}
	oks := 0
	x.Hook = func(x *Exec, s *State, e *Event) {
		if e.Kind == EvStore && e.Addr.Op == "field" && e.Addr.Fld == d.f["Hostname"] {
			s.RV[0], s.RV[1] = e.Val, e.Raw
		}
		if e.Kind != EvReturn {
			return
		}
		if nl, known := x.IsNil(s, e.Res[1]); known && !nl {
			return
		}
		oks++
		get := func(f *types.Var) *Val { return x.T.vfield(e.Res[0], f) }
		check := func(name string, v *Val, key string, optional bool) {
			ks, secs := vars(v)
			bad := len(ks) == 0 || len(secs) == 0
			for _, k := range ks {
				if k != key && !(key == "host" && k == "port") {
					bad = true
				}
			}
			for _, k := range secs {
				bad = bad || k != "client"
			}
			if optional && (isEmptyStr(v) || v.Op == "zero") {
				bad = false
			}
			if key == "host" {
				ps := x.pieces(v)
				ok := false
				if len(ps) == 1 || len(ps) == 3 {
					ks, _ := vars(ps[0])
					ok = len(ks) == 1 && ks[0] == "host"
				}
				if len(ps) == 3 {
					ks, _ := vars(ps[2])
					w, _ := ps[1].constStr()
					ok = ok && w == ":" && len(ks) == 1 && ks[0] == "port"
				}
				bad = bad || !ok
			}
			if bad {
				c.Fail(rule, siteName(e, name), e.Pos(), name+" is not that of my.cnf variable "+key+" in section client", x.TraceStr(s, 14)...)
			}
		}
		for f, key := range want {
			v := get(d.f[f])
			if v == s.RV[0] && s.RV[1] != nil {
				v = s.RV[1]
			}
			check(f, v, key, false)
		}
		tls := get(d.f["TLS"])
		mode, sock := map[string]bool{}, false
		empty := map[string]bool{}
		for f, v := range s.facts {
			if f.Op != "eq" {
				continue
			}
			ks, _ := vars(f.Args[0])
			w, ok := f.Args[1].constStr()
			if !ok || len(ks) != 1 {
				continue
			}
			if ks[0] == "ssl-mode" {
				mode[w] = v
			}
			if w == "" {
				empty[ks[0]] = v
				if ks[0] == "socket" && !v {
					sock = true
				}
			}
		}
		m := x.T.vfield(tls, d.tf["MySQLMode"])
		if k, ok := m.constStr(); ok && k == "PREFERRED" {
			mode["PREFERRED"], mode["DISABLED"] = true, false
		}
		for f, key := range wantTLS {
			v := x.T.vfield(tls, d.tf[f])
			none := isEmptyStr(v) || v.Op == "zero"
			if f == "MySQLMode" {
				if none {
					c.Fail(rule, siteName(e, "mode"), e.Pos(), "the ssl-mode is not kept", x.TraceStr(s, 14)...)
				} else if k, ok := m.constStr(); !ok || k != "PREFERRED" || !mode[""] {
					check("TLS."+f, v, key, false)
				}
				continue
			}
			if dis, known := mode["DISABLED"]; (!known || dis) && !mode[""] {
				if !none {
					c.Fail(rule, siteName(e, "TLS."+f), e.Pos(), "TLS files are used though ssl-mode is DISABLED", x.TraceStr(s, 14)...)
				}
				continue
			}
			off := false
			if pref, known := mode["PREFERRED"]; sock && (!known || pref) {
				off = true
			}
			switch {
			case off && !none && !empty[key]:
				c.Fail(rule, siteName(e, "TLS."+f), e.Pos(), "TLS files are used on a socket though ssl-mode is PREFERRED", x.TraceStr(s, 14)...)
			case !off:
				check("TLS."+f, v, key, false)
			}
		}
	}
	x.Run(nil, nil)
	c.finish(rule, x)
	if oks == 0 {
		c.Missing(rule, "successful path of dbconn.ParseMyCnf")
	}
}

// skipVerify: every place that could turn verification off.
func (d *dsnRules) skipVerify(rule string) {
	c, p := d.c, d.p
	n := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					f := fieldOf(fa)
					if f.Name() == "InsecureSkipVerify" && f.Pkg() != nil && f.Pkg().Path() == "crypto/tls" {
						n++
						c.Fn(fn)
						c.Obl(rule, shortFn(fn))
						if !d.fromSkipVerify(st.Val, 0) {
							c.Fail(rule, shortFn(fn)+":skip", st.Pos(), "certificate verification is not decided by mysql.tls.skip-verify")
						}
					}
					if (f.Name() == "VerifyPeerCertificate" || f.Name() == "VerifyConnection") && f.Pkg() != nil && f.Pkg().Path() == "crypto/tls" {
						c.Fail(rule, shortFn(fn)+":skip", st.Pos(), "certificate verification is replaced")
					}
					if f == d.tf["SkipVerify"] && fnPkgPath(fn) != modPath+"/dbconn" {
						// merging defaults: only from the same setting
						if !d.fromSkipVerify(st.Val, 0) {
							c.Fail(rule, shortFn(fn)+":set", st.Pos(), "mysql.tls.skip-verify is set by other code")
						}
					}
				}
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}
					s := constant.StringVal(k.Value)
					for _, w := range []string{"tls=skip-verify", "tls=preferred", "tls=false", "allowCleartextPasswords=true", "allowFallbackToPlaintext=true"} {
						if strings.Contains(s, w) {
							c.Fail(rule, shortFn(fn)+":param", in.Pos(), "a DSN asks for "+w)
						}
					}
				}
			}
		}
	}
	c.Require(rule, n, 1, "uses of InsecureSkipVerify")
}

// fromSkipVerify: the value is that of the setting.
func (d *dsnRules) fromSkipVerify(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil || v.Value.Kind() == constant.Bool && !constant.BoolVal(v.Value)
	case *ssa.Call:
		if len(v.Call.Args) == 0 {
			return false
		}
		for _, a := range v.Call.Args {
			if !d.fromSkipVerify(a, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				return fieldOf(fa) == d.tf["SkipVerify"]
			}
			return d.fromSkipVerify(v.X, depth+1)
		}
	case *ssa.Field:
		st, ok := v.X.Type().Underlying().(*types.Struct)
		return ok && st.Field(v.Field) == d.tf["SkipVerify"]
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !d.fromSkipVerify(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		_, cx := v.X.(*ssa.Const)
		_, cy := v.Y.(*ssa.Const)
		return (cx || d.fromSkipVerify(v.X, depth+1)) && (cy || d.fromSkipVerify(v.Y, depth+1)) && !(cx && cy)
	}
	return false
}

// rds decides how the RDS CA is registered.
func (d *dsnRules) rds(rule string) {
	c, p := d.c, d.p
	c.Obl(rule, "RegisterRDSCA")
	n := 0
	for fn := range p.Reach(d.registerRDS) {
		if fnPkgPath(fn) != modPath+"/aws" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				switch cn := calleeName(ci.Common()); {
				case strings.HasSuffix(cn, "mysql.RegisterTLSConfig"):
					n++
					k, ok := ci.Common().Args[0].(*ssa.Const)
					if !ok || constant.StringVal(k.Value) != d.rdsName {
						c.Fail(rule, shortFn(fn)+":name", in.Pos(), "the RDS CA is registered under another name than the DSN uses: "+d.rdsName)
					}
				case cn == "(*crypto/x509.CertPool).AppendCertsFromPEM":
					n++
					u, ok := ci.Common().Args[1].(*ssa.UnOp)
					if ok {
						_, ok = u.X.(*ssa.Global)
					}
					if !ok {
						c.Fail(rule, shortFn(fn)+":bundle", in.Pos(), "the RDS CA is not the built-in bundle")
					}
				}
			}
		}
	}
	c.Require(rule, n, 2, "steps of registering the RDS CA")
	// the pattern
	if d.rdsPattern == nil {
		c.Missing(rule, "pattern of RDS host names")
		return
	}
	pat := d.pattern(d.rdsPattern)
	re, err := regexp.Compile(pat)
	if pat == "" || err != nil {
		c.Missing(rule, "constant pattern of RDS host names")
		return
	}
	for h, want := range map[string]bool{
		"db.abc123.us-east-1.rds.amazonaws.com": true, "db.abc123.us-east-1.rds.amazonaws.com:3306": true, "c.cluster-x.eu-west-2.rds.amazonaws.com:13306": true,
		"127.0.0.1": false, "localhost:3306": false, "db.example.com": false, "rds.amazonaws.com.example.com": false, "/tmp/mysql.sock": false, "db.us-east-1.rdsxamazonaws.com": false,
	} {
		c.Obl(rule, h)
		if re.MatchString(h) != want {
			c.Fail(rule, "pattern:"+h, d.rdsPattern.Pos(), fmt.Sprintf("host name %s is taken for an RDS host: %v", h, !want))
		}
	}
}
