package main

import (
	"container/list"

	"github.com/use-go/gosips/core"
)

func init() {
	machines["params"] = func() Machine { return &paramsMachine{} }
	machines["scanner"] = func() Machine { return &scannerMachine{} }
	machines["hostport"] = func() Machine { return &hostMachine{} }
}

// ---- parameter lists (P12, P16)

type paramsMachine struct {
	lists []*core.NameValueList
	names []string
}

func optVal(v interface{}) []interface{} {
	if v == nil {
		return []interface{}{}
	}
	return []interface{}{enc(v.(string))}
}
func (a Args) Opt(i int) interface{} {
	l := a.List(i)
	if len(l) == 0 {
		return nil
	}
	return l.Str(0)
}

func listOut(l *list.List) []interface{} {
	r := []interface{}{}
	for e := l.Front(); e != nil; e = e.Next() {
		r = append(r, enc(e.Value.(string)))
	}
	return r
}

func (m *paramsMachine) show() interface{} {
	out := []interface{}{}
	for _, l := range m.lists {
		by := []interface{}{}
		for _, n := range m.names {
			nv := l.GetNameValue(n)
			r := rec{"has": l.HasNameValue(n), "val": optVal(l.GetValue(n)), "par": enc(l.GetParameter(n)), "q": false, "nv": ""}
			if nv != nil {
				r["q"], r["nv"] = nv.IsValueQuoted(), enc(nv.String())
			}
			by = append(by, r)
		}
		out = append(out, rec{"str": enc(l.String()), "len": l.Len(), "names": listOut(l.GetNames()), "by": by})
	}
	return out
}

func (m *paramsMachine) nv(a Args, i int) *core.NameValue {
	nv := core.NewNameValue(a.Str(i), a.Opt(i+1))
	if a.Bool(i + 2) {
		nv.SetQuotedValue()
	}
	return nv
}

func (m *paramsMachine) Do(op string, a Args) interface{} {
	var ret interface{}
	if op == "start" {
		for i := 0; i < a.Int(0); i++ {
			m.lists = append(m.lists, core.NewNameValueList("l"))
		}
		for i := range a.List(1) {
			m.names = append(m.names, a.List(1).Str(i))
		}
		return rec{"ret": ret, "lists": m.show()}
	}
	l := m.lists[a.Int(0)-1]
	switch op {
	case "add":
		l.AddNameAndValue(a.Str(1), a.Opt(2))
	case "addnv":
		l.AddNameValue(m.nv(a, 1))
	case "set":
		l.SetNameAndValue(a.Str(1), a.Opt(2))
	case "setnv":
		l.SetNameValue(m.nv(a, 1))
	case "delete":
		ret = l.Delete(a.Str(1))
	case "clear":
		l.Init()
	case "setvalue":
		l.GetNameValue(a.Str(1)).SetValue(a.Opt(2))
	case "rename":
		l.GetNameValue(a.Str(1)).SetName(a.Str(2))
	case "quote":
		l.GetNameValue(a.Str(1)).SetQuotedValue()
	case "nvsep":
		l.GetNameValue(a.Str(1)).SetSeparator(a.Str(2))
	case "sep":
		l.SetSeparator(a.Str(1))
	case "concat":
		l.Concatenate(m.lists[a.Int(1)-1], a.Bool(2))
	case "concatnil":
		l.Concatenate(nil, a.Bool(1))
	case "addnil":
		l.AddNameValue(nil)
	case "clone":
		m.lists[a.Int(1)-1] = l.Clone().(*core.NameValueList)
	case "nvclone": // a copied pair goes to the other list
		m.lists[a.Int(2)-1].AddNameValue(l.GetNameValue(a.Str(1)).Clone().(*core.NameValue))
	default:
		return badOp(op)
	}
	return rec{"ret": ret, "lists": m.show()}
}

// ---- the scanner (P15)

type scannerMachine struct{ l *core.CoreLexer }

func (m *scannerMachine) Do(op string, a Args) interface{} {
	if op == "start" {
		m.l = core.NewCoreLexer("charLexer", a.Str(0))
		m.l.AddLexer("kw")
		for i, k := range a.List(1) {
			m.l.AddKeyword(k.(string), core.CORELEXER_START+10+i)
		}
		m.l.AddLexer("charLexer")
		m.l.SelectLexer("kw")
		return rec{"rest": enc(m.l.GetRest()), "more": m.l.HasMoreChars(), "ptr": m.l.GetPtr(), "buf": enc(m.l.GetBuffer())}
	}
	var ret interface{}
	bad := false
	b := func(c byte, err error) {
		bad = err != nil
		if !bad {
			ret = enc(string([]byte{c}))
		} else {
			ret = ""
		}
	}
	s := func(t string, err error) { bad = err != nil; ret = enc(t) }
	tok := func(t *core.Token) interface{} {
		if t == nil {
			return nil
		}
		return []interface{}{enc(t.GetTokenValue()), m.kind(t.GetTokenType())}
	}
	switch op {
	case "lookahead":
		b(m.l.LookAhead())
	case "lookaheadk":
		b(m.l.LookAheadK(a.Int(0)))
	case "next":
		b(m.l.GetNextChar())
	case "consumek":
		m.l.ConsumeK(a.Int(0))
	case "consume":
		m.l.Consume()
	case "peekid":
		ret = enc(m.l.PeekNextId())
	case "nextid":
		ret = enc(m.l.GetNextId())
	case "peektok":
		t, err := m.l.PeekNextToken()
		bad = err != nil
		if !bad {
			ret = tok(t)
		}
	case "peektoks":
		ts, err := m.l.PeekNextTokenK(a.Int(0))
		bad = err != nil
		if !bad {
			l := []interface{}{}
			for _, t := range ts {
				l = append(l, tok(t))
			}
			ret = l
		}
	case "match":
		t, err := m.l.Match(m.code(a.Str(0)))
		bad = err != nil
		if !bad {
			ret = []interface{}{tok(t), tok(m.l.GetNextToken())}
		}
	case "ttoken":
		ret = enc(m.l.Ttoken())
	case "ttokenspace":
		ret = enc(m.l.TtokenAllowSpace())
	case "startsid":
		ret = m.l.StartsId()
	case "sporht":
		m.l.SPorHT()
	case "number":
		n, err := m.l.Number()
		bad = err != nil
		if !bad {
			ret = n
		}
	case "quoted":
		s(m.l.QuotedString())
	case "comment":
		s(m.l.Comment())
	case "nosemi":
		ret = enc(m.l.ByteStringNoSemicolon())
	case "nocomma":
		ret = enc(m.l.ByteStringNoComma())
	case "nchars":
		ret = enc(m.l.NCharAsString(a.Int(0)))
	case "getstring":
		s(m.l.GetString(a.Str(0)[0]))
	case "delim":
		s(m.l.GetNextTokenByDelim(a.Str(0)[0]))
	case "line":
		ret = enc(m.l.GetLine())
	case "peekline":
		ret = enc(m.l.PeekLine())
	case "nexttoken":
		ret = enc(m.l.NextToken())
	case "lines":
		ls := m.l.GetLines()
		l := []interface{}{}
		for i := 0; i < len(ls); i++ {
			l = append(l, enc(ls[i]))
		}
		ret = l
	case "rewind":
		m.l.RewindInputPosition(a.Int(0))
	case "mark":
		ret = m.l.MarkInputPosition()
	case "namevalue":
		p := core.NewCoreParser("")
		p.SetLexer(m.l)
		nv, err := p.NameValue(a.Str(0)[0])
		bad = err != nil
		if !bad {
			ret = []interface{}{enc(nv.GetName()), optVal(nv.GetValue()), nv.IsValueQuoted()}
		}
	case "class":
		c := a.Str(0)[0]
		ret = []interface{}{m.l.IsAlpha(c), m.l.IsDigit(c), m.l.IsHexDigit(c), enc(m.l.CharAsString(c))}
	default:
		return badOp(op)
	}
	if bad {
		ret = nil
	}
	return rec{"ret": ret, "err": bad, "ptr": m.l.GetPtr(), "rest": enc(m.l.GetRest()), "more": m.l.HasMoreChars()}
}

func (m *scannerMachine) code(k string) int {
	switch k {
	case "ID":
		return core.CORELEXER_ID
	case "DIGIT":
		return core.CORELEXER_DIGIT
	case "ALPHA":
		return core.CORELEXER_ALPHA
	case "WS":
		return core.CORELEXER_WHITESPACE
	case "KW1":
		return core.CORELEXER_START + 10
	case "KW2":
		return core.CORELEXER_START + 11
	}
	return int(dec(k)[0])
}
func (m *scannerMachine) kind(t int) string {
	switch t {
	case core.CORELEXER_ID:
		return "ID"
	case core.CORELEXER_DIGIT:
		return "DIGIT"
	case core.CORELEXER_ALPHA:
		return "ALPHA"
	case core.CORELEXER_WHITESPACE:
		return "WS"
	case core.CORELEXER_START + 10:
		return "KW1"
	case core.CORELEXER_START + 11:
		return "KW2"
	}
	return enc(string([]byte{byte(t)}))
}

// ---- hosts and ports (P14, P16)

type hostMachine struct {
	hp    *core.HostPort
	other *core.HostPort
}

func hostOut(hp *core.HostPort) interface{} {
	if hp == nil {
		return nil
	}
	h := hp.GetHost()
	if h == nil {
		return rec{"host": nil, "port": hp.GetPort(), "hasport": hp.HasPort(), "str": enc(hp.String())}
	}
	return rec{"host": rec{"name": enc(h.GetHostName()), "addr": enc(h.GetAddress()), "isname": h.IsHostName(), "isip": h.IsIPAddress(), "str": enc(h.String())},
		"port": hp.GetPort(), "hasport": hp.HasPort(), "str": enc(hp.String())}
}

func (m *hostMachine) Do(op string, a Args) interface{} {
	bad := false
	rest := ""
	switch op {
	case "parse":
		p := core.NewHostNameParser(a.Str(0))
		hp, err := p.GetHostPort()
		bad = err != nil
		if !bad {
			m.hp = hp
			rest = p.GetLexer().GetRest()
		}
	case "parsehost":
		p := core.NewHostNameParser(a.Str(0))
		h, err := p.GetHost()
		bad = err != nil
		if !bad {
			m.hp = core.NewHostPort()
			m.hp.SetHost(h)
			rest = p.GetLexer().GetRest()
		}
	case "reparse":
		p := core.NewHostNameParser(m.hp.String())
		hp, err := p.GetHostPort()
		bad = err != nil
		if !bad {
			m.hp = hp
			rest = p.GetLexer().GetRest()
		}
	case "new":
		m.hp = core.NewHostPort()
	case "newhost":
		m.hp.SetHost(core.NewHost(a.Str(0)))
	case "sethostname":
		m.hp.GetHost().SetHostName(a.Str(0))
	case "sethostaddr":
		m.hp.GetHost().SetHostAddress(a.Str(0))
	case "setaddr":
		m.hp.GetHost().SetAddress(a.Str(0))
	case "setport":
		m.hp.SetPort(a.Int(0))
	case "removeport":
		m.hp.RemovePort()
	case "inet":
		m.hp.GetHost().GetInetAddress()
		m.hp.GetHost().GetIpAddress()
		m.hp.GetInetAddress()
	case "clone":
		m.other = m.hp.Clone().(*core.HostPort)
	case "clonehost":
		m.other = core.NewHostPort()
		m.other.SetHost(m.hp.GetHost().Clone().(*core.Host))
		m.other.SetPort(m.hp.GetPort())
	case "swap":
		m.hp, m.other = m.other, m.hp
	case "nilhost":
		m.hp.SetHost(nil)
	default:
		return badOp(op)
	}
	return rec{"err": bad, "rest": enc(rest), "hp": hostOut(m.hp), "other": hostOut(m.other)}
}
