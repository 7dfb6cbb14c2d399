package main

import (
	"container/list"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

func init() {
	machines["obj"] = func() Machine {
		return &objMachine{msgParser: parser.NewStringMsgParser(), listenedParser: parser.NewStringMsgParser()}
	}
}

// objMachine holds numbered objects of the library, calls their exported
// methods by name, and after every step shows each object under observation:
// its encoding and the answers of the getters the specification asked for.
type objMachine struct {
	// the message parsers of a behaviour: each parses one text after another
	msgParser, listenedParser *parser.StringMsgParser
	objs                      map[int]interface{}
	looks                     map[int][]string
	order                     []int
	met                       map[string]int
}
type badArg struct{ msg string }

func newKind(k string) interface{} {
	switch k {
	case "Accept":
		return header.NewAccept()
	case "Accept-Encoding":
		return header.NewAcceptEncoding()
	case "Accept-Language":
		return header.NewAcceptLanguage()
	case "Alert-Info":
		return header.NewAlertInfo()
	case "Allow":
		return header.NewAllow()
	case "Allow-Events":
		return header.NewAllowEvents()
	case "Authentication-Info":
		return header.NewAuthenticationInfo()
	case "Authorization":
		return header.NewAuthorization()
	case "CSeq":
		return header.NewCSeq(1, "INVITE")
	case "Call-ID":
		c, err := header.NewCallID("first@id")
		if err != nil {
			panic("NewCallID refuses first@id: " + err.Error())
		}
		return c
	case "Call-Info":
		return header.NewCallInfo()
	case "Contact":
		return header.NewContact()
	case "Content-Disposition":
		return header.NewContentDisposition()
	case "Content-Encoding":
		return header.NewContentEncoding()
	case "Content-Language":
		return header.NewContentLanguage()
	case "Content-Length":
		return header.NewContentLength()
	case "Content-Type":
		return header.NewContentType()
	case "Date":
		return header.NewDate()
	case "Error-Info":
		return header.NewErrorInfo()
	case "Event":
		return header.NewEvent()
	case "Expires":
		return header.NewExpires()
	case "Extension":
		return header.NewExtension("X-Ext")
	case "From":
		return header.NewFrom()
	case "In-Reply-To":
		return header.NewInReplyTo()
	case "Max-Forwards":
		return header.NewMaxForwards()
	case "MIME-Version":
		return header.NewMimeVersion()
	case "Min-Expires":
		return header.NewMinExpires()
	case "Organization":
		return header.NewOrganization()
	case "Priority":
		return header.NewPriority()
	case "Proxy-Authenticate":
		return header.NewProxyAuthenticate()
	case "Proxy-Authorization":
		return header.NewProxyAuthorization()
	case "Proxy-Require":
		return header.NewProxyRequire()
	case "RAck":
		return header.NewRAck()
	case "RSeq":
		return header.NewRSeq()
	case "Reason":
		return header.NewReason()
	case "Record-Route":
		return header.NewRecordRoute()
	case "Refer-To":
		return header.NewReferTo()
	case "Reply-To":
		return header.NewReplyTo()
	case "Require":
		return header.NewRequire()
	case "Retry-After":
		return header.NewRetryAfter()
	case "Route":
		return header.NewRoute()
	case "Server":
		return header.NewServer()
	case "Subject":
		return header.NewSubject()
	case "Subscription-State":
		return header.NewSubscriptionState()
	case "Supported":
		return header.NewSupported()
	case "Timestamp":
		return header.NewTimeStamp()
	case "To":
		return header.NewTo()
	case "Unsupported":
		return header.NewUnsupported()
	case "User-Agent":
		return header.NewUserAgent()
	case "Via":
		return header.NewVia()
	case "WWW-Authenticate":
		return header.NewWWWAuthenticate()
	case "Warning":
		return header.NewWarning()
	case "list:Accept":
		return header.NewAcceptList()
	case "list:Accept-Encoding":
		return header.NewAcceptEncodingList()
	case "list:Accept-Language":
		return header.NewAcceptLanguageList()
	case "list:Alert-Info":
		return header.NewAlertInfoList()
	case "list:Allow":
		return header.NewAllowList()
	case "list:Allow-Events":
		return header.NewAllowEventsList()
	case "list:Call-Info":
		return header.NewCallInfoList()
	case "list:Contact":
		return header.NewContactList()
	case "list:Content-Encoding":
		return header.NewContentEncodingList()
	case "list:Content-Language":
		return header.NewContentLanguageList()
	case "list:Error-Info":
		return header.NewErrorInfoList()
	case "list:In-Reply-To":
		return header.NewInReplyToList()
	case "list:Proxy-Authenticate":
		return header.NewProxyAuthenticateList()
	case "list:Proxy-Require":
		return header.NewProxyRequireList()
	case "list:Reason":
		return header.NewReasonList()
	case "list:Record-Route":
		return header.NewRecordRouteList()
	case "list:Require":
		return header.NewRequireList()
	case "list:Route":
		return header.NewRouteList()
	case "list:Supported":
		return header.NewSupportedList()
	case "list:Unsupported":
		return header.NewUnsupportedList()
	case "list:Via":
		return header.NewViaList()
	case "list:WWW-Authenticate":
		return header.NewWWWAuthenticateList()
	case "list:Warning":
		return header.NewWarningList()
	case "request":
		return message.NewSIPRequest()
	case "response":
		return message.NewSIPResponse()
	case "requestline":
		return header.NewRequestLine()
	case "statusline":
		return header.NewStatusLine()
	case "address":
		return address.NewAddressImpl()
	case "sipuri":
		return address.NewSipURIImpl()
	case "telurl":
		return address.NewTelURLImpl()
	case "telnumber":
		return address.NewTelephoneNumber()
	case "cid":
		return &header.CallIdentifier{}
	case "protocol":
		return header.NewProtocol()
	case "mediarange":
		return header.NewMediaRange()
	case "userinfo":
		return address.NewUserInfo()
	case "authority":
		return address.NewAuthority()
	case "challenge":
		return header.NewChallenge()
	case "params":
		return core.NewNameValueList("")
	case "host":
		return core.NewHost("h")
	case "hostport":
		return core.NewHostPort()
	}
	panic(harnessError("unknown kind " + k))
}

// headers made in one go from their value
var constructors = map[string]interface{}{
	"NewAllowFromString":             header.NewAllowFromString,
	"NewAllowEventsFromString":       header.NewAllowEventsFromString,
	"NewContentEncodingFromString":   header.NewContentEncodingFromString,
	"NewContentLanguageFromString":   header.NewContentLanguageFromString,
	"NewContentLengthFromInt":        header.NewContentLengthFromInt,
	"NewContentTypeFromString":       header.NewContentTypeFromString,
	"NewErrorInfoFromURI":            header.NewErrorInfoFromURI,
	"NewInReplyToFromCallIdentifier": header.NewInReplyToFromCallIdentifier,
	"NewProxyRequireFromString":      header.NewProxyRequireFromString,
	"NewRequireFromString":           header.NewRequireFromString,
	"NewSupportedFromString":         header.NewSupportedFromString,
	"NewUnsupportedFromString":       header.NewUnsupportedFromString,
	"NewRecordRouteFromAddress":      header.NewRecordRouteFromAddress,
	"NewRouteFromAddress":            header.NewRouteFromAddress,
	"NewReplyToFromAddress":          header.NewReplyToFromAddress,
	"NewRequestLineFromString":       header.NewRequestLineFromString,
}

// parseText parses text the way a user would for that kind of thing.
func (m *objMachine) parseText(kind, text string) (interface{}, error) {
	switch kind {
	case "header": // any header line
		p, err := parser.CreateParser(text)
		if err != nil {
			return nil, err
		}
		h, err := p.Parse()
		if err != nil {
			return nil, err
		}
		if h == nil {
			return nil, nil
		}
		return h, nil
	case "element": // the only value of a header line
		h, err := m.parseText("header", text)
		if err != nil {
			return nil, err
		}
		if l, ok := h.(header.SIPHeaderLister); ok {
			if l.Len() != 1 {
				return nil, fmt.Errorf("the list holds %d values", l.Len())
			}
			return l.Front().Value, nil
		}
		return h, nil
	case "address":
		a, err := parser.NewAddressParser(text).Address()
		if err != nil || a == nil {
			return nil, err
		}
		return a, nil
	case "uri":
		return parser.NewURLParser(text).Parse()
	case "message":
		return m.msgParser.ParseSIPMessage(text)
	case "messagebytes":
		b := []byte(text)
		o, err := m.msgParser.ParseSIPMessageFromByte(b)
		for i := range b { // the caller's buffer takes the next packet
			b[i] = '#'
		}
		return o, err
	case "request", "response": // a message of which kind it is is known
		o, err := m.msgParser.ParseSIPMessage(text)
		if err != nil {
			return nil, err
		}
		if _, ok := o.(*message.SIPRequest); o != nil && ok != (kind == "request") {
			panic(fmt.Sprintf("a %s is parsed as a %T", kind, o))
		}
		return o, nil
	case "requestline":
		r, err := parser.NewRequestLineParser(text).Parse()
		if err != nil || r == nil {
			return nil, err
		}
		return r, nil
	case "statusline":
		r, err := parser.NewStatusLineParser(text).Parse()
		if err != nil || r == nil {
			return nil, err
		}
		return r, nil
	}
	smp := m.msgParser
	var o interface{}
	var err error
	switch kind {
	case "sipheader": // a header as the message parser parses it on its own
		o, err = smp.ParseSIPHeader(text)
	case "sipurl":
		o, err = smp.ParseSIPUrl(text)
	case "url":
		o, err = smp.ParseUrl(text)
	case "sipaddress":
		o, err = smp.ParseAddress(text)
	case "hostport":
		o, err = smp.ParseHostPort(text)
	case "host":
		o, err = smp.ParseHost(text)
	case "hostport2":
		o, err = core.NewHostNameParser(text).GetHostPort()
	case "telephone":
		o, err = smp.ParSetelephoneNumber(text)
	case "siprequestline":
		o, err = smp.ParseSIPRequestLine(text)
	case "sipstatusline":
		o, err = smp.ParseSIPStatusLine(text)
	default:
		panic(harnessError("unknown text kind " + kind))
	}
	if err != nil {
		return nil, err
	}
	if o == nil || reflect.ValueOf(o).Kind() == reflect.Ptr && reflect.ValueOf(o).IsNil() {
		return nil, nil
	}
	return o, nil
}

func (m *objMachine) outcome(kind, text string) string {
	o, err := m.parseText(kind, text)
	if err != nil {
		return "error"
	}
	if o == nil || reflect.ValueOf(o).Kind() == reflect.Ptr && reflect.ValueOf(o).IsNil() {
		return "nothing"
	}
	_ = o.(fmt.Stringer).String()
	return "result"
}

// aListener notes what could not be parsed and gives up at the refuse-th time.
type aListener struct {
	heard  []interface{}
	refuse int
}

func (l *aListener) HandleException(err error, m message.Message, headerText, messageText string) error {
	if err == nil {
		panic("the listener is given no error")
	}
	if m == nil || messageText == "" {
		panic("the listener is given no message")
	}
	l.heard = append(l.heard, enc(strings.TrimRight(headerText, "\n")))
	if len(l.heard) == l.refuse {
		return err
	}
	return nil
}

var (
	tURI   = reflect.TypeOf((*address.URI)(nil)).Elem()
	tAddr  = reflect.TypeOf((*address.Address)(nil)).Elem()
	tError = reflect.TypeOf((*error)(nil)).Elem()
)

// arg makes the value a parameter of type t is given.
func (m *objMachine) arg(v interface{}, t reflect.Type) reflect.Value {
	if r, ok := v.(map[string]interface{}); ok {
		for k, x := range r {
			s, _ := x.(string)
			s = dec(s)
			switch k {
			case "addr":
				a, err := m.parseText("address", s)
				if err != nil {
					panic("the address " + s + " is not parsed: " + err.Error())
				}
				return reflect.ValueOf(a)
			case "uri":
				u, err := m.parseText("uri", s)
				if err != nil {
					panic("the URI " + s + " is not parsed: " + err.Error())
				}
				return reflect.ValueOf(u)
			case "cid":
				c, err := header.NewCallIdentifier(s)
				if err != nil {
					panic("the call identifier " + s + " is refused: " + err.Error())
				}
				return reflect.ValueOf(c)
			case "host":
				return reflect.ValueOf(core.NewHost(s))
			case "hostport":
				h, err := core.NewHostNameParser(s).GetHostPort()
				if err != nil {
					panic("the host and port " + s + " is not parsed: " + err.Error())
				}
				return reflect.ValueOf(h)
			case "nv":
				l := Args(x.([]interface{}))
				nv := core.NewNameValue(l.Str(0), l.Opt(1))
				if len(l) > 2 && l.Bool(2) {
					nv.SetQuotedValue()
				}
				return reflect.ValueOf(nv)
			case "date":
				d, err := time.Parse(time.RFC1123, s)
				if err != nil {
					panic(harnessError(err.Error()))
				}
				return reflect.ValueOf(&d)
			case "header", "element": // a header parsed from its line
				h, err := m.parseText(k, s+"\n")
				if err != nil {
					panic("the header " + s + " is not parsed: " + err.Error())
				}
				return reflect.ValueOf(h)
			case "headers": // a plain list of headers
				l := list.New()
				for i := range x.([]interface{}) {
					h, err := m.parseText("header", Args(x.([]interface{})).Str(i)+"\n")
					if err != nil {
						panic("a header is not parsed: " + err.Error())
					}
					l.PushBack(h)
				}
				return reflect.ValueOf(l)
			case "requestline", "statusline":
				h, err := m.parseText(k, s+"\n")
				if err != nil {
					panic("the start line " + s + " is not parsed: " + err.Error())
				}
				return reflect.ValueOf(h)
			case "emptylist":
				return reflect.ValueOf(newKind("list:" + s))
			case "strings":
				l := list.New()
				for i := range x.([]interface{}) {
					l.PushBack(Args(x.([]interface{})).Str(i))
				}
				return reflect.ValueOf(l)
			case "obj":
				o := m.objs[int(x.(float64))]
				if o == nil {
					panic(harnessError("no object"))
				}
				return reflect.ValueOf(o)
			case "deref": // the object itself rather than a pointer to it
				return reflect.ValueOf(m.objs[int(x.(float64))]).Elem()
			case "bytes":
				return reflect.ValueOf([]byte(s))
			case "text": // a text given where anything may be given
				return reflect.ValueOf(s)
			case "nil":
				return reflect.Zero(t)
			case "objs":
				sl := reflect.MakeSlice(t, 0, 4)
				for _, i := range x.([]interface{}) {
					sl = reflect.Append(sl, reflect.ValueOf(m.objs[int(i.(float64))]))
				}
				return sl
			}
		}
		panic(harnessError(fmt.Sprint("bad argument ", v)))
	}
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			panic(harnessError(fmt.Sprint("no text ", v)))
		}
		return reflect.ValueOf(dec(s)).Convert(t)
	case reflect.Int, reflect.Int64, reflect.Int32:
		if s, ok := v.(string); ok { // a number beyond what the specification can hold
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				panic(harnessError(err.Error()))
			}
			return reflect.ValueOf(n).Convert(t)
		}
		f, ok := v.(float64)
		if !ok {
			panic(harnessError(fmt.Sprint("no number ", v)))
		}
		return reflect.ValueOf(int64(f)).Convert(t)
	case reflect.Bool:
		return reflect.ValueOf(v.(bool))
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(v.(string), 64)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		return reflect.ValueOf(f).Convert(t)
	case reflect.Interface:
		if s, ok := v.(string); ok && t.NumMethod() == 0 {
			return reflect.ValueOf(dec(s))
		}
	}
	panic(harnessError(fmt.Sprintf("argument %v for parameter type %v", v, t)))
}

// method is the exported method of that name, nil when there is none.
func method(o interface{}, name string) reflect.Value {
	f := reflect.ValueOf(o).MethodByName(name)
	if !f.IsValid() {
		panic(harnessError(fmt.Sprintf("%T has no method %s", o, name)))
	}
	return f
}

func (m *objMachine) call(o interface{}, name string, a Args) (out []reflect.Value, err error) {
	f := method(o, name)
	t := f.Type()
	if t.NumIn() != len(a) && !t.IsVariadic() {
		panic(harnessError(fmt.Sprintf("%T.%s takes %d arguments, not %v", o, name, t.NumIn(), a)))
	}
	in := make([]reflect.Value, len(a))
	for i := range a {
		in[i] = m.arg(a[i], t.In(i))
	}
	res := f.Call(in)
	for i, r := range res {
		if t.Out(i) == tError {
			if !r.IsNil() {
				err = r.Interface().(error)
			}
			continue
		}
		out = append(out, r)
	}
	return out, err
}

// plain turns a result into comparable form.
func plain(v reflect.Value) interface{} {
	if !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return "<none>"
		}
		if v.Kind() == reflect.Interface && v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil() {
			return "<nothing that does not compare equal to nil>"
		}
		if l, ok := v.Interface().(header.Lister); ok {
			r := []interface{}{}
			for e := l.Front(); e != nil; e = e.Next() {
				r = append(r, plain(reflect.ValueOf(e.Value)))
			}
			return r
		}
		if l, ok := v.Interface().(*list.List); ok {
			r := []interface{}{}
			for e := l.Front(); e != nil; e = e.Next() {
				r = append(r, plain(reflect.ValueOf(e.Value)))
			}
			return r
		}
		if d, ok := v.Interface().(*time.Time); ok {
			return d.UTC().Format("Mon, 02 Jan 2006 15:04:05") + " GMT"
		}
		if v.Kind() == reflect.Interface {
			return plain(v.Elem())
		}
		if s, ok := v.Interface().(fmt.Stringer); ok {
			return enc(s.String())
		}
		return "?" + v.Type().String()
	case reflect.String:
		return enc(v.String())
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n := v.Int(); n > 2147483647 || n < -2147483648 {
			return strconv.FormatInt(n, 10)
		}
		return v.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return v.Uint()
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'f', -1, 32)
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case reflect.Slice:
		if b, ok := v.Interface().([]byte); ok {
			return enc(string(b))
		}
		r := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			r = append(r, plain(v.Index(i)))
		}
		return r
	}
	return "?" + v.Type().String()
}

func (m *objMachine) look(id int) interface{} {
	o := m.objs[id]
	get := rec{}
	text := ""
	for _, g := range m.looks[id] {
		if g == "String" {
			text = enc(o.(fmt.Stringer).String())
			continue
		}
		p := strings.Split(g, "|")
		var a Args
		for _, x := range p[1:] {
			if n, err := strconv.Atoi(x); err == nil {
				a = append(a, float64(n))
			} else {
				a = append(a, x)
			}
		}
		out, err := m.call(o, p[0], a)
		switch {
		case err != nil:
			get[g] = "error"
		case len(out) == 0:
			get[g] = nil
		default:
			get[g] = plain(out[0])
		}
	}
	return rec{"str": text, "get": get}
}

// follow walks a chain of getters: "GetAddress.GetURI" of an object.
func (m *objMachine) follow(o interface{}, path string) interface{} {
	for _, g := range strings.Split(path, ".") {
		p := strings.Split(g, "|")
		var a Args
		for _, x := range p[1:] {
			a = append(a, x)
		}
		out, err := m.call(o, p[0], a)
		if err != nil || len(out) == 0 || (out[0].Kind() == reflect.Ptr || out[0].Kind() == reflect.Interface) && out[0].IsNil() {
			panic("nothing from " + path)
		}
		o = out[0].Interface()
	}
	return o
}

func (m *objMachine) Do(op string, a Args) interface{} {
	if m.objs == nil {
		m.objs, m.looks, m.met = map[int]interface{}{}, map[int][]string{}, map[string]int{}
	}
	var ret interface{}
	var err error
	put := func(id int, o interface{}) {
		if _, had := m.objs[id]; !had {
			m.order = append(m.order, id)
		}
		m.objs[id] = o
	}
	blind := op == "do" // a call after which nothing is looked at
	if blind {
		op = "call"
	}
	switch op {
	case "new": // id, kind
		put(a.Int(0), newKind(a.Str(1)))
	case "construct": // id, constructor, arguments
		f := reflect.ValueOf(constructors[a.Str(1)])
		in := []reflect.Value{}
		for i := range a.List(2) {
			in = append(in, m.arg(a.List(2)[i], f.Type().In(i)))
		}
		put(a.Int(0), f.Call(in)[0].Interface())
	case "look": // id, getters: what is observed of the object from now on
		m.looks[a.Int(0)] = nil
		for i := range a.List(1) {
			m.looks[a.Int(0)] = append(m.looks[a.Int(0)], a.List(1).Str(i))
		}
	case "call": // id, method, arguments
		var out []reflect.Value
		out, err = m.call(m.objs[a.Int(0)], a.Str(1), a.List(2))
		if len(out) > 0 {
			ret = plain(out[0])
		}
	case "make": // new id, id, method, arguments: keep the result
		var out []reflect.Value
		out, err = m.call(m.objs[a.Int(1)], a.Str(2), a.List(3))
		if err == nil {
			if len(out) == 0 || out[0].IsNil() {
				panic("no object made")
			}
			put(a.Int(0), out[0].Interface())
		}
	case "follow": // new id, id, getters joined by dots
		put(a.Int(0), m.follow(m.objs[a.Int(1)], a.Str(2)))
	case "parse": // id, kind of text, text
		var o interface{}
		o, err = m.parseText(a.Str(1), a.Str(2))
		if err == nil {
			if o == nil || reflect.ValueOf(o).Kind() == reflect.Ptr && reflect.ValueOf(o).IsNil() {
				panic("neither a result nor an error")
			}
			put(a.Int(0), o)
		}
	case "reparse": // id, kind of text: replace the object by its encoding, parsed
		text := m.objs[a.Int(0)].(fmt.Stringer).String()
		if !strings.HasPrefix(a.Str(1), "message") && a.Str(1) != "address" && a.Str(1) != "uri" {
			text = strings.Replace(text, "\r\n", "\n", -1)
		}
		var o interface{}
		o, err = m.parseText(a.Str(1), text)
		if err == nil {
			if o == nil || reflect.ValueOf(o).Kind() == reflect.Ptr && reflect.ValueOf(o).IsNil() {
				panic("neither a result nor an error")
			}
			if was := reflect.TypeOf(m.objs[a.Int(0)]); was != reflect.TypeOf(o) {
				panic(fmt.Sprintf("a %v is parsed as a %T", was, o))
			}
			put(a.Int(0), o)
		} else {
			ret = enc(err.Error())
		}
	case "try": // kind of text, text: there is an answer, whichever
		o, err := m.parseText(a.Str(0), a.Str(1))
		if err == nil && o != nil {
			if t, ok := o.(fmt.Stringer); ok {
				_ = t.String()
			}
		}
		return rec{"ret": "answered"}
	case "outcome": // kind of text, text: which answer
		return rec{"ret": m.outcome(a.Str(0), a.Str(1))}
	case "prefixes": // kind of text, text: which answers the beginnings of the text get, shortest first, with how many there are
		runs := []interface{}{}
		last, n := "", 0
		for i := 0; i <= len(a.Str(1)); i++ {
			o := m.outcome(a.Str(0), a.Str(1)[:i])
			if o != last && n > 0 {
				runs = append(runs, []interface{}{last, n})
				n = 0
			}
			last = o
			n++
		}
		return rec{"ret": append(runs, []interface{}{last, n})}
	case "listen": // id, text, how many times the listener puts up with an error, less one
		l := &aListener{refuse: a.Int(2), heard: []interface{}{}}
		p := m.listenedParser
		p.SetParseExceptionListener(l)
		var o message.Message
		o, err = p.ParseSIPMessage(a.Str(1))
		if err == nil {
			if o == nil || reflect.ValueOf(o).IsNil() {
				panic("neither a result nor an error")
			}
			put(a.Int(0), o)
		}
		ret = l.heard
	case "class": // [id, method, arguments]...: which of the answers met so far each answer is
		nums := []interface{}{}
		for i := range a.List(0) {
			q := a.List(0).List(i)
			out, e := m.call(m.objs[q.Int(0)], q.Str(1), q.List(2))
			if e != nil {
				panic(e.Error())
			}
			t := fmt.Sprint(plain(out[0]))
			n, had := m.met[t]
			if !had {
				n = len(m.met) + 1
				m.met[t] = n
			}
			nums = append(nums, n)
		}
		return rec{"ret": nums}
	case "push": // list id, id
		m.objs[a.Int(0)].(header.SIPHeaderLister).PushBack(m.objs[a.Int(1)])
	case "elem": // new id, list id, position
		e := m.objs[a.Int(1)].(header.SIPHeaderLister).Front()
		for i := 1; i < a.Int(2) && e != nil; i++ {
			e = e.Next()
		}
		if e == nil {
			panic("the list is too short")
		}
		put(a.Int(0), e.Value)
	case "clone": // new id, id
		var out []reflect.Value
		out, err = m.call(m.objs[a.Int(1)], "Clone", nil)
		put(a.Int(0), out[0].Interface())
		if reflect.TypeOf(m.objs[a.Int(0)]) != reflect.TypeOf(m.objs[a.Int(1)]) {
			panic(fmt.Sprintf("the copy of a %T is a %T", m.objs[a.Int(1)], m.objs[a.Int(0)]))
		}
	case "forget": // id
		delete(m.objs, a.Int(0))
		delete(m.looks, a.Int(0))
		for i, x := range m.order {
			if x == a.Int(0) {
				m.order = append(append([]int{}, m.order[:i]...), m.order[i+1:]...)
				break
			}
		}
	default:
		return badOp(op)
	}
	objs := []interface{}{}
	if blind {
		return rec{"err": err != nil, "ret": ret}
	}
	for _, id := range m.order {
		if len(m.looks[id]) > 0 {
			objs = append(objs, m.look(id))
		}
	}
	return rec{"err": err != nil, "ret": ret, "objs": objs}
}
