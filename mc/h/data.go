//go:build go1.22

package main

// Enumeration of message values, and independent oracles for their encodings:
// the expected JSON and XML of a message are derived from the OCPP 1.6 schemas
// and the OCPP 1.5 WSDLs (gen_spec.go), not from the code under test.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

type spec struct {
	Kind   string   `json:"k"` // obj arr str int num bool time uri
	Props  []sprop  `json:"p"`
	Strict bool     `json:"x"`
	Item   *spec    `json:"i"`
	Enum   []string `json:"e"`
	Max    int      `json:"m"`
	Tenth  int      `json:"d"`
}

type sprop struct {
	Name string `json:"n"`
	Req  bool   `json:"r"`
	Spec *spec  `json:"s"`
	Attr bool   `json:"a"`
	Text bool   `json:"t"`
	Wrap string `json:"w"`
}

func parseSpec(s string) *spec {
	r := &spec{}
	if err := json.Unmarshal([]byte(s), r); err != nil {
		panic(err)
	}
	return r
}

// msgKind is one action of OCPP.
type msgKind struct {
	Action string
	FromCP bool // sent by the charge point
	Req    func() messages.Request
	Resp   func() messages.Response
	JReq   *spec
	JResp  *spec
	XReq   *spec // nil: not in OCPP 1.5
	XResp  *spec
	XElem  string // local name without Request/Response
}

var kinds []*msgKind

func kindOf(action string, fromCP bool) *msgKind {
	for _, k := range kinds {
		if k.Action == action && k.FromCP == fromCP {
			return k
		}
	}
	return nil
}

const (
	csNS = "urn://Ocpp/Cs/2012/06/"
	cpNS = "urn://Ocpp/Cp/2012/06/"
)

func (k *msgKind) ns() string {
	if k.FromCP {
		return csNS
	}
	return cpNS
}

func init() {
	add := func(action string, fromCP bool, req func() messages.Request, resp func() messages.Response) {
		k := &msgKind{Action: action, FromCP: fromCP, Req: req, Resp: resp}
		k.JReq = parseSpec(jsonSpecText[action])
		k.JResp = parseSpec(jsonSpecText[action+"Response"])
		svc := "Cp "
		if fromCP {
			svc = "Cs "
		}
		k.XElem = strings.ToLower(action[:1]) + action[1:]
		if t, ok := wsdlSpecText[svc+k.XElem+"Request"]; ok {
			k.XReq = parseSpec(t)
			k.XResp = parseSpec(wsdlSpecText[svc+k.XElem+"Response"])
		}
		kinds = append(kinds, k)
	}
	type req = messages.Request
	type resp = messages.Response
	add("Authorize", true, func() req { return &cpreq.Authorize{} }, func() resp { return &cpresp.Authorize{} })
	add("BootNotification", true, func() req { return &cpreq.BootNotification{} }, func() resp { return &cpresp.BootNotification{} })
	add("DataTransfer", true, func() req { return &cpreq.DataTransfer{} }, func() resp { return &cpresp.DataTransfer{} })
	add("DiagnosticsStatusNotification", true, func() req { return &cpreq.DiagnosticsStatusNotification{} }, func() resp { return &cpresp.DiagnosticsStatusNotification{} })
	add("FirmwareStatusNotification", true, func() req { return &cpreq.FirmwareStatusNotification{} }, func() resp { return &cpresp.FirmwareStatusNotification{} })
	add("Heartbeat", true, func() req { return &cpreq.Heartbeat{} }, func() resp { return &cpresp.Heartbeat{} })
	add("MeterValues", true, func() req { return &cpreq.MeterValues{} }, func() resp { return &cpresp.MeterValues{} })
	add("StartTransaction", true, func() req { return &cpreq.StartTransaction{} }, func() resp { return &cpresp.StartTransaction{} })
	add("StatusNotification", true, func() req { return &cpreq.StatusNotification{} }, func() resp { return &cpresp.StatusNotification{} })
	add("StopTransaction", true, func() req { return &cpreq.StopTransaction{} }, func() resp { return &cpresp.StopTransaction{} })

	add("CancelReservation", false, func() req { return &csreq.CancelReservation{} }, func() resp { return &csresp.CancelReservation{} })
	add("ChangeAvailability", false, func() req { return &csreq.ChangeAvailability{} }, func() resp { return &csresp.ChangeAvailability{} })
	add("ChangeConfiguration", false, func() req { return &csreq.ChangeConfiguration{} }, func() resp { return &csresp.ChangeConfiguration{} })
	add("ClearCache", false, func() req { return &csreq.ClearCache{} }, func() resp { return &csresp.ClearCache{} })
	add("ClearChargingProfile", false, func() req { return &csreq.ClearChargingProfile{} }, func() resp { return &csresp.ClearChargingProfile{} })
	add("DataTransfer", false, func() req { return &csreq.DataTransfer{} }, func() resp { return &csresp.DataTransfer{} })
	add("GetCompositeSchedule", false, func() req { return &csreq.GetCompositeSchedule{} }, func() resp { return &csresp.GetCompositeSchedule{} })
	add("GetConfiguration", false, func() req { return &csreq.GetConfiguration{} }, func() resp { return &csresp.GetConfiguration{} })
	add("GetDiagnostics", false, func() req { return &csreq.GetDiagnostics{} }, func() resp { return &csresp.GetDiagnostics{} })
	add("GetLocalListVersion", false, func() req { return &csreq.GetLocalListVersion{} }, func() resp { return &csresp.GetLocalListVersion{} })
	add("RemoteStartTransaction", false, func() req { return &csreq.RemoteStartTransaction{} }, func() resp { return &csresp.RemoteStartTransaction{} })
	add("RemoteStopTransaction", false, func() req { return &csreq.RemoteStopTransaction{} }, func() resp { return &csresp.RemoteStopTransaction{} })
	add("ReserveNow", false, func() req { return &csreq.ReserveNow{} }, func() resp { return &csresp.ReserveNow{} })
	add("Reset", false, func() req { return &csreq.Reset{} }, func() resp { return &csresp.Reset{} })
	add("SendLocalList", false, func() req { return &csreq.SendLocalList{} }, func() resp { return &csresp.SendLocalList{} })
	add("SetChargingProfile", false, func() req { return &csreq.SetChargingProfile{} }, func() resp { return &csresp.SetChargingProfile{} })
	add("TriggerMessage", false, func() req { return &csreq.TriggerMessage{} }, func() resp { return &csresp.TriggerMessage{} })
	add("UnlockConnector", false, func() req { return &csreq.UnlockConnector{} }, func() resp { return &csresp.UnlockConnector{} })
	add("UpdateFirmware", false, func() req { return &csreq.UpdateFirmware{} }, func() resp { return &csresp.UpdateFirmware{} })
}

// pick enumerates 0..n-1 with choices of the explorer.
func pick(n int) int {
	const b = 128
	if n <= 1 {
		return 0
	}
	if n <= b {
		return runtime.McChoose(n)
	}
	hi := runtime.McChoose((n + b - 1) / b)
	m := n - hi*b
	if m > b {
		m = b
	}
	return hi*b + runtime.McChoose(m)
}

// Go fields <-> properties ---------------------------------------------------

var timeT = reflect.TypeOf(time.Time{})

// other names of fields in a schema
var fieldAlias = map[string]string{
	"sampledValue": "SampledValues", "heartbeatInterval": "Interval", "values": "MeterValue",
	"localAuthorisationList": "LocalAuthorizationList",
}

// goField is the index of the Go field of a property in a struct type.
func goField(t reflect.Type, prop string) int {
	find := func(n string) int {
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); f.PkgPath == "" && !f.Anonymous && f.Name != "XMLName" && strings.EqualFold(f.Name, n) {
				return i
			}
		}
		return -1
	}
	if i := find(prop); i >= 0 {
		return i
	}
	if a, ok := fieldAlias[prop]; ok {
		if i := find(a); i >= 0 {
			return i
		}
	}
	if prop == "value" {
		return find("SampledValues")
	}
	return -1
}

// values ---------------------------------------------------------------------

// counter for distinct default values
type builder struct{ n int }

func (b *builder) next() int { b.n++; return b.n }

var t0 = time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)

// fill sets v according to s: the required properties only, or all of them.
func (b *builder) fill(v reflect.Value, s *spec, all bool) {
	if v.Kind() == reflect.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
		b.fill(v.Elem(), s, all)
		return
	}
	switch {
	case v.Type() == timeT:
		v.Set(reflect.ValueOf(t0.Add(time.Duration(b.next()) * 3661 * time.Second)))
	case v.Kind() == reflect.Struct:
		for _, p := range s.Props {
			if !p.Req && !all {
				continue
			}
			if i := goField(v.Type(), p.Name); i >= 0 {
				b.fill(v.Field(i), p.Spec, all)
			}
		}
	case v.Kind() == reflect.Slice:
		n := 1
		if all {
			n = 2
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			b.fill(v.Index(i), s.Item, all)
		}
	case v.Kind() == reflect.String:
		k := b.next()
		switch {
		case len(s.Enum) > 0:
			v.SetString(s.Enum[k%len(s.Enum)])
		case s.Kind == "uri":
			v.SetString(fmt.Sprintf("ftp://h/%d", k))
		default:
			v.SetString(fmt.Sprintf("v%d", k))
		}
	case v.Kind() == reflect.Bool:
		v.SetBool(true)
	case v.Kind() == reflect.Float64 || v.Kind() == reflect.Float32:
		v.SetFloat(float64(10 + b.next()))
	case v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64:
		v.SetInt(int64(100 + b.next()))
	}
}

// site is a place in a message that can deviate.
type site struct {
	path []int // field or element indices
	name string
	spec *spec
	req  bool
}

func at(v reflect.Value, path []int) reflect.Value {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	for _, i := range path {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return reflect.Value{}
			}
			v = v.Elem()
		}
		if v.Kind() == reflect.Slice {
			if i >= v.Len() {
				return reflect.Value{}
			}
			v = v.Index(i)
		} else {
			v = v.Field(i)
		}
	}
	return v
}

func sites(v reflect.Value, s *spec, path []int, name string, out []site) []site {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return out
		}
		v = v.Elem()
	}
	if v.Type() == timeT {
		return out
	}
	switch v.Kind() {
	case reflect.Struct:
		for _, p := range s.Props {
			i := goField(v.Type(), p.Name)
			if i < 0 {
				continue
			}
			pp := append(append([]int{}, path...), i)
			n := name + "." + p.Name
			out = append(out, site{pp, n, p.Spec, p.Req})
			out = sites(v.Field(i), p.Spec, pp, n, out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			pp := append(append([]int{}, path...), i)
			n := fmt.Sprintf("%s[%d]", name, i)
			if v.Index(i).Kind() != reflect.Ptr {
				out = append(out, site{pp, n, s.Item, true})
			}
			out = sites(v.Index(i), s.Item, pp, n, out)
		}
	}
	return out
}

var special = "q\"u\\o<t>&'/\n\t\u00e9\u65e5\U0001F600 \u2028"

// domain gives the values that a site deviates to; few: the reduced domain for
// pairs.
func domain(t reflect.Type, st site, xmlish, few bool) []reflect.Value {
	var r []reflect.Value
	add := func(x interface{}) { r = append(r, reflect.ValueOf(x).Convert(t)) }
	z := time.FixedZone("", 5*3600+1800)
	w := time.FixedZone("", -8*3600)
	times := []time.Time{t0, time.Date(1999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2024, 2, 29, 0, 0, 1, 0, z), time.Date(9999, 12, 31, 12, 0, 0, 5000, w), time.Date(1969, 7, 20, 20, 17, 40, 0, time.UTC), time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC)}
	if few {
		times = times[2:3]
	}
	b := &builder{n: 50}
	switch {
	case t == timeT:
		for _, x := range times {
			add(x)
		}
		add(time.Time{})
	case t.Kind() == reflect.Ptr && t.Elem() == timeT:
		if !st.req {
			r = append(r, reflect.Zero(t))
		}
		for i := range times {
			r = append(r, reflect.ValueOf(&times[i]))
		}
	case t.Kind() == reflect.Ptr:
		if !st.req {
			r = append(r, reflect.Zero(t))
		}
		for _, all := range []bool{false, true} {
			v := reflect.New(t).Elem()
			b.fill(v, st.spec, all)
			r = append(r, v)
		}
	case t.Kind() == reflect.Slice:
		r = append(r, reflect.Zero(t))
		if t.Elem().Kind() == reflect.String {
			ss := [][]string{{}, {"one"}, {"a", "", "c<d"}, {special, special}}
			if few {
				ss = ss[2:3]
			} else {
				for _, n := range []int{17, 33, 101, 257} {
					var l []string
					for i := 0; i < n; i++ {
						l = append(l, "s"+itoa(i*i))
					}
					ss = append(ss, l)
				}
			}
			for _, x := range ss {
				r = append(r, reflect.ValueOf(x).Convert(t))
			}
			break
		}
		mk := func(alls ...bool) {
			v := reflect.MakeSlice(t, len(alls), len(alls))
			for i, a := range alls {
				b.fill(v.Index(i), st.spec.Item, a)
			}
			r = append(r, v)
		}
		mk(false)
		if !few {
			mk(true)
			mk(false, true)
			for _, n := range []int{17, 33, 101, 257} {
				mk(make([]bool, n)...)
			}
		}
		mk(true, false, true)
	case t.Kind() == reflect.String:
		add("")
		if len(st.spec.Enum) > 0 {
			if few {
				add(st.spec.Enum[len(st.spec.Enum)-1])
			} else {
				for _, e := range st.spec.Enum {
					add(e)
				}
				add("not of the enumeration")
			}
			break
		}
		if few {
			add("<&\u00e9>")
			break
		}
		for _, x := range []string{"a", special, " both ends ", "null", "0", "{}", "]]>", "<!-- -->", "&amp;", " ", "\t.", "true", "1e5", "007", "[1]", "2024-02-29T00:00:01Z", "\U0001f50c\u200f", "a  b", "a\\u0062", "%41+", "e\u0301\u00e9"} {
			add(x)
		}
		if st.spec.Max > 0 {
			add(strings.Repeat("z", st.spec.Max))
		} else {
			add(strings.Repeat("long ", 100))
		}
		add(strings.Repeat("0123456789", 500))
		if !xmlish {
			add("\x01\u007f")
		}
	case t.Kind() == reflect.Bool:
		add(false)
		add(true)
	case t.Kind() == reflect.Float64 || t.Kind() == reflect.Float32:
		add(float64(0))
		add(float64(7))
		if few {
			break
		}
		for _, x := range []float64{1, -3, 86400, 999999, 1000000, 2147483647, 0.1, 16.5, -0.7, 12345.6, 1e21, 0.3, 1.0 / 3} {
			add(x)
		}
	case t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64:
		add(0)
		add(7)
		if few {
			break
		}
		for _, x := range []int64{1, -1, 255, 1000000, 123456789, math.MaxInt32, math.MinInt32} {
			add(x)
		}
		if t.Kind() == reflect.Int {
			add(int64(1) << 53)
		}
	}
	return r
}

type deviation struct {
	s site
	v reflect.Value
}

func deviations(msg interface{}, s *spec, xmlish, few bool) []deviation {
	v := reflect.ValueOf(msg)
	var r []deviation
	for _, st := range sites(v, s, nil, "", nil) {
		f := at(v, st.path)
		for _, x := range domain(f.Type(), st, xmlish, few) {
			r = append(r, deviation{st, x})
		}
	}
	return r
}

func newBase(mk func() interface{}, s *spec, all bool) interface{} {
	m := mk()
	b := &builder{}
	b.fill(reflect.ValueOf(m).Elem(), s, all)
	return m
}

// apply sets the deviation in m; false if its place does not exist (any more).
func (d deviation) apply(m interface{}) bool {
	f := at(reflect.ValueOf(m), d.s.path)
	if !f.IsValid() || !f.CanSet() {
		return false
	}
	f.Set(d.v)
	return true
}

func (d deviation) String() string {
	return fmt.Sprintf("%s=%s", d.s.name, show(d.v))
}

func show(v reflect.Value) string {
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return err.Error()
	}
	s := string(b)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// equality of messages -------------------------------------------------------

// diff compares two messages of the same type; times to the second if sec.
func diff(a, b reflect.Value, path string, tsec bool) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %s instead of %s", path, b.Type(), a.Type())
	}
	switch {
	case a.Type() == timeT:
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if tsec {
			x, y = x.Truncate(time.Second), y.Truncate(time.Second)
		}
		if !x.Equal(y) {
			return fmt.Sprintf("%s: %s instead of %s", path, y, x)
		}
		return ""
	case a.Kind() == reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil %v instead of %v", path, b.IsNil(), a.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		return diff(a.Elem(), b.Elem(), path, tsec)
	case a.Kind() == reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || f.Anonymous || f.Name == "XMLName" {
				continue
			}
			if d := diff(a.Field(i), b.Field(i), path+"."+f.Name, tsec); d != "" {
				return d
			}
		}
		return ""
	case a.Kind() == reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements instead of %d", path, b.Len(), a.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), tsec); d != "" {
				return d
			}
		}
		return ""
	}
	if a.Interface() != b.Interface() {
		return fmt.Sprintf("%s: %s instead of %s", path, show(b), show(a))
	}
	return ""
}

func msgDiff(want, got interface{}, tsec bool) string {
	if got == nil {
		return "nothing instead of a message"
	}
	v := reflect.ValueOf(got)
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return "nil instead of a message"
	}
	return diff(reflect.ValueOf(want), v, "", tsec)
}

// JSON -----------------------------------------------------------------------

// allowed reports whether the value of a message is one that the specification
// allows.
func allowed(v reflect.Value, s *spec, req, xmlish bool) bool {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return !req
		}
		v = v.Elem()
		req = true
	}
	switch {
	case v.Type() == timeT:
		t := v.Interface().(time.Time)
		if t.IsZero() && !req {
			return true
		}
		return t.Year() >= 1 && t.Year() <= 9999
	case v.Kind() == reflect.Struct:
		for _, p := range s.Props {
			i := goField(v.Type(), p.Name)
			if i < 0 {
				if p.Req {
					return false
				}
				continue
			}
			if !allowed(v.Field(i), p.Spec, p.Req, xmlish) {
				return false
			}
		}
		return true
	case v.Kind() == reflect.Slice:
		if v.Len() == 0 {
			return !req
		}
		for i := 0; i < v.Len(); i++ {
			if !allowed(v.Index(i), s.Item, true, xmlish) {
				return false
			}
		}
		return true
	case v.Kind() == reflect.String:
		x := v.String()
		if x == "" && !req {
			return true
		}
		if len(s.Enum) > 0 {
			for _, e := range s.Enum {
				if e == x {
					return true
				}
			}
			return false
		}
		if s.Kind == "uri" {
			return strings.HasPrefix(x, "ftp://")
		}
		return s.Max == 0 || len([]rune(x)) <= s.Max
	case v.Kind() == reflect.Float64:
		f := v.Float()
		if s.Kind == "int" {
			return f == math.Trunc(f) && math.Abs(f) <= math.MaxInt32
		}
		if s.Tenth > 0 {
			return math.Abs(f) < 1e9 && math.Abs(f*10-math.Round(f*10)) < 1e-6
		}
		return true
	case v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64:
		return !xmlish || v.Int() >= math.MinInt32 && v.Int() <= math.MaxInt32
	}
	return true
}

type jObj struct {
	keys []string
	m    map[string]interface{}
}

// jparse decodes JSON keeping the keys, and rejects duplicate keys.
func jparse(raw []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	v, err := jval(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

func jval(d *json.Decoder) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '{' {
			o := &jObj{m: map[string]interface{}{}}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := jval(d)
				if err != nil {
					return nil, err
				}
				if _, dup := o.m[k.(string)]; dup {
					return nil, fmt.Errorf("duplicate property %q", k)
				}
				o.keys = append(o.keys, k.(string))
				o.m[k.(string)] = v
			}
			_, err = d.Token()
			return o, err
		}
		a := []interface{}{}
		for d.More() {
			v, err := jval(d)
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
		_, err = d.Token()
		return a, err
	}
	return t, nil
}

var intRe = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
var rfc3339Re = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)$`)

// jvalid validates a decoded JSON value against a schema.
func jvalid(v interface{}, s *spec, path string, top bool) string {
	switch s.Kind {
	case "obj":
		o, ok := v.(*jObj)
		if !ok {
			return path + " is not an object"
		}
		known := map[string]bool{}
		for _, p := range s.Props {
			known[p.Name] = true
			x, ok := o.m[p.Name]
			if !ok {
				if p.Req {
					return path + "." + p.Name + " is missing"
				}
				continue
			}
			if e := jvalid(x, p.Spec, path+"."+p.Name, false); e != "" {
				return e
			}
		}
		for _, k := range o.keys {
			if !known[k] {
				return path + "." + k + " is not in the schema"
			}
		}
	case "arr":
		a, ok := v.([]interface{})
		if !ok {
			return path + " is not an array"
		}
		for i, x := range a {
			if e := jvalid(x, s.Item, fmt.Sprintf("%s[%d]", path, i), false); e != "" {
				return e
			}
		}
	case "str", "uri", "time":
		x, ok := v.(string)
		if !ok {
			return path + " is not a string"
		}
		if s.Kind == "time" {
			if _, err := time.Parse(time.RFC3339, x); err != nil || !rfc3339Re.MatchString(x) {
				return path + " is not a date-time: " + x
			}
			break
		}
		if len(s.Enum) > 0 {
			ok := false
			for _, e := range s.Enum {
				ok = ok || e == x
			}
			if !ok {
				return path + " is not in the enumeration: " + x
			}
		}
		if s.Max > 0 && len([]rune(x)) > s.Max {
			return path + " is too long"
		}
	case "int":
		n, ok := v.(json.Number)
		if !ok || !intRe.MatchString(string(n)) {
			return fmt.Sprintf("%s is not an integer: %v", path, v)
		}
	case "num":
		if _, ok := v.(json.Number); !ok {
			return path + " is not a number"
		}
	case "bool":
		if _, ok := v.(bool); !ok {
			return path + " is not a boolean"
		}
	}
	return ""
}

// jexpect builds the JSON that a message must be sent as.  Unset optional
// numbers and booleans are wrapped in jOpt: they may be left out.
type jOpt struct{ v interface{} }

func jexpect(v reflect.Value, s *spec, req bool) (interface{}, bool) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil, req
		}
		v = v.Elem()
		req = true
	}
	opt := func(zero bool, x interface{}) (interface{}, bool) {
		if zero && !req {
			return jOpt{x}, true
		}
		return x, true
	}
	switch {
	case v.Type() == timeT:
		t := v.Interface().(time.Time)
		return t, req || !t.IsZero()
	case v.Kind() == reflect.Struct:
		o := &jObj{m: map[string]interface{}{}}
		for _, p := range s.Props {
			i := goField(v.Type(), p.Name)
			if i < 0 {
				continue
			}
			x, present := jexpect(v.Field(i), p.Spec, p.Req)
			if present {
				o.keys = append(o.keys, p.Name)
				o.m[p.Name] = x
			}
		}
		return o, true
	case v.Kind() == reflect.Slice:
		if v.IsNil() && !req {
			return nil, false
		}
		if v.Len() == 0 && !req {
			return jOpt{[]interface{}{}}, true
		}
		a := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			x, _ := jexpect(v.Index(i), s.Item, true)
			a = append(a, x)
		}
		return a, true
	case v.Kind() == reflect.String:
		if s.Kind == "str" && len(s.Enum) == 0 {
			return opt(v.String() == "", v.String()) // a text may be empty
		}
		return v.String(), req || v.String() != ""
	case v.Kind() == reflect.Bool:
		return opt(!v.Bool(), v.Bool())
	case v.Kind() == reflect.Float64:
		return opt(v.Float() == 0, v.Float())
	case v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64:
		return opt(v.Int() == 0, float64(v.Int()))
	}
	return nil, false
}

// jcompare compares the JSON on the wire with the expected one.
func jcompare(want, got interface{}, path string) string {
	if o, ok := want.(jOpt); ok {
		want = o.v
	}
	switch w := want.(type) {
	case *jObj:
		g, ok := got.(*jObj)
		if !ok {
			return path + " is not an object"
		}
		for _, k := range w.keys {
			x, ok := g.m[k]
			if !ok {
				if _, opt := w.m[k].(jOpt); opt {
					continue
				}
				return path + "." + k + " is missing"
			}
			if e := jcompare(w.m[k], x, path+"."+k); e != "" {
				return e
			}
		}
		for _, k := range g.keys {
			if _, ok := w.m[k]; !ok {
				return path + "." + k + " is sent although it is not set"
			}
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok && !(len(w) == 0 && got == nil) {
			return path + " is not an array"
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s has %d elements instead of %d", path, len(g), len(w))
		}
		for i := range w {
			if e := jcompare(w[i], g[i], fmt.Sprintf("%s[%d]", path, i)); e != "" {
				return e
			}
		}
	case time.Time:
		s, ok := got.(string)
		if !ok {
			return path + " is not a time"
		}
		t, err := time.Parse(time.RFC3339, s)
		if err != nil || !t.Truncate(time.Second).Equal(w.Truncate(time.Second)) {
			return fmt.Sprintf("%s is %q instead of %s", path, s, w.Format(time.RFC3339))
		}
	case float64:
		n, ok := got.(json.Number)
		if !ok {
			return fmt.Sprintf("%s is %v instead of a number", path, got)
		}
		f, err := n.Float64()
		if err != nil || f != w {
			return fmt.Sprintf("%s is %s instead of %v", path, n, w)
		}
	case nil:
		if got != nil {
			return path + " is not null"
		}
	default:
		if want != got {
			return fmt.Sprintf("%s is %v instead of %v", path, got, want)
		}
	}
	return ""
}

// jencode writes an expected JSON value as text (for scripted peers).
func jencode(v interface{}) string {
	switch x := v.(type) {
	case jOpt:
		return jencode(x.v)
	case *jObj:
		var sb strings.Builder
		sb.WriteByte('{')
		n := 0
		for _, k := range x.keys {
			if _, opt := x.m[k].(jOpt); opt {
				continue
			}
			if n > 0 {
				sb.WriteByte(',')
			}
			n++
			sb.WriteString(jencode(k) + ":" + jencode(x.m[k]))
		}
		sb.WriteByte('}')
		return sb.String()
	case []interface{}:
		var p []string
		for _, e := range x {
			p = append(p, jencode(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case time.Time:
		return jencode(x.Format(time.RFC3339))
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case rawJSON:
		return string(x)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

type rawJSON string

func jsonOf(msg interface{}, s *spec) *jObj {
	o, _ := jexpect(reflect.ValueOf(msg), s, true)
	return o.(*jObj)
}

// XML ------------------------------------------------------------------------

type xnode struct {
	space, name string
	attrs       []xml.Attr
	text        string
	kids        []*xnode
}

func xparse(raw []byte) (*xnode, error) {
	d := xml.NewDecoder(bytes.NewReader(raw))
	var stack []*xnode
	var root *xnode
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			n := &xnode{space: x.Name.Space, name: x.Name.Local}
			for _, a := range x.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				n.attrs = append(n.attrs, a)
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, n)
			} else if root != nil {
				return nil, fmt.Errorf("two roots")
			} else {
				root = n
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(x)
			}
		}
	}
	if root == nil || len(stack) > 0 {
		return nil, fmt.Errorf("no complete document")
	}
	return root, nil
}

func (n *xnode) child(name string) *xnode {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

var xsIntRe = regexp.MustCompile(`^[+-]?[0-9]+$`)

func xscalar(text string, s *spec, v reflect.Value) string {
	switch s.Kind {
	case "int":
		if !xsIntRe.MatchString(text) {
			return "not an xs:int: " + text
		}
		var f float64
		if v.Kind() == reflect.Float64 {
			f = v.Float()
		} else {
			f = float64(v.Int())
		}
		if g, err := strconv.ParseFloat(text, 64); err != nil || g != f {
			return fmt.Sprintf("%s instead of %v", text, f)
		}
	case "bool":
		if text != "true" && text != "false" && text != "0" && text != "1" {
			return "not an xs:boolean: " + text
		}
		if (text == "true" || text == "1") != v.Bool() {
			return text
		}
	case "time":
		t, err := time.Parse(time.RFC3339, text)
		if err != nil || !rfc3339Re.MatchString(text) {
			return "not an xs:dateTime: " + text
		}
		w := v.Interface().(time.Time)
		if !t.Truncate(time.Second).Equal(w.Truncate(time.Second)) {
			return fmt.Sprintf("%s instead of %s", text, w)
		}
	default:
		if text != v.String() {
			return fmt.Sprintf("%q instead of %q", text, v.String())
		}
	}
	return ""
}

// xcheck validates an element against a type of the WSDL and compares its
// content with the message.
func xcheck(n *xnode, ns string, s *spec, v reflect.Value, path string) string {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if s.Kind != "obj" {
		if len(n.kids) > 0 {
			return path + ": has child elements"
		}
		if len(n.attrs) > 0 {
			return path + ": has attributes"
		}
		if e := xscalar(n.text, s, v); e != "" {
			return path + ": " + e
		}
		return ""
	}
	pos := 0
	hasText := false
	attrs := map[string]bool{}
	for _, p := range s.Props {
		i := goField(v.Type(), p.Name)
		pp := path + "/" + p.Name
		var f reflect.Value
		set := false
		mayOmit := true
		if i >= 0 {
			f = v.Field(i)
			for f.Kind() == reflect.Ptr && !f.IsNil() {
				f = f.Elem()
			}
			switch {
			case f.Kind() == reflect.Ptr:
				set = false
			case p.Req:
				set = true
			case f.Kind() == reflect.Slice:
				set = f.Len() > 0
			case f.Type() == timeT:
				// a zero time may be sent or not
				set = v.Field(i).Kind() == reflect.Ptr || !f.Interface().(time.Time).IsZero()
			default:
				set = !f.IsZero()
			}
		}
		if p.Text {
			hasText = true
			if n.text != f.String() {
				return fmt.Sprintf("%s: %q instead of %q", pp, n.text, f.String())
			}
			continue
		}
		if p.Attr {
			var got *xml.Attr
			for j := range n.attrs {
				if n.attrs[j].Name.Local == p.Name {
					got = &n.attrs[j]
				}
			}
			if got == nil {
				if set {
					return pp + ": attribute is missing"
				}
				continue
			}
			if got.Name.Space != "" {
				return pp + ": attribute is in a namespace"
			}
			attrs[p.Name] = true
			if !set {
				return pp + ": attribute is sent although it is not set"
			}
			if e := xscalar(got.Value, p.Spec, f); e != "" {
				return pp + ": " + e
			}
			continue
		}
		var elems []*xnode
		for pos < len(n.kids) && n.kids[pos].name == p.Name {
			if n.kids[pos].space != ns {
				return fmt.Sprintf("%s: in the namespace %q", pp, n.kids[pos].space)
			}
			elems = append(elems, n.kids[pos])
			pos++
		}
		switch {
		case p.Spec.Kind == "arr":
			if p.Wrap != "" {
				var in []*xnode
				for _, e := range elems {
					for _, k := range e.kids {
						if k.name != p.Wrap || k.space != ns {
							return pp + "/" + k.name + ": unexpected element"
						}
						in = append(in, k)
					}
				}
				elems = in
			}
			l := 0
			if f.IsValid() && f.Kind() == reflect.Slice {
				l = f.Len()
			}
			if len(elems) != l {
				return fmt.Sprintf("%s: %d elements instead of %d", pp, len(elems), l)
			}
			for j, e := range elems {
				if er := xcheck(e, ns, p.Spec.Item, f.Index(j), fmt.Sprintf("%s[%d]", pp, j)); er != "" {
					return er
				}
			}
		case len(elems) == 0:
			if set || p.Req {
				return pp + ": element is missing"
			}
		case len(elems) > 1:
			return pp + ": more than one element"
		default:
			if !set {
				if f.IsValid() && mayOmit && p.Spec.Kind != "obj" && f.Kind() != reflect.String && f.Kind() != reflect.Ptr {
					if e := xscalar(elems[0].text, p.Spec, f); e != "" {
						return pp + ": " + e
					}
					continue
				}
				return pp + ": element is sent although it is not set"
			}
			if e := xcheck(elems[0], ns, p.Spec, f, pp); e != "" {
				return e
			}
		}
	}
	if pos < len(n.kids) {
		return fmt.Sprintf("%s/%s: unexpected element, or at the wrong place", path, n.kids[pos].name)
	}
	for _, a := range n.attrs {
		if !attrs[a.Name.Local] {
			return path + "/@" + a.Name.Local + ": unexpected attribute"
		}
	}
	if !hasText && strings.TrimSpace(n.text) != "" {
		return path + ": unexpected text"
	}
	return ""
}

// jinto decodes JSON text into a message, guided by the schema only.
func jinto(text string, s *spec, v reflect.Value) error {
	j, err := jparse([]byte(text))
	if err != nil {
		return err
	}
	return jset(j, s, v)
}

func jset(j interface{}, s *spec, v reflect.Value) error {
	if v.Kind() == reflect.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	bad := fmt.Errorf("type")
	switch {
	case v.Type() == timeT:
		x, ok := j.(string)
		if !ok {
			return bad
		}
		t, err := time.Parse(time.RFC3339, x)
		if err != nil {
			return err
		}
		v.Set(reflect.ValueOf(t))
	case v.Kind() == reflect.Struct:
		o, ok := j.(*jObj)
		if !ok {
			return bad
		}
		for _, p := range s.Props {
			x, ok := o.m[p.Name]
			i := goField(v.Type(), p.Name)
			if !ok || i < 0 {
				continue
			}
			if err := jset(x, p.Spec, v.Field(i)); err != nil {
				return err
			}
		}
	case v.Kind() == reflect.Slice:
		a, ok := j.([]interface{})
		if !ok {
			return bad
		}
		v.Set(reflect.MakeSlice(v.Type(), len(a), len(a)))
		for i := range a {
			if err := jset(a[i], s.Item, v.Index(i)); err != nil {
				return err
			}
		}
	case v.Kind() == reflect.String:
		x, ok := j.(string)
		if !ok {
			return bad
		}
		v.SetString(x)
	case v.Kind() == reflect.Bool:
		x, ok := j.(bool)
		if !ok {
			return bad
		}
		v.SetBool(x)
	default:
		x, ok := j.(json.Number)
		if !ok {
			return bad
		}
		f, err := x.Float64()
		if err != nil {
			return err
		}
		if v.Kind() == reflect.Float64 || v.Kind() == reflect.Float32 {
			v.SetFloat(f)
		} else {
			v.SetInt(int64(f))
		}
	}
	return nil
}
