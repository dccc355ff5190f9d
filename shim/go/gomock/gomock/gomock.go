// Package gomock is a small functional stand-in for go.uber.org/mock/gomock, as
// far as the repository uses it.
package gomock

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
)

type TestReporter interface {
	Errorf(format string, args ...any)
	Fatalf(format string, args ...any)
}

type TestHelper interface {
	TestReporter
	Helper()
}

type Matcher interface {
	Matches(x any) bool
	String() string
}

type Controller struct {
	T     TestHelper
	mu    sync.Mutex
	calls []*Call
}

type nop struct{ TestReporter }

func (nop) Helper() {}

func NewController(t TestReporter, _ ...any) *Controller {
	h, ok := t.(TestHelper)
	if !ok {
		h = nop{t}
	}
	c := &Controller{T: h}
	if cl, ok := t.(interface{ Cleanup(func()) }); ok {
		cl.Cleanup(func() { c.Finish() })
	}
	return c
}

type Call struct {
	recv     any
	method   string
	mtype    reflect.Type
	args     []Matcher
	min, max int
	n        int
	rets     []any
	acts     []func([]any) []any
	pre      []*Call
}

func (c *Controller) RecordCall(recv any, method string, args ...any) *Call {
	m, _ := reflect.TypeOf(recv).MethodByName(method)
	return c.RecordCallWithMethodType(recv, method, m.Type, args...)
}

func (c *Controller) RecordCallWithMethodType(recv any, method string, t reflect.Type, args ...any) *Call {
	call := &Call{recv: recv, method: method, mtype: t, min: 1, max: 1}
	for _, a := range args {
		m, ok := a.(Matcher)
		if !ok {
			m = Eq(a)
		}
		call.args = append(call.args, m)
	}
	c.mu.Lock()
	c.calls = append(c.calls, call)
	c.mu.Unlock()
	return call
}

func (k *Call) matches(recv any, method string, args []any) bool {
	if k.recv != recv || k.method != method || k.n >= k.max {
		return false
	}
	if len(args) != len(k.args) {
		return false
	}
	for i := range args {
		if !k.args[i].Matches(args[i]) {
			return false
		}
	}
	for _, p := range k.pre {
		if p.n < p.min {
			return false
		}
	}
	return true
}

func (c *Controller) Call(recv any, method string, args ...any) []any {
	c.T.Helper()
	c.mu.Lock()
	var found *Call
	for _, k := range c.calls {
		if k.matches(recv, method, args) {
			found = k
			break
		}
	}
	if found == nil {
		c.mu.Unlock()
		c.T.Fatalf("unexpected call to %T.%s(%v)", recv, method, args)
		return nil
	}
	found.n++
	for _, p := range found.pre { // predecessors are exhausted
		p.max = p.n
	}
	acts, rets := found.acts, found.rets
	c.mu.Unlock()
	out := rets
	for _, a := range acts {
		if r := a(args); r != nil {
			out = r
		}
	}
	if out == nil {
		t := found.mtype
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, reflect.Zero(t.Out(i)).Interface())
		}
	}
	return out
}

func (c *Controller) Finish() {
	c.T.Helper()
	for _, k := range c.calls {
		if k.n < k.min {
			c.T.Errorf("missing call(s) to %T.%s (%d of %d)", k.recv, k.method, k.n, k.min)
		}
	}
}

func (k *Call) AnyTimes() *Call { k.min, k.max = 0, 1<<30; return k }
func (k *Call) Times(n int) *Call {
	k.min, k.max = n, n
	return k
}
func (k *Call) MinTimes(n int) *Call {
	k.min = n
	if k.max == 1 {
		k.max = 1 << 30
	}
	return k
}
func (k *Call) MaxTimes(n int) *Call {
	k.max = n
	if k.min == 1 {
		k.min = 0
	}
	return k
}
func (k *Call) After(p *Call) *Call { k.pre = append(k.pre, p); return k }
func (k *Call) Return(rets ...any) *Call {
	for i, r := range rets {
		if r == nil && i < k.mtype.NumOut() {
			rets[i] = reflect.Zero(k.mtype.Out(i)).Interface()
		} else if r != nil && i < k.mtype.NumOut() && !reflect.TypeOf(r).AssignableTo(k.mtype.Out(i)) {
			panic(fmt.Sprintf("gomock: wrong type of return value %d of %s", i, k.method))
		} else if r != nil && i < k.mtype.NumOut() && reflect.TypeOf(r) != k.mtype.Out(i) {
			v := reflect.New(k.mtype.Out(i)).Elem()
			v.Set(reflect.ValueOf(r))
			rets[i] = v.Interface()
		}
	}
	k.rets = rets
	return k
}
func invoke(f any, args []any) []reflect.Value {
	v := reflect.ValueOf(f)
	in := make([]reflect.Value, 0, len(args))
	for i, a := range args {
		if a == nil {
			in = append(in, reflect.Zero(v.Type().In(i)))
		} else {
			in = append(in, reflect.ValueOf(a))
		}
	}
	return v.Call(in)
}
func (k *Call) Do(f any) *Call {
	k.acts = append(k.acts, func(args []any) []any { invoke(f, args); return nil })
	return k
}
func (k *Call) DoAndReturn(f any) *Call {
	k.acts = append(k.acts, func(args []any) []any {
		res := []any{}
		for _, v := range invoke(f, args) {
			res = append(res, v.Interface())
		}
		return res
	})
	return k
}

func InOrder(calls ...any) {
	var last *Call
	for _, c := range calls {
		k := c.(*Call)
		if last != nil {
			k.After(last)
		}
		last = k
	}
}

type anyMatcher struct{}

func (anyMatcher) Matches(any) bool { return true }
func (anyMatcher) String() string   { return "is anything" }
func Any() Matcher                  { return anyMatcher{} }

type eqMatcher struct{ x any }

func (e eqMatcher) Matches(x any) bool {
	if e.x == nil || x == nil {
		return isNil(e.x) && isNil(x)
	}
	a, b := reflect.ValueOf(e.x), reflect.ValueOf(x)
	if a.Type().AssignableTo(b.Type()) {
		return reflect.DeepEqual(a.Convert(b.Type()).Interface(), x)
	}
	return reflect.DeepEqual(e.x, x)
}
func (e eqMatcher) String() string { return fmt.Sprintf("is equal to %v", e.x) }
func Eq(x any) Matcher             { return eqMatcher{x} }

type notMatcher struct{ m Matcher }

func (n notMatcher) Matches(x any) bool { return !n.m.Matches(x) }
func (n notMatcher) String() string     { return "not(" + n.m.String() + ")" }
func Not(x any) Matcher {
	if m, ok := x.(Matcher); ok {
		return notMatcher{m}
	}
	return notMatcher{Eq(x)}
}

type allMatcher struct{ ms []Matcher }

func (a allMatcher) Matches(x any) bool {
	for _, m := range a.ms {
		if !m.Matches(x) {
			return false
		}
	}
	return true
}
func (a allMatcher) String() string {
	var s []string
	for _, m := range a.ms {
		s = append(s, m.String())
	}
	return strings.Join(s, "; ")
}
func All(ms ...Matcher) Matcher { return allMatcher{ms} }

func isNil(x any) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice:
		return v.IsNil()
	}
	return false
}
func Nil() Matcher { return nilMatcher{} }

type nilMatcher struct{}

func (nilMatcher) Matches(x any) bool { return isNil(x) }
func (nilMatcher) String() string     { return "is nil" }
