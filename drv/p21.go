package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"

	"verif/lib/engine"
)

type ctxKey struct{}

// slot is a request and what it should contain.
type slot struct {
	x   *Route
	req reflect.Value
	e   *expectation
}

// newSlot creates a request from the given client, with the mandatory body.
func newSlot(x *Route, client reflect.Value) *slot {
	s := &slot{x: x, req: method(client, x.M.GoName()).Call(nil)[0], e: newExpectation()}
	if p := bodyParam(x.V, x.M); p != nil {
		s.set(p.Name.String(), 1)
	}
	return s
}

// set sets the given parameter to one of the representative values.
func (s *slot) set(name string, n int) {
	for _, p := range s.x.M.In() {
		if p.Name.String() == name {
			val := paramSamples(s.x.V, p)[n]
			setParam(s.req, p, val)
			s.e.values[name] = val
			return
		}
	}
	panic("parameter " + name)
}

// first and last are the parameters that are changed.
func (s *slot) first() string { return s.x.M.In()[0].Name.String() }
func (s *slot) last() string {
	in := s.x.M.In()
	return in[len(in)-1].Name.String()
}

// answer is a response given by the transport.
type answer struct {
	response reflect.Value
	x        *Route
	values   map[string]any
	header   http.Header
}

func (a *answer) check(c *engine.Ctx) {
	checkParams(c, a.x, a.response, a.values)
	got, _ := method(a.response, "Header").Call(nil)[0].Interface().(http.Header)
	c.Equal("header of the response", headerText(got), headerText(a.header))
}

// answerFor calculates the answer number n for the route.
func answerFor(x *Route, n int) *answer {
	a := &answer{x: x, values: map[string]any{}, header: http.Header{"X-Number": {fmt.Sprint(n)}}}
	for _, p := range x.M.Out() {
		list := paramSamples(x.V, p)
		a.values[p.Name.String()] = list[(n+1)%min(3, len(list))]
	}
	return a
}

// clobber changes everything that can be changed in a request that was received.
func clobber(r *http.Request) {
	for name, values := range r.Header {
		for i := range values {
			values[i] = "clobbered"
		}
		r.Header[name] = append(values, "more")
	}
	if r.Header != nil {
		r.Header.Set("X-Clobbered", "yes")
	}
	r.URL.Path = "/clobbered"
	r.URL.RawQuery = "clobbered"
}

const slotOps = 8

// apply applies an operation to the slot. It returns false if it isn't applicable.
func (s *slot) apply(op int) bool {
	switch op {
	case 0:
		if len(s.x.M.In()) == 0 {
			return false
		}
		s.set(s.first(), 1)
	case 1:
		if len(s.x.M.In()) == 0 {
			return false
		}
		s.set(s.first(), 0)
	case 2:
		if len(s.x.M.In()) < 2 {
			return false
		}
		s.set(s.last(), 1)
	case 3:
		s.e.apply(s.req, extra{0, "user", "a", "a"})
	case 4:
		s.e.apply(s.req, extra{0, "user", 2, "2"})
	case 5:
		s.e.apply(s.req, extra{1, "X-User", "b", "b"})
	case 6:
		s.e.apply(s.req, extra{1, "X-User", 3, "3"})
	case 7:
		s.e.apply(s.req, extra{2, "", nil, "admin"})
	default:
		panic("operation")
	}
	return true
}

// sendSlot sends the request, verifies what is received, and returns the answer.
func sendSlot(c *engine.Ctx, t *Transport, s *slot, base string, during func()) *answer {
	before := len(t.Sent)
	expected := s.e.clone()
	a := answerFor(s.x, before)
	ctx := context.WithValue(context.Background(), ctxKey{}, before)
	t.Handler = func(sent *Sent) (*http.Response, error) {
		c.Equal("request", sent.Method+" "+sent.Path, s.x.M.Verb()+" "+base+joinSegments(s.x))
		expected.check(c, s.x, sent)
		c.Check(sent.Ctx.Value(ctxKey{}) == before, "the context of the request isn't the given one")
		clobber(sent.Raw)
		if during != nil {
			during()
		}
		return t.Response(200, a.header.Clone(), responseDoc(s.x, a.values, nil)), nil
	}
	response, err := sendContext(s.req, ctx)
	c.Check(err == nil, "can't send: %v", err)
	a.response = response
	a.check(c)
	return a
}

func joinSegments(x *Route) string {
	text := ""
	for _, s := range x.segments(x.ids()) {
		text += "/" + s
	}
	return text
}

func init() {
	properties["P21"] = &Property{
		Rule: "one execution per sequence of operations on two requests (set parameters, add parameters and headers, impersonate, send, create again), or per interleaving of the operations of two threads; each request received by the transport is compared with the one calculated from the operations applied to that request only; outcomes are the distinct histories",
		Assumptions: []string{
			"a request is used by one thread at a time",
			"interleavings are switched at the interactions of the generated code with its environment: start of operations, round trip, reading of the request body, reading and closing of the response body",
			"resources of the reference model (lib/models)",
		},
		Run: func(r *engine.Report) {
			depth := 2
			if r.Thorough() {
				depth = 3
			}
			base := "/base"
			const perSlot = slotOps + 2
			history := func(x, y *Route, depth int, name string) {
				r.Explore(name, fmt.Sprintf("all the sequences of %d operations on two requests, followed by sending both of them and the first one again; the transport modifies what it receives", depth), func(c *engine.Ctx) {
					ops := make([]int, depth)
					for i := range ops {
						ops[i] = c.Choose("operation", 2*perSlot)
					}
					c.Commit()
					t := &Transport{}
					root := versionClient(t, x.V, base)
					one, two := x.from(root), y.from(root)
					if x == y {
						two = one
					}
					slots := []*slot{newSlot(x, one), newSlot(y, two)}
					clients := []reflect.Value{one, two}
					var answers []*answer
					text := ""
					for _, op := range ops {
						i, op := op/perSlot, op%perSlot
						s := slots[i]
						switch op {
						case slotOps:
							answers = append(answers, sendSlot(c, t, s, base, nil))
						case slotOps + 1:
							slots[i] = newSlot(s.x, clients[i])
						default:
							if !s.apply(op) {
								c.Skip()
							}
						}
						c.State(fmt.Sprint(len(t.Sent), i, op, queryCanon(s.e.query), headerText(s.e.header)))
					}
					for _, i := range []int{0, 1, 0} {
						answers = append(answers, sendSlot(c, t, slots[i], base, nil))
					}
					for _, a := range answers {
						a.check(c)
					}
					for _, s := range t.Sent {
						text += s.text()
					}
					c.Outcome(text)
				})
			}
			list := methodRoutes()
			for _, x := range list {
				history(x, x, depth, "histories of "+x.String())
			}
			find := func(text string) *Route {
				for _, x := range list {
					if x.String() == text {
						return x
					}
				}
				panic("route " + text)
			}
			history(find("routes_api/v1/things:list"), find("routes_api/v1/things:list"), depth+1, "long histories of list")
			history(find("routes_api/v1/things/thing:update"), find("routes_api/v1/things/thing:get"), depth+1, "long histories of update and get")
			// All the pairs of methods of the same version:
			r.Explore("pairs of methods", "all the ordered pairs of methods of the same version with one operation each", func(c *engine.Ctx) {
				x := engine.Pick(c, "first", list)
				y := engine.Pick(c, "second", list)
				one := c.Choose("operation", slotOps)
				two := c.Choose("operation", slotOps)
				if x.V != y.V {
					c.Skip()
				}
				c.Commit()
				t := &Transport{}
				root := versionClient(t, x.V, base)
				a, b := newSlot(x, x.from(root)), newSlot(y, y.from(root))
				if !a.apply(one) || !b.apply(two) {
					c.Skip()
				}
				first := sendSlot(c, t, a, base, nil)
				second := sendSlot(c, t, b, base, nil)
				first.check(c)
				third := sendSlot(c, t, a, base, nil)
				first.check(c)
				second.check(c)
				third.check(c)
				c.Outcome(t.Sent[0].text() + t.Sent[1].text())
			})
			// Operations during the round trip:
			r.Explore("operations in flight", "all the methods, all the operations on the same request or on another one of the same client while the first is in flight, nested up to two levels", func(c *engine.Ctx) {
				x := engine.Pick(c, "method", list)
				before := c.Choose("before", slotOps)
				target := c.Choose("target", 2)
				op := c.Choose("operation", slotOps+1)
				second := c.Choose("second operation", slotOps)
				c.Commit()
				t := &Transport{}
				client := x.from(versionClient(t, x.V, base))
				slots := []*slot{newSlot(x, client), newSlot(x, client)}
				ok := slots[0].apply(before)
				var nested *answer
				first := sendSlot(c, t, slots[0], base, func() {
					s := slots[target]
					if op == slotOps {
						handler := t.Handler
						nested = sendSlot(c, t, s, base, func() { ok = s.apply(second) && ok })
						t.Handler = handler
						return
					}
					ok = s.apply(op) && s.apply(second) && ok
				})
				if !ok {
					c.Skip()
				}
				first.check(c)
				if nested != nil {
					nested.check(c)
				}
				sendSlot(c, t, slots[1], base, nil)
				sendSlot(c, t, slots[0], base, nil)
				c.Outcome(fmt.Sprint(t.Sent[len(t.Sent)-1].text(), t.Sent[len(t.Sent)-2].text()))
			})
			// Contexts:
			r.Explore("contexts", "all the methods with explicit, cancelled, nil and default contexts", func(c *engine.Ctx) {
				x := engine.Pick(c, "method", list)
				kind := c.Choose("kind", 4)
				c.Commit()
				t := &Transport{}
				req := ready(x, t)
				var err error
				var ctx context.Context
				switch kind {
				case 0:
					_, err = send(req)
				case 1:
					_, err = sendContext(req, nil)
				case 2:
					ctx = context.WithValue(context.Background(), ctxKey{}, "x")
					_, err = sendContext(req, ctx)
				case 3:
					cancelled, cancel := context.WithCancel(context.Background())
					cancel()
					ctx = cancelled
					_, err = sendContext(req, ctx)
				}
				c.Check(err == nil, "can't send: %v", err)
				got := t.Sent[0].Ctx
				if ctx != nil {
					c.Check(got.Value(ctxKey{}) == ctx.Value(ctxKey{}) && got.Err() == ctx.Err(), "context of the request isn't the given one")
				} else {
					c.Check(got.Err() == nil, "default context is cancelled")
				}
				c.Outcome(fmt.Sprint(x, kind))
			})
			// Locators from the same client:
			r.Explore("clients", "all the resources with locators, all the pairs of locators and identifiers from the same client, used in both orders", func(c *engine.Ctx) {
				all := routes()
				x := engine.Pick(c, "resource", all)
				if x.M != nil || len(x.R.Locators) == 0 {
					c.Skip()
				}
				a := engine.Pick(c, "first locator", x.R.Locators)
				b := engine.Pick(c, "second locator", x.R.Locators)
				order := c.Flag("order")
				c.Commit()
				t := &Transport{}
				client := x.client(t, base, x.ids())
				p := &Route{V: x.V, Locs: append(append(x.Locs[:len(x.Locs):len(x.Locs)]), a), R: x.V.Resource(a.Target)}
				q := &Route{V: x.V, Locs: append(append(x.Locs[:len(x.Locs):len(x.Locs)]), b), R: x.V.Resource(b.Target)}
				first, second := follow(client, a, "one"), follow(client, b, "two")
				use := func(r *Route, client reflect.Value, id string) {
					for _, m := range r.R.Methods {
						r.M = m
						s := newSlot(r, client)
						t.Handler = nil
						_, err := send(s.req)
						c.Check(err == nil, "can't send: %v", err)
						ids := r.ids()
						if len(ids) > 0 && r.Locs[len(r.Locs)-1].Variable {
							ids[len(ids)-1] = id
						}
						want := base
						for _, s := range r.segments(ids) {
							want += "/" + s
						}
						c.Equal("path", t.Sent[len(t.Sent)-1].Path, want)
					}
				}
				if order {
					use(q, second, "two")
					use(p, first, "one")
				} else {
					use(p, first, "one")
					use(q, second, "two")
				}
				use(p, first, "one")
				// The client where the locators were used, again:
				for _, m := range x.R.Methods {
					y := &Route{V: x.V, Locs: x.Locs, R: x.R, M: m}
					sendSlot(c, t, newSlot(y, client), base, nil)
				}
				c.Outcome(fmt.Sprint(p, q, order))
			})
			metadataHistories(r)
			interleavings(r, list, base)
		},
	}
}

// from follows the locators of the route from the client of the version.
func (r *Route) from(client reflect.Value) reflect.Value {
	ids := r.ids()
	for _, l := range r.Locs {
		id := ""
		if l.Variable {
			id, ids = ids[0], ids[1:]
		}
		client = follow(client, l, id)
	}
	return client
}

// ---- Interleavings of threads ----

// sched is a cooperative scheduler: only one thread runs at a time, and the explorer decides which one
// continues at each switch point.
type sched struct {
	turn   []chan bool
	parked chan int // Thread that reached a switch point, or -1-i when thread i finished.
}

func (s *sched) yield(i int) {
	s.parked <- i
	if !<-s.turn[i] {
		panic(abandoned{})
	}
}

type abandoned struct{}

// threadTransport is a transport that yields at each interaction.
type threadTransport struct {
	s      *sched
	handle func(r *http.Request, thread int) (*http.Response, error)
}

func (t *threadTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	thread := r.Context().Value(ctxKey{}).(int)
	return t.handle(r, thread)
}

type threadBody struct {
	s      *sched
	thread int
	text   string
	closed bool
}

func (b *threadBody) Read(p []byte) (int, error) {
	b.s.yield(b.thread)
	if b.closed {
		panic("body was read after closing it")
	}
	if b.text == "" {
		return 0, io.EOF
	}
	n := copy(p, b.text[:(len(b.text)+1)/2])
	b.text = b.text[n:]
	return n, nil
}

func (b *threadBody) Close() error {
	b.closed = true
	return nil
}

func interleavings(r *engine.Report, list []*Route, base string) {
	number := 0
	run := func(name string, x, y *Route, script [][]int, bound int) {
		key := number
		number += 2
		r.Explore(name, fmt.Sprintf("all the interleavings of two threads with at most %d preemptions; the threads use different requests of the same client; switches at operations, round trips and reads", bound), func(c *engine.Ctx) {
			start := c.Choose("start", 2)
			c.Partition(key + start)
			s := &sched{parked: make(chan int), turn: []chan bool{make(chan bool), make(chan bool)}}
			t := &threadTransport{s: s}
			root := versionClient(t, x.V, base)
			one := x.from(root)
			two := one
			if x != y {
				two = y.from(root)
			}
			clients := []reflect.Value{one, two}
			rts := []*Route{x, y}
			failures := make([]any, 2)
			expected := make([]*expectation, 2)
			answers := make([]*answer, 2)
			counts := make([]int, 2)
			t.handle = func(req *http.Request, i int) (*http.Response, error) {
				s.yield(i)
				data := ""
				if req.Body != nil {
					// Read in two parts, with a switch in the middle:
					buf := make([]byte, 7)
					for {
						n, err := req.Body.Read(buf)
						data += string(buf[:n])
						if err == io.EOF {
							break
						}
						if err != nil {
							return nil, err
						}
						if len(data) <= 7 {
							s.yield(i)
						}
					}
				}
				query, err := url.ParseQuery(req.URL.RawQuery)
				if err != nil {
					return nil, err
				}
				sent := &Sent{Method: req.Method, Path: req.URL.Path, Query: query, Header: req.Header.Clone(), Body: data}
				c.Equal("request", sent.Method+" "+sent.Path, rts[i].M.Verb()+" "+base+joinSegments(rts[i]))
				expected[i].check(c, rts[i], sent)
				counts[i]++
				s.yield(i)
				return &http.Response{StatusCode: 200, Header: answers[i].header.Clone(), Body: &threadBody{s: s, thread: i, text: responseDoc(rts[i], answers[i].values, nil)}}, nil
			}
			thread := func(i int) {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(abandoned); ok {
							s.parked <- -1 - i
							return
						}
						failures[i] = p
					}
					s.parked <- -1 - i
				}()
				if !<-s.turn[i] {
					return
				}
				sl := newSlot(rts[i], clients[i])
				n := i
				for _, op := range script[i] {
					s.yield(i)
					if op < slotOps {
						sl.apply(op)
						continue
					}
					expected[i] = sl.e.clone()
					answers[i] = answerFor(rts[i], n)
					n += 2
					ctx := context.WithValue(context.Background(), ctxKey{}, i)
					response, err := sendContext(sl.req, ctx)
					c.Check(err == nil, "can't send: %v", err)
					answers[i].response = response
					answers[i].check(c)
				}
			}
			alive := []bool{true, true}
			for i := range alive {
				go thread(i)
			}
			stop := func() {
				for i := range alive {
					for alive[i] {
						s.turn[i] <- false
						if p := <-s.parked; p == -1-i {
							alive[i] = false
						}
					}
				}
			}
			finished := false
			defer func() {
				if !finished {
					stop()
				}
			}()
			current, preemptions := -1, 0
			trace := ""
			for alive[0] || alive[1] {
				next := current
				switch {
				case current >= 0 && alive[current] && (!alive[1-current] || preemptions >= bound):
					next = current
				case alive[0] && alive[1]:
					if current < 0 {
						next = start
					} else if c.Flag("switch") {
						next = 1 - current
						preemptions++
					}
				case alive[0]:
					next = 0
				default:
					next = 1
				}
				current = next
				trace += fmt.Sprint(current)
				s.turn[current] <- true
				if p := <-s.parked; p < 0 {
					alive[-1-p] = false
				}
				if failures[current] != nil {
					break
				}
			}
			stop()
			finished = true
			for _, f := range failures {
				if f != nil {
					panic(f)
				}
			}
			for i := range counts {
				n := 0
				for _, op := range script[i] {
					if op == slotOps {
						n++
					}
				}
				c.Equal("number of requests", counts[i], n)
			}
			c.Outcome(trace)
		})
	}
	bound := 2
	if r.Thorough() {
		bound = 3
	}
	script := [][]int{{3, 5, slotOps, 0, slotOps}, {4, 7, slotOps, 1, slotOps}}
	for _, x := range list {
		run("threads of "+x.String(), x, x, script, bound)
	}
	find := func(text string) *Route {
		for _, x := range list {
			if x.String() == text {
				return x
			}
		}
		panic("route " + text)
	}
	pairs := [][2]string{
		{"routes_api/v1/things:add", "routes_api/v1/things:list"},
		{"routes_api/v1/things:add", "routes_api/v1/actions:exchange_all"},
		{"routes_api/v1/things/thing:update", "routes_api/v1/bulk_items:update"},
		{"routes_api/v1/identity_providers:search", "routes_api/v1/actions:rename"},
	}
	for _, p := range pairs {
		run("threads of "+p[0]+" and "+p[1], find(p[0]), find(p[1]), script, bound+1)
	}
}
