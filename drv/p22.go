package main

import (
	"context"
	"fmt"
	"net/http"
	"reflect"
	"testing"
	"testing/synctest"
	"time"

	"example.com/gen/errors"
	"verif/lib/engine"
)

// letter is one of the possible answers to a request of the polling loop.
type letter struct {
	name    string
	status  int  // Zero means that the transport fails
	match   bool // The body satisfies the predicate
	body    bool
	broken  bool
	seconds int // Time used by the server
}

var letters = []letter{
	{"match", 200, true, true, false, 0},
	{"no match", 200, false, true, false, 0},
	{"slow no match", 200, false, true, false, 5},
	{"slow match", 200, true, true, false, 5},
	{"accepted without body", 202, false, false, false, 0},
	{"not found", 404, false, true, false, 0},
	{"not found without body", 404, false, false, false, 5},
	{"server error", 500, false, true, false, 0},
	{"transport failure", 0, false, false, false, 0},
	{"slow transport failure", 0, false, false, false, 5},
	{"malformed body", 200, false, false, true, 0},
}

// pollConfig is the configuration of a polling loop.
type pollConfig struct {
	statuses   []int
	predicates int // 0: none, 1: the body matches, 2: the body matches and true, 3: false, 4: true
	deadline   int
	cancel     int // Second when the context is cancelled, or -1
}

func (p *pollConfig) satisfied(l letter) bool {
	statuses := p.statuses
	if len(statuses) == 0 {
		statuses = []int{200}
	}
	ok := false
	for _, s := range statuses {
		ok = ok || s == l.status
	}
	switch p.predicates {
	case 1, 2:
		ok = ok && l.match
	case 3:
		ok = false
	}
	return ok
}

// inTest runs a function inside a test, as needed to have virtual time. The test never finishes because
// that would end the process.
func inTest(f func(t *testing.T)) {
	done := make(chan any)
	go testing.Main(
		func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "poll", F: func(t *testing.T) {
			defer func() {
				done <- recover()
				select {}
			}()
			f(t)
		}}},
		nil, nil,
	)
	if failure := <-done; failure != nil {
		panic(failure)
	}
}

// bubble runs the function with virtual time, and propagates its panics.
func bubble(t *testing.T, f func()) {
	var failure any
	synctest.Test(t, func(t *testing.T) {
		defer func() { failure = recover() }()
		f()
	})
	if failure != nil {
		panic(failure)
	}
}

func init() {
	properties["P22"] = &Property{
		Rule: "one execution per configuration of the polling loop and history of answers of the server (status, body, duration, failures), with a virtual clock; the times of the requests and the result are compared with the reference model; outcomes are the distinct histories",
		Assumptions: []string{
			"the clock is virtual (testing/synctest), and nothing happens exactly at the deadline",
			"when the context is cancelled while waiting one more request, with the cancelled context, is accepted",
			"when there is no time for another interval before the deadline the result of the last request is returned",
			"resources of the reference model (lib/models)",
		},
		Run: func(r *engine.Report) {
			inTest(func(t *testing.T) { polls(t, r) })
		},
	}
}

func polls(t *testing.T, r *engine.Report) {
	var configs []*pollConfig
	for _, statuses := range [][]int{nil, {200}, {404}, {404, 200}, {202, 500}} {
		for predicates := 0; predicates < 5; predicates++ {
			for _, deadline := range []int{37, 7, 17, 57} {
				for _, cancel := range []int{-1, 3, 12, 18} {
					if cancel > deadline {
						continue
					}
					configs = append(configs, &pollConfig{statuses, predicates, deadline, cancel})
				}
			}
		}
	}
	const interval = 10
	number := 0
	poll := func(c *engine.Ctx, x *Route, cfg *pollConfig, depth int) {
		tr := &Transport{}
		attrs := x.M.Out()[0]
		samples := paramSamples(x.V, attrs)
		matching, other := samples[1], samples[0]
		var history []letter
		var times []int
		e := newExpectation()
		bubble(t, func() {
			start := time.Now()
			now := func() int { return int(time.Since(start) / time.Second) }
			ctx := context.Context(context.WithValue(context.Background(), ctxKey{}, "mine"))
			ctx, stop := context.WithDeadline(ctx, start.Add(time.Duration(cfg.deadline)*time.Second))
			defer stop()
			var cancelled bool
			if cfg.cancel >= 0 {
				inner, cancel := context.WithCancel(ctx)
				ctx = inner
				timer := time.AfterFunc(time.Duration(cfg.cancel)*time.Second, func() { cancelled = true; cancel() })
				defer timer.Stop()
				defer cancel()
			}
			req := method(x.client(tr, "/base", x.ids()), "Poll").Call(nil)[0]
			method(req, "Interval").Call([]reflect.Value{reflect.ValueOf(interval * time.Second)})
			for _, s := range cfg.statuses {
				method(req, "Status").Call([]reflect.Value{reflect.ValueOf(s)})
			}
			predicate := method(req, "Predicate")
			var seen []reflect.Value
			add := func(f func(v reflect.Value) bool) {
				predicate.Call([]reflect.Value{reflect.MakeFunc(predicate.Type().In(0), func(args []reflect.Value) []reflect.Value {
					seen = append(seen, args[0])
					return []reflect.Value{reflect.ValueOf(f(args[0]))}
				})})
			}
			match := func(v reflect.Value) bool {
				val, ok, err := readParam(x.V, attrs, v)
				return err == nil && ok && canon(val) == canon(matching)
			}
			always := func(flag bool) func(v reflect.Value) bool { return func(reflect.Value) bool { return flag } }
			switch cfg.predicates {
			case 1:
				add(match)
			case 2:
				add(always(true))
				add(match)
			case 3:
				add(always(true))
				add(always(false))
				add(always(true))
			case 4:
				add(always(true))
			}
			for _, p := range x.M.In() {
				val := paramSamples(x.V, p)[1]
				setParam(req, p, val)
				e.values[p.Name.String()] = val
			}
			e.apply(req, extra{0, "user", "a b", "a b"})
			e.apply(req, extra{1, "X-User", 42, "42"})
			lateRequests := 0
			tr.Handler = func(s *Sent) (*http.Response, error) {
				c.Check(len(tr.Sent) < 20, "too many requests")
				c.Equal("request", s.Method+" "+s.Path, "GET /base"+joinSegments(x))
				e.check(c, x, s)
				c.Check(s.Ctx.Value(ctxKey{}) == "mine", "the context of the request isn't derived from the given one")
				if err := s.Ctx.Err(); err != nil {
					lateRequests++
					history = append(history, letter{name: "cancelled"})
					times = append(times, now())
					return nil, err
				}
				l := letter{name: "end"}
				if len(history) < depth {
					l = engine.Pick(c, "answer", letters)
				}
				times = append(times, now())
				if l.seconds > 0 {
					timer := time.NewTimer(time.Duration(l.seconds) * time.Second)
					select {
					case <-timer.C:
					case <-s.Ctx.Done():
						timer.Stop()
						history = append(history, letter{name: "interrupted"})
						return nil, s.Ctx.Err()
					}
				}
				history = append(history, l)
				switch {
				case l.status == 0:
					return nil, errBroken
				case l.broken:
					return tr.Response(l.status, nil, "{"), nil
				case !l.body:
					return tr.Response(l.status, nil, ""), nil
				case l.status >= 400:
					return tr.Response(l.status, nil, fmt.Sprintf(`{"kind":"Error","id":"%d","reason":"attempt %d"}`, l.status, len(history))), nil
				case l.match:
					return tr.Response(l.status, http.Header{"X-N": {fmt.Sprint(len(history))}}, compact(toJSON(matching))), nil
				default:
					return tr.Response(l.status, http.Header{"X-N": {fmt.Sprint(len(history))}}, compact(toJSON(other))), nil
				}
			}
			out := method(req, "StartContext").Call([]reflect.Value{reflect.ValueOf(&ctx).Elem()})
			response := out[0]
			err, _ := out[1].Interface().(error)
			end := now()
			c.Step(len(history))
			c.Equal("bodies closed", tr.Closed, tr.Opened)
			c.Check(len(history) > 0, "no request was sent")
			c.Check(lateRequests <= 1, "%d requests were sent after the end of the context", lateRequests)

			// Times of the requests, and condition to stop:
			at := 0
			for i, l := range history {
				last := i == len(history)-1
				if l.name == "cancelled" || l.name == "interrupted" {
					c.Check(last, "polling continues after the end of the context")
					c.Check(err != nil, "context ended but there is no error")
					c.Check(end <= max(at, cfg.deadline), "polling continues %d seconds after the deadline", end-cfg.deadline)
					c.Outcome(fmt.Sprint(cfg, history))
					return
				}
				c.Equal(fmt.Sprintf("time of request %d", i), times[i], at)
				at += l.seconds
				done := l.status == 0 || cfg.satisfied(l) || at+interval > cfg.deadline
				if l.broken {
					// The response is malformed, the rest of the checks depend on the status only:
					done = cfg.satisfied(l) || at+interval > cfg.deadline
				}
				if last {
					if cancelled && !done {
						c.Check(err != nil, "context ended but there is no error")
						return
					}
					c.Check(done, "polling stopped after '%s' at second %d", l.name, at)
				} else {
					c.Check(!done, "polling continued after '%s' at second %d", l.name, at)
				}
				at += interval
			}
			at -= interval
			c.Equal("end of polling", end, at)
			l := history[len(history)-1]
			if l.status == 0 {
				c.Check(err == errBroken, "error is '%v' instead of the error of the transport", err)
				return
			}
			c.Check(!response.IsNil(), "response is nil")
			c.Equal("status", int(method(response, "Status").Call(nil)[0].Int()), l.status)
			values := map[string]any{}
			switch {
			case l.broken:
				c.Check(err != nil, "malformed response doesn't give an error")
				return
			case l.status >= 400 && l.body:
				object, ok := err.(*errors.Error)
				c.Check(ok, "error is '%v'", err)
				c.Equal("reason", object.Reason(), fmt.Sprintf("attempt %d", len(history)))
				c.Equal("status", object.Status(), l.status)
				c.Check(!method(response, "Error").Call(nil)[0].IsNil(), "response has no error")
			case l.body:
				c.Check(err == nil, "response %d gives error '%v'", l.status, err)
				c.Check(method(response, "Error").Call(nil)[0].IsNil(), "response has an error")
				header := method(response, "Header").Call(nil)[0].Interface().(http.Header)
				c.Equal("number of the response", header.Get("X-N"), fmt.Sprint(len(history)))
				values[attrs.Name.String()] = other
				if l.match {
					values[attrs.Name.String()] = matching
				}
			default:
				c.Check(err == nil, "response %d without body gives error '%v'", l.status, err)
			}
			checkParams(c, x, response, values)
			c.Outcome(fmt.Sprint(cfg, history))
		})
	}
	var gets []*Route
	for _, x := range methodRoutes() {
		if x.M.Name.String() == "get" {
			gets = append(gets, x)
		}
	}
	depth := 4
	if r.Thorough() {
		depth = 5
	}
	for i, x := range gets {
		deep := i == 1
		bounds := "all the configurations (statuses, predicates, deadline, cancellation) and all the histories of at most %d answers"
		n := 3
		if deep {
			n = depth
		}
		if r.Thorough() {
			n = max(n, 4)
		}
		r.Explore("polling "+x.String(), fmt.Sprintf(bounds, n), func(c *engine.Ctx) {
			k := c.Choose("configuration", len(configs))
			c.Partition(k)
			poll(c, x, configs[k], n)
		})
		r.Explore("long polling of "+x.String(), "up to 60 answers that don't satisfy the conditions followed by one that does, with all the kinds of conditions and intervals from 10 milliseconds to one hour", func(c *engine.Ctx) {
			n := engine.Pick(c, "answers", []int{0, 1, 5, 6, 8, 9, 10, 11, 16, 20, 30, 31, 32, 33, 50, 60})
			span := engine.Pick(c, "interval", []time.Duration{10 * time.Millisecond, time.Second, 1500 * time.Millisecond, 10 * time.Second, time.Minute, time.Hour})
			kind := c.Choose("answer", 4)
			c.Commit()
			bubble(t, func() {
				start := time.Now()
				tr := &Transport{}
				out := x.M.Out()[0]
				matching, other := paramSamples(x.V, out)[1], paramSamples(x.V, out)[0]
				tr.Handler = func(s *Sent) (*http.Response, error) {
					i := len(tr.Sent) - 1
					c.Equal(fmt.Sprintf("time of request %d", i), time.Since(start), time.Duration(i)*span)
					c.Check(i <= n, "request %d is sent after the condition was satisfied", i)
					if i == n {
						return tr.Response(200, nil, compact(toJSON(matching))), nil
					}
					switch kind {
					case 0:
						return tr.Response(202, nil, ""), nil
					case 1:
						return tr.Response(404, nil, `{"kind":"Error","id":"404"}`), nil
					case 2:
						return tr.Response(503, nil, ""), nil
					}
					return tr.Response(200, nil, compact(toJSON(other))), nil
				}
				ctx, cancel := context.WithTimeout(context.Background(), 100*time.Hour)
				defer cancel()
				req := method(x.client(tr, "/base", x.ids()), "Poll").Call(nil)[0]
				method(req, "Interval").Call([]reflect.Value{reflect.ValueOf(span)})
				method(req, "Status").Call([]reflect.Value{reflect.ValueOf(200)})
				if kind == 3 {
					predicate := method(req, "Predicate")
					predicate.Call([]reflect.Value{reflect.MakeFunc(predicate.Type().In(0), func(args []reflect.Value) []reflect.Value {
						val, ok, err := readParam(x.V, out, args[0])
						return []reflect.Value{reflect.ValueOf(err == nil && ok && canon(val) == canon(matching))}
					})})
				}
				var base context.Context = ctx
				result := method(req, "StartContext").Call([]reflect.Value{reflect.ValueOf(&base).Elem()})
				err, _ := result[1].Interface().(error)
				c.Check(err == nil, "polling failed: %v", err)
				c.Equal("requests", len(tr.Sent), n+1)
				c.Equal("duration", time.Since(start), time.Duration(n)*span)
				c.Equal("status", int(method(result[0], "Status").Call(nil)[0].Int()), 200)
				c.Equal("bodies closed", tr.Closed, tr.Opened)
				checkParams(c, x, result[0], map[string]any{out.Name.String(): matching})
				c.Outcome(fmt.Sprint(n, span, kind))
			})
		})
		number++
		r.Explore("invalid polling of "+x.String(), "missing and wrong intervals and deadlines, and contexts that already ended", func(c *engine.Ctx) {
			spans := []time.Duration{0, -1, -time.Hour, time.Second}
			k := c.Choose("interval", len(spans)+1)
			kind := c.Choose("context", 4)
			c.Commit()
			if k == 3 && kind == 0 {
				c.Skip()
			}
			bubble(t, func() {
				tr := &Transport{}
				late := 0
				tr.Handler = func(s *Sent) (*http.Response, error) {
					if s.Ctx.Err() != nil {
						late++
						return nil, s.Ctx.Err()
					}
					return tr.Response(200, nil, compact(toJSON(paramSamples(x.V, x.M.Out()[0])[1]))), nil
				}
				ctx := context.Background()
				cancel := func() {}
				switch kind {
				case 0:
					ctx, cancel = context.WithTimeout(ctx, time.Hour)
				case 1:
					ctx, cancel = context.WithCancel(ctx)
				case 2:
					ctx, cancel = context.WithTimeout(ctx, time.Hour)
					cancel()
				case 3:
					ctx, cancel = context.WithDeadline(ctx, time.Now().Add(-time.Second))
				}
				defer cancel()
				req := method(x.client(tr, "/base", x.ids()), "Poll").Call(nil)[0]
				if k < len(spans) {
					method(req, "Interval").Call([]reflect.Value{reflect.ValueOf(spans[k])})
				}
				out := method(req, "StartContext").Call([]reflect.Value{reflect.ValueOf(&ctx).Elem()})
				err, _ := out[1].Interface().(error)
				c.Check(err != nil, "polling with interval %d and context %d gives no error", k, kind)
				c.Check(len(tr.Sent) == late && late <= 1, "requests were sent")
				c.Outcome(fmt.Sprint(k, kind))
			})
		})
		// Two polling loops with the same request, and two requests from the same client:
		r.Explore("reuse of polling of "+x.String(), "two loops with the same or with other request of the same client, after all the histories of at most two answers", func(c *engine.Ctx) {
			same := c.Flag("same")
			n := c.Choose("answers", 3)
			c.Commit()
			bubble(t, func() {
				tr := &Transport{}
				count := 0
				tr.Handler = func(s *Sent) (*http.Response, error) {
					count++
					if count <= n {
						return tr.Response(202, nil, ""), nil
					}
					return tr.Response(200, nil, ""), nil
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
				defer cancel()
				client := x.client(tr, "/base", x.ids())
				create := func() reflect.Value {
					req := method(client, "Poll").Call(nil)[0]
					method(req, "Interval").Call([]reflect.Value{reflect.ValueOf(time.Second)})
					return req
				}
				one := create()
				two := one
				if !same {
					two = create()
				}
				method(one, "Parameter").Call([]reflect.Value{reflect.ValueOf("a"), reflect.ValueOf("b")})
				start := func(req reflect.Value) {
					var base context.Context = ctx
					out := method(req, "StartContext").Call([]reflect.Value{reflect.ValueOf(&base).Elem()})
					err, _ := out[1].Interface().(error)
					c.Check(err == nil, "polling failed: %v", err)
				}
				start(one)
				c.Equal("requests", len(tr.Sent), n+1)
				count = 0
				start(two)
				c.Equal("requests", len(tr.Sent), 2*n+2)
				for i, s := range tr.Sent {
					want := "a=b"
					if i > n && !same {
						want = ""
					}
					c.Equal("query", s.Query.Encode(), want)
				}
				// The plain request isn't affected:
				_, err := send(method(client, "Get").Call(nil)[0])
				c.Check(err == nil, "%v", err)
				c.Equal("query", tr.Sent[len(tr.Sent)-1].Query.Encode(), "")
				c.Outcome(fmt.Sprint(same, n))
			})
		})
	}
}
