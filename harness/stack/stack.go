package stack

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/DanLavine/goasync"
	"github.com/DanLavine/urlrouter"
	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/internal/helpers"
	limiterhandlers "github.com/DanLavine/willow/internal/limiter/api/v1/handlers"
	limiterrouter "github.com/DanLavine/willow/internal/limiter/api/v1/router"
	"github.com/DanLavine/willow/internal/limiter/counters"
	"github.com/DanLavine/willow/internal/limiter/overrides"
	"github.com/DanLavine/willow/internal/limiter/rules"
	lockerhandlers "github.com/DanLavine/willow/internal/locker/api/v1/handlers"
	lockerrouter "github.com/DanLavine/willow/internal/locker/api/v1/router"
	lockmanager "github.com/DanLavine/willow/internal/locker/lock_manager"
	willowhandlers "github.com/DanLavine/willow/internal/willow/api/v1/handlers"
	willowrouter "github.com/DanLavine/willow/internal/willow/api/v1/router"
	queuechannels "github.com/DanLavine/willow/internal/willow/brokers/queue_channels"
	"github.com/DanLavine/willow/internal/willow/brokers/queue_channels/constructor"
	"github.com/DanLavine/willow/internal/willow/brokers/queues"
	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	apierrors "github.com/DanLavine/willow/pkg/models/api/common/errors"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// Net is an in-memory network: http.DefaultTransport is pointed at it, so the real clients talk to the real handlers
// without sockets. It records what must never happen: handlers that panic, and answers with a server error.
type Net struct {
	mu       sync.Mutex
	svcs     map[string]*Svc
	problems []string
	fault    func(host string, r *http.Request) Fault
	delay    func(host string, r *http.Request) time.Duration
	watch    func(host string, r *http.Request, status int)
	spin     func() int
}

type Fault int

const (
	NoFault     Fault = iota
	Refuse            // the connection is refused
	Hang              // no answer until the caller gives up
	DropAnswer        // the service handles the request, the answer is lost
	ServerError       // something in between answers 502
	Reject404         // the service does not know what the request is about
	Reject409         // what the request is about belongs to somebody else
)

type Svc struct {
	name   string
	net    *Net
	mux    http.Handler
	cancel context.CancelFunc
	ended  chan struct{}
	errs   []goasync.NamedError
}

var netNow struct {
	sync.Mutex
	n *Net
}

type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	netNow.Lock()
	n := netNow.n
	netNow.Unlock()
	return n.RoundTrip(r)
}

func init() { http.DefaultTransport = transport{} }

func NewNet() *Net {
	n := &Net{svcs: map[string]*Svc{}}
	netNow.Lock()
	netNow.n = n
	netNow.Unlock()
	return n
}

func (n *Net) SetFault(f func(host string, r *http.Request) Fault) {
	n.mu.Lock()
	n.fault = f
	n.mu.Unlock()
}

// SetDelay holds answers back for a while after the service has handled the request.
func (n *Net) SetDelay(f func(host string, r *http.Request) time.Duration) {
	n.mu.Lock()
	n.delay = f
	n.mu.Unlock()
}

// SetWatch is told about every answer that reaches a client.
func (n *Net) SetWatch(f func(host string, r *http.Request, status int)) {
	n.mu.Lock()
	n.watch = f
	n.mu.Unlock()
}

// SetSpin makes requests and answers yield to the other goroutines. Unlike a delay this cannot stop virtual time when a
// service holds a mutex during a request.
func (n *Net) SetSpin(f func() int) {
	n.mu.Lock()
	n.spin = f
	n.mu.Unlock()
}

func (n *Net) yield() {
	n.mu.Lock()
	f := n.spin
	n.mu.Unlock()
	if f != nil {
		for i := f(); i > 0; i-- {
			runtime.Gosched()
		}
	}
}

func (n *Net) Remove(name string) {
	n.mu.Lock()
	delete(n.svcs, name)
	n.mu.Unlock()
}

func (n *Net) Problem(format string, a ...any) {
	n.mu.Lock()
	n.problems = append(n.problems, fmt.Sprintf(format, a...))
	n.mu.Unlock()
}

// Err reports the first thing that must never happen.
func (n *Net) Err() error {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.problems) > 0 {
		return errors.New(n.problems[0])
	}
	return nil
}

func (n *Net) RoundTrip(r *http.Request) (*http.Response, error) {
	n.mu.Lock()
	name, _, _ := strings.Cut(r.URL.Host, "-") // "locker-2" is the locker, as client 2 calls it
	s := n.svcs[name]
	fault, delay, watch := NoFault, time.Duration(0), n.watch
	if n.delay != nil {
		delay = n.delay(r.URL.Host, r)
	}
	if n.fault != nil {
		fault = n.fault(r.URL.Host, r)
	}
	n.mu.Unlock()
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	if s == nil || fault == Refuse {
		return nil, fmt.Errorf("dial %s: connection refused", r.URL.Host)
	}
	if fault == Hang {
		<-r.Context().Done()
		return nil, r.Context().Err()
	}
	if fault == ServerError {
		return &http.Response{StatusCode: 502, Status: "502 Bad Gateway", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("bad gateway")), Request: r}, nil
	}
	if fault == Reject404 || fault == Reject409 {
		code := map[Fault]int{Reject404: 404, Reject409: 409}[fault]
		return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(`{"Message":"not yours"}`)), Request: r}, nil
	}
	resp, err := s.serve(r.Context(), r.Method, r.URL.RequestURI(), r.Header, body)
	if fault == DropAnswer {
		return nil, errors.New("connection reset by peer")
	}
	if err != nil {
		return nil, err
	}
	if delay > 0 {
		select {
		case <-time.After(delay):
		case <-r.Context().Done():
			return nil, r.Context().Err()
		}
	}
	resp.Request = r
	if watch != nil {
		watch(r.URL.Host, r, resp.StatusCode)
	}
	return resp, nil
}

type writer struct {
	*httptest.ResponseRecorder
	ctx    context.Context
	broken func([]byte)
	failed *atomic.Bool // the caller was gone when the answer was written
}

// brokenKey makes the connection break when the handler writes a successful answer; the function gets what was to be written.
type brokenKey struct{}

func (w writer) Write(b []byte) (int, error) {
	if err := w.ctx.Err(); err != nil {
		w.failed.Store(true)
		return 0, errors.New("write: broken pipe")
	}
	if w.broken != nil && w.Code == 200 {
		w.broken(b)
		return 0, errors.New("write: connection reset by peer")
	}
	return w.ResponseRecorder.Write(b)
}

// sentKey lets the caller know what the handler wrote, even if the caller no longer listens.
type sentKey struct{}

// serve runs the handler the way net/http does: its own goroutine and a context that ends with the caller.
func (s *Svc) serve(ctx context.Context, method, uri string, header http.Header, body []byte) (*http.Response, error) {
	u, err := url.ParseRequestURI(uri)
	if err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	hctx, cancel := context.WithCancel(context.Background())
	stop := context.AfterFunc(ctx, cancel)
	defer stop()
	req := (&http.Request{Method: method, URL: u, RequestURI: uri, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: header.Clone(), Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Host: s.name, RemoteAddr: "client"}).WithContext(hctx)
	if req.Header == nil {
		req.Header = http.Header{}
	}
	rec := writer{ResponseRecorder: httptest.NewRecorder(), ctx: hctx, failed: new(atomic.Bool)}
	rec.broken, _ = ctx.Value(brokenKey{}).(func([]byte))
	done := make(chan struct{})
	s.net.yield()
	go func() {
		defer close(done)
		defer cancel()
		if sent, ok := ctx.Value(sentKey{}).(func(int, []byte)); ok {
			defer func() { sent(rec.Code, rec.Body.Bytes()) }()
		}
		defer func() {
			if p := recover(); p != nil {
				s.net.Problem("the %s handler of %s %s panicked: %v\n%s", s.name, method, uri, p, cut(string(debug.Stack()), 2500))
				rec.Code = 599
			}
		}()
		s.mux.ServeHTTP(rec, req)
	}()
	select {
	case <-done:
		if rec.failed.Load() {
			return nil, context.Canceled
		}
	case <-ctx.Done():
		cancel()
		return nil, ctx.Err()
	}
	s.net.yield()
	return rec.Result(), nil
}

// Do sends a request and returns status and body; status 0 means that the caller gave up.
func (s *Svc) Do(ctx context.Context, method, uri string, body any) (int, []byte) {
	var b []byte
	switch x := body.(type) {
	case nil:
	case []byte:
		b = x
	case string:
		b = []byte(x)
	default:
		var err error
		if b, err = json.Marshal(x); err != nil {
			panic(err)
		}
	}
	return s.Raw(ctx, method, uri, http.Header{"Content-Type": {"application/json"}}, b)
}

func (s *Svc) Raw(ctx context.Context, method, uri string, h http.Header, b []byte) (int, []byte) {
	resp, err := s.serve(ctx, method, uri, h, b)
	if err != nil {
		return 0, nil
	}
	out, _ := io.ReadAll(resp.Body)
	return resp.StatusCode, out
}

func logger(n *Net) *zap.Logger {
	return zap.New(zapcore.NewNopCore(), zap.WithFatalHook(fatalHook{n}))
}

type fatalHook struct{ n *Net }

func (f fatalHook) OnWrite(e *zapcore.CheckedEntry, _ []zapcore.Field) {
	panic("the service logs a fatal error and exits: " + e.Message)
}

func (n *Net) add(name string, mux *urlrouter.Router, run func(ctx context.Context) []goasync.NamedError) *Svc {
	mux.HandleFunc("GET", "/health", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(http.StatusOK) })
	ctx, cancel := context.WithCancel(context.Background())
	s := &Svc{name: name, net: n, mux: mux, cancel: cancel, ended: make(chan struct{})}
	go func() {
		defer close(s.ended)
		defer func() {
			if p := recover(); p != nil {
				n.Problem("the %s service panicked: %v\n%s", name, p, cut(string(debug.Stack()), 2500))
			}
		}()
		s.errs = run(ctx)
	}()
	n.mu.Lock()
	n.svcs[name] = s
	n.mu.Unlock()
	return s
}

// Stop shuts the service down and reports whether it ended within a (virtual) minute.
func (s *Svc) Stop() error {
	s.cancel()
	select {
	case <-s.ended:
	case <-time.After(time.Minute):
		return fmt.Errorf("the %s service did not end within a minute of its shutdown", s.name)
	}
	if len(s.errs) > 0 {
		return fmt.Errorf("the %s service ended with errors: %v", s.name, s.errs)
	}
	return nil
}

type idle struct{}

func (idle) Initialize() error { return nil }
func (idle) Cleanup() error    { return nil }
func (idle) Execute(ctx context.Context) error {
	<-ctx.Done()
	return nil
}

// The wiring below follows cmd/*/main.go, with the TCP server replaced by the in-memory network.

func (n *Net) StartLocker(defaultTimeout time.Duration) *Svc {
	mux := urlrouter.New()
	el := lockmanager.NewExclusiveLocker()
	cfg := &config.LockerConfig{LockDefaultTimeout: &defaultTimeout}
	lockerrouter.AddV1LockerRoutes(logger(n), mux, lockerhandlers.NewLockHandler(cfg, el))
	tm := goasync.NewTaskManager(goasync.StrictConfig())
	_ = tm.AddTask("exclusive locker", el)
	_ = tm.AddTask("tcp", idle{})
	return n.add("locker", mux, tm.Run)
}

// The limiter's records as the service makes them, but every access gives other goroutines a chance to run (SetSpin).
type slowCounters struct {
	counters.CounterConstructor
	n *Net
}
type slowCounter struct {
	counters.Counter
	n *Net
}

func (s slowCounters) New(p *v1limiter.CounteProperties) counters.Counter {
	return slowCounter{s.CounterConstructor.New(p), s.n}
}
func (s slowCounter) Update(p *v1limiter.CounteProperties) int64 {
	s.n.yield()
	defer s.n.yield()
	return s.Counter.Update(p)
}
func (s slowCounter) Set(p *v1limiter.CounteProperties) {
	s.n.yield()
	defer s.n.yield()
	s.Counter.Set(p)
}
func (s slowCounter) Load() int64 {
	s.n.yield()
	defer s.n.yield()
	return s.Counter.Load()
}

type slowRules struct {
	rules.RuleConstructor
	n *Net
}
type slowRule struct {
	rules.Rule
	n *Net
}

func (s slowRules) New(p *v1limiter.RuleProperties) rules.Rule {
	return slowRule{s.RuleConstructor.New(p), s.n}
}
func (s slowRule) Limit() int64 {
	s.n.yield()
	defer s.n.yield()
	return s.Rule.Limit()
}
func (s slowRule) Update(p *v1limiter.RuleProperties) *apierrors.ServerError {
	s.n.yield()
	defer s.n.yield()
	return s.Rule.Update(p)
}
func (s slowRule) Delete() *apierrors.ServerError {
	s.n.yield()
	defer s.n.yield()
	return s.Rule.Delete()
}

type slowOverrides struct {
	overrides.OverrideConstructor
	n *Net
}
type slowOverride struct {
	overrides.Override
	n *Net
}

func (s slowOverrides) New(p *v1limiter.OverrideProperties) overrides.Override {
	return slowOverride{s.OverrideConstructor.New(p), s.n}
}
func (s slowOverride) Limit() int64 {
	s.n.yield()
	defer s.n.yield()
	return s.Override.Limit()
}
func (s slowOverride) Update(p *v1limiter.OverrideProperties) {
	s.n.yield()
	defer s.n.yield()
	s.Override.Update(p)
}
func (s slowOverride) Delete() *apierrors.ServerError {
	s.n.yield()
	defer s.n.yield()
	return s.Override.Delete()
}

func (n *Net) StartLimiter() *Svc {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	oc, err := overrides.NewOverrideConstructor("memory")
	must(err)
	ovr := overrides.NewDefaultOverridesClientLocal(slowOverrides{oc, n})
	rc, err := rules.NewRuleConstructor("memory")
	must(err)
	rls := rules.NewLocalRulesClient(slowRules{rc, n}, ovr)
	cc, err := counters.NewCountersConstructor("memory")
	must(err)
	cnt := counters.NewCountersClientLocal(slowCounters{cc, n}, rls)
	mux := urlrouter.New()
	shutdown, cancel := context.WithCancel(context.Background())
	limiterrouter.AddV1LimiterRoutes(logger(n), mux, limiterhandlers.NewGroupRuleHandler(shutdown, &clients.Config{URL: "http://locker"}, rls, cnt))
	tm := goasync.NewTaskManager(goasync.StrictConfig())
	_ = tm.AddTask("tcp", idle{})
	return n.add("limiter", mux, func(ctx context.Context) []goasync.NamedError {
		defer cancel()
		return tm.Run(ctx)
	})
}

type slowChannels struct {
	constructor.QueueChannelsConstrutor
	n *Net
}
type slowChannel struct {
	constructor.QueueChannel
	n *Net
}

func (s slowChannels) New(deleted func(), queue string, kv datatypes.KeyValues) constructor.QueueChannel {
	return slowChannel{s.QueueChannelsConstrutor.New(func() { s.n.yield(); deleted() }, queue, kv), s.n}
}
func (s slowChannel) Delete() bool {
	s.n.yield()
	defer s.n.yield()
	return s.QueueChannel.Delete()
}
func (s slowChannel) ForceDelete(ctx context.Context) {
	s.n.yield()
	defer s.n.yield()
	s.QueueChannel.ForceDelete(ctx)
}
func (s slowChannel) Enqueue(ctx context.Context, i *v1willow.Item) *apierrors.ServerError {
	s.n.yield()
	defer s.n.yield()
	return s.QueueChannel.Enqueue(ctx, i)
}
func (s slowChannel) Dequeue() <-chan func(ctx context.Context) (*v1willow.Item, func(), func()) {
	s.n.yield()
	defer s.n.yield()
	return s.QueueChannel.Dequeue()
}
func (s slowChannel) ACK(ctx context.Context, a *v1willow.ACK) (bool, *apierrors.ServerError) {
	s.n.yield()
	defer s.n.yield()
	return s.QueueChannel.ACK(ctx, a)
}
func (s slowChannel) Heartbeat(ctx context.Context, h *v1willow.Heartbeat) *apierrors.ServerError {
	s.n.yield()
	defer s.n.yield()
	return s.QueueChannel.Heartbeat(ctx, h)
}

func (n *Net) StartWillow() (*Svc, error) {
	lc, err := limiterclient.NewLimiterClient(&clients.Config{URL: "http://limiter"})
	if err != nil {
		return nil, err
	}
	rule, err := lc.CreateRule(context.Background(), &v1limiter.Rule{Spec: &v1limiter.RuleSpec{
		DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.KeyValues{"_willow_queue_name": datatypes.Any(), "_willow_enqueued": datatypes.Any()}},
		Properties:   &v1limiter.RuleProperties{Limit: helpers.PointerOf[int64](0)},
	}})
	if err != nil {
		return nil, fmt.Errorf("the queue rule could not be created: %w", err)
	}
	tm := goasync.NewTaskManager(goasync.StrictConfig())
	qcc, err := constructor.NewQueueChannelConstructor("memory", lc)
	if err != nil {
		return nil, err
	}
	qc := queuechannels.NewLocalQueueChannelsClient(slowChannels{qcc, n})
	_ = tm.AddExecuteTask("queue channels client", qc)
	qcons, err := queues.NewQueueConstructor("memory", lc)
	if err != nil {
		return nil, err
	}
	q := queues.NewLocalQueueClient(qcons, qc, rule.State.ID)
	mux := urlrouter.New()
	willowrouter.AddV1WillowRoutes(logger(n), mux, willowhandlers.NewV1QueueHandler(q, rule.State.ID))
	_ = tm.AddTask("tcp", idle{})
	return n.add("willow", mux, tm.Run), nil
}
