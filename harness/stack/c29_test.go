package stack

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/verifx/gen"
	"github.com/DanLavine/willow/internal/verifx/vx"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"golang.org/x/net/http2"
)

// ---- C29: the real programs, as processes on the loopback network

type pcCfg struct {
	Env   bool   // settings come from the environment (and the flags, where both are given, hold something else)
	Level string // log level
}
type pcRaw struct {
	Svc  int
	Data string
	TLS  bool   // inside a TLS connection, where the service speaks TLS
	H2   bool   // negotiated as HTTP/2
	End  string // close, reset, half (half-close, then read), hold (kept open and silent until the end; nothing is sent)
}
type pcOp struct {
	Kind string // req, raw, wait-lock, wait-item, wait-count, work, count, second
	Req  *fzReq `json:",omitempty"`
	Raw  *pcRaw `json:",omitempty"`
	N    int    `json:",omitempty"`
}
type pcCase struct {
	Cfg    [3]pcCfg
	TLS    bool
	System bool // the clients of the services find the authority among the system's, not in their settings
	Ops    []pcOp
	Burst  bool   // all at once
	Late   []pcOp // sent while willow shuts down
	Again  string // "": no; "all": everything is started again afterwards; "willow": only willow is
}

func pcRawGen(r *vx.R) pcRaw {
	w := pcRaw{Svc: r.IntN(3), TLS: r.Chance(0.7), H2: r.Chance(0.4), End: vx.Pick(r, "close", "reset", "half", "close")}
	head := "GET /v1/queues HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\n"
	post := "POST " + vx.Pick(r, "/v1/queues", "/v1/locks", "/v1/limiter/rules") + " HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\n"
	switch r.IntN(14) {
	case 0:
		b := make([]byte, r.Range(1, 200))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		w.Data = string(b)
	case 1:
		w.Data = head[:r.Range(1, len(head))]
	case 2:
		w.Data = post + "Content-Length: 1000\r\n\r\n{\"Spec\":"
	case 3:
		w.Data = post + "Content-Length: -1\r\n\r\n{}"
	case 4:
		w.Data = post + "Transfer-Encoding: chunked\r\n\r\nzz\r\n{}\r\n0\r\n\r\n"
	case 5:
		w.Data = post + "Transfer-Encoding: chunked\r\n\r\n2\r\n{}\r\n"
	case 6:
		w.Data = head + "\r\n" + head + "\r\n" + post + "Content-Length: 2\r\n\r\n{}" + head + "Connection: close\r\n\r\n"
	case 7:
		w.Data = head + strings.Repeat("X-Filler: "+strings.Repeat("y", 1000)+"\r\n", 1200) + "\r\n"
	case 8:
		w.Data = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + string([]byte{0, 0, byte(r.IntN(9)), byte(r.IntN(12)), byte(r.IntN(256)), 0, 0, 0, byte(r.IntN(4)), 1, 2, 3, 4, 5, 6, 7, 8})
	case 9:
		w.Data = post + "Expect: 100-continue\r\nContent-Length: 5\r\n\r\n"
	case 10:
		w.Data = vx.Pick(r, "GET", "get", "\x00", "A B C D") + " " + vx.Pick(r, "/", "*", "http://[::1", "/%zz", "//", "/v1/queues/\x00") + " HTTP/" + vx.Pick(r, "0.9", "1.0", "1.1", "3", "") + "\r\n\r\n"
	case 11:
		w.Data = post + "Content-Length: 2\r\nContent-Length: 3\r\n\r\n{}"
	case 12:
		w.Data = post + "Content-Length: 40\r\nConnection: Upgrade\r\nUpgrade: h2c\r\n\r\n" + strings.Repeat("[", 40)
	default:
		w.Data, w.End = "", vx.Pick(r, "close", "hold")
		if w.End == "hold" && r.Chance(0.7) {
			w.End = "reset"
		}
	}
	return w
}

func pcOpGen(r *vx.R) pcOp {
	switch r.Weighted(8, 4, 1, 1, 3, 1, 1) {
	case 0:
		f := fzGen(r)
		q := vx.PickS(r, f.Reqs)
		q.Wait = vx.Pick(r, 0, 1, 5, 20, 100, 400)
		return pcOp{Kind: "req", Req: &q}
	case 1:
		w := pcRawGen(r)
		return pcOp{Kind: "raw", Raw: &w}
	case 2:
		return pcOp{Kind: "wait-lock", N: r.IntN(3) + 3*vx.Pick(r, 0, 0, 10, 40)}
	case 3:
		return pcOp{Kind: "wait-item", N: vx.Pick(r, 1, 1, 8, 40)}
	case 4:
		return pcOp{Kind: "work", N: r.Range(1, 6)}
	case 5:
		return pcOp{Kind: "wait-count"}
	default:
		return pcOp{Kind: "count", N: r.Range(2, 12)}
	}
}

func pcGen(r *vx.R) pcCase {
	c := pcCase{TLS: r.Bool(), Burst: r.Chance(0.5), Again: vx.Pick(r, "", "", "", "", "all")}
	c.System = c.TLS && r.Chance(0.3)
	for i := range c.Cfg {
		c.Cfg[i] = pcCfg{Env: r.Bool(), Level: vx.Pick(r, "info", "debug")}
	}
	for n := r.Range(0, 14); n > 0; n-- {
		c.Ops = append(c.Ops, pcOpGen(r))
	}
	if r.Chance(0.1) {
		c.Ops = append(c.Ops, pcOp{Kind: "second", N: r.IntN(3)})
	}
	if r.Chance(0.5) {
		for n := r.Range(1, 8); n > 0; n-- {
			c.Late = append(c.Late, pcOpGen(r))
		}
	}
	return c
}

func pcShrink(c pcCase) []pcCase {
	var out []pcCase
	for _, q := range vx.Cuts(c.Ops) {
		d := c
		d.Ops = q
		out = append(out, d)
	}
	for _, q := range vx.Cuts(c.Late) {
		d := c
		d.Late = q
		out = append(out, d)
	}
	if c.Burst {
		d := c
		d.Burst = false
		out = append(out, d)
	}
	if c.Again != "" {
		d := c
		d.Again = ""
		out = append(out, d)
	}
	if c.System {
		d := c
		d.System = false
		out = append(out, d)
	}
	if c.TLS {
		d := c
		d.TLS, d.System = false, false
		out = append(out, d)
	}
	return out
}

// ---- processes

type pcProc struct {
	name string
	cmd  *exec.Cmd
	log  string
	done chan struct{}
	err  error
}

var pcPanics = regexp.MustCompile(`(?m)(^panic:|http: panic serving|http2: panic serving|DATA RACE|^fatal error:)`)

func pcStart(dir, bin, name string, args, env []string) (*pcProc, error) {
	p := &pcProc{name: name, log: filepath.Join(dir, name+".log"), done: make(chan struct{})}
	f, err := os.OpenFile(p.log, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	p.cmd = exec.Command(filepath.Join(os.Getenv("VX_BINS"), bin), args...)
	p.cmd.Dir = dir
	p.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"}, env...)
	p.cmd.Stdout, p.cmd.Stderr = f, f
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { p.err = p.cmd.Wait(); close(p.done) }()
	return p, nil
}

func (p *pcProc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *pcProc) kill() {
	if !p.exited() {
		_ = p.cmd.Process.Kill()
		<-p.done
	}
}

func (p *pcProc) text() string {
	b, _ := os.ReadFile(p.log)
	return string(b)
}

func (p *pcProc) complaint() string {
	s := p.text()
	if i := pcPanics.FindStringIndex(s); i != nil {
		return cut(s[i[0]:], 1500)
	}
	return ""
}

func (p *pcProc) tail() string {
	s := p.text()
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

const pcPatience = 60 * time.Second // far above what any step takes, even on a loaded machine

// stop interrupts the process and waits for its end.
func (p *pcProc) stop() error {
	if p.exited() {
		return fmt.Errorf("%s ended by itself: %v: %s", p.name, p.err, p.tail())
	}
	_ = p.cmd.Process.Signal(syscall.SIGINT)
	select {
	case <-p.done:
	case <-time.After(pcPatience):
		_ = p.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-p.done:
		case <-time.After(10 * time.Second):
		}
		s := p.text()
		if i := strings.Index(s, "SIGQUIT"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 3000 {
			s = s[:3000]
		}
		p.kill()
		return fmt.Errorf("%s does not end within a minute of its interrupt: %s", p.name, s)
	}
	if w := p.complaint(); w != "" {
		return fmt.Errorf("%s: %s", p.name, w)
	}
	if p.err != nil {
		return fmt.Errorf("%s ends its shutdown with %v: %s", p.name, p.err, p.tail())
	}
	return nil
}

// ---- certificates

var pcCertOnce sync.Once
var pcCA *x509.CertPool

func pcCerts(dir string) {
	pcCertOnce.Do(func() {
		mk := func(name string, ca bool, parent *x509.Certificate, pk *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey) {
			key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
			if err != nil {
				panic(err)
			}
			t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
				IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature, DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
			if ca {
				t.KeyUsage |= x509.KeyUsageCertSign
			}
			if parent == nil {
				parent, pk = t, key
			}
			der, err := x509.CreateCertificate(crand.Reader, t, parent, &key.PublicKey, pk)
			if err != nil {
				panic(err)
			}
			out, _ := x509.ParseCertificate(der)
			kd, _ := x509.MarshalECPrivateKey(key)
			for n, b := range map[string]*pem.Block{name + ".crt": {Type: "CERTIFICATE", Bytes: der}, name + ".key": {Type: "EC PRIVATE KEY", Bytes: kd}} {
				if err := os.WriteFile(filepath.Join(dir, n), pem.EncodeToMemory(b), 0o600); err != nil {
					panic(err)
				}
			}
			return out, key
		}
		ca, key := mk("ca", true, nil, nil)
		mk("server", false, ca, key)
		mk("client", false, ca, key)
		pcCA = x509.NewCertPool()
		pcCA.AddCert(ca)
	})
}

// ---- the world

type pcWorld struct {
	c     pcCase
	dir   string
	ports [3]int
	procs [3]*pcProc
	hc    *http.Client
	mu    sync.Mutex
	raws  []net.Conn
	waits sync.WaitGroup
	ids   *strings.Replacer
	round int
}

func (w *pcWorld) base(i int) string {
	s := "http"
	if w.c.TLS {
		s = "https"
	}
	return fmt.Sprintf("%s://127.0.0.1:%d", s, w.ports[i])
}

// settings of service i, as flags and as environment.
func (w *pcWorld) settings(i int) (args, env []string) {
	names := [3][]string{{"LOCKER_PORT", "LOCKER_INSECURE_HTTP", "LOCKER_SERVER_CA", "LOCKER_SERVER_KEY", "LOCKER_SERVER_CRT", "LOCKER_LOG_LEVEL"},
		{"LIMITER_PORT", "LIMITER_INSECURE_HTTP", "LIMITER_SERVER_CA", "LIMITER_SERVER_KEY", "LIMITER_SERVER_CRT", "LOG_LEVEL"},
		{"WILLOW_PORT", "WILLOW_INSECURE_HTTP", "WILLOW_CA", "WILLOW_SERVER_KEY", "WILLOW_SERVER_CRT", "LOG_LEVEL"}}[i]
	flags := []string{"port", "insecure-http", "server-ca", "server-key", "server-crt", "log-level"}
	vals := []string{fmt.Sprint(w.ports[i]), "true", "", "", "", w.c.Cfg[i].Level}
	if w.c.TLS {
		certs, _ := os.Getwd()
		vals[1], vals[2], vals[3], vals[4] = "", filepath.Join(certs, "ca.crt"), filepath.Join(certs, "server.key"), filepath.Join(certs, "server.crt")
	}
	if i > 0 {
		pre, f := "LIMITER_LOCKER", "locker"
		if i == 2 {
			pre, f = "WILLOW_LIMITER", "limiter"
		}
		names = append(names, pre+"_URL", pre+"_CA", pre+"_CLIENT_KEY", pre+"_CLIENT_CRT")
		flags = append(flags, f+"-url", f+"-client-ca", f+"-client-key", f+"-client-crt")
		vals = append(vals, w.base(i-1), "", "", "")
		if w.c.TLS {
			certs, _ := os.Getwd()
			if w.c.System {
				env = append(env, "SSL_CERT_FILE="+filepath.Join(certs, "ca.crt"))
			} else {
				vals[7], vals[8], vals[9] = filepath.Join(certs, "ca.crt"), filepath.Join(certs, "client.key"), filepath.Join(certs, "client.crt")
			}
		}
	}
	for k, v := range vals {
		if v == "" {
			continue
		}
		if w.c.Cfg[i].Env {
			env = append(env, names[k]+"="+v)
		} else {
			args = append(args, "-"+flags[k]+"="+v)
		}
	}
	if w.c.Cfg[i].Env {
		args = append(args, "-port=1") // the environment wins
	}
	return
}

func (w *pcWorld) healthy(i int) bool {
	ctx, cancel := context.WithTimeout(context.Background(), pcPatience)
	defer cancel()
	st, _, err := w.do(ctx, i, "GET", "/health", nil, nil)
	return err == nil && st == 200
}

var errPcPort = errors.New("port taken")

func (w *pcWorld) start(i int) error {
	args, env := w.settings(i)
	p, err := pcStart(w.dir, fzNames[i], fzNames[i], args, env)
	if err != nil {
		return err
	}
	w.procs[i] = p
	for end := time.Now().Add(pcPatience); ; {
		if p.exited() {
			if strings.Contains(p.text(), "address already in use") {
				return errPcPort
			}
			return fmt.Errorf("%s does not start: %v: %s", p.name, p.err, p.tail())
		}
		if w.healthy(i) {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("%s is not healthy a minute after its start: %s", p.name, p.tail())
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (w *pcWorld) do(ctx context.Context, i int, method, path string, h http.Header, body []byte) (int, []byte, error) {
	req, err := http.NewRequestWithContext(ctx, method, w.base(i)+path, bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	req.Header = h
	if h == nil {
		req.Header = http.Header{"Content-Type": {"application/json"}}
	}
	resp, err := w.hc.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

func (w *pcWorld) call(i int, method, path string, body any, into any, want ...int) error {
	var b []byte
	if body != nil {
		b, _ = json.Marshal(body)
	}
	ctx, cancel := context.WithTimeout(context.Background(), pcPatience)
	defer cancel()
	st, out, err := w.do(ctx, i, method, path, nil, b)
	if err != nil {
		return fmt.Errorf("%s %s %s: %w", fzNames[i], method, path, err)
	}
	for _, x := range want {
		if x == st {
			if into != nil {
				if err := json.Unmarshal(out, into); err != nil {
					return fmt.Errorf("%s %s %s: undecodable answer %q", fzNames[i], method, path, out)
				}
			}
			return nil
		}
	}
	return fmt.Errorf("%s %s %s is answered with status %d %s, want %v", fzNames[i], method, path, st, cut(string(out), 300), want)
}

func (w *pcWorld) alive(upto int) error {
	for i := 0; i <= upto; i++ {
		p := w.procs[i]
		if s := p.complaint(); s != "" {
			return fmt.Errorf("%s: %s", p.name, s)
		}
		if p.exited() {
			return fmt.Errorf("%s ended by itself: %v: %s", p.name, p.err, p.tail())
		}
	}
	return nil
}

func pcLock(kv gen.KV, d time.Duration) *v1locker.Lock {
	return &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: kv.DT()}, Properties: &v1locker.LockProperties{Timeout: &d}}}
}

func (w *pcWorld) op(n int, o pcOp, late bool, rec *vx.Rec) error {
	name := fmt.Sprintf("%d-%d", w.round, n)
	switch o.Kind {
	case "req":
		q := *o.Req
		path, body := w.ids.Replace(q.Path), w.ids.Replace(q.Body)
		if u, err := url.ParseRequestURI(path); err != nil || u.Host != "" || !strings.HasPrefix(path, "/") {
			return nil
		}
		h := http.Header{}
		if !q.NilCT {
			h["Content-Type"] = q.Types
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(q.Wait)*time.Millisecond)
		defer cancel()
		st, b, err := w.do(ctx, q.Svc, q.Method, path, h, []byte(body))
		switch {
		case late:
		case err != nil && ctx.Err() == nil && !strings.Contains(err.Error(), "http2: ") && !strings.Contains(err.Error(), "REFUSED_STREAM") && !strings.Contains(err.Error(), "invalid "):
			return fmt.Errorf("%s %s %s is not answered: %v", fzNames[q.Svc], q.Method, cut(path, 100), err)
		case err == nil && st >= 500 && st != 501:
			return fmt.Errorf("%s %s %s is answered with status %d %s: %s", fzNames[q.Svc], q.Method, cut(path, 100), st, cut(string(b), 300), cut(body, 300))
		case err == nil:
			rec.Label(fmt.Sprintf("%s-%dxx", fzNames[q.Svc], st/100))
		}
	case "raw":
		rw := *o.Raw
		nc, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.ports[rw.Svc]), pcPatience)
		if err != nil {
			if late {
				return nil
			}
			return fmt.Errorf("%s accepts no connection: %w", fzNames[rw.Svc], err)
		}
		tc := nc.(*net.TCPConn)
		if rw.TLS && w.c.TLS && rw.End != "hold" {
			cfg := &tls.Config{RootCAs: pcCA, ServerName: "127.0.0.1"}
			if rw.H2 {
				cfg.NextProtos = []string{"h2"}
			}
			t := tls.Client(nc, cfg)
			_ = t.SetDeadline(time.Now().Add(pcPatience))
			if err := t.Handshake(); err != nil && !late {
				nc.Close()
				return fmt.Errorf("%s refuses a TLS connection: %w", fzNames[rw.Svc], err)
			}
			nc = t
		}
		_ = nc.SetDeadline(time.Now().Add(500 * time.Millisecond))
		if rw.End == "hold" {
			w.mu.Lock()
			w.raws = append(w.raws, nc)
			w.mu.Unlock()
			rec.Label("held-open")
			return nil
		}
		_, _ = io.WriteString(nc, rw.Data)
		switch rw.End {
		case "reset":
			_ = tc.SetLinger(0)
		case "half":
			if t, ok := nc.(*tls.Conn); ok {
				_ = t.CloseWrite()
			} else {
				_ = tc.CloseWrite()
			}
			_, _ = io.Copy(io.Discard, nc)
		}
		tc.Close()
		rec.Label("raw")
	case "wait-lock":
		kv := gen.KV{"waited": gen.Int(o.N % 3)}
		for i := 0; i <= o.N/3; i++ {
			w.waits.Add(1)
			go func() {
				defer w.waits.Done()
				if _, _, err := w.do(context.Background(), 0, "POST", "/v1/locks", nil, mustJSON(pcLock(kv, time.Hour))); err != nil && !late {
					w.lost(fmt.Errorf("a client that waits for a lock is not answered: %w", err))
				}
			}()
		}
		rec.Label("waiter")
	case "wait-item":
		for i := 0; i < max(o.N, 1); i++ {
			w.waits.Add(1)
			go func() {
				defer w.waits.Done()
				q := gen.Q{}.AQ(nil)
				if _, _, err := w.do(context.Background(), 2, "GET", "/v1/queues/idle/channels/items", nil, mustJSON(q)); err != nil && !late {
					w.lost(fmt.Errorf("a client that waits for an item is not answered: %w", err))
				}
			}()
		}
		rec.Label("waiter")
	case "wait-count":
		// somebody holds a lock that the counter needs, so the increment has to wait
		kv := gen.KV{"counted": gen.S(name)}
		if err := w.call(0, "POST", "/v1/locks", pcLock(kv, time.Hour), nil, 200); err != nil {
			if late {
				return nil
			}
			return err
		}
		if err := w.call(1, "POST", "/v1/limiter/rules", ruleBody(gen.KV{"counted": gen.AnyV()}, 100), nil, 201, 409); err != nil {
			if late {
				return nil
			}
			return err
		}
		w.waits.Add(1)
		go func() {
			defer w.waits.Done()
			if _, _, err := w.do(context.Background(), 1, "PUT", "/v1/limiter/counters", nil, mustJSON(cntBody(kv, 1))); err != nil && !late {
				w.lost(fmt.Errorf("a client whose increment waits is not answered: %w", err))
			}
		}()
		rec.Label("waiter")
	case "work":
		q := "/v1/queues/work" + name
		do := func(err error) error {
			if late {
				return nil
			}
			return err
		}
		if err := w.call(2, "POST", "/v1/queues", queueBody("work"+name, int64(o.N)), nil, 201); err != nil {
			return do(err)
		}
		kv := gen.KV{"worker": gen.S(name)}
		for i := 0; i < o.N; i++ {
			if err := w.call(2, "POST", q+"/channels/items", itemBody(kv, wiItem{Pos: "front", Timeout: time.Hour}, []byte{byte(i)}), nil, 201); err != nil {
				return do(err)
			}
		}
		if err := w.call(2, "POST", q+"/channels/items", itemBody(kv, wiItem{Pos: "front", Timeout: time.Hour}, []byte("more")), nil, 409); err != nil {
			return do(err)
		}
		for i := 0; i < o.N; i++ {
			var it v1willow.Item
			if err := w.call(2, "GET", q+"/channels/items", gen.Q{}.AQ(nil), &it, 200); err != nil {
				return do(err)
			}
			if it.State == nil || len(it.Spec.Properties.Data) != 1 || it.Spec.Properties.Data[0] != byte(i) {
				return do(fmt.Errorf("willow hands out %s as item %d of queue %s", mustJSON(it), i, q))
			}
			if err := w.call(2, "POST", q+"/channels/items/ack", &v1willow.ACK{ItemID: it.State.ID, KeyValues: kv.DT(), Passed: true}, nil, 200); err != nil {
				return do(err)
			}
		}
		if err := w.call(2, "DELETE", q, nil, nil, 204); err != nil {
			return do(err)
		}
		rec.Label("work")
	case "count":
		// more increments at once than the limit allows
		kv := gen.KV{"counted": gen.S(name)}
		max := int64(o.N / 2)
		if err := w.call(1, "POST", "/v1/limiter/rules", ruleBody(kv, max), nil, 201); err != nil {
			if late {
				return nil
			}
			return err
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var got int64
		var bad error
		for i := 0; i < o.N; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ctx, cancel := context.WithTimeout(context.Background(), pcPatience)
				defer cancel()
				st, b, err := w.do(ctx, 1, "PUT", "/v1/limiter/counters", nil, mustJSON(cntBody(gen.KV{"counted": gen.S(name), "by": gen.Int(i % 3)}, 1)))
				mu.Lock()
				defer mu.Unlock()
				switch {
				case err != nil || (st != 200 && st != 409):
					bad = fmt.Errorf("the limiter answers an increment with %d %s %v", st, b, err)
				case st == 200:
					got++
				}
			}()
		}
		wg.Wait()
		if late {
			return nil
		}
		if bad != nil {
			return bad
		}
		if got != max {
			return fmt.Errorf("the limiter let %d of %d concurrent increments through a limit of %d", got, o.N, max)
		}
		rec.Label("count")
	case "second":
		args, env := w.settings(o.N)
		p, err := pcStart(w.dir, fzNames[o.N], fmt.Sprintf("second-%s-%s", fzNames[o.N], name), args, env)
		if err != nil {
			return err
		}
		defer p.kill()
		select {
		case <-p.done:
		case <-time.After(pcPatience):
			return fmt.Errorf("a second %s on the same port goes on for a minute: %s", fzNames[o.N], p.tail())
		}
		if p.err == nil {
			return fmt.Errorf("a second %s on the same port ends with status 0: %s", fzNames[o.N], p.tail())
		}
		if s := p.complaint(); s != "" {
			return fmt.Errorf("a second %s on the same port: %s", fzNames[o.N], s)
		}
		rec.Label("second")
	}
	return nil
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

var pcLost struct {
	sync.Mutex
	err error
}

func (w *pcWorld) lost(err error) {
	pcLost.Lock()
	defer pcLost.Unlock()
	if pcLost.err == nil {
		pcLost.err = err
	}
}

func (w *pcWorld) ops(ops []pcOp, burst bool, late bool, rec *vx.Rec) error {
	if !burst {
		for i, o := range ops {
			if err := w.op(i, o, late, rec); err != nil {
				return fmt.Errorf("operation %d: %w", i, err)
			}
		}
		return nil
	}
	var wg sync.WaitGroup
	errs := make([]error, len(ops))
	for i, o := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := i
			if late {
				n += 1000
			}
			errs[i] = w.op(n, o, late, rec)
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("operation %d of several at once: %w", i, err)
		}
	}
	return nil
}

// pcPorts picks free ports below those that the system gives to outgoing connections.
func pcPorts() (out [3]int) {
	for i := 0; i < len(out); {
		n := 10000 + rand.IntN(20000)
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", n))
		if err != nil {
			continue
		}
		defer l.Close()
		out[i] = n
		i++
	}
	return
}

func pcWith(c pcCase, f func(w *pcWorld) error) error {
	for n := 0; ; n++ {
		err := pcIn(c, f)
		if errors.Is(err, errPcPort) && n < 20 {
			continue
		}
		return err
	}
}

func pcIn(c pcCase, f func(w *pcWorld) error) error {
	dir, err := os.MkdirTemp(".", "case")
	if err != nil {
		panic(err)
	}
	dir, _ = filepath.Abs(dir)
	defer os.RemoveAll(dir)
	cwd, _ := os.Getwd()
	pcCerts(cwd)
	w := &pcWorld{c: c, dir: dir, ports: pcPorts()}
	if c.TLS {
		w.hc = &http.Client{Transport: &http2.Transport{TLSClientConfig: &tls.Config{RootCAs: pcCA}}}
	} else {
		w.hc = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 20}}
	}
	w.hc.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	pcLost.err = nil
	defer func() {
		for _, p := range w.procs {
			if p != nil {
				p.kill()
			}
		}
		for _, r := range w.raws {
			r.Close()
		}
		w.hc.CloseIdleConnections()
	}()
	return f(w)
}

func pcRun(c pcCase, rec *vx.Rec) error {
	return pcWith(c, func(w *pcWorld) error { return pcLives(w, c, rec) })
}

func pcLives(w *pcWorld, c pcCase, rec *vx.Rec) error {
	rounds := 1
	if c.Again != "" {
		rounds = 2
	}
	for w.round = 0; w.round < rounds; w.round++ {
		for i := range w.procs {
			if w.round > 0 && c.Again == "willow" && i < 2 {
				continue
			}
			if err := w.start(i); err != nil {
				if w.round > 0 && c.Again == "willow" {
					return fmt.Errorf("willow started again beside a running limiter: %w", err)
				}
				return err
			}
		}
		if err := w.life(rec, rounds-1 == w.round); err != nil {
			return err
		}
	}
	return nil
}

func (w *pcWorld) life(rec *vx.Rec, last bool) (ret error) {
	alive := true
	var rule v1limiter.Rule
	var ov v1limiter.Override
	var lock v1locker.Lock
	var item v1willow.Item
	one := gen.KV{"a": gen.Int(1)}
	for _, err := range []func() error{
		func() error { return w.call(1, "POST", "/v1/limiter/rules", ruleBody(one, 5), &rule, 201) },
		func() error {
			return w.call(1, "POST", "/v1/limiter/rules/"+rule.State.ID+"/overrides", ovBody(gen.KV{"a": gen.Int(1), "b": gen.Int(1)}, 2), &ov, 201)
		},
		func() error {
			return w.call(0, "POST", "/v1/locks", pcLock(gen.KV{"held": gen.Int(1)}, time.Hour), &lock, 200)
		},
		func() error { return w.call(2, "POST", "/v1/queues", queueBody("jobs", 10), nil, 201) },
		func() error { return w.call(2, "POST", "/v1/queues", queueBody("idle", 10), nil, 201) },
		func() error {
			return w.call(2, "POST", "/v1/queues/jobs/channels/items", itemBody(one, wiItem{Retries: 1, Pos: "front", Timeout: time.Hour}, []byte("0")), nil, 201)
		},
		func() error {
			return w.call(2, "POST", "/v1/queues/jobs/channels/items", itemBody(one, wiItem{Retries: 1, Pos: "front", Timeout: time.Hour}, []byte("1")), nil, 201)
		},
		func() error { return w.call(2, "GET", "/v1/queues/jobs/channels/items", gen.Q{}.AQ(nil), &item, 200) },
	} {
		if err := err(); err != nil {
			return fmt.Errorf("setup: %w", err)
		}
	}
	w.ids = strings.NewReplacer("$RULE", rule.State.ID, "$OV", ov.State.ID, "$LOCK", lock.State.LockID, "$SESSION", lock.State.SessionID, "$ITEM", item.State.ID, "$QUEUE", "jobs")

	defer func() {
		if ret != nil && alive {
			if e := w.alive(2); e != nil {
				ret = fmt.Errorf("%w; %w", ret, e)
			}
		}
	}()
	if err := w.ops(w.c.Ops, w.c.Burst, false, rec); err != nil {
		return err
	}
	if err := w.alive(2); err != nil {
		return err
	}
	for i := range w.procs {
		if !w.healthy(i) {
			return fmt.Errorf("%s is not healthy after the requests: %s", fzNames[i], w.procs[i].tail())
		}
	}
	if err := w.op(999, pcOp{Kind: "work", N: 2}, false, rec); err != nil {
		return fmt.Errorf("afterwards: %w", err)
	}
	if err := w.op(998, pcOp{Kind: "count", N: 2}, false, rec); err != nil {
		return fmt.Errorf("afterwards: %w", err)
	}
	if err := w.call(0, "DELETE", "/v1/locks/"+lock.State.LockID, &v1locker.LockClaim{SessionID: lock.State.SessionID}, nil, 204, 400, 404, 409, 410); err != nil {
		return fmt.Errorf("afterwards: %w", err)
	}
	if len(w.c.Ops) >= 3 {
		rec.Nontrivial()
	}

	alive = false
	// willow is interrupted, perhaps with requests on their way
	lateDone := make(chan struct{})
	go func() {
		defer close(lateDone)
		_ = w.ops(w.c.Late, true, true, rec)
	}()
	if err := w.procs[2].stop(); err != nil {
		return err
	}
	select {
	case <-lateDone:
	case <-time.After(2 * pcPatience):
		return fmt.Errorf("requests that were on their way to willow during its shutdown do not end")
	}
	if err := w.alive(1); err != nil {
		return err
	}
	if w.c.Again == "willow" && !last {
		return nil
	}
	for _, i := range []int{1, 0} {
		if err := w.procs[i].stop(); err != nil {
			return err
		}
	}
	done := make(chan struct{})
	go func() { w.waits.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(pcPatience):
		return fmt.Errorf("a client that waits is not answered although the services have shut down")
	}
	pcLost.Lock()
	defer pcLost.Unlock()
	return pcLost.err
}

func TestC29(t *testing.T) {
	http.DefaultTransport = &http.Transport{}
	curT = t
	p := vx.Prop[pcCase]{Name: "processes", Rule: "at least three operations between start and shutdown", Gen: pcGen, Run: pcRun, Shrink: pcShrink, Weight: 1, Tries: 1, Hang: 15 * time.Minute}
	p.Fixed = func() []pcCase {
		lv := [3]pcCfg{{Level: "info"}, {Level: "info"}, {Level: "info"}}
		return []pcCase{{Cfg: lv, Again: "willow"}}
	}
	vx.Check(t, p, cnProp())
}
