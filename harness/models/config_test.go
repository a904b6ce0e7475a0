package models

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/DanLavine/willow/internal/config"
	"github.com/DanLavine/willow/internal/verifx/vx"
	"github.com/DanLavine/willow/pkg/clients"
)

// ---- C28: service configurations ----

type field struct {
	flag, env, def string
	kind           string // log, port, bool, crt, key, ca, free, duration, storage
}

var services = map[string][]field{
	"locker": {
		{"log-level", "LOCKER_LOG_LEVEL", "info", "log"}, {"port", "LOCKER_PORT", "8083", "port"},
		{"server-ca", "LOCKER_SERVER_CA", "", "ca"}, {"server-key", "LOCKER_SERVER_KEY", "", "key"}, {"server-crt", "LOCKER_SERVER_CRT", "", "crt"},
		{"insecure-http", "LOCKER_INSECURE_HTTP", "false", "bool"}, {"lock-default-timeout", "LOCKER_LOCK_DEFAULT_TIMEOUT", "5s", "duration"},
	},
	"limiter": {
		{"log-level", "LOG_LEVEL", "info", "log"}, {"port", "LIMITER_PORT", "8082", "port"},
		{"server-ca", "LIMITER_SERVER_CA", "", "ca"}, {"server-key", "LIMITER_SERVER_KEY", "", "key"}, {"server-crt", "LIMITER_SERVER_CRT", "", "crt"},
		{"insecure-http", "LIMITER_INSECURE_HTTP", "false", "bool"}, {"locker-url", "LIMITER_LOCKER_URL", "", "free"},
		{"locker-client-ca", "LIMITER_LOCKER_CA", "", "free"}, {"locker-client-key", "LIMITER_LOCKER_CLIENT_KEY", "", "free"}, {"locker-client-crt", "LIMITER_LOCKER_CLIENT_CRT", "", "free"},
	},
	"willow": {
		{"log-level", "LOG_LEVEL", "info", "log"}, {"port", "WILLOW_PORT", "8080", "port"},
		{"server-ca", "WILLOW_CA", "", "ca"}, {"server-key", "WILLOW_SERVER_KEY", "", "key"}, {"server-crt", "WILLOW_SERVER_CRT", "", "crt"},
		{"insecure-http", "WILLOW_INSECURE_HTTP", "false", "bool"}, {"limiter-url", "WILLOW_LIMITER_URL", "", "free"},
		{"limiter-client-ca", "WILLOW_LIMITER_CA", "", "free"}, {"limiter-client-key", "WILLOW_LIMITER_CLIENT_KEY", "", "free"}, {"limiter-client-crt", "WILLOW_LIMITER_CLIENT_CRT", "", "free"},
		{"storage-type", "STORAGE_TYPE", "memory", "storage"},
	},
}

// load runs the service's configuration and returns the value of every field by flag name.
func load(service string, args []string) (map[string]string, error) {
	switch service {
	case "locker":
		c, err := config.Locker(args)
		if err != nil {
			return nil, err
		}
		return map[string]string{"log-level": c.LogLevel(), "port": *c.Port, "server-ca": *c.ServerCA, "server-key": *c.ServerKey, "server-crt": *c.ServerCRT,
			"insecure-http": strconv.FormatBool(*c.InsecureHttp), "lock-default-timeout": c.LockDefaultTimeout.String()}, nil
	case "limiter":
		c, err := config.Limiter(args)
		if err != nil {
			return nil, err
		}
		return map[string]string{"log-level": c.LogLevel(), "port": *c.LimiterPort, "server-ca": *c.ServerCA, "server-key": *c.ServerKey, "server-crt": *c.ServerCRT,
			"insecure-http": strconv.FormatBool(*c.InsecureHttp), "locker-url": *c.LockerURL, "locker-client-ca": *c.LockerClientCA, "locker-client-key": *c.LockerClientKey, "locker-client-crt": *c.LockerClientCRT}, nil
	}
	c, err := config.Willow(args)
	if err != nil {
		return nil, err
	}
	return map[string]string{"log-level": c.LogLevel(), "port": *c.Port, "server-ca": *c.ServerCA, "server-key": *c.ServerKey, "server-crt": *c.ServerCRT,
		"insecure-http": strconv.FormatBool(*c.InsecureHttp), "limiter-url": *c.LimiterURL, "limiter-client-ca": *c.LimiterClientCA, "limiter-client-key": *c.LimiterClientKey, "limiter-client-crt": *c.LimiterClientCRT,
		"storage-type": *c.StorageConfig.Type}, nil
}

type confCase struct {
	Service string
	Flags   map[string]string
	Env     map[string]string // by flag name
}

func genFieldValue(r *vx.R, f field, env bool) string {
	good := r.Chance(0.9)
	switch f.kind {
	case "log":
		if !good {
			return vx.Pick(r, "warn", "INFO", "x", "error")
		}
		return vx.Pick(r, "info", "debug")
	case "port":
		if !good {
			return vx.Pick(r, "-1", "65536", "99999999999999999999", "x", "80 ", "-65536", "0x50")
		}
		return vx.Pick(r, "0", "1", "80", "8080", "65535", "9001", "443")
	case "bool":
		if env && r.Chance(0.1) {
			return vx.Pick(r, "yes", "on", "no", "insecure", " ", "x") // neither: it must not switch anything on
		}
		return vx.Pick(r, "true", "false")
	case "duration":
		if !good {
			if env && r.Bool() {
				return vx.Pick(r, "bad", "8", "1x")
			}
			return vx.Pick(r, "0s", "-1ns", "-5s")
		}
		return vx.Pick(r, "1ns", "8s", "1h", "250ms", "5s")
	case "storage":
		if !good {
			return vx.Pick(r, "disk", "invalid", "MEMORY", "x")
		}
		return "memory"
	}
	return vx.Pick(r, "/etc/x", "a", "file name", "https://x:1", "../b")
}

func confProp() vx.Prop[confCase] {
	names := []string{"locker", "limiter", "willow"}
	return vx.Prop[confCase]{
		Name: "service-config", Rule: "at least one field is set by flag and one by environment, or the configuration is refused",
		Weight: 3,
		Gen: func(r *vx.R) confCase {
			c := confCase{vx.PickS(r, names), map[string]string{}, map[string]string{}}
			insecure := r.Bool()
			for _, f := range services[c.Service] {
				p := 0.35
				switch f.kind {
				case "crt", "key", "ca":
					if insecure {
						p = 0.06
					} else if f.kind != "ca" {
						p = 0.75
					}
				case "bool":
					p = 0.7
				}
				if r.Chance(p) {
					c.Flags[f.flag] = genFieldValue(r, f, false)
				}
				if r.Chance(p * 0.7) {
					c.Env[f.flag] = genFieldValue(r, f, true)
				}
				if f.kind == "bool" && r.Chance(0.7) {
					for _, m := range []map[string]string{c.Flags, c.Env} {
						if _, ok := m[f.flag]; ok {
							m[f.flag] = strconv.FormatBool(insecure)
						}
					}
				}
			}
			return c
		},
		Run: func(c confCase, rec *vx.Rec) error {
			args := []string{}
			want := map[string]string{}
			odd := false // a setting that says neither yes nor no: refused or ignored
			for _, f := range services[c.Service] {
				want[f.flag] = f.def
				if v, ok := c.Flags[f.flag]; ok {
					args = append(args, "-"+f.flag+"="+v)
					want[f.flag] = v
				}
				if v, ok := c.Env[f.flag]; ok {
					if f.kind == "bool" && v != "true" && v != "false" {
						if _, ok := c.Flags[f.flag]; ok {
							continue
						}
						odd = true
					} else {
						want[f.flag] = v
					}
					os.Setenv(f.env, v)
					defer os.Unsetenv(f.env)
				}
			}
			bad := ""
			for _, f := range services[c.Service] {
				v := want[f.flag]
				switch f.kind {
				case "log":
					if v != "info" && v != "debug" {
						bad = f.flag
					}
				case "port":
					if n, err := strconv.Atoi(v); err != nil || n < 0 || n > 65535 {
						bad = f.flag
					}
				case "duration":
					d, err := time.ParseDuration(v)
					if err != nil || d <= 0 {
						bad = f.flag
					}
					want[f.flag] = d.String()
				case "storage":
					if v != "memory" {
						bad = f.flag
					}
				}
			}
			if want["insecure-http"] == "true" {
				if want["server-ca"]+want["server-key"]+want["server-crt"] != "" {
					bad = "certificates with insecure-http"
				}
			} else if want["server-key"] == "" || want["server-crt"] == "" {
				bad = "missing certificates"
			}
			if bad != "" || len(c.Flags) > 0 && len(c.Env) > 0 {
				rec.Nontrivial()
			}
			got, err := load(c.Service, args)
			if bad != "" {
				rec.Label("refused: " + bad)
				if err == nil {
					return fmt.Errorf("%s: flags %v and environment %v are accepted, want an error (%s)", c.Service, c.Flags, c.Env, bad)
				}
				return nil
			}
			if odd {
				rec.Label("neither true nor false")
				if err != nil {
					return nil
				}
			}
			rec.Label("accepted")
			if err != nil {
				return fmt.Errorf("%s: flags %v and environment %v are refused: %v", c.Service, c.Flags, c.Env, err)
			}
			if !reflect.DeepEqual(got, want) {
				for k := range want {
					if got[k] != want[k] {
						return fmt.Errorf("%s: flags %v and environment %v give %s=%q, want %q", c.Service, c.Flags, c.Env, k, got[k], want[k])
					}
				}
			}
			return nil
		},
		Shrink: func(c confCase) []confCase {
			var out []confCase
			drop := func(m map[string]string, k string) map[string]string {
				n := map[string]string{}
				for a, b := range m {
					if a != k {
						n[a] = b
					}
				}
				return n
			}
			for k := range c.Flags {
				out = append(out, confCase{c.Service, drop(c.Flags, k), c.Env})
			}
			for k := range c.Env {
				out = append(out, confCase{c.Service, c.Flags, drop(c.Env, k)})
			}
			return out
		},
	}
}

// ---- the usage names the environment variables that work ----

var (
	helpOnce sync.Once
	help     = map[string]string{}
)

func TestMain(m *testing.M) {
	if s := os.Getenv("VERIFX_HELP_OF"); s != "" {
		_, _ = load(s, []string{"-h"})
		os.Exit(0)
	}
	os.Exit(m.Run())
}

type helpCase struct{ Service, Flag string }

var envName = regexp.MustCompile(`\b[A-Z][A-Z0-9]*_[A-Z0-9_]+\b`)

func helpProp() vx.Prop[helpCase] {
	every := []helpCase{}
	for s, fs := range services {
		for _, f := range fs {
			every = append(every, helpCase{s, f.flag})
		}
	}
	return vx.Prop[helpCase]{
		Name: "usage", Rule: "the usage of the flag names an environment variable",
		Fixed: func() []helpCase { return every },
		Gen:   func(r *vx.R) helpCase { return vx.PickS(r, every) },
		Run: func(c helpCase, rec *vx.Rec) error {
			helpOnce.Do(func() {
				for s := range services {
					cmd := exec.Command(os.Args[0])
					cmd.Env = append(os.Environ(), "VERIFX_HELP_OF="+s)
					b, _ := cmd.CombinedOutput()
					help[s] = string(b)
				}
			})
			text := help[c.Service]
			var f field
			for _, x := range services[c.Service] {
				if x.flag == c.Flag {
					f = x
				}
			}
			lines := strings.Split(text, "\n")
			for i, l := range lines {
				w := strings.Fields(l)
				if len(w) == 0 || strings.TrimLeft(w[0], "-") != c.Flag || !strings.HasPrefix(w[0], "-") {
					continue
				}
				desc := l
				if i+1 < len(lines) {
					desc += lines[i+1]
				}
				if n := envName.FindString(desc); n != "" {
					rec.Nontrivial()
					if n != f.env {
						return fmt.Errorf("%s: the usage of -%s names %s, but the variable that is read is %s", c.Service, c.Flag, n, f.env)
					}
				}
				return nil
			}
			return nil
		},
	}
}

// ---- client configurations ----

type certs struct {
	dir string
}

var (
	certOnce sync.Once
	cert     certs
)

func (c *certs) write(name string, typ string, der []byte) {
	if err := os.WriteFile(filepath.Join(c.dir, name), pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}), 0o600); err != nil {
		panic(err)
	}
}

func makeCerts(dir string) {
	cert = certs{dir}
	serial := int64(1)
	mk := func(name string, ca bool, usage []x509.ExtKeyUsage, parent *x509.Certificate, pk *ecdsa.PrivateKey, days int) (*x509.Certificate, *ecdsa.PrivateKey) {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(time.Duration(days) * 24 * time.Hour),
			IsCA: ca, BasicConstraintsValid: true, ExtKeyUsage: usage, KeyUsage: x509.KeyUsageDigitalSignature, DNSNames: []string{"localhost"}}
		if ca {
			t.KeyUsage |= x509.KeyUsageCertSign
		}
		if parent == nil {
			parent, pk = t, key
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, pk)
		if err != nil {
			panic(err)
		}
		out, _ := x509.ParseCertificate(der)
		cert.write(name+".crt", "CERTIFICATE", der)
		kd, _ := x509.MarshalECPrivateKey(key)
		cert.write(name+".key", "EC PRIVATE KEY", kd)
		return out, key
	}
	ca, cak := mk("ca", true, nil, nil, nil, 30)
	_, _ = mk("otherca", true, nil, nil, nil, 30)
	mk("client", false, []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, ca, cak, 30)
	mk("both", false, []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}, ca, cak, 30)
	mk("plain", false, nil, ca, cak, 30)
	mk("expired", false, nil, ca, cak, -1)
	_ = os.WriteFile(filepath.Join(dir, "garbage"), []byte("not a certificate"), 0o600)
	_ = os.WriteFile(filepath.Join(dir, "empty"), nil, 0o600)
}

type clientCase struct{ URL, CA, Crt, Key string }

func clientProp() vx.Prop[clientCase] {
	files := []string{"ca.crt", "otherca.crt", "client.crt", "client.key", "both.crt", "both.key", "plain.crt", "plain.key", "expired.crt", "expired.key", "garbage", "empty", "missing"}
	return vx.Prop[clientCase]{
		Name: "client-config", Rule: "some certificate setting is made",
		Gen: func(r *vx.R) clientCase {
			c := clientCase{URL: vx.Pick(r, "http://x", "https://x:1", "http://x", "")}
			if r.Chance(0.2) {
				return c
			}
			name := vx.Pick(r, "client", "both", "plain", "expired")
			c.CA, c.Crt, c.Key = vx.Pick(r, "", "ca.crt", "ca.crt", "ca.crt", "otherca.crt"), name+".crt", name+".key"
			for _, f := range []*string{&c.CA, &c.Crt, &c.Key} {
				switch r.Weighted(8, 1, 1) {
				case 1:
					*f = ""
				case 2:
					*f = vx.PickS(r, files)
				}
			}
			return c
		},
		Run: func(c clientCase, rec *vx.Rec) error {
			certOnce.Do(func() {
				d, err := os.MkdirTemp(filepath.Dir(os.Getenv("VX_OUT")), "certs")
				if err != nil {
					panic(err)
				}
				makeCerts(d)
			})
			path := func(s string) string {
				if s == "" {
					return ""
				}
				return filepath.Join(cert.dir, s)
			}
			base := func(s, ext string) (string, bool) { return strings.CutSuffix(s, ext) }
			want := c.URL != ""
			if c.CA+c.Crt+c.Key != "" {
				rec.Nontrivial()
				a, ok1 := base(c.Crt, ".crt")
				b, ok2 := base(c.Key, ".key")
				want = want && ok1 && ok2 && a == b
				if c.CA != "" { // signed by that authority and in force
					switch {
					case c.CA == "ca.crt" && (a == "client" || a == "both" || a == "plain" || a == "ca"):
					case strings.HasSuffix(c.CA, ".crt") && c.CA == c.Crt && a != "expired":
						rec.Label("self") // a certificate trusted as its own root: either answer will do
						return nil
					default:
						want = false
					}
				}
			}
			cfg := clients.Config{URL: c.URL, CAFile: path(c.CA), ClientKeyFile: path(c.Key), ClientCRTFile: path(c.Crt)}
			err := cfg.Validate()
			if (err == nil) != want {
				return fmt.Errorf("client configuration %+v: accepted %v (%v), want %v", c, err == nil, err, want)
			}
			if want {
				rec.Label("accepted")
				if c.Crt != "" && len(cfg.Cert().Certificate) == 0 {
					return fmt.Errorf("client configuration %+v: the certificate is not used", c)
				}
				if (c.CA != "") != (cfg.RootCAs() != nil) {
					return fmt.Errorf("client configuration %+v: own root authorities in use: %v", c, cfg.RootCAs() != nil)
				}
				if c.URL != cfg.URL {
					return fmt.Errorf("client configuration %+v: URL became %s", c, cfg.URL)
				}
			}
			return nil
		},
		Shrink: func(c clientCase) []clientCase {
			return []clientCase{{c.URL, "", c.Crt, c.Key}, {c.URL, c.CA, "", c.Key}, {c.URL, c.CA, c.Crt, ""}, {"http://x", c.CA, c.Crt, c.Key}}
		},
	}
}

func TestC28(t *testing.T) { vx.Check(t, confProp(), helpProp(), clientProp()) }
