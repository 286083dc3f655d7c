// Package drv runs harnesses: it loads /repo together with the harness
// sources, explores with the engine, and replays natively.
package drv

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/vm"
)

const (
	Module = "github.com/perlin-network/noise"
	Models = Module + "/verif"
)

// Paths of a run.
type Paths struct {
	Repo    string // /repo
	Harness string // /verif/harness
	Work    string // scratch
}

// redirects of library functions to models, engine only.
var redirects = map[string]string{
	"net.Listen":                               "vnet.Listen",
	"(*net.Dialer).DialContext":                "vnet.DialContext",
	"(*net.Dialer).Dial":                       "vnet.DialD",
	"net.Dial":                                 "vnet.Dial",
	"net.DialTimeout":                          "vnet.DialTimeout",
	"net.ResolveTCPAddr":                       "vmodel.ResolveTCPAddr",
	"time.Now":                                 "vmodel.Now",
	"time.Since":                               "vmodel.Since",
	"time.Until":                               "vmodel.Until",
	"time.Sleep":                               "vmodel.Sleep",
	"time.After":                               "vmodel.After",
	"time.AfterFunc":                           "vmodel.AfterFunc",
	"time.NewTimer":                            "vmodel.NewTimer",
	"(*time.Timer).Stop":                       "vmodel.Stop",
	"(*time.Timer).Reset":                      "vmodel.Reset",
	"math/rand.Read":                           "vmodel.MathRead",
	"math/rand.Int63":                          "vmodel.RandInt63",
	"math/rand.Uint64":                         "vmodel.RandUint64",
	"math/rand.Uint32":                         "vmodel.RandUint32",
	"math/rand.Intn":                           "vmodel.RandIntn",
	"crypto/rand.Read":                         "vmodel.CryptoRead",
	"crypto/sha512.New":                        "vmodel.New512",
	"crypto/sha512.Sum512":                     "vmodel.Sum512",
	"crypto/sha256.New":                        "vmodel.New256",
	"crypto/sha256.Sum256":                     "vmodel.Sum256",
	"crypto/aes.NewCipher":                     "vmodel.NewCipher",
	"crypto/cipher.NewGCM":                     "vmodel.NewGCM",
	"crypto/ed25519.GenerateKey":               "vmodel.StdGenerateKey",
	"crypto/ed25519.NewKeyFromSeed":            "vmodel.StdNewKeyFromSeed",
	"crypto/ed25519.Sign":                      "vmodel.StdSign",
	"crypto/ed25519.Verify":                    "vmodel.StdVerify",
	"fmt.Errorf":                               "vmodel.Errorf",
	"github.com/oasislabs/ed25519.GenerateKey": "vmodel.GenerateKey",
	"github.com/oasislabs/ed25519.NewKeyFromSeed":              "vmodel.NewKeyFromSeed",
	"github.com/oasislabs/ed25519.Sign":                        "vmodel.Sign",
	"github.com/oasislabs/ed25519.Verify":                      "vmodel.Verify",
	"(github.com/oasislabs/ed25519.PrivateKey).Public":         "vmodel.Public",
	"github.com/oasislabs/ed25519/extra/x25519.X25519":         "vmodel.X25519",
	"golang.org/x/crypto/curve25519.X25519":                    "vmodel.X25519",
	"github.com/oasislabs/ed25519/extra/x25519.ScalarMult":     "vmodel.ScalarMult",
	"golang.org/x/crypto/curve25519.ScalarMult":                "vmodel.ScalarMult",
	"github.com/oasislabs/ed25519/extra/x25519.ScalarBaseMult": "vmodel.ScalarBaseMult",
	"golang.org/x/crypto/curve25519.ScalarBaseMult":            "vmodel.ScalarBaseMult",
	"github.com/VictoriaMetrics/fastcache.New":                 "vmodel.CacheNew",
	"(*github.com/VictoriaMetrics/fastcache.Cache).Set":        "vmodel.CacheSet",
	"(*github.com/VictoriaMetrics/fastcache.Cache).Has":        "vmodel.CacheHas",
	"(*github.com/VictoriaMetrics/fastcache.Cache).Get":        "vmodel.CacheGet",
	"(*github.com/VictoriaMetrics/fastcache.Cache).HasGet":     "vmodel.CacheHasGet",
	"(*github.com/VictoriaMetrics/fastcache.Cache).Del":        "vmodel.CacheDel",
	"(*github.com/VictoriaMetrics/fastcache.Cache).Reset":      "vmodel.CacheReset",
}

// harnessFiles lists the harness sources as overlay path -> real path.
func (p *Paths) harnessFiles() (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(p.Harness, func(f string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(f, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(p.Harness, f)
		out[filepath.Join(p.Repo, "verif", rel)] = f
		return nil
	})
	return out, err
}

// Load builds the SSA of /repo plus the harnesses.
func (p *Paths) Load() (*vm.Program, error) {
	files, err := p.harnessFiles()
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for k, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	prog, err := vm.Load(p.Repo, []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"}, ov, "math_big_pure_go,purego", Module, Models,
		Module, Module+"/kademlia", Module+"/gossip", Models+"/h", Models+"/vmodel", Models+"/vnet", Models+"/vsym", Models+"/hx")
	if err != nil {
		return nil, err
	}
	if len(prog.LoadErrs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(prog.LoadErrs, "; "))
	}
	for from, to := range redirects {
		i := strings.IndexByte(to, '.')
		fn := prog.Func(Models+"/"+to[:i], to[i+1:])
		if fn == nil {
			return nil, fmt.Errorf("model %s not found", to)
		}
		prog.Redirect(from, fn)
	}
	return prog, nil
}

// Harness finds a harness function.
func Harness(prog *vm.Program, name string) *ssa.Function { return prog.Func(Models+"/h", name) }

// HarnessNames lists the harness functions.
func HarnessNames(prog *vm.Program) []string {
	var out []string
	for n, m := range prog.Package(Models + "/h").Members {
		if f, ok := m.(*ssa.Function); ok && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && n[0] >= 'A' && n[0] <= 'Z' {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}
