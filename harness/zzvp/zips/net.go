package zips

import (
	"context"
	"crypto/sha512"
	"errors"
	"hash"
	htmlTemplate "html/template"
	"io"
	"net/http"
	"os"
	"time"

	"github.com/gofrs/flock"
)

// There is no network.
//
//vp:model net/http.Get
func httpGet(url string) (*http.Response, error) { return nil, errors.New("no network") }

// Locks are not held by others.
//
//vp:model (*github.com/gofrs/flock.Flock).TryLockContext
func flockTry(f *flock.Flock, ctx context.Context, d time.Duration) (bool, error) {
	if err := os.WriteFile(f.Path(), nil, 0600); err != nil {
		return false, err
	}
	return true, nil
}

//vp:model (*github.com/gofrs/flock.Flock).Unlock
func flockUnlock(f *flock.Flock) error { return nil }

var hashed512 []string

type hash512 struct{ data string }

func (h *hash512) Write(p []byte) (int, error) {
	h.data += string(p)
	return len(p), nil
}

// Sum stands for SHA-512 without collisions.
func (h *hash512) Sum(b []byte) []byte {
	var r [sha512.Size]byte
	n := -1
	for i, s := range hashed512 {
		if s == h.data {
			n = i
		}
	}
	if n < 0 {
		n = len(hashed512)
		hashed512 = append(hashed512, h.data)
	}
	r[0] = byte(n + 1)
	return append(b, r[:]...)
}
func (h *hash512) Reset()         { h.data = "" }
func (h *hash512) Size() int      { return sha512.Size }
func (h *hash512) BlockSize() int { return sha512.BlockSize }

//vp:model crypto/sha512.New
func sha512New() hash.Hash { return &hash512{} }

// The template of the configuration file that config init makes.
//
//vp:model (*html/template.Template).Execute
func htmlTemplateExecute(t *htmlTemplate.Template, w io.Writer, data interface{}) error {
	_, err := w.Write([]byte("template\n"))
	return err
}

// Time does not run out.
//
//vp:model context.WithTimeout
func withTimeout(ctx context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return ctx, func() {}
}
