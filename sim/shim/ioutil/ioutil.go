package ioutil

import (
	"io"

	"verif.local/sim/shim/os"
)

var (
	ReadAll   = io.ReadAll
	Discard   = io.Discard
	NopCloser = io.NopCloser
)

func ReadFile(n string) ([]byte, error)                       { return os.ReadFile(n) }
func WriteFile(n string, b []byte, perm os.FileMode) error    { return os.WriteFile(n, b, perm) }

func ReadDir(n string) ([]os.FileInfo, error) {
	es, err := os.ReadDir(n)
	if err != nil {
		return nil, err
	}
	var out []os.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, nil
}
