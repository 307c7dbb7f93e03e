package lib

import (
	"bytes"
	"os"
)

var refCache = map[string]*Outcome{}

// Reference returns the outcome of the reference case, executed in the same way as the outcome o.
// Results are cached, key is the name of the reference.
func Reference(key string, c *Case, o *Outcome) *Outcome {
	cli := o.CLI || !HasAPI || os.Getenv("VX_MODE") != "worker"
	if cli {
		key = "cli " + key
	}
	if r, ok := refCache[key]; ok {
		return r
	}
	var r *Outcome
	if cli {
		r = RunCLI(cliBin(), c)
	} else {
		dir, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		r = RunAPI(c, dir)
		r.Obs = nil
	}
	if len(refCache) > 20000 {
		refCache = map[string]*Outcome{}
	}
	refCache[key] = r
	return r
}

// NoDoc returns the JSON output without documentation lines.
func NoDoc(b []byte) []byte {
	r := make([]byte, 0, len(b))
	for len(b) > 0 {
		l := b
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			l = b[:i+1]
		}
		b = b[len(l):]
		if bytes.HasPrefix(bytes.TrimLeft(l, " \t"), []byte(`"Doc":`)) {
			continue
		}
		r = append(r, l...)
	}
	return r
}
