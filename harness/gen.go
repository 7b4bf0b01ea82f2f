package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"hash/fnv"
	"os"
)

// readGen passes the TLC generated histories to each; when there are more
// than env.GenMax, a sample picked by the seed.
func readGen(env *Env, each func(raw json.RawMessage) error) error {
	b, err := os.ReadFile(env.Gen)
	if err != nil {
		return err
	}
	total := bytes.Count(b, []byte{'\n'})
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(nil, 1<<24)
	for i := 0; sc.Scan(); i++ {
		if env.GenMax > 0 && total > env.GenMax {
			h := fnv.New64a()
			h.Write([]byte{byte(i), byte(i >> 8), byte(i >> 16), byte(env.Seed), byte(env.Seed >> 8)})
			if h.Sum64()>>16%uint64(total) >= uint64(env.GenMax) {
				continue
			}
		}
		if err := each(json.RawMessage(sc.Bytes())); err != nil {
			return err
		}
	}
	return sc.Err()
}

// tokOffset is the offset after the first k tokens of p.
func tokOffset(p []byte, k int) int {
	all, rest := tokenize(p)
	if k >= len(all) {
		return len(p) - len(rest)
	}
	for i := 1; i <= len(p); i++ {
		toks, rest := tokenize(p[:i])
		if len(toks) == k && len(rest) == 0 {
			return i
		}
	}
	return 0
}
