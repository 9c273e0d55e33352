package checks

import (
	"encoding/hex"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"
)

// ParseToUnicode reads a ToUnicode CMap.
func ParseToUnicode(b []byte) (map[int][]rune, error) {
	s := string(b)
	if !strings.Contains(s, "begincmap") || !strings.Contains(s, "endcmap") {
		return nil, errors.New("ToUnicode: not a CMap")
	}
	out := map[int][]rune{}
	var space [][2]int //of each byte, see the specification of CMaps
	toks := strings.FieldsFunc(strings.NewReplacer("<", " <", ">", "> ", "[", " [ ", "]", " ] ").Replace(s), func(r rune) bool {
		return r == ' ' || r == '\n' || r == '\r' || r == '\t'
	})
	hx := func(t string) ([]byte, error) {
		if len(t) < 2 || t[0] != '<' || t[len(t)-1] != '>' {
			return nil, fmt.Errorf("ToUnicode: expected a hex string, found %q", t)
		}
		return hex.DecodeString(t[1 : len(t)-1])
	}
	code := func(t string) (int, error) {
		b, err := hx(t)
		if err != nil {
			return 0, err
		}
		if len(b) != 2 {
			return 0, fmt.Errorf("ToUnicode: code %s is not two bytes", t)
		}
		return int(b[0])<<8 | int(b[1]), nil
	}
	uni := func(t string) ([]rune, error) {
		b, err := hx(t)
		if err != nil {
			return nil, err
		}
		if len(b) == 0 || len(b)%2 != 0 {
			return nil, fmt.Errorf("ToUnicode: %s is not UTF-16BE", t)
		}
		var u []uint16
		for i := 0; i < len(b); i += 2 {
			u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
		}
		return utf16.Decode(u), nil
	}
	for i := 0; i < len(toks); i++ {
		switch toks[i] {
		case "begincodespacerange", "beginbfrange", "beginbfchar":
			kind := toks[i]
			if i == 0 {
				return nil, errors.New("ToUnicode: section without count")
			}
			n, err := strconv.Atoi(toks[i-1])
			if err != nil {
				return nil, fmt.Errorf("ToUnicode: %q before %s", toks[i-1], kind)
			}
			i++
			cnt := 0
			for i < len(toks) && !strings.HasPrefix(toks[i], "end") {
				cnt++
				a, err := code(toks[i])
				if err != nil {
					return nil, err
				}
				i++
				z := a
				if kind != "beginbfchar" {
					if i >= len(toks) {
						return nil, errors.New("ToUnicode: cut off")
					}
					if z, err = code(toks[i]); err != nil {
						return nil, err
					}
					i++
				}
				if kind == "begincodespacerange" {
					if a>>8 > z>>8 || a&0xFF > z&0xFF {
						return nil, fmt.Errorf("ToUnicode: code space %04X-%04X is empty", a, z)
					}
					space = append(space, [2]int{a, z})
					continue
				}
				if i >= len(toks) {
					return nil, errors.New("ToUnicode: cut off")
				}
				r, err := uni(toks[i])
				if err != nil {
					return nil, err
				}
				i++
				for c := a; c <= z; c++ {
					rr := append([]rune{}, r...)
					rr[len(rr)-1] += rune(c - a)
					out[c] = append(out[c], rr...)
				}
			}
			if cnt > 100 {
				return nil, fmt.Errorf("ToUnicode: %s has %d entries, a block has at most 100", kind, cnt)
			}
			if cnt != n {
				return nil, fmt.Errorf("ToUnicode: %s announces %d entries, has %d", kind, n, cnt)
			}
		}
	}
	for c := range out {
		in := false
		for _, s := range space {
			in = in || (s[0]>>8 <= c>>8 && c>>8 <= s[1]>>8 && s[0]&0xFF <= c&0xFF && c&0xFF <= s[1]&0xFF)
		}
		if !in {
			return nil, fmt.Errorf("ToUnicode: code %04X outside of the code space %04X", c, space)
		}
	}
	return out, nil
}
