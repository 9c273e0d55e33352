package checks

import (
	"bytes"
	"fmt"

	"verif/pdfx"
)

func verifyProt(m *Model, d *pdfx.Doc) error {
	p, ok := d.P()
	if !ok {
		return fmt.Errorf("encryption dictionary has no /P")
	}
	u := uint32(int32(p))
	const all = 4 | 8 | 16 | 32
	if int(u&all) != m.Prot.Perm&all {
		return fmt.Errorf("permission bits are %b, requested %b", u&all, m.Prot.Perm&all)
	}
	if u&3 != 0 {
		return fmt.Errorf("reserved permission bits 1-2 are set in /P %d", p)
	}
	if _, ok := d.UserOK(m.Prot.User); !ok {
		return fmt.Errorf("the user password does not open the file")
	}
	if len(m.Prot.Owner) > 0 {
		up, ok := d.OwnerOK(m.Prot.Owner)
		if !ok {
			return fmt.Errorf("the owner password does not open the file")
		}
		_ = up
	} else if _, ok := d.OwnerOK(nil); ok {
		return fmt.Errorf("without an owner password anybody opens the file as owner")
	}
	for _, bad := range wrongPasswords(m.Prot) {
		if _, ok := d.UserOK(bad); ok {
			return fmt.Errorf("wrong password %q opens the file as user", bad)
		}
		if _, ok := d.OwnerOK(bad); ok {
			return fmt.Errorf("wrong password %q opens the file as owner", bad)
		}
	}
	return nil
}

func wrongPasswords(p *Prot) [][]byte {
	var out [][]byte
	add := func(b []byte) {
		for _, x := range [][]byte{p.User, p.Owner} {
			if bytes.Equal(pad32(x), pad32(b)) {
				return
			}
		}
		out = append(out, b)
	}
	add(nil)
	add([]byte("wrong"))
	add(append(append([]byte{}, p.User...), 'x'))
	if len(p.User) > 1 {
		add(p.User[:len(p.User)-1])
	}
	return out
}

func pad32(b []byte) []byte {
	pad := []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")
	return append(append([]byte{}, b...), pad...)[:32]
}
