package main

import "testing"

func TestReEquiv(t *testing.T) {
	for _, x := range []struct {
		a, b string
		eq   bool
	}{
		{`^[a-z][a-z][a-z]?(?:_[A-Z][A-Z])?\.(.+)`, `^[a-z]{2,3}(?:_[A-Z]{2})?\.(.+)`, true},
		{`^[a-z][a-z][a-z]?(?:_[A-Z][A-Z])?\.(.+)`, `^[a-z]{2,3}(?:_[A-Z]{2})?\.(.+?)`, false},
		{`^[a-z][a-z][a-z]?(?:_[A-Z][A-Z])?\.(.+)`, `^[a-z]{2,4}(?:_[A-Z]{2})?\.(.+)`, false},
		{`^[a-z][a-z]\.(.+)`, `[a-z][a-z]\.(.+)`, false},
		{`^[a-z][a-z]\.(.+)`, `^[a-z][a-z](\..+)`, false},
		{"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]", "(?:\\x1b|\u009b)[[()#;?]*(?:\\d{1,4}(?:;\\d{0,4})*)?[\\dA-ORZcf-nqry=><]", true},
		{"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]", "(?:\\x1b|\u009b)[[()#;?]*(?:\\d{1,4}(?:;\\d{1,4})*)?[\\dA-ORZcf-nqry=><]", false},
		{"[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)?[0-9A-ORZcf-nqry=><]", "[\u001b\u009b][[()#;?]*(?:[0-9]{1,4}(?:;[0-9]{0,4})*)??[0-9A-ORZcf-nqry=><]", false},
		{`(?:a|ab)c?`, `(?:ab|a)c?`, false},
		{`(?:ab|a)`, `ab?`, true},
	} {
		ok, why := reEquiv(x.a, x.b)
		if ok != x.eq {
			t.Error(x.a, x.b, ok, why)
		}
	}
}
