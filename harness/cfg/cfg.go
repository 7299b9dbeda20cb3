// Package cfg: the configuration (C36).
package cfg

import (
	"os"

	"recengine/internal/api/shard"
	"recengine/internal/zzverif/v"
)

func text(name string, n int) string {
	s := v.String(name, n)
	for i := 0; i < n; i++ {
		v.Assume(s[i] != 0) // impossible in the environment
	}
	return s
}

// number reads a decimal number of at most 18 digits.
func number(s string) (bool, int) {
	ok, x, i := true, 0, 0
	neg := false
	if len(s) > 0 && v.Or(s[0] == '-', s[0] == '+') {
		neg = s[0] == '-'
		i = 1
	}
	if i == len(s) {
		return false, 0
	}
	for ; i < len(s); i++ {
		ok = v.And(ok, s[i] >= '0', s[i] <= '9')
		x = x*10 + int(s[i]-'0')
	}
	return ok, v.IteInt(neg, -x, x)
}

func defaults() (*shard.Config, string, int) {
	if !v.Bool("given defaults") {
		return nil, "localhost", 8080
	}
	h := text("default host", v.Choose("default host length", 3))
	p := int(v.I64("default port"))
	return &shard.Config{Host: h, Port: p}, h, p
}

// C36_Port: the port comes from the environment if it is a number.
func C36_Port() {
	os.Unsetenv("REC_HOST")
	os.Unsetenv("REC_PORT")
	set := v.Bool("set")
	s := ""
	if set {
		s = text("port", v.Choose("port length", v.Bound("port length", 7, 18)+1))
		os.Setenv("REC_PORT", s)
	}
	d, host, port := defaults()
	c := shard.NewConfigFromEnv(d)
	v.Obs("port", c.Port)
	ok, x := number(s)
	if ok && x >= 0 {
		v.Reach("from the environment")
		v.Assert(c.Port == x, "the port is the one of the environment")
	} else {
		v.Reach("fallback")
		v.Assert(c.Port == port, "without a valid port the default is used")
	}
	v.Assert(c.Host == host, "without a host the default is used")
	if d != nil {
		v.Assert(c != d && d.Host == host && d.Port == port, "the defaults are not changed")
	}
}

// C36_LongPort: long numbers, arbitrary in a few digits.
func C36_LongPort() {
	os.Unsetenv("REC_HOST")
	n := 8 + v.Choose("digits", 14)
	b := make([]byte, n)
	for i := range b {
		b[i] = "123456789"[i%9]
		if v.Choose("zeros", 2) == 1 && i < n-4 {
			b[i] = '0'
		} else if i < n-4 {
			v.Assume(i < 3 || v.Thorough())
		}
	}
	b[n-3], b[n-1] = v.U8("digit"), v.U8("digit")
	v.Assume(v.And(b[n-3] != 0, b[n-1] != 0))
	os.Setenv("REC_PORT", string(b))
	c := shard.NewConfigFromEnv(&shard.Config{Host: "h", Port: 77})
	v.Obs("port", c.Port)
	k := 0 // leading zeros
	for k < n-4 && b[k] == '0' {
		k++
	}
	if n-k > 18 {
		v.Assume(n-k > 20) // about the largest number
		v.Assert(c.Port == 77, "a number that is none falls back")
		v.Reach("too large")
		return
	}
	ok, x := number(string(b[k:]))
	if k == 0 {
		ok, x = number(string(b))
	}
	if ok {
		v.Assert(c.Port == x, "the port is the one of the environment")
		v.Reach("number")
	} else {
		v.Assert(c.Port == 77, "without a valid port the default is used")
		v.Reach("fallback")
	}
}

// C36_Host: the host comes from the environment if set.
func C36_Host() {
	os.Unsetenv("REC_HOST")
	os.Unsetenv("REC_PORT")
	s := text("host", v.Choose("host length", v.Bound("host length", 8, 24)+1))
	if len(s) > 0 || v.Bool("set") {
		os.Setenv("REC_HOST", s)
	}
	withPort := v.Bool("port set")
	if withPort {
		os.Setenv("REC_PORT", "1234")
	}
	d, host, port := defaults()
	c := shard.NewConfigFromEnv(d)
	if len(s) > 0 {
		host = s
	}
	if withPort {
		port = 1234
	}
	v.Obs("config", c.Host, c.Port)
	v.Assert(c.Host == host, "the host is the one of the environment, or else the default")
	v.Assert(c.Port == port, "the port is the one of the environment, or else the default")
}

// C36_Address: the address is the host and the decimal port.
func C36_Address() {
	h := text("host", v.Choose("host length", v.Bound("host length", 2, 4)))
	p := v.Int("port", 0, v.Bound("port", 65535, 999999))
	a := (&shard.Config{Host: h, Port: p}).GetHostPort()
	v.Obs("address", a)
	v.Assert(len(a) > len(h)+1 && a[:len(h)+1] == h+":", "the address begins with the host and a colon")
	d := a[len(h)+1:]
	x := 0
	for i := 0; i < len(d); i++ {
		v.Assert(v.And(d[i] >= '0', d[i] <= '9'), "the port is written in decimal")
		x = x*10 + int(d[i]-'0')
	}
	v.Assert(v.Or(len(d) == 1, d[0] != '0'), "the port has no leading zeros")
	v.Assert(x == p, "the address ends with the port")
}

// C36_Both: any host together with any port.
func C36_Both() {
	n := v.Choose("host length", v.Bound("host length of both", 16, 40)+1)
	s := text("host", n)
	t := text("port", v.Choose("port length", v.Bound("port length of both", 3, 6)+1))
	os.Setenv("REC_HOST", s)
	os.Setenv("REC_PORT", t)
	var d *shard.Config
	host, port := "localhost", 8080
	if v.Bool("given defaults") {
		host, port = "h", 77
		d = &shard.Config{Host: host, Port: port}
	}
	c := shard.NewConfigFromEnv(d)
	v.Obs("config", c.Host, c.Port)
	if n > 0 {
		host = s
	}
	if ok, x := number(t); ok && x >= 0 {
		port = x
		v.Reach("port")
	}
	v.Assert(c.Host == host, "the host is the one of the environment, or else the default")
	v.Assert(c.Port == port, "the port is the one of the environment, or else the default")
}
