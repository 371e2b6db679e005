package config

import (
	"errors"

	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// zzText is an arbitrary string of ASCII characters, up to max long.
func zzText(l string, max int) string {
	n := zzvnd.Choice(l+"len", max+1)
	if n == 0 {
		return ""
	}
	s := zzvnd.Str(l, n)
	for i := 0; i < n; i++ {
		zzvnd.Assume(s[i] < 0x80)
	}
	return s
}

func zzLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = c + byte(zzvnd.IteInt(zzvnd.And(c >= 'A', c <= 'Z'), 32, 0))
	}
	return string(b)
}

func zzHome(s, home string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '~' {
			b = append(b, home...)
		} else {
			b = append(b, s[i])
		}
	}
	return string(b)
}

// zzInt reads a decimal integer with an optional sign.
func zzInt(s string) (int, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	v := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, true
}

var zzLevels = []string{"debug", "info", "warn", "error", "fatal"}
var zzZap = []zapcore.Level{zap.DebugLevel, zap.InfoLevel, zap.WarnLevel, zap.ErrorLevel, zap.FatalLevel}

// zzLevel is the level a lower-case name stands for.
func zzLevel(name string) zapcore.Level {
	for i, l := range zzLevels {
		if name == l {
			return zzZap[i]
		}
	}
	return zap.WarnLevel
}

func zzLoad(fill func(*Configuration), fail error) (*Configuration, error) {
	Logger = zzw.NewLogger()
	zzw.FigHook = func(c any) error {
		if fail == nil {
			fill(c.(*Configuration))
		}
		return fail
	}
	return Load()
}

// zzCase is a level name with any of its letters in upper case.
func zzCase() string {
	b := []byte(zzLevels[zzvnd.Choice("level", len(zzLevels))])
	for i := range b {
		b[i] -= byte(zzvnd.IteInt(zzvnd.Bool("upper"), 32, 0))
	}
	return string(b)
}

//verif:prop=C30 time=120 reach=valid,other bounds="a level name in any mixture of upper and lower case, or any ASCII text of up to 5 (thorough 6) characters; set at load and again at run time to any level or text"
func VC30Level() {
	zzw.Home = "/h"
	name := ""
	if zzvnd.Choice("named", 2) == 1 {
		name = zzCase()
	} else {
		name = zzText("text", zzvnd.Bound(5, 6))
	}
	conf, err := zzLoad(func(c *Configuration) { c.LogLevel = LogLevel(name) }, nil)
	zzvnd.Assert(err == nil && conf.Loaded(), "a configuration with any log level is loaded")
	low := zzLower(name)
	zzvnd.Assert(zzvnd.EqStr(string(conf.LogLevel), low), "the log level is lower-cased")
	zzvnd.Assert(loggerAtom.Level() == zzLevel(low), "a valid level sets that level, any other warn")
	if loggerAtom.Level() == zap.InfoLevel {
		zzvnd.Reach("valid")
	}
	again := append([]string{"x", ""}, zzLevels...)[zzvnd.Choice("again", 7)]
	conf.SetLogLevel(LogLevel(again))
	zzvnd.Assert(loggerAtom.Level() == zzLevel(again), "a valid level set at run time sets that level, any other warn")
	zzvnd.Reach("other")
}

//verif:prop=C30 time=120 reach=done bounds="any ASCII mode of up to 8 characters, with everything else fixed"
func VC30Mode() {
	zzw.Home = "/h"
	mode := zzText("mode", 8)
	conf, err := zzLoad(func(c *Configuration) {
		c.LogLevel = "info"
		c.HTTP.Mode, c.HTTP.Port, c.UDP.Port = mode, 7, 8
		c.DB.Type, c.DB.Backup.Type, c.DB.Backup.Path = "T~", "ENV:B", "~"
		c.UDP.IP, c.HTTP.IP = "~", "ENV:"
	}, nil)
	zzvnd.Assert(err == nil && conf.Loaded(), "the configuration is loaded")
	zzvnd.Assert(zzvnd.EqStr(conf.HTTP.Mode, zzLower(mode)), "the HTTP mode is lower-cased")
	zzvnd.Assert(conf.HTTP.Port == 7 && conf.UDP.Port == 8 && conf.DB.Type == "T~" && conf.DB.Backup.Type == "ENV:B" && conf.DB.Backup.Path == "~" &&
		conf.UDP.IP == "~" && conf.HTTP.IP == "ENV:", "everything else is unchanged")
	zzvnd.Reach("done")
}

//verif:prop=C30 time=120 reach=done bounds="pid and log file paths of any text of up to 4 and 2 (thorough 6 and 3) bytes; a home directory of 1 and any 0..2 bytes"
func VC30Paths() {
	zzw.Home = "/" + zzvnd.Str("home", zzvnd.Choice("homelen", 3))
	pid, log := zzvnd.Str("pid", zzvnd.Choice("pidlen", zzvnd.Bound(5, 7))), zzvnd.Str("log", zzvnd.Choice("loglen", zzvnd.Bound(3, 4)))
	conf, err := zzLoad(func(c *Configuration) {
		c.LogLevel = "info"
		c.Path.Pid, c.Path.Log = pid, log
	}, nil)
	zzvnd.Assert(err == nil && conf.Loaded(), "the configuration is loaded")
	zzvnd.Assert(zzvnd.EqStr(conf.Path.Pid, zzHome(pid, zzw.Home)) && zzvnd.EqStr(conf.Path.Log, zzHome(log, zzw.Home)), "~ in file paths is the home directory")
	zzvnd.Reach("done")
}

//verif:prop=C30 time=120 reach=env,plain bounds="a backup path of any text of up to 6 bytes, or ENV: and a name of up to 3 bytes; the named variable set to any text of up to 3 bytes, or not set"
func VC30Backup() {
	zzw.Home = "/h"
	zzw.Env = map[string]string{"-other-": "x"}
	var full, want string
	if zzvnd.Choice("env", 2) == 0 {
		full = zzvnd.Str("backup", zzvnd.Choice("backuplen", 7))
		zzvnd.Assume(len(full) < 4 || full[:4] != "ENV:")
		want = full
		zzvnd.Reach("plain")
	} else {
		name := zzvnd.Str("name", zzvnd.Choice("namelen", 3)+1)
		full = "ENV:" + name
		if zzvnd.Choice("set", 2) == 1 {
			want = zzvnd.Str("value", zzvnd.Choice("valuelen", 4))
			zzw.Env[name] = want
		}
		zzvnd.Reach("env")
	}
	conf, err := zzLoad(func(c *Configuration) {
		c.LogLevel = "info"
		c.DB.Backup.Path = full
	}, nil)
	zzvnd.Assert(err == nil && conf.Loaded(), "the configuration is loaded")
	zzvnd.Assert(zzvnd.EqStr(conf.DB.Backup.Path, want), "an ENV: backup path is the named variable's value, any other is unchanged")
}

//verif:prop=C30 time=120 reach=port,bad bounds="PORT not set, or set to any text of up to 5 (thorough 7) bytes; every configured port"
func VC30Port() {
	zzw.Home = "/h"
	zzw.Env = map[string]string{}
	port := int(zzvnd.U32("configured"))
	text := zzvnd.Str("PORT", zzvnd.Choice("PORTlen", zzvnd.Bound(6, 8)))
	if text != "" || zzvnd.Choice("empty", 2) == 1 {
		zzw.Env["PORT"] = text
	}
	var c0 *Configuration
	conf, err := zzLoad(func(c *Configuration) {
		c0 = c
		c.LogLevel = "warn"
		c.HTTP.Port, c.UDP.Port = port, 8
	}, nil)
	if v, ok := zzInt(text); ok {
		zzvnd.Assert(err == nil && conf.Loaded() && conf.HTTP.Port == v, "PORT overrides the HTTP port")
		zzvnd.Assert(conf.UDP.Port == 8, "PORT changes the HTTP port only")
		zzvnd.Reach("port")
	} else if text == "" {
		zzvnd.Assert(err == nil && conf.Loaded() && conf.HTTP.Port == port, "without PORT the configured port is used")
	} else {
		zzvnd.Assert(err != nil && !c0.Loaded(), "a PORT that is not an integer is an error and the configuration is not loaded")
		zzvnd.Assert(conf == nil || !conf.Loaded(), "a configuration that failed to load is not returned as loaded")
		zzvnd.Reach("bad")
	}
}

//verif:prop=C30 time=60 reach=done bounds="a configuration file that cannot be read or understood; an unknown home directory"
func VC30Fail() {
	zzw.Home = "/h"
	conf, err := zzLoad(nil, errors.New("bad"))
	zzvnd.Assert(err != nil && (conf == nil || !conf.Loaded()), "a configuration that cannot be read is an error")
	zzw.HomeErr = errors.New("no home")
	var c0 *Configuration
	zzw.CatchExit(func() {
		conf, err = zzLoad(func(c *Configuration) { c0 = c; c.Path.Pid = "~" }, nil)
		zzvnd.Assert(err != nil || c0.Path.Pid == "~", "no home directory is made up")
	})
	zzvnd.Assert(!c0.Loaded() || err == nil, "loaded exactly when parsing succeeded")
	zzvnd.Reach("done")
}

//verif:prop=C30 time=60 reach=fits,over bounds="PORT of 17 fixed and any 2 or 3 decimal digits, with and without a sign, around the largest and smallest integer"
func VC30Long() {
	zzw.Home = "/h"
	n := zzvnd.Choice("more", 2) + 2
	d := []byte("92233720368547758")
	for i := 0; i < n; i++ {
		d = append(d, '0'+byte(zzvnd.Range64("digit", 0, 9)))
	}
	sign := []string{"", "+", "-"}[zzvnd.Choice("sign", 3)]
	zzw.Env = map[string]string{"PORT": sign + string(d)}
	tail := int(d[17]-'0')*10 + int(d[18]-'0') // beyond the first 17 digits
	fits := n == 2 && (tail <= 7 || sign == "-" && tail <= 8)
	var c0 *Configuration
	_, err := zzLoad(func(c *Configuration) { c0 = c; c.LogLevel = "warn" }, nil)
	zzvnd.Assert((err == nil) == fits && c0.Loaded() == fits, "a PORT that is no integer the tracker can hold is an error")
	if fits {
		want := 9223372036854775800 + tail
		if sign == "-" {
			want = -want
		}
		zzvnd.Assert(c0.HTTP.Port == want, "PORT overrides the HTTP port")
		zzvnd.Reach("fits")
	} else {
		zzvnd.Reach("over")
	}
}
