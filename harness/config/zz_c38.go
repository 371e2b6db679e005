package config

import (
	"errors"
	"io/fs"
	"syscall"

	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

const zzCfg = "/home/verif/.config/trakx/trakx.yaml"

// zzStartup runs the two start-up steps that touch the disk.
func zzStartup() {
	configPath, CachePath = "", ""
	initDirectories()
	zzvnd.Assert(configPath == "/home/verif/.config/trakx/" && CachePath == "/home/verif/.cache/trakx/", "the paths are below the home directory")
	generateConfig()
}

// zzOnlyCfg reports whether no file other than the configuration exists.
func zzOnlyCfg() bool {
	for n := range zzw.FS.Files {
		if n != zzCfg {
			return false
		}
	}
	return true
}

func zzC38Setup() (existing bool, old, def string) {
	Logger = zzw.NewLogger()
	zzw.Home, zzw.HomeErr = "/home/verif", nil
	zzw.FS = zzw.NewFS()
	def = zzvnd.Str("default", zzvnd.Choice("defaultlen", zzvnd.Bound(4, 7)))
	zzw.EmbedFiles = map[string]string{"embedded/trakx.yaml": def, "embedded/index.html": "index"}
	existing = zzvnd.Choice("existing", 2) == 1
	if existing {
		old = zzvnd.Str("old", zzvnd.Choice("oldlen", zzvnd.Bound(4, 7)))
		zzw.FS.Set(zzCfg, []byte(old))
	}
	return
}

//verif:prop=C38 time=60 reach=existing,missing bounds="an existing configuration of up to 3 (thorough 6) arbitrary bytes or none, a default configuration of up to 3 (thorough 6) arbitrary bytes; two start-ups in a row"
func VC38Plain() {
	existing, old, def := zzC38Setup()
	for i := 0; i < 2; i++ {
		zzStartup()
		b, ok := zzw.FS.Get(zzCfg)
		zzvnd.Assert(ok, "there is a configuration file after start-up")
		if existing {
			zzvnd.Reach("existing")
			zzvnd.Assert(string(b) == old, "an existing configuration is not changed")
		} else {
			zzvnd.Reach("missing")
			zzvnd.Assert(string(b) == def, "the default configuration is written byte for byte")
		}
		zzvnd.Assert(zzOnlyCfg(), "nothing else is written")
	}
	zzvnd.Assert(zzw.FS.Dirs["/home/verif/.config/trakx/"] || zzw.FS.Dirs["/home/verif/.config/trakx"], "the configuration folder is created")
	zzvnd.Assert(zzw.FS.Dirs["/home/verif/.cache/trakx/"] || zzw.FS.Dirs["/home/verif/.cache/trakx"], "the cache folder is created")
}

//verif:prop=C38 time=120 reach=existing,missing,stat,write bounds="as VC38Plain, one start-up in which each file operation succeeds or fails (permission, I/O error, or for a folder a name clash; a failing write first writes nothing or one byte), and the default configuration can or cannot be read"
func VC38Faults() {
	existing, old, def := zzC38Setup()
	zzw.EmbedErr = nil
	noEmbed := zzvnd.Choice("embederr", 2) == 1
	if noEmbed {
		zzw.EmbedErr = map[string]error{"embedded/trakx.yaml": errors.New("cannot read")}
	}
	statFail, writeFail := false, false
	n := 0
	zzw.FS.Fault = func(op, path string) (int, error) {
		n++
		if n > 8 {
			return 0, nil
		}
		var err error
		switch zzvnd.Choice("fault"+string(rune('0'+n)), 3) {
		case 0:
			return 0, nil
		case 1:
			err = syscall.EACCES
		case 2:
			err = syscall.EIO
			if op == "mkdir" {
				err = fs.ErrExist
			}
		}
		if op == "stat" {
			statFail = true
			return 0, err
		}
		if path == zzCfg {
			writeFail = true
		}
		if op == "write" && len(def) > 0 {
			return zzvnd.Choice("partial"+string(rune('0'+n)), 2), err
		}
		return 0, err
	}
	zzStartup()
	b, ok := zzw.FS.Get(zzCfg)
	if existing {
		zzvnd.Reach("existing")
		zzvnd.Assert(ok && string(b) == old, "an existing configuration is not changed")
	} else if statFail {
		zzvnd.Reach("stat")
		zzvnd.Assert(!ok, "nothing is written when the file cannot be examined")
	} else if noEmbed {
		zzvnd.Assert(!ok || len(b) == 0, "nothing is written without a default configuration")
	} else if writeFail {
		zzvnd.Reach("write")
		zzvnd.Assert(len(b) <= len(def) && string(b) == def[:len(b)], "only default configuration bytes are written")
	} else {
		zzvnd.Reach("missing")
		zzvnd.Assert(ok && string(b) == def, "the default configuration is written byte for byte")
	}
	zzvnd.Assert(zzOnlyCfg(), "nothing else is written")
}

//verif:prop=C38 time=60 reach=done bounds="the configuration embedded in this tree"
func VC38Real() {
	Logger = zzw.NewLogger()
	zzw.Home, zzw.HomeErr = "/home/verif", nil
	zzw.FS = zzw.NewFS()
	zzStartup()
	b, ok := zzw.FS.Get(zzCfg)
	def, err := embeddedFileSystem.ReadFile("embedded/trakx.yaml")
	zzvnd.Assert(err == nil && len(def) > 0, "there is a default configuration")
	zzvnd.Assert(ok && string(b) == string(def), "the embedded default configuration is written byte for byte")
	zzvnd.Reach("done")
}
