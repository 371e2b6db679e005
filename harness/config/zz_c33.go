package config

import (
	"errors"

	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

func zzStrip(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '\t' && s[i] != '\n' {
			b = append(b, s[i])
		}
	}
	return string(b)
}

//verif:prop=C33 time=60 reach=done bounds="the files embedded in this tree"
func VC33Real() {
	Logger = zzw.NewLogger()
	c, err := GenerateEmbeddedCache()
	zzvnd.Assert(err == nil, "the embedded files can be read")
	_, ok := c["/trakx.yaml"]
	zzvnd.Assert(!ok, "the configuration is not served")
	l, err := embeddedFileSystem.ReadDir("embedded")
	zzvnd.Assert(err == nil && len(l) >= 2, "there are embedded files")
	zzvnd.Assert(c["/index.html"] != "" && c["/"] == c["/index.html"], "/ is the index page")
	zzvnd.Assert(len(c) == len(l), "every file but the configuration is served, and nothing else")
	zzvnd.Reach("done")
}

// zzName is a file name: arbitrary characters and one of several endings.
func zzName() string {
	n := zzvnd.Choice("namelen", 5)
	b := zzvnd.Bytes("name", n)
	for i := range b {
		zzvnd.Assume(b[i] != '/' && b[i] != 0)
	}
	return string(b) + []string{"", ".html", ".htm", ".HTML", "html", ".yaml"}[zzvnd.Choice("ending", 6)]
}

//verif:prop=C33 time=200 reach=html,other,noindex bounds="an embedded folder with the configuration, an index page (or none) of up to 3 arbitrary bytes, and a file of up to 4 arbitrary name characters with an ending (.html, .htm, .HTML, html, .yaml or none) and up to 4 (thorough 6) arbitrary bytes"
func VC33Files() {
	Logger = zzw.NewLogger()
	secret := "password: secret\n"
	index := zzvnd.Str("index", zzvnd.Choice("indexlen", 4))
	name := zzName()
	zzvnd.Assume(name != "" && name != "." && name != ".." && name != "trakx.yaml" && name != "index.html")
	data := zzvnd.Str("data", zzvnd.Choice("datalen", zzvnd.Bound(5, 7)))
	zzw.EmbedFiles = map[string]string{"embedded/trakx.yaml": secret, "embedded/" + name: data}
	has := zzvnd.Choice("hasindex", 2) == 1
	if has {
		zzw.EmbedFiles["embedded/index.html"] = index
	}
	c, err := GenerateEmbeddedCache()
	zzvnd.Assert(err == nil, "the embedded files can be read")
	want := 1
	if has {
		want = 3
		a, ok := c["/index.html"]
		b, ok2 := c["/"]
		zzvnd.Assert(ok && zzvnd.EqStr(a, zzStrip(index)), "HTML is served without tabs and newlines")
		zzvnd.Assert(ok2 && zzvnd.EqStr(b, a), "/ is the index page")
	} else {
		zzvnd.Reach("noindex")
	}
	zzvnd.Assert(len(c) == want, "every file but the configuration is served, and nothing else")
	got, ok := c["/"+name]
	zzvnd.Assert(ok, "a file is served under its name")
	n := len(name)
	if n >= 5 && name[n-5:] == ".html" {
		zzvnd.Assert(zzvnd.EqStr(got, zzStrip(data)), "HTML is served without tabs and newlines")
		zzvnd.Reach("html")
	} else {
		zzvnd.Assert(zzvnd.EqStr(got, data), "a file that is not HTML is served unchanged")
		zzvnd.Reach("other")
	}
}

//verif:prop=C33 time=60 reach=failed,fine bounds="any of the folder and two files unreadable"
func VC33Errors() {
	Logger = zzw.NewLogger()
	zzw.EmbedFiles = map[string]string{"embedded/trakx.yaml": "x", "embedded/index.html": "a", "embedded/b": "b"}
	zzw.EmbedErr = map[string]error{}
	bad := false
	for _, f := range []string{"embedded", "embedded/index.html", "embedded/b"} {
		if zzvnd.Choice("bad", 2) == 1 {
			zzw.EmbedErr[f] = errors.New("unreadable")
			bad = true
		}
	}
	c, err := GenerateEmbeddedCache()
	if bad {
		zzvnd.Assert(err != nil, "an unreadable file is reported")
		zzvnd.Reach("failed")
	} else {
		zzvnd.Assert(err == nil && len(c) == 3 && c["/b"] == "b", "readable files are served")
		zzvnd.Reach("fine")
	}
}
