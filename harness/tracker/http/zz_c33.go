package http

import (
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C33 time=200 reach=index,file,missing bounds="an embedded folder with the configuration, an index page, a text and an HTML file with arbitrary contents of 3 bytes; a request for any path of up to 7 (thorough 12) arbitrary plain characters, or one with the configuration's name in some form, twice"
func VC33Serve() {
	text, page := zzvnd.Str("text", 3), zzPage()
	zzw.EmbedFiles = map[string]string{"embedded/trakx.yaml": "secret: 1", "embedded/index.html": "<in\tdex>", "embedded/a.txt": text, "embedded/ab.html": page}
	s := zzServe(nil)
	path := "/"
	if zzvnd.Choice("kind", 2) == 0 {
		path += string(zzPlain("path", zzvnd.Choice("len", zzvnd.Bound(8, 13))))
	} else {
		path = []string{"/trakx.yaml", "/embedded/trakx.yaml", "//trakx.yaml", "/../trakx.yaml", "/./trakx.yaml", "/TRAKX.YAML", "/trakx.yml", "/trakx.yaml/", "/config", "//", "/a.txt/", "//a.txt", "/index.htm", "/index.html/"}[zzvnd.Choice("name", 14)]
	}
	for i := 0; i < 2; i++ {
		out := s.get(path)
		want, found := "", true
		switch path {
		case "/", "/index.html":
			want = "<index>"
			zzvnd.Reach("index")
		case "/a.txt":
			want = text
			zzvnd.Reach("file")
		case "/ab.html":
			want = page
		case "/heartbeat", "/stats", "/announce", "/scrape":
			return
		default:
			found = false
		}
		if !found {
			zzvnd.Assert(zzStatus(out, "404"), "any other path is not found")
			zzvnd.Reach("missing")
			continue
		}
		body, ok := zzBody(out)
		zzvnd.Assert(ok && zzvnd.EqBytes(body, []byte(want)), "a file is served under its name")
	}
}

// zzPage is HTML without tabs and newlines.
func zzPage() string {
	b := zzvnd.Bytes("page", 3)
	for i := range b {
		zzvnd.Assume(b[i] != '\t' && b[i] != '\n')
	}
	return string(b)
}
