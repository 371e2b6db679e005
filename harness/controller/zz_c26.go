package controller

import (
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C26 time=300 ttime=800 reach=done bounds="every process id from 0 to 2^31-1 (thorough 2^62-1), written over an earlier file of 0..12 arbitrary bytes or none; then read, looked up and cleared"
func VC26RoundTrip() {
	_, fs := zzWorld()
	if zzvnd.Choice("earlier", 2) == 1 {
		fs.Set(zzPid, zzvnd.Bytes("old", zzvnd.Choice("oldlen", 13)))
	}
	f := NewProcessIDFile(zzPid)
	hi := uint64(1<<31 - 1)
	if zzvnd.Deep() {
		hi = 1<<62 - 1
	}
	pid := int(zzvnd.Range64("pid", 0, int64(hi)))
	zzvnd.Assert(f.Write(pid) == nil, "a process id can be written")
	got, err := f.Read()
	zzvnd.Assert(err == nil, "a written process id can be read")
	zzvnd.Assert(got == pid, "reading returns the written process id")
	p, err := f.Process()
	zzvnd.Assert(err == nil && p != nil, "the recorded process can be looked up")
	if p != nil {
		zzvnd.Assert(p.Pid == pid, "the recorded process is the written one")
	}
	zzvnd.Assert(f.Clear() == nil, "the record can be cleared")
	got, err = f.Read()
	zzvnd.Assert(err == ErrFileEmpty && got == ProcessIDFailed, "a cleared record reads as empty")
	p, err = f.Process()
	zzvnd.Assert(err != nil && p == nil, "a cleared record names no process")
	zzvnd.Assert(f.Write(7) == nil, "a cleared record can be written")
	got, err = f.Read()
	zzvnd.Assert(err == nil && got == 7, "a cleared record can be written")
	zzvnd.Reach("done")
}

//verif:prop=C26 time=300 reach=bad,good,empty bounds="a file of 0..5 (thorough 7) arbitrary bytes"
func VC26Content() {
	_, fs := zzWorld()
	b := zzvnd.Bytes("content", zzvnd.Choice("len", zzvnd.Bound(6, 8)))
	fs.Set(zzPid, b)
	f := NewProcessIDFile(zzPid)
	got, err := f.Read()
	want, ok := zzAtoi(b)
	switch {
	case len(b) == 0:
		zzvnd.Assert(err == ErrFileEmpty && got == ProcessIDFailed, "an empty file is reported as such")
		zzvnd.Reach("empty")
	case ok:
		zzvnd.Assert(err == nil, "an integer is read")
		zzvnd.Assert(got == want, "an integer is read exactly")
		zzvnd.Reach("good")
	default:
		zzvnd.Assert(err == ErrParseFailed && got == ProcessIDFailed, "a file that is no integer is an error")
		p, err := f.Process()
		zzvnd.Assert(err != nil && p == nil, "a file that is no integer names no process")
		zzvnd.Reach("bad")
	}
	zzvnd.Assert(len(fs.Files) == 1 && zzvnd.EqBytes(fs.Files[zzPid], b), "reading changes nothing")
}

//verif:prop=C26 time=100 reach=done bounds="each operation on a missing file, or with its file operation failing; integers too large for an int"
func VC26Errors() {
	_, fs := zzWorld()
	f := NewProcessIDFile(zzPid)
	if zzvnd.Choice("missing", 2) == 0 {
		fs.Set(zzPid, []byte([]string{"1", "9223372036854775808", "123456789012345678901234567890", "0x1", "1_0", "1.0", "1e3"}[zzvnd.Choice("big", 7)]))
		got, err := f.Read()
		if string(fs.Files[zzPid]) != "1" {
			zzvnd.Assert(err == ErrParseFailed && got == ProcessIDFailed, "a file that is no integer is an error")
		}
		fs.Fault = func(op, path string) (int, error) { return 0, zzErr }
		zzvnd.Assert(f.Write(3) != nil, "a failed write is reported")
		zzvnd.Assert(f.Clear() != nil, "a failed clear is reported")
		got, err = f.Read()
		zzvnd.Assert(err != nil && got == ProcessIDFailed, "a failed read is an error")
	} else {
		got, err := f.Read()
		zzvnd.Assert(err != nil && got == ProcessIDFailed, "a missing file is an error")
		zzvnd.Assert(f.Clear() != nil, "clearing a missing file is an error")
		zzvnd.Assert(f.Write(3) == nil, "the file is created")
		got, err = f.Read()
		zzvnd.Assert(err == nil && got == 3, "the file is created")
		zzw.FindHook = func(int) (*zzw.Process, error) { return nil, zzErr }
		_, err = f.Process()
		zzvnd.Assert(err != nil, "a failed lookup is an error")
	}
	zzvnd.Reach("done")
}
