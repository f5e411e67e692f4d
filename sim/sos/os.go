// Package sos is the simulated standard output, and package os around it.
package sos

import (
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	rt "verif.local/sim/simrt"
)

// File stands in for os.File: the standard output when it has no real file.
type File struct{ real *os.File }

// The standard files, of which the output is the simulated one.
var (
	Stdin  = &File{os.Stdin}
	Stdout = origin
	Stderr = &File{os.Stderr}
)

// origin is what the standard output is when a run begins.
var origin = &File{}

// Redirect makes another file the standard output, as programs do by setting
// os.Stdout.
func Redirect() { Stdout = &File{} }

// Elsewhere returns how much was written to a file that is the standard output no
// more.
func Elsewhere() int { return dev.elsewhere }

func wrap(f *os.File, err error) (*File, error) {
	if f == nil {
		return nil, err
	}
	return &File{f}, err
}

// Open is os.Open.
func Open(name string) (*File, error) { return wrap(os.Open(name)) }

// Create is os.Create.
func Create(name string) (*File, error) { return wrap(os.Create(name)) }

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) { return wrap(os.CreateTemp(dir, pattern)) }

// OpenFile is os.OpenFile, of which /dev/stdout is the standard output.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if name == "/dev/stdout" {
		return origin, nil
	}
	return wrap(os.OpenFile(name, flag, perm))
}

// NewFile is os.NewFile, of which descriptor 1 is the standard output.
func NewFile(fd uintptr, name string) *File {
	if fd == 1 {
		return origin
	}
	f := os.NewFile(fd, name)
	if f == nil {
		return nil
	}
	return &File{f}
}

// Fault describes what happens to the next writes.
type Fault struct {
	After int   // bytes still accepted before the failure
	Err   error // failure
	Once  bool  // only one write fails
}

type device struct {
	Out   []byte
	Calls int
	fault *Fault

	elsewhere int
}

var dev *device

func init() { rt.OnStart(func(*rt.Sim) { dev, Stdout = &device{}, origin }) }

// Errors a standard output may fail with.
var (
	ErrIO    = &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EIO}
	ErrSpace = &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.ENOSPC}
	ErrPipe  = &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EPIPE}
	ErrShut  = &os.PathError{Op: "write", Path: "/dev/stdout", Err: os.ErrClosed}
)

// Inject arms a fault.
func Inject(f *Fault) { dev.fault = f }

// Written returns everything written so far.
func Written() []byte { return dev.Out }

// Calls returns the number of writes so far.
func Calls() int { return dev.Calls }

// Write writes p like *os.File: an error whenever not everything was written.
func (f *File) Write(p []byte) (int, error) {
	if f.real != nil {
		return f.real.Write(p)
	}
	rt.Yield("stdout write")
	if dev == nil {
		return len(p), nil
	}
	if f == origin && Stdout != origin {
		dev.elsewhere += len(p)
		return len(p), nil
	}
	dev.Calls++
	if ft := dev.fault; ft != nil {
		if ft.After < len(p) {
			n := ft.After
			dev.Out = append(dev.Out, p[:n]...)
			ft.After = 0
			if ft.Once {
				dev.fault = nil
			}
			if n > 0 {
				rt.Fault("stdout short write")
			} else {
				rt.Fault("stdout write error")
			}
			return n, ft.Err
		}
		ft.After -= len(p)
	}
	dev.Out = append(dev.Out, p...)
	return len(p), nil
}

// WriteString is os.File.WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom is os.File.ReadFrom.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// Name is os.File.Name.
func (f *File) Name() string {
	if f.real != nil {
		return f.real.Name()
	}
	return "/dev/stdout"
}

// Sync is os.File.Sync.
func (f *File) Sync() error {
	if f.real != nil {
		return f.real.Sync()
	}
	rt.Yield("stdout sync")
	return nil
}

// Close is os.File.Close.
func (f *File) Close() error {
	if f.real != nil {
		return f.real.Close()
	}
	return nil
}

// Fd is os.File.Fd.
func (f *File) Fd() uintptr {
	if f.real != nil {
		return f.real.Fd()
	}
	return 1
}

// Read is os.File.Read.
func (f *File) Read(p []byte) (int, error) {
	if f.real != nil {
		return f.real.Read(p)
	}
	return 0, errors.New("bad file descriptor")
}

// Stat is os.File.Stat.
func (f *File) Stat() (os.FileInfo, error) {
	if f.real != nil {
		return f.real.Stat()
	}
	return os.Stat("/dev/null")
}

// Print is fmt.Print to the simulated standard output.
func Print(a ...any) (int, error) { return fmt.Fprint(Stdout, a...) }

// Println is fmt.Println to the simulated standard output.
func Println(a ...any) (int, error) { return fmt.Fprintln(Stdout, a...) }

// Printf is fmt.Printf to the simulated standard output.
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(Stdout, f, a...) }
