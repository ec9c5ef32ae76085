package simos

import (
	"bytes"
	"fmt"
)

// What programs (packages main) use besides files.

var (
	Stdout = &File{name: "/dev/stdout", term: &bytes.Buffer{}}
	Stderr = &File{name: "/dev/stderr", term: &bytes.Buffer{}}
	// Exited is the argument of Exit, -1 before.
	Exited = -1
)

// StartProgram is to be called before a program is started.
func StartProgram() {
	Exited = -1
	Stdout.term.Reset()
	Stderr.term.Reset()
}

// Output is what the program wrote to its standard output.
func Output() []byte { return append([]byte(nil), Stdout.term.Bytes()...) }

// Exit is os.Exit: nothing has an effect after it.
func Exit(code int) {
	d := Disk
	d.enter()
	if Exited < 0 {
		Exited = code
	}
	d.crash()
}

func Print(a ...any) (int, error)            { return Stdout.Write([]byte(fmt.Sprint(a...))) }
func Printf(f string, a ...any) (int, error) { return Stdout.Write([]byte(fmt.Sprintf(f, a...))) }
func Println(a ...any) (int, error)          { return Stdout.Write([]byte(fmt.Sprintln(a...))) }

func Fatal(a ...any) {
	Stderr.Write([]byte(fmt.Sprint(a...)))
	Exit(1)
}

func Fatalf(f string, a ...any) {
	Stderr.Write([]byte(fmt.Sprintf(f, a...)))
	Exit(1)
}

func Fatalln(a ...any) {
	Stderr.Write([]byte(fmt.Sprintln(a...)))
	Exit(1)
}
