// Package profile is a stub: profiling is real I/O and real time.
package profile

type Profile struct{}

func (*Profile) Stop() {}

func Start(options ...func(*Profile)) interface{ Stop() } { return &Profile{} }

func Quiet(*Profile)                 {}
func NoShutdownHook(*Profile)        {}
func CPUProfile(*Profile)            {}
func MemProfile(*Profile)            {}
func MemProfileHeap(*Profile)        {}
func MemProfileAllocs(*Profile)      {}
func MutexProfile(*Profile)          {}
func BlockProfile(*Profile)          {}
func TraceProfile(*Profile)          {}
func ThreadcreationProfile(*Profile) {}
func GoroutineProfile(*Profile)      {}
func ClockProfile(*Profile)          {}

func MemProfileRate(int) func(*Profile) { return Quiet }
func ProfilePath(string) func(*Profile) { return Quiet }
