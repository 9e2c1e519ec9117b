package kit

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Work is the scratch directory of this run (removed by check.sh).
var Work = os.Getenv("VH_WORK")

// Repo is the tree under test.
var Repo = func() string {
	if r := os.Getenv("VH_REPO"); r != "" {
		return r
	}
	return "/repo"
}()

// Build compiles pkg of the repository into Work; the module file is copied so
// that the build can never rewrite the one in the tree.
func Build(out, pkg string, race bool, tags string) (string, error) {
	bin := filepath.Join(Work, out)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(Repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(Work, "repo-"+out+filepath.Ext(f)), b, 0o644); err != nil {
			return "", err
		}
	}
	args := []string{"build", "-modfile", filepath.Join(Work, "repo-"+out+".mod"), "-o", bin}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	args = append(args, pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = Repo
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, b)
	}
	return bin, nil
}

// Server is a running server process.
type Server struct {
	Addr   string
	Port   int
	Cmd    *exec.Cmd
	Stderr string
	done   chan struct{}
	err    error
	mu     sync.Mutex
	ended  bool // we ended it
}

var (
	serversMu sync.Mutex
	servers   = map[*Server]bool{}
	srvSeq    atomic.Int64
)

// KillAll ends every server still running.
func KillAll() {
	serversMu.Lock()
	defer serversMu.Unlock()
	for s := range servers {
		s.Cmd.Process.Kill()
	}
}

var (
	portsMu  sync.Mutex
	portsOut = map[int]bool{}
)

// FreePort returns a port nobody listens on, never the same twice and none
// that the system gives to outgoing connections.
func FreePort() (int, error) {
	portsMu.Lock()
	defer portsMu.Unlock()
	var last error
	for try := 0; try < 1000; try++ {
		p := 11000 + rand.Intn(20000)
		if portsOut[p] {
			continue
		}
		l, err := net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(p))
		if err != nil {
			last = err
			continue
		}
		l.Close()
		portsOut[p] = true
		return p, nil
	}
	return 0, last
}

// ErrOther means that another process listens at the address.
var ErrOther = errors.New("another process listens there")

// Owns tells whether this process is the one that listens at the address;
// true when the system does not tell.
func (s *Server) Owns() bool {
	n, told := s.listens(s.Port)
	return n > 0 || !told
}

// Listens counts the listening sockets of the process at the port.
func (s *Server) Listens(port int) int {
	n, _ := s.listens(port)
	return n
}

func (s *Server) listens(port int) (n int, told bool) {
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+w[9]+"]"] = true
			}
		}
	}
	if len(inodes) == 0 {
		return 0, false
	}
	dir := fmt.Sprintf("/proc/%d/fd", s.Cmd.Process.Pid)
	d, err := os.ReadDir(dir)
	if err != nil {
		return 0, !s.Alive()
	}
	for _, e := range d {
		if l, err := os.Readlink(dir + "/" + e.Name()); err == nil && inodes[l] {
			n++
		}
	}
	return n, true
}

// Spawn starts the server without waiting until it listens.
func Spawn(bin string, port int, env ...string) (*Server, error) {
	return SpawnArgs(bin, port, []string{"-addr", "tcp://127.0.0.1:" + strconv.Itoa(port)}, env...)
}

// SpawnArgs starts the server with the given arguments; port is where it is
// expected to listen.
func SpawnArgs(bin string, port int, args []string, env ...string) (*Server, error) {
	n := srvSeq.Add(1)
	s := &Server{Port: port, Addr: "127.0.0.1:" + strconv.Itoa(port), done: make(chan struct{})}
	s.Stderr = filepath.Join(Work, fmt.Sprintf("stderr.%d", n))
	f, err := os.Create(s.Stderr)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	s.Cmd = exec.Command(bin, args...)
	s.Cmd.Dir = Work
	s.Cmd.Stderr = f
	s.Cmd.Env = append(os.Environ(), env...)
	s.Cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cpus := 0
	for _, e := range env {
		if strings.HasPrefix(e, "VH_STDOUT=") {
			out, err := os.OpenFile(e[len("VH_STDOUT="):], os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o644)
			if err != nil {
				return nil, err
			}
			defer out.Close()
			s.Cmd.Stdout = out
		}
		if strings.HasPrefix(e, "VH_CPUS=") {
			cpus, _ = strconv.Atoi(e[len("VH_CPUS="):])
		}
	}
	if err := startOn(cpus, int(n), s.Cmd.Start); err != nil {
		return nil, err
	}
	serversMu.Lock()
	servers[s] = true
	serversMu.Unlock()
	go func() {
		s.err = s.Cmd.Wait()
		serversMu.Lock()
		delete(servers, s)
		serversMu.Unlock()
		close(s.done)
	}()
	return s, nil
}

// startOn runs start so that the child may use only the given number of CPUs
// (0: all). The server asks for as many processors as it finds.
func startOn(cpus, turn int, start func() error) error {
	if cpus == 0 {
		return start()
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var old [128]byte
	n, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, uintptr(len(old)), uintptr(unsafe.Pointer(&old[0])))
	if e != 0 {
		return start()
	}
	var allowed []int
	for i := 0; i < int(n)*8; i++ {
		if old[i/8]>>(i%8)&1 == 1 {
			allowed = append(allowed, i)
		}
	}
	if len(allowed) <= cpus {
		return start()
	}
	var mask [128]byte
	for i := 0; i < cpus; i++ {
		c := allowed[(turn+i)%len(allowed)]
		mask[c/8] |= 1 << (c % 8)
	}
	if _, _, e = syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, n, uintptr(unsafe.Pointer(&mask[0]))); e != 0 {
		return start()
	}
	err := start()
	syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, n, uintptr(unsafe.Pointer(&old[0])))
	return err
}

// Launch starts a server on a free port and waits until it answers.
func Launch(bin string, env ...string) (*Server, error) {
	var last error
	for try := 0; try < 8; try++ {
		port, err := FreePort()
		if err != nil {
			return nil, err
		}
		s, err := Spawn(bin, port, env...)
		if err != nil {
			return nil, err
		}
		if err = s.WaitUp(); err == nil {
			return s, nil
		}
		s.Kill()
		last = fmt.Errorf("%v; stderr: %s", err, s.Log(2000))
	}
	return nil, last
}

// WaitUp waits until the server answers a PING.
func (s *Server) WaitUp() error {
	t0 := Ticks()
	for {
		if !s.Alive() {
			return fmt.Errorf("server ended while starting: %v", s.err)
		}
		c, err := net.DialTimeout("tcp", s.Addr, 5*time.Second)
		if err == nil {
			k := NewConn(c)
			r, err := k.Do("PING")
			k.Close()
			if err == nil && r.Kind == '+' && r.Str == "PONG" {
				if !s.Owns() {
					return ErrOther
				}
				return nil
			}
			if err == nil {
				return fmt.Errorf("first PING answered %s", r)
			}
			return err
		}
		if Ticks()-t0 > 600 {
			return errors.New("server does not listen")
		}
		time.Sleep(3 * time.Millisecond)
	}
}

// Alive tells whether the process still runs.
func (s *Server) Alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

// Wait waits up to ticks (100 ms each) for the process to end.
func (s *Server) Wait(n int64) bool {
	t0 := Ticks()
	for {
		select {
		case <-s.done:
			return true
		case <-time.After(20 * time.Millisecond):
			if Ticks()-t0 > n {
				return false
			}
		}
	}
}

// ExitErr is how the process ended.
func (s *Server) ExitErr() error {
	<-s.done
	return s.err
}

// Kill ends the server the hard way.
func (s *Server) Kill() {
	s.mu.Lock()
	s.ended = true
	s.mu.Unlock()
	s.Cmd.Process.Kill()
	<-s.done
	os.Remove(s.Stderr)
}

// Log returns the last n bytes the server logged.
func (s *Server) Log(n int) string {
	b, _ := os.ReadFile(s.Stderr)
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

var crashRe = regexp.MustCompile(`^(panic: |fatal error: |runtime error: |WARNING: DATA RACE|SIGSEGV|unexpected fault address|.*worker (with func )?exits? from (a )?panic)`)

// Crash looks for signs of a crash or race in the server's log.
func (s *Server) Crash() string {
	f, err := os.Open(s.Stderr)
	if err != nil {
		return ""
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		if crashRe.Match(sc.Bytes()) {
			out := sc.Text() + "\n"
			for i := 0; i < 40 && sc.Scan(); i++ {
				out += sc.Text() + "\n"
			}
			return out
		}
	}
	return ""
}

// CrashBlocks returns every race block in the log.
func (s *Server) CrashBlocks() []string { return RaceBlocks(s.Stderr) }

// RaceBlocks returns the reports of the race detector in a log.
func RaceBlocks(file string) []string {
	b, _ := os.ReadFile(file)
	var out []string
	for _, blk := range bytes.Split(b, []byte("==================")) {
		if bytes.Contains(blk, []byte("WARNING: DATA RACE")) {
			out = append(out, string(blk))
		}
	}
	return out
}

// FDs counts open descriptors of the process.
func (s *Server) FDs() int {
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.Cmd.Process.Pid))
	if err != nil {
		return -1
	}
	return len(d)
}

// LimitFDs lets the process have at most n open descriptors.
func (s *Server) LimitFDs(n int) error {
	var lim [2]uint64
	pid := uintptr(s.Cmd.Process.Pid)
	_, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, pid, syscall.RLIMIT_NOFILE, 0, uintptr(unsafe.Pointer(&lim[0])), 0, 0)
	if e == 0 {
		lim[0] = uint64(n)
		if lim[0] > lim[1] {
			lim[0] = lim[1]
		}
		_, _, e = syscall.RawSyscall6(syscall.SYS_PRLIMIT64, pid, syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(&lim[0])), 0, 0, 0)
	}
	if e != 0 {
		return e
	}
	return nil
}

// RSS is the resident memory in bytes.
func (s *Server) RSS() int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", s.Cmd.Process.Pid))
	if err != nil {
		return -1
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "VmRSS:") {
			f := strings.Fields(l)
			n, _ := strconv.ParseInt(f[1], 10, 64)
			return n << 10
		}
	}
	return -1
}

// CPU is the processor time the process has used so far.
func (s *Server) CPU() (time.Duration, error) {
	var ts syscall.Timespec
	clock := int32(^s.Cmd.Process.Pid)<<3 | 2 // CLOCK_PROCESS_CPUTIME_ID of another process
	_, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, uintptr(clock), uintptr(unsafe.Pointer(&ts)), 0)
	if e != 0 {
		return 0, e
	}
	return time.Duration(ts.Nano()), nil
}
