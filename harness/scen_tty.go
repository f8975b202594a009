package main

import (
	"fmt"
	"io"
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/julioguillermo/godeep/tensor"
)

// how long an activation takes, so that training lasts long enough for its progress to be shown
var slow atomic.Int64

func dawdle() {
	if d := slow.Load(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}

func ioctl(f *os.File, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

// run f with a terminal of some width as the standard output (without one where there are none)
func onTerminal(width int, f func()) {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		f()
		return
	}
	defer master.Close()
	var zero, num int32
	if ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&zero)) != nil || ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&num)) != nil {
		f()
		return
	}
	tty, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", num), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		f()
		return
	}
	defer tty.Close()
	size := [4]uint16{25, uint16(width), 0, 0}
	ioctl(tty, syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	go io.Copy(io.Discard, master)
	old := os.Stdout
	os.Stdout = tty
	defer func() { os.Stdout = old }()
	f()
}

// training that lasts, watched on a terminal
func (n *N[T]) scenT13() {
	n.big = 3
	k := n.in(1, 2)
	m := n.addModel([]desc{{k: "input", pre: []int{}, p: lp{shape: []int{k}}},
		{k: "dense", pre: []int{1}, p: lp{n: 1}, act: "aff"}})
	n.ready(m)
	if n.dead {
		return
	}
	samples, epochs, batch := 1, n.in(1, 3), n.in(1, 3)
	if n.mode == "i16" && epochs*batch <= 6 {
		samples = n.in(1, 2)
	}
	if n.mode == "rat" {
		epochs, batch = 2, 2
	}
	xs, ys := []tensor.Tensor[T]{}, []tensor.Tensor[T]{}
	for i := 0; i < samples; i++ {
		xs, ys = append(xs, n.input(m, 2)), append(ys, n.target(m, 3))
	}
	b := batch
	if batch == samples && n.p(50) {
		b = 0
	}
	slow.Store(int64(310 * time.Millisecond))
	onTerminal(pick(n.rng, 0, 3, 20, 60, 100, 250), func() {
		n.train(m, xs, ys, epochs, b, n.alpha(), n.momentum())
	})
	slow.Store(0)
	if !n.dead {
		n.predict(m, n.input(m, 3))
	}
}
