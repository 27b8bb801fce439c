package tort

import "net"

// std-internal blocking
func stdBlock() {
	a, b := net.Pipe()
	ok := make(chan int)
	go func() { a.Write([]byte("x")); close(ok) }()
	var p [1]byte
	b.Read(p[:])
	<-ok
}
