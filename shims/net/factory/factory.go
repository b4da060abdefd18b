// Package factory is an offline stand-in for github.com/skycoin/net/factory:
// message-oriented connections between in-process endpoints. Addresses are
// names in a process-wide table; messages are delivered in order, without
// loss and without duplication; closing either side closes both, messages
// sent before the closing are delivered first. TCP addresses of 127.0.0.1 are
// real ones, for processes that speak to each other.
package factory

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// errors
var (
	ErrAddressInUse = errors.New("address already in use")
	ErrRefused      = errors.New("connection refused")
	ErrClosed       = errors.New("factory closed")
)

type addr struct{ network, s string }

func (a addr) Network() string { return a.network }
func (a addr) String() string  { return a.s }

var (
	netMx     sync.Mutex
	listeners = map[addr]*common{}
	nextPort  uint32
)

func ephemeral() string {
	var p = atomic.AddUint32(&nextPort, 1)
	return fmt.Sprintf("127.%d.%d.1:%d", 1+(p>>20)%250, (p>>12)%250, 40000+(p&0xfff))
}

// a pipe is one direction of a connection
type pipe struct {
	mx     sync.Mutex
	cond   *sync.Cond
	q      [][]byte
	closed bool
	left   bool // by the writer
}

// limit of messages on the way, zero means no limit
var limit int32

// SetLimit of messages on the way of every direction of every
// connection; a writer waits until the reader reads
func SetLimit(n int) { atomic.StoreInt32(&limit, int32(n)) }

// leave is called by closed writer: it does not wait the reader
func (p *pipe) leave() {
	p.mx.Lock()
	defer p.mx.Unlock()
	p.left = true
	p.cond.Broadcast()
}

func newPipe() (p *pipe) {
	p = new(pipe)
	p.cond = sync.NewCond(&p.mx)
	return
}

func (p *pipe) put(b []byte) {
	p.mx.Lock()
	defer p.mx.Unlock()
	for n := int(atomic.LoadInt32(&limit)); n > 0 && len(p.q) >= n && !p.closed && !p.left; {
		p.cond.Wait()
	}
	if !p.closed {
		p.q = append(p.q, append([]byte{}, b...))
		p.cond.Broadcast()
	}
}

func (p *pipe) get() (b []byte, ok bool) {
	p.mx.Lock()
	defer p.mx.Unlock()
	for len(p.q) == 0 && !p.closed {
		p.cond.Wait()
	}
	if len(p.q) == 0 {
		return nil, false
	}
	b, p.q = p.q[0], p.q[1:]
	p.cond.Broadcast()
	return b, true
}

func (p *pipe) close() {
	p.mx.Lock()
	defer p.mx.Unlock()
	p.closed = true
	p.cond.Broadcast()
}

// Connection is one side of a connection
type Connection struct {
	local, remote addr
	tcp           bool
	in            chan []byte
	out           chan []byte
	rd, wr        *pipe
	quit          chan struct{}
	once          sync.Once
	closed        int32
	owner         *common
}

func newConnection(local, remote addr, tcp bool, rd, wr *pipe, o *common) (c *Connection) {
	c = &Connection{local: local, remote: remote, tcp: tcp, rd: rd, wr: wr,
		in: make(chan []byte, 128), out: make(chan []byte, 128),
		quit: make(chan struct{}), owner: o}
	go c.readLoop()
	go c.writeLoop()
	return
}

func (c *Connection) readLoop() {
	defer close(c.in)
	defer c.Close()
	for {
		var b, ok = c.rd.get()
		if !ok {
			return
		}
		select {
		case c.in <- b:
		case <-c.quit:
			return
		}
	}
}

func (c *Connection) writeLoop() {
	for {
		select {
		case b := <-c.out:
			c.wr.put(b)
		case <-c.quit:
			for {
				select {
				case b := <-c.out:
					c.wr.put(b)
					continue
				default:
				}
				break
			}
			c.wr.close()
			for { // discard: a writer does not block
				select {
				case <-c.out:
				case <-time.After(time.Second):
					return
				}
			}
		}
	}
}

// GetChanIn returns channel of incoming messages
func (c *Connection) GetChanIn() <-chan []byte { return c.in }

// GetChanOut returns channel of outgoing messages
func (c *Connection) GetChanOut() chan<- []byte { return c.out }

// IsTCP or UDP
func (c *Connection) IsTCP() bool { return c.tcp }

// IsUDP or TCP
func (c *Connection) IsUDP() bool { return !c.tcp }

// IsClosed connection
func (c *Connection) IsClosed() bool { return atomic.LoadInt32(&c.closed) == 1 }

// GetRemoteAddr returns address of the peer
func (c *Connection) GetRemoteAddr() net.Addr { return c.remote }

// GetLocalAddr returns own address
func (c *Connection) GetLocalAddr() net.Addr { return c.local }

// Close the connection
func (c *Connection) Close() {
	c.once.Do(func() {
		atomic.StoreInt32(&c.closed, 1)
		close(c.quit)
		c.rd.close()
		c.wr.leave()
		if c.owner != nil {
			c.owner.del(c)
		}
	})
}

type common struct {
	tcp    bool
	mx     sync.Mutex
	conns  map[*Connection]struct{}
	laddr  *addr
	closed bool
	accept func(*Connection)
	l      net.Listener // of 127.0.0.1
}

func (f *common) real(address string) bool {
	return f.tcp && strings.HasPrefix(address, "127.0.0.1:")
}

func (f *common) acceptLoop(l net.Listener) {
	for {
		var c, err = l.Accept()
		if err != nil {
			return
		}
		if w, err := f.wrap(c); err == nil {
			go f.accept(w)
		}
	}
}

// wrap connects a socket with pipes; a message has length before it
func (f *common) wrap(s net.Conn) (c *Connection, err error) {
	var rd, wr = newPipe(), newPipe()
	c = newConnection(addr{"tcp", s.LocalAddr().String()}, addr{"tcp", s.RemoteAddr().String()}, true, rd, wr, f)
	go func() {
		defer rd.close()
		var h [4]byte
		for {
			if _, err := io.ReadFull(s, h[:]); err != nil {
				return
			}
			var n = binary.LittleEndian.Uint32(h[:])
			if n > 1<<26 {
				return
			}
			var b = make([]byte, n)
			if _, err := io.ReadFull(s, b); err != nil {
				return
			}
			rd.put(b)
		}
	}()
	go func() {
		defer s.Close()
		for {
			var b, ok = wr.get()
			if !ok {
				return
			}
			var m = make([]byte, 4, 4+len(b))
			binary.LittleEndian.PutUint32(m, uint32(len(b)))
			if _, err := s.Write(append(m, b...)); err != nil {
				rd.close()
				return
			}
		}
	}()
	if !f.add(c) {
		c.Close()
		return nil, ErrClosed
	}
	return
}

func (f *common) network() string {
	if f.tcp {
		return "tcp"
	}
	return "udp"
}

func (f *common) add(c *Connection) bool {
	f.mx.Lock()
	defer f.mx.Unlock()
	if f.closed {
		return false
	}
	if f.conns == nil {
		f.conns = map[*Connection]struct{}{}
	}
	f.conns[c] = struct{}{}
	return true
}

func (f *common) del(c *Connection) {
	f.mx.Lock()
	defer f.mx.Unlock()
	delete(f.conns, c)
}

func (f *common) listen(address string, accept func(*Connection)) error {
	netMx.Lock()
	defer netMx.Unlock()
	var a = addr{f.network(), address}
	if _, ok := listeners[a]; ok {
		return ErrAddressInUse
	}
	f.mx.Lock()
	defer f.mx.Unlock()
	if f.closed {
		return ErrClosed
	}
	if f.real(address) {
		var l, err = net.Listen("tcp", address)
		if err != nil {
			return err
		}
		f.accept, f.l = accept, l
		go f.acceptLoop(l)
		return nil
	}
	f.accept = accept
	f.laddr = &a
	listeners[a] = f
	return nil
}

func (f *common) connect(address string) (c *Connection, err error) {
	if f.real(address) {
		var c, err = net.Dial("tcp", address)
		if err != nil {
			return nil, err
		}
		return f.wrap(c)
	}
	netMx.Lock()
	var ra = addr{f.network(), address}
	var l, ok = listeners[ra]
	netMx.Unlock()
	if !ok {
		return nil, ErrRefused
	}
	var (
		la = addr{f.network(), ephemeral()}
		ab = newPipe()
		ba = newPipe()
	)
	c = newConnection(la, ra, f.tcp, ba, ab, f)
	var r = newConnection(ra, la, f.tcp, ab, ba, l)
	if !f.add(c) {
		c.Close()
		r.Close()
		return nil, ErrClosed
	}
	if !l.add(r) {
		c.Close()
		r.Close()
		return nil, ErrRefused
	}
	if l.accept != nil {
		go l.accept(r)
	}
	return c, nil
}

func (f *common) close() error {
	netMx.Lock()
	f.mx.Lock()
	f.closed = true
	if f.laddr != nil {
		delete(listeners, *f.laddr)
		f.laddr = nil
	}
	if f.l != nil {
		f.l.Close()
	}
	var cs []*Connection
	for c := range f.conns {
		cs = append(cs, c)
	}
	f.mx.Unlock()
	netMx.Unlock()
	for _, c := range cs {
		c.Close()
	}
	return nil
}

// FactoryCommonFields of TCPFactory and UDPFactory
type FactoryCommonFields struct {
	AcceptedCallback func(connection *Connection)
}

// TCPFactory creates TCP connections
type TCPFactory struct {
	FactoryCommonFields
	c common
}

// NewTCPFactory creates TCPFactory
func NewTCPFactory() *TCPFactory { return &TCPFactory{c: common{tcp: true}} }

// Listen on address
func (f *TCPFactory) Listen(address string) error {
	return f.c.listen(address, func(c *Connection) {
		if f.AcceptedCallback != nil {
			f.AcceptedCallback(c)
		}
	})
}

// Connect to address
func (f *TCPFactory) Connect(address string) (*Connection, error) { return f.c.connect(address) }

// Close the factory and its connections
func (f *TCPFactory) Close() error { return f.c.close() }

// UDPFactory creates UDP connections
type UDPFactory struct {
	FactoryCommonFields
	c common
}

// NewUDPFactory creates UDPFactory
func NewUDPFactory() *UDPFactory { return &UDPFactory{} }

// Listen on address
func (f *UDPFactory) Listen(address string) error {
	return f.c.listen(address, func(c *Connection) {
		if f.AcceptedCallback != nil {
			f.AcceptedCallback(c)
		}
	})
}

// Connect to address
func (f *UDPFactory) Connect(address string) (*Connection, error) { return f.c.connect(address) }

// Close the factory and its connections
func (f *UDPFactory) Close() error { return f.c.close() }
