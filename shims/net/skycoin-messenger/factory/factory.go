// Package factory is an offline stand-in for
// github.com/skycoin/net/skycoin-messenger/factory (discovery). It carries
// the types skycoin/cxo uses. Discovery servers are in-process: a name in a
// table (see StandIn). As in the original, answers of a server are given to a
// client one by one, and a client that is connected is registered already.
package factory

import (
	"errors"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
)

// LoggerLevel of MessengerFactory
type LoggerLevel uint32

// logger levels
const (
	PanicLevel LoggerLevel = iota
	FatalLevel
	ErrorLevel
	WarnLevel
	InfoLevel
	DebugLevel
)

// SeedConfig is identity
type SeedConfig struct {
	Seed      string
	SecKey    string
	PublicKey string
}

// NewSeedConfig creates random identity
func NewSeedConfig() (*SeedConfig, error) {
	var pk, sk = cipher.GenerateKeyPair()
	return &SeedConfig{SecKey: sk.Hex(), PublicKey: pk.Hex()}, nil
}

// SecKeyToSeedConfig creates identity by given key
func SecKeyToSeedConfig(sk cipher.SecKey) (*SeedConfig, error) {
	var pk, err = cipher.PubKeyFromSecKey(sk)
	if err != nil {
		return nil, err
	}
	return &SeedConfig{SecKey: sk.Hex(), PublicKey: pk.Hex()}, nil
}

// NodeInfo of discovery
type NodeInfo struct {
	PubKey  cipher.PubKey
	Address string
}

// ServiceInfo of discovery
type ServiceInfo struct {
	PubKey cipher.PubKey
	Nodes  []*NodeInfo
}

// QueryResp of discovery
type QueryResp struct {
	Seq    uint32
	Result []*ServiceInfo
}

// Service of a node
type Service struct {
	Key        cipher.PubKey
	Attributes []string
	Address    string
}

// NodeServices of a node
type NodeServices struct {
	Services       []*Service
	ServiceAddress string
}

// ConnConfig of connection to discovery server
type ConnConfig struct {
	SeedConfig                     *SeedConfig
	Reconnect                      bool
	ReconnectWait                  time.Duration
	FindServiceNodesByKeysCallback func(resp *QueryResp)
	OnConnected                    func(connection *Connection)
}

// errors
var (
	ErrRefused = errors.New("connection refused")
	ErrClosed  = errors.New("connection closed")
)

var (
	serversMx sync.Mutex
	servers   = map[string]*Server{}
)

// Server of discovery, the stand-in
type Server struct {
	address string

	mx      sync.Mutex
	clients map[*Connection]cipher.PubKey
	offers  map[*Connection]*NodeServices
	asked   map[*Connection][]cipher.PubKey
	fakes   map[cipher.PubKey][]*NodeInfo // of the server itself
	turn    int                           // rotates answers
	nils    bool                          // leaves nils where nothing is found
	hold    bool                          // keeps answers
	held    []func()
	closed  bool
	pending int64
}

// StandIn starts a server
func StandIn(address string) (s *Server) {
	s = &Server{address: address, clients: map[*Connection]cipher.PubKey{},
		offers: map[*Connection]*NodeServices{}, asked: map[*Connection][]cipher.PubKey{},
		fakes: map[cipher.PubKey][]*NodeInfo{}}
	serversMx.Lock()
	defer serversMx.Unlock()
	servers[address] = s
	return
}

func serverOf(address string) *Server {
	serversMx.Lock()
	defer serversMx.Unlock()
	return servers[address]
}

// Close the server
func (s *Server) Close() {
	serversMx.Lock()
	if servers[s.address] == s {
		delete(servers, s.address)
	}
	serversMx.Unlock()
	s.mx.Lock()
	s.closed = true
	s.mx.Unlock()
	s.Drop()
}

// Drop connections, clients connect again
func (s *Server) Drop() {
	s.mx.Lock()
	var cs []*Connection
	for c := range s.clients {
		cs = append(cs, c)
	}
	s.clients = map[*Connection]cipher.PubKey{}
	s.offers = map[*Connection]*NodeServices{}
	s.asked = map[*Connection][]cipher.PubKey{}
	s.mx.Unlock()
	for _, c := range cs {
		c.drop()
	}
}

// Answers of the server: how they are ordered and if there are blanks
func (s *Server) Answers(turn int, nils bool) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.turn, s.nils = turn, nils
}

// Fake sets nodes the server names by itself
func (s *Server) Fake(key cipher.PubKey, ns ...*NodeInfo) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.fakes[key] = ns
}

// Hold answers, or let them go
func (s *Server) Hold(hold bool) {
	s.mx.Lock()
	s.hold = hold
	var held = s.held
	if !hold {
		s.held = nil
	}
	s.mx.Unlock()
	if !hold {
		for _, f := range held {
			f()
		}
	}
}

// Clients are the connected ones
func (s *Server) Clients() (pks []cipher.PubKey) {
	s.mx.Lock()
	defer s.mx.Unlock()
	for _, pk := range s.clients {
		pks = append(pks, pk)
	}
	return
}

// OfferOf a client is the last one
func (s *Server) OfferOf(pk cipher.PubKey) (ks []cipher.PubKey, address string, ok bool) {
	s.mx.Lock()
	defer s.mx.Unlock()
	for c, ns := range s.offers {
		if s.clients[c] == pk {
			for _, x := range ns.Services {
				ks = append(ks, x.Key)
			}
			return ks, ns.ServiceAddress, true
		}
	}
	return
}

// AskedBy a client, last time
func (s *Server) AskedBy(pk cipher.PubKey) (ks []cipher.PubKey, ok bool) {
	s.mx.Lock()
	defer s.mx.Unlock()
	for c, ks := range s.asked {
		if s.clients[c] == pk {
			return ks, true
		}
	}
	return
}

// answer under lock
func (s *Server) answer(c *Connection, keys []cipher.PubKey) (resp *QueryResp) {
	resp = new(QueryResp)
	for _, k := range keys {
		var ns = append([]*NodeInfo(nil), s.fakes[k]...)
		for o, x := range s.offers {
			if o == c {
				continue
			}
			for _, sv := range x.Services {
				if sv.Key == k {
					ns = append(ns, &NodeInfo{PubKey: s.clients[o], Address: x.ServiceAddress})
				}
			}
		}
		if len(ns) == 0 {
			if s.nils {
				resp.Result = append(resp.Result, nil)
			}
			continue
		}
		sort.Slice(ns, func(i, j int) bool {
			if ns[i] == nil || ns[j] == nil {
				return ns[i] == nil && ns[j] != nil
			}
			return ns[i].Address+ns[i].PubKey.Hex() < ns[j].Address+ns[j].PubKey.Hex()
		})
		var r = s.turn % len(ns)
		ns = append(append([]*NodeInfo(nil), ns[r:]...), ns[:r]...)
		resp.Result = append(resp.Result, &ServiceInfo{PubKey: k, Nodes: ns})
	}
	if n := len(resp.Result); n > 0 {
		var r = s.turn % n
		resp.Result = append(append([]*ServiceInfo(nil), resp.Result[r:]...), resp.Result[:r]...)
	}
	return
}

// Busy returns number of things that are not done yet:
// connecting, and answers that are not processed
func (s *Server) Busy() int { return int(atomic.LoadInt64(&s.pending)) }

var pauseFunc atomic.Value // func()

// SetPause sets function called between requests of a client, nil for none
func SetPause(fn func()) { pauseFunc.Store(fn) }

func pause() {
	if fn, _ := pauseFunc.Load().(func()); fn != nil {
		fn()
	}
}

// ReconnectWait of the stand-in, instead of given ones
var ReconnectWait = 2 * time.Millisecond

// Connection to discovery server
type Connection struct {
	m       *MessengerFactory
	address string
	cfg     *ConnConfig
	pk      cipher.PubKey
	home    *Server

	mx     sync.Mutex
	cond   *sync.Cond
	s      *Server // connected
	q      []func()
	closed bool
}

func (c *Connection) push(f func()) {
	c.mx.Lock()
	defer c.mx.Unlock()
	if c.closed {
		return
	}
	atomic.AddInt64(&c.home.pending, 1)
	c.q = append(c.q, f)
	c.cond.Broadcast()
}

func (c *Connection) server() *Server {
	c.mx.Lock()
	defer c.mx.Unlock()
	return c.s
}

func (c *Connection) isClosed() bool {
	c.mx.Lock()
	defer c.mx.Unlock()
	return c.closed
}

// register at the server
func (c *Connection) register() bool {
	var s = serverOf(c.address)
	if s == nil {
		return false
	}
	s.mx.Lock()
	defer s.mx.Unlock()
	c.mx.Lock()
	defer c.mx.Unlock()
	if s.closed || c.closed {
		return false
	}
	c.s = s
	s.clients[c] = c.pk
	return true
}

func (c *Connection) drop() {
	c.mx.Lock()
	c.s = nil
	c.mx.Unlock()
	if c.cfg.Reconnect {
		c.push(c.connect)
	}
}

func (c *Connection) connect() {
	for !c.register() {
		if c.isClosed() {
			return
		}
		time.Sleep(ReconnectWait)
	}
	if c.cfg.OnConnected != nil {
		c.cfg.OnConnected(c)
	}
}

func (c *Connection) run() {
	for {
		c.mx.Lock()
		for len(c.q) == 0 && !c.closed {
			c.cond.Wait()
		}
		if c.closed {
			atomic.AddInt64(&c.home.pending, -int64(len(c.q)))
			c.q = nil
			c.mx.Unlock()
			return
		}
		var f = c.q[0]
		c.q = c.q[1:]
		c.mx.Unlock()
		f()
		atomic.AddInt64(&c.home.pending, -1)
	}
}

// FindServiceNodesByKeys request
func (c *Connection) FindServiceNodesByKeys(keys []cipher.PubKey) error {
	pause()
	var s = c.server()
	if s == nil {
		return ErrClosed
	}
	s.mx.Lock()
	defer s.mx.Unlock()
	if _, ok := s.clients[c]; !ok {
		return ErrClosed
	}
	keys = append([]cipher.PubKey(nil), keys...)
	s.asked[c] = keys
	var resp = s.answer(c, keys)
	if c.cfg.FindServiceNodesByKeysCallback == nil {
		return nil
	}
	var f = func() { c.push(func() { c.cfg.FindServiceNodesByKeysCallback(resp) }) }
	if s.hold {
		s.held = append(s.held, f)
		return nil
	}
	f()
	return nil
}

// UpdateServices request
func (c *Connection) UpdateServices(ns *NodeServices) error {
	pause()
	var s = c.server()
	if s == nil {
		return ErrClosed
	}
	s.mx.Lock()
	defer s.mx.Unlock()
	if _, ok := s.clients[c]; !ok {
		return ErrClosed
	}
	var cp = NodeServices{ServiceAddress: ns.ServiceAddress}
	for _, x := range ns.Services {
		var y = *x
		cp.Services = append(cp.Services, &y)
	}
	s.offers[c] = &cp
	return nil
}

func (c *Connection) close() {
	c.mx.Lock()
	if c.closed {
		c.mx.Unlock()
		return
	}
	c.closed = true
	var s = c.s
	c.s = nil
	c.cond.Broadcast()
	c.mx.Unlock()
	if s != nil {
		s.mx.Lock()
		defer s.mx.Unlock()
		delete(s.clients, c)
		delete(s.offers, c)
		delete(s.asked, c)
	}
}

// MessengerFactory of discovery
type MessengerFactory struct {
	mx      sync.RWMutex
	conns   []*Connection
	closed  bool
	servers []*Server
}

// NewMessengerFactory creates MessengerFactory
func NewMessengerFactory() *MessengerFactory { return new(MessengerFactory) }

// SetLoggerLevel of the factory
func (m *MessengerFactory) SetLoggerLevel(LoggerLevel) {}

// SetDefaultSeedConfig of the factory
func (m *MessengerFactory) SetDefaultSeedConfig(*SeedConfig) {}

// ConnectWithConfig to discovery server
func (m *MessengerFactory) ConnectWithConfig(address string, cfg *ConnConfig) (err error) {
	var c = &Connection{m: m, address: address, cfg: cfg}
	c.cond = sync.NewCond(&c.mx)
	if cfg.SeedConfig != nil {
		if c.pk, err = cipher.PubKeyFromHex(cfg.SeedConfig.PublicKey); err != nil {
			return
		}
	}
	if c.home = serverOf(address); c.home == nil {
		return ErrRefused
	}
	m.mx.Lock()
	defer m.mx.Unlock()
	if m.closed {
		return ErrClosed
	}
	m.conns = append(m.conns, c)
	c.push(c.connect)
	go c.run()
	return
}

// ForEachConn calls given function for every connection
func (m *MessengerFactory) ForEachConn(f func(*Connection)) {
	m.mx.RLock()
	defer m.mx.RUnlock()
	for _, c := range m.conns {
		if c.server() != nil {
			f(c)
		}
	}
}

// Listen on given address
func (m *MessengerFactory) Listen(address string) error {
	if serverOf(address) != nil {
		return errors.New("address already in use")
	}
	m.mx.Lock()
	defer m.mx.Unlock()
	m.servers = append(m.servers, StandIn(address))
	return nil
}

// Close the factory
func (m *MessengerFactory) Close() error {
	m.mx.Lock()
	m.closed = true
	var cs, ss = m.conns, m.servers
	m.conns, m.servers = nil, nil
	m.mx.Unlock()
	for _, c := range cs {
		c.close()
	}
	for _, s := range ss {
		s.Close()
	}
	return nil
}
