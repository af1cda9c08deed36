M = []
def m(check, kind, name, *ed):
    M.append((check, kind, name, [tuple(ed[i:i+3]) for i in range(0, len(ed), 3)]))
S='socket.go'
m('C05','bug','no cancel',S,'	sck.cancel()\n','')
m('C05','bug','no listener close',S,'''	if listener != nil {
		defer listener.Close()
	}

''','')
m('C05','bug','early return on conn error',S,'''		e := conn.Close()
		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
			err = e
		}
	}

	// Rem''','''		e := conn.Close()
		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
			err = e
			break
		}
	}

	// Rem''')
m('C05','bug','listener read before flag',S,'''	sck.mu.Lock()
	if sck.isClosed {
		sck.mu.Unlock()
		return fmt.Errorf("zmq4: socket already closed")
	}
	sck.isClosed = true
	listener := sck.listener
	sck.mu.Unlock()
''','''	sck.mu.RLock()
	listener := sck.listener
	sck.mu.RUnlock()
	sck.mu.Lock()
	if sck.isClosed {
		sck.mu.Unlock()
		return fmt.Errorf("zmq4: socket already closed")
	}
	sck.isClosed = true
	sck.mu.Unlock()
''')
m('C05','bug','remove without listener',S,'if listener != nil && strings.HasPrefix(ep, "ipc://") {','if strings.HasPrefix(ep, "ipc://") {')
m('C05','bug','remove any scheme',S,'''	if listener != nil && strings.HasPrefix(ep, "ipc://") {
		os.Remove(ep[len("ipc://"):])
	}''','''	if i := strings.Index(ep, "://"); listener != nil && i >= 0 {
		os.Remove(ep[i+3:])
	}''')
m('C05','bug','addConn no check',S,'''	if sck.isClosed {
		// Close did not see this connection.
		sck.mu.Unlock()
		c.Close()
		return
	}
	sck.conns''','''	sck.conns''')
m('C05','bug','listen no recheck',S,'if sck.isClosed || sck.listener != nil {','if sck.listener != nil {')
m('C05','bug','dial sets ep',S,'''	sck.startReaper()
	sck.addConn(zconn)
	return nil
}''','''	sck.startReaper()
	sck.addConn(zconn)
	sck.mu.Lock()
	sck.ep = endpoint
	sck.mu.Unlock()
	return nil
}''')
m('C05','bug','skip closed conns',S,'''	for _, conn := range sck.conns {
		e := conn.Close()''','''	for _, conn := range sck.conns[:max(len(sck.conns)-1, 0)] {
		e := conn.Close()''')
m('C05','bug','skip last',S,'''	for _, conn := range sck.conns {
		e := conn.Close()''','''	for i := 1; i < len(sck.conns); i++ {
		conn := sck.conns[i]
		e := conn.Close()''')
m('C05','bug','conn.Close early', 'conn.go','''func (c *Conn) Close() error {
''','''func (c *Conn) Close() error {
	if c.Server && c.Closed() {
		return nil
	}
''')
m('C05','same','copy list',S,'''	sck.mu.RLock()
	var err error
	for _, conn := range sck.conns {
		e := conn.Close()
		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
			err = e
		}
	}

	// Remove the unix socket file if created by net.Listen
	ep := sck.ep
	sck.mu.RUnlock()
''','''	sck.mu.RLock()
	conns := make([]*Conn, len(sck.conns))
	copy(conns, sck.conns)
	ep := sck.ep
	sck.mu.RUnlock()

	var err error
	for i := 0; i < len(conns); i++ {
		if e := conns[i].Close(); e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
			err = e
		}
	}
''')
m('C05','same','helper',S,'''	var err error
	for _, conn := range sck.conns {
		e := conn.Close()
		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
			err = e
		}
	}

	// Rem''','''	err := sck.closeConns()

	// Rem''',S,'''// Send puts the message on the outbound send queue.
// Send blocks until the message can be queued or the send deadline expires.
func (sck *socket) Send(''','''func (sck *socket) closeConns() error {
	var errs []error
	for _, conn := range sck.conns {
		if e := conn.Close(); e != nil && !errors.Is(e, net.ErrClosed) {
			errs = append(errs, e)
		}
	}
	if len(errs) > 0 {
		return errs[0]
	}
	return nil
}

// Send puts the message on the outbound send queue.
func (sck *socket) Send(''')
m('C05','same','trimprefix',S,'os.Remove(ep[len("ipc://"):])','os.Remove(strings.TrimPrefix(ep, "ipc://"))')
m('C05','same','cutprefix',S,'''	if listener != nil && strings.HasPrefix(ep, "ipc://") {
		os.Remove(ep[len("ipc://"):])
	}''','''	if path, ok := strings.CutPrefix(ep, "ipc://"); ok && listener != nil {
		_ = os.Remove(path)
	}''')
m('C05','same','remove helper',S,'''	if listener != nil && strings.HasPrefix(ep, "ipc://") {
		os.Remove(ep[len("ipc://"):])
	}''','''	if listener != nil {
		removeSocketFile(ep)
	}''',S,'',
'''
func removeSocketFile(ep string) {
	const scheme = "ipc://"
	if !strings.HasPrefix(ep, scheme) {
		return
	}
	os.Remove(ep[len(scheme):])
}
''')
m('C05','same','listener close order',S,'''	if listener != nil {
		defer listener.Close()
	}

''','''	if listener != nil {
		listener.Close()
	}

''')
m('C05','same','single critical section',S,'''	sck.isClosed = true
	listener := sck.listener
	sck.mu.Unlock()
''','''	sck.isClosed = true
	listener := sck.listener
	conns := append([]*Conn(nil), sck.conns...)
	sck.mu.Unlock()
''',S,'for _, conn := range sck.conns {\n		e := conn','for _, conn := range conns {\n		e := conn')
m('C05','same','addConn defer',S,'''	if sck.isClosed {
		// Close did not see this connection.
		sck.mu.Unlock()
		c.Close()
		return
	}
	sck.conns = append(sck.conns, c)
''','''	if closed := sck.isClosed; closed {
		sck.mu.Unlock()
		_ = c.Close()
		return
	}
	sck.conns = append(sck.conns, c)
''')
m('C05','same','errgroup',S,'''	var err error
	for _, conn := range sck.conns {
		e := conn.Close()
		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
			err = e
		}
	}

	// Rem''','''	var grp errgroup.Group
	for _, conn := range sck.conns {
		conn := conn
		grp.Go(func() error {
			if e := conn.Close(); e != nil && !errors.Is(e, net.ErrClosed) {
				return e
			}
			return nil
		})
	}
	err := grp.Wait()

	// Rem''',S,'''import (
''','''import (
	"golang.org/x/sync/errgroup"
''')
