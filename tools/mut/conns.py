M = []
def m(check, kind, name, *ed):
    M.append((check, kind, name, [tuple(ed[i:i+3]) for i in range(0, len(ed), 3)]))
S='socket.go'; N='networking/transport.go'
m('C29','bug','serve no close',S,'''could not open a ZMTP connection with %q: %+v", ep, err)
		conn.Close()''','''could not open a ZMTP connection with %q: %+v", ep, err)''')
m('C29','bug','dial no close',S,'''		conn.Close()
		return fmt.Errorf("zmq4: could not open''','''		return fmt.Errorf("zmq4: could not open''')
m('C29','bug','listen no close',S,'''		l.Close()
		return fmt.Errorf("zmq4: socket closed or''','''		return fmt.Errorf("zmq4: socket closed or''')
m('C29','bug','addconn no close',S,'''		sck.mu.Unlock()
		c.Close()
		return
	}
	sck.conns''','''		sck.mu.Unlock()
		return
	}
	sck.conns''')
m('C29','bug','cond close',S,'''		conn.Close()
		return fmt.Errorf("zmq4: could not open''','''		if sck.ctx.Err() == nil {
			conn.Close()
		}
		return fmt.Errorf("zmq4: could not open''')
m('C29','bug','accept drop',S,'''			// A peer that is slow''','''			if conn.RemoteAddr() == nil {
				continue
			}
			// A peer that is slow''')
m('C29','bug','dealer leak',N,'''		dealer.Close()
		return nil, fmt.Errorf("failed to connect dealer''','''		return nil, fmt.Errorf("failed to connect dealer''')
m('C29','bug','dealer stopped leak',N,'''		dealer.Close()
		return fmt.Errorf("transport stopped''','''		return fmt.Errorf("transport stopped''')
m('C29','bug','dealer order',N,'''	// Subscribe to peer's broadcasts
	subAddr''','''	dealer := zmq4.NewDealer(t.ctx, zmq4.WithID(zmq4.SocketIdentity(t.nodeID)))
	// Subscribe to peer's broadcasts
	subAddr''',N,'''	// Create dealer for direct messages
	dealer := zmq4.NewDealer(t.ctx, zmq4.WithID(zmq4.SocketIdentity(t.nodeID)))
''','')
m('C29','same','open closes',S,'''		conn.Close()
		return fmt.Errorf("zmq4: could not open''','''		return fmt.Errorf("zmq4: could not open''',S,'''could not open a ZMTP connection with %q: %+v", ep, err)
		conn.Close()''','''could not open a ZMTP connection with %q: %+v", ep, err)''','conn.go','''	if err != nil {
		return nil, fmt.Errorf("zmq4: could not initialize''','''	if err != nil {
		rw.Close()
		return nil, fmt.Errorf("zmq4: could not initialize''','conn.go','''	if sec == nil {
		return''','''	if sec == nil {
		rw.Close()
		return''')
m('C29','same','defer',S,'''	stop()
	if err != nil {
		conn.Close()
		return fmt.Errorf("zmq4: could not open''','''	stop()
	handed := false
	defer func() {
		if !handed {
			conn.Close()
		}
	}()
	if err != nil {
		return fmt.Errorf("zmq4: could not open''',S,'''	sck.startReaper()
	sck.addConn(zconn)
	return nil''','''	handed = true
	sck.startReaper()
	sck.addConn(zconn)
	return nil''')
m('C29','same','retry loop',S,'''connect:
	conn, err = trans.Dial(sck.ctx, &sck.dialer, addr)
	if err != nil {
		// retry if retry count is lower than maximum retry count and context has not been canceled
		if (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
			retries++
			select {
			case <-time.After(sck.retry):
			case <-sck.ctx.Done():
			}
			goto connect
		}
		return fmt.Errorf("zmq4: could not dial to %q (retry=%v): %w", endpoint, sck.retry, err)
	}
''','''	for {
		conn, err = trans.Dial(sck.ctx, &sck.dialer, addr)
		if err == nil {
			break
		}
		// retry if retry count is lower than maximum retry count and context has not been canceled
		if sck.maxRetries != -1 && retries >= sck.maxRetries || sck.ctx.Err() != nil {
			return fmt.Errorf("zmq4: could not dial to %q (retry=%v): %w", endpoint, sck.retry, err)
		}
		retries++
		select {
		case <-time.After(sck.retry):
		case <-sck.ctx.Done():
		}
	}
''')
m('C29','same','inline serve',S,'			go sck.serve(conn, ep)','''			go func() {
				sck.serve(conn, ep)
			}()''')
m('C29','same','dial helper',S,'''	// Closing the socket abandons the handshake.
	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, func(c *Conn) {
		sck.scheduleRmConn(c)
		if sck.autoReconnect {
			// The caller may be in the middle of sending or receiving.
			go sck.Dial(endpoint)
		}
	})
	stop()
	if err != nil {
		conn.Close()
		return fmt''','''	zconn, err := sck.shake(conn, false, func(c *Conn) {
		sck.scheduleRmConn(c)
		if sck.autoReconnect {
			// The caller may be in the middle of sending or receiving.
			go sck.Dial(endpoint)
		}
	})
	if err != nil {
		return fmt''',S,'''func (sck *socket) addConn(''','''func (sck *socket) shake(conn net.Conn, server bool, cb func(*Conn)) (*Conn, error) {
	// Closing the socket abandons the handshake.
	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
	defer stop()
	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, server, cb)
	if err != nil {
		conn.Close()
	}
	return zconn, err
}

func (sck *socket) addConn(''')
