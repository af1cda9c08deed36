C='conn.go'
M=[
('C16','bug','write unchecked',[(C,'	n, err := c.rw.Write(p)\n	c.wmu.Unlock()\n	c.checkIO(err)','	n, err := c.rw.Write(p)\n	c.wmu.Unlock()')]),
('C16','bug','cmd unchecked',[(C,'	err = c.send(true, buf, 0)\n	c.wmu.Unlock()\n	c.checkIO(err)','	err = c.send(true, buf, 0)\n	c.wmu.Unlock()')]),
('C16','bug','msg checked in lock',[(C,'	err := c.sendMsg(msg)\n	c.wmu.Unlock()\n	c.checkIO(err)','	err := c.sendMsg(msg)\n	c.checkIO(err)\n	c.wmu.Unlock()')]),
('C16','bug','msg deferred unlock',[(C,'	err := c.sendMsg(msg)\n	c.wmu.Unlock()\n	c.checkIO(err)','	defer c.wmu.Unlock()\n	err := c.sendMsg(msg)\n	c.checkIO(err)')]),
('C16','same','msg unlock in closure',[(C,'	c.wmu.Lock()\n	err := c.sendMsg(msg)\n	c.wmu.Unlock()\n	c.checkIO(err)','	err := func() error {\n		c.wmu.Lock()\n		defer c.wmu.Unlock()\n		return c.sendMsg(msg)\n	}()\n	c.checkIO(err)')]),
('C16','bug','no wrap',[(C,'error sending frame %d/%d: %w"','error sending frame %d/%d: %v"')]),
('C16','bug','long header unchecked',[(C,'''			_, msg.err = io.ReadFull(c.rw, longHdr[1:])
			if msg.err != nil {
				c.checkIO(msg.err)''','''			_, msg.err = io.ReadFull(c.rw, longHdr[1:])
			if msg.err != nil {''')]),
('C16','bug','body unchecked',[(C,'''		if msg.err != nil {
			c.checkIO(msg.err)
			return msg
		}

		// fast''','''		if msg.err != nil {
			return msg
		}

		// fast''')]),
('C16','bug','body EOF wrapped flat',[(C,'	_, err := io.CopyN(&buf, r, int64(size))\n','	_, err := io.CopyN(&buf, r, int64(size))\n	if err != nil {\n		return nil, errors.New("truncated frame: " + err.Error())\n	}\n')]),
('C16','bug','overflow not closed',[(C,'			msg.err = errOverflow\n			c.SetClosed()','			msg.err = errOverflow')]),
('C16','bug','decrypt not closed',[(C,'c.sec.Decrypt(buf, body); msg.err != nil {\n			c.SetClosed()','c.sec.Decrypt(buf, body); msg.err != nil {')]),
('C16','bug','no unexpected eof',[(C,' || errors.Is(err, io.ErrUnexpectedEOF)','')]),
('C16','bug','no closed pipe',[(C,' || errors.Is(err, io.ErrClosedPipe)','')]),
('C16','bug','eof compared',[(C,'errors.Is(err, io.EOF) ||','err == io.EOF && false ||')]),
('C16','bug','net error temporary',[(C,'e != nil && !e.Timeout()','e != nil && !e.Timeout() && !e.Temporary() && errors.Is(err, net.ErrClosed)')]),
('C16','bug','net error direct',[(C,'''	var e net.Error
	if errors.As(err, &e); e != nil && !e.Timeout() {
		conn.SetClosed()
	}''','''	if e, ok := err.(net.Error); ok && !e.Timeout() {
		conn.SetClosed()
	}''')]),
('C16','same','net error as',[(C,'''	var e net.Error
	if errors.As(err, &e); e != nil && !e.Timeout() {
		conn.SetClosed()
	}''','''	var e net.Error
	if !errors.As(err, &e) || e.Timeout() {
		return
	}
	conn.SetClosed()''')]),
('C16','bug','load store',[(C,'''	if wasClosed := atomic.CompareAndSwapInt32(&conn.closed, 0, 1); wasClosed {
''','''	if wasOpen := atomic.LoadInt32(&conn.closed) == 0; wasOpen {
		atomic.StoreInt32(&conn.closed, 1)
''')]),
('C16','same','swap',[(C,'atomic.CompareAndSwapInt32(&conn.closed, 0, 1); wasClosed','atomic.SwapInt32(&conn.closed, 1) == 0; wasClosed')]),
('C16','bug','always notify',[(C,'''	if wasClosed := atomic.CompareAndSwapInt32(&conn.closed, 0, 1); wasClosed {
		conn.notifyOnCloseError()
	}''','''	atomic.CompareAndSwapInt32(&conn.closed, 0, 1)
	conn.notifyOnCloseError()''')]),
('C16','bug','notify when server',[(C,'	if conn.onCloseErrorCB == nil {','	if conn.onCloseErrorCB == nil || conn.Server {')]),
('C16','bug','recv on closed',[(C,'''func (c *Conn) RecvMsg() (Msg, error) {
	if c.Closed() {
		return Msg{}, ErrClosedConn
	}''','''func (c *Conn) RecvMsg() (Msg, error) {''')]),
('C16','bug','cmd on closed nil',[(C,'''func (c *Conn) SendCmd(name string, body []byte) error {
	if c.Closed() {
		return ErrClosedConn
	}''','''func (c *Conn) SendCmd(name string, body []byte) error {
	if c.Closed() {
		return nil
	}''')]),
('C16','bug','stream write unchecked',[(C,'''	c.wmu.Lock()
	err := c.sendMsg(msg)
	c.wmu.Unlock()
	c.checkIO(err)
	return err''','''	c.wmu.Lock()
	err := c.sendMsg(msg)
	c.wmu.Unlock()
	if c.typ != Stream {
		c.checkIO(err)
	}
	return err''')]),
('C16','bug','notify goes on',[(C,'''func (c *Conn) sendStream(msg Msg) error {''','''func (c *Conn) sendStream(msg Msg) error {
	defer c.notifyOnCloseError()''')]),
('C16','bug','notify under mu',[(C,'''	conn.onCloseErrorCB(conn)
''','''	conn.mu.RLock()
	defer conn.mu.RUnlock()
	conn.onCloseErrorCB(conn)
''')]),
('C16','same','go notify',[(C,'''	conn.onCloseErrorCB(conn)
''','''	cb := conn.onCloseErrorCB
	cb(conn)
''')]),
('C16','same','atomic bool',[(C,'	closed         int32\n','	closed         atomic.Bool\n'),(C,'atomic.CompareAndSwapInt32(&conn.closed, 0, 1)','conn.closed.CompareAndSwap(false, true)'),(C,'return atomic.LoadInt32(&conn.closed) == 1','return conn.closed.Load()')]),
('C16','same','checkIO switch',[(C,'''	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.ErrClosedPipe) {
		conn.SetClosed()
		return
	}
''','''	for _, e := range []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe} {
		if errors.Is(err, e) {
			conn.SetClosed()
			return
		}
	}
''')]),
('C16','same','check in send',[(C,'	if _, err := c.rw.Write(body); err != nil {\n		return err\n	}\n\n	return nil','	_, err := c.rw.Write(body)\n	return err')]),
('C16','bug','multi swallow',[(C,'	if _, err := buffers.WriteTo(c.rw); err != nil {\n		return err\n	}','	if n, err := buffers.WriteTo(c.rw); err != nil && n == 0 {\n		return err\n	}')]),
]
