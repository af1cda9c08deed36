C='internal/inproc/conn.go'; I='internal/inproc/inproc.go'
BUF='	buf := append([]byte(nil), data...)\n'
EOFS='''		case <-c.remoteDone:
			// what the peer wrote before it closed is still to be read.
			select {
			case c.rbuf = <-c.r:
			default:
				return 0, io.EOF
			}
'''
CP='''	nr := copy(data, c.rbuf)
	c.rbuf = c.rbuf[nr:]
	return nr, nil
'''
W1='''	case isClosedChan(c.localDone):
		return 0, io.ErrClosedPipe
	case isClosedChan(c.remoteDone):
		return 0, io.ErrClosedPipe
	case isClosedChan(c.wdeadline.wait()):
'''
CLOSE='''	var err error
	for i := range l.pipes {
		p := l.pipes[i]
		e := p.Close()
		if e != nil && err == nil {
			err = e
		}
	}
	l.pipes = nil
'''
ACC='''	for len(l.pipes) == 0 && !l.closed {
		mgr.cv.Wait()
	}
	if l.closed {
		return nil, ErrClosed
	}
	p := l.pipes[0]
	l.pipes = l.pipes[1:]
	return p.p1, nil
'''
M=[
 ('C25','bug','buffer shared',[(C,BUF,'	buf := data\n')]),
 ('C25','bug','EOF at once',[(C,EOFS,'		case <-c.remoteDone:\n			return 0, io.EOF\n')]),
 ('C25','bug','EOF before what is left',[(C,'''	case isClosedChan(c.rdeadline.wait()):
		return 0, timeoutError{}
	}

	if len''','''	case isClosedChan(c.rdeadline.wait()):
		return 0, timeoutError{}
	case isClosedChan(c.remoteDone):
		return 0, io.EOF
	}

	if len''')]),
 ('C25','bug','rest dropped',[(C,CP,'	nr := copy(data, c.rbuf)\n	c.rbuf = nil\n	return nr, nil\n')]),
 ('C25','bug','rest kept whole',[(C,CP,'	nr := copy(data, c.rbuf)\n	if nr == len(c.rbuf) {\n		c.rbuf = nil\n	}\n	return nr, nil\n')]),
 ('C25','bug','count of what is there',[(C,CP,'	nr := len(c.rbuf)\n	copy(data, c.rbuf)\n	c.rbuf = c.rbuf[min(nr, len(data)):]\n	return nr, nil\n')]),
 ('C25','bug','rest overtaken',[(C,'	if len(c.rbuf) == 0 {\n		select {','	if len(c.rbuf) <= 1 {\n		select {')]),
 ('C25','bug','closed end not noticed by a waiting Read',[(C,'''		case c.rbuf = <-c.r:
		case <-c.localDone:
			return 0, io.ErrClosedPipe
''','''		case c.rbuf = <-c.r:
''')]),
 ('C25','bug','deadline not noticed by a waiting Read',[(C,'''			return 0, io.ErrClosedPipe
		case <-c.rdeadline.wait():
			return 0, timeoutError{}
		case <-c.remoteDone:''','''			return 0, io.ErrClosedPipe
		case <-c.remoteDone:''')]),
 ('C25','bug','write deadline for reads',[(C,'		case <-c.rdeadline.wait():\n','		case <-c.wdeadline.wait():\n')]),
 ('C25','bug','remote close not noticed by Write',[(C,'''	case <-c.remoteDone:
		return n, io.ErrClosedPipe
''','')]),
 ('C25','bug','local close not noticed by Write',[(C,'''	case <-c.localDone:
		return n, io.ErrClosedPipe
	case <-c.remoteDone:
		return n''','''	case <-c.remoteDone:
		return n''')]),
 ('C25','bug','write after close',[(C,W1,W1.replace('''	case isClosedChan(c.localDone):
		return 0, io.ErrClosedPipe
''',''))]),
 ('C25','bug','write to a closed peer',[(C,W1,W1.replace('''	case isClosedChan(c.remoteDone):
		return 0, io.ErrClosedPipe
''',''))]),
 ('C25','bug','double close',[(C,'''	c.once.Do(func() {
		close(c.localDone)
	})
''','	close(c.localDone)\n')]),
 ('C25','bug','check then close',[(C,'''	c.once.Do(func() {
		close(c.localDone)
	})
''','''	if isClosedChan(c.localDone) {
		return io.ErrClosedPipe
	}
	c.once.Do(func() { close(c.localDone) })
''')]),
 ('C25','bug','close both',[(C,'	localDone  chan struct{}\n	remoteDone <-chan struct{}','	localDone  chan struct{}\n	remoteDone chan struct{}'),(C,'''		close(c.localDone)
''','''		close(c.localDone)
		if !isClosedChan(c.remoteDone) {
			close(c.remoteDone)
		}
''')]),
 ('C25','bug','done channels swapped',[(I,'		localDone:  done2,\n		remoteDone: done1,','		localDone:  done1,\n		remoteDone: done2,')]),
 ('C25','bug','one channel for both',[(I,'		r:          ch2,\n		w:          ch1,','		r:          ch1,\n		w:          ch1,')]),
 ('C25','bug','deadline never taken back',[(C,'''	if t.IsZero() {
		if closed {
			d.cancel = make(chan struct{})
		}
		return''','''	if t.IsZero() {
		return''')]),
 ('C25','bug','deadline not renewed',[(C,'''	if dur := time.Until(t); dur > 0 {
		if closed {
			d.cancel = make(chan struct{})
		}
''','''	if dur := time.Until(t); dur > 0 {
''')]),
 ('C25','bug','timer not stopped',[(C,'''	if d.timer != nil && !d.timer.Stop() {
		<-d.cancel // Wait for the timer callback to finish and close cancel
	}
	d.timer = nil
''','	d.timer = nil\n')]),
 ('C25','bug','past deadline ignored',[(C,'''	if !closed {
		close(d.cancel)
	}
''','	_ = closed\n')]),
 ('C25','bug','past deadline closes twice',[(C,'''	if !closed {
		close(d.cancel)
	}
''','	close(d.cancel)\n')]),
 ('C25','bug','timer closes a channel of its own',[(C,'			close(d.cancel)\n		})','			close(make(chan struct{}))\n		})')]),
 ('C25','bug','read deadline sets both',[(C,'''	c.rdeadline.set(t)
	return nil
}

func (c *conn) SetWrite''','''	c.rdeadline.set(t)
	c.wdeadline.set(t)
	return nil
}

func (c *conn) SetWrite''')]),
 ('C25','bug','deadline sets reads alone',[(C,'	c.rdeadline.set(t)\n	c.wdeadline.set(t)\n','	c.rdeadline.set(t)\n')]),
 ('C25','bug','new cancel while waiting',[(C,'''	if dur := time.Until(t); dur > 0 {
		if closed {
			d''','''	if dur := time.Until(t); dur > 0 {
		if closed || true {
			d''')]),
 ('C25','bug','long writes cut',[(C,BUF,BUF+'	if len(buf) > 65536 {\n		buf = buf[:65536]\n	}\n')]),
 ('C25','same','copy of the buffer',[(C,BUF,'	buf := make([]byte, len(data))\n	copy(buf, data)\n')]),
 ('C25','same','read in helper',[(C,CP,'''	return c.take(data), nil
'''),(C,'','''
func (c *conn) take(data []byte) int {
	n := copy(data, c.rbuf)
	c.rbuf = c.rbuf[n:]
	return n
}
''')]),
 ('C25','same','once replaced by a lock',[(C,'''	c.once.Do(func() {
		close(c.localDone)
	})
''','''	c.rmuClose.Lock()
	defer c.rmuClose.Unlock()
	if !isClosedChan(c.localDone) {
		close(c.localDone)
	}
'''),(C,'	rmu  sync.Mutex\n','	rmu  sync.Mutex\n	rmuClose sync.Mutex\n')]),
 ('C25','same','ifs in write',[(C,'''	switch {
	case isClosedChan(c.localDone):
		return 0, io.ErrClosedPipe
	case isClosedChan(c.remoteDone):
		return 0, io.ErrClosedPipe
	case isClosedChan(c.wdeadline.wait()):
		return 0, timeoutError{}
	}
''','''	if isClosedChan(c.localDone) || isClosedChan(c.remoteDone) {
		return 0, io.ErrClosedPipe
	}
	if isClosedChan(c.wdeadline.wait()) {
		return 0, timeoutError{}
	}
''')]),
 ('C25','same','now before the deadline',[(C,'	if dur := time.Until(t); dur > 0 {','	if dur := t.Sub(time.Now()); dur > 0 {')]),
 ('C25','same','pipe in helper',[(I,'''		rdeadline:  makePipeDeadline(),
		wdeadline:  makePipeDeadline(),
	}
	p2''','''	}
	p1.rdeadline, p1.wdeadline = makePipeDeadline(), makePipeDeadline()
	p2''')]),
 ('C25','same','read loop',[(C,CP,'''	nr := 0
	for nr < len(data) && nr < len(c.rbuf) {
		data[nr] = c.rbuf[nr]
		nr++
	}
	c.rbuf = c.rbuf[nr:]
	return nr, nil
''')]),
 ('C26','bug','second listener replaces the first',[(I,'''	if dup {
		mgr.mu.Unlock()
		return nil, fmt.Errorf("inproc: address %q already in use", addr)
	}
''','	_ = dup\n	_ = fmt.Errorf\n')]),
 ('C26','bug','checked before the lock',[(I,'''	mgr.mu.Lock()
	_, dup := mgr.db[addr]
	if dup {''','''	mgr.mu.Lock()
	_, dup := mgr.db[addr]
	mgr.mu.Unlock()
	mgr.mu.Lock()
	if dup {''')]),
 ('C26','bug','newest first',[(I,'''	p := l.pipes[0]
	l.pipes = l.pipes[1:]
''','''	p := l.pipes[len(l.pipes)-1]
	l.pipes = l.pipes[:len(l.pipes)-1]
''')]),
 ('C26','bug','not removed',[(I,'	l.pipes = l.pipes[1:]\n','')]),
 ('C26','bug','all removed',[(I,'	l.pipes = l.pipes[1:]\n','	l.pipes = nil\n')]),
 ('C26','bug','only one pending',[(I,'	l.pipes = append(l.pipes, p)\n','	l.pipes = []*pipe{p}\n')]),
 ('C26','bug','pending not closed',[(I,CLOSE,'	var err error\n	l.pipes = nil\n')]),
 ('C26','bug','first pending closed only',[(I,CLOSE,CLOSE.replace('		e := p.Close()','		if i > 0 {\n			break\n		}\n		e := p.Close()'))]),
 ('C26','bug','pending closed at the wrong end',[(I,'		e := p.Close()\n','		e := p.p2.once, error(nil)\n')]),
 ('C26','bug','closed accept gets pending',[(I,CLOSE,'	var err error\n'),(I,'	if l.closed {\n		return nil, ErrClosed','	if l.closed && len(l.pipes) == 0 {\n		return nil, ErrClosed')]),
 ('C26','bug','address not freed',[(I,'	delete(mgr.db, string(l.addr))\n','')]),
 ('C26','bug','address freed twice',[(I,'''	if l.closed {
		return nil
	}
	var err''','''	var err''')]),
 ('C26','bug','accept not woken by close',[(I,'''	delete(mgr.db, string(l.addr))
	mgr.cv.Broadcast()
''','''	delete(mgr.db, string(l.addr))
''')]),
 ('C26','bug','accept not woken by dial',[(I,'''	l.pipes = append(l.pipes, p)
	mgr.cv.Broadcast()
''','''	l.pipes = append(l.pipes, p)
''')]),
 ('C26','bug','dial wakes any',[(I,'''	l.pipes = append(l.pipes, p)
	mgr.cv.Broadcast()
''','''	l.pipes = append(l.pipes, p)
	mgr.cv.Signal()
''')]),
 ('C26','bug','close wakes any',[(I,'''	delete(mgr.db, string(l.addr))
	mgr.cv.Broadcast()
''','''	delete(mgr.db, string(l.addr))
	mgr.cv.Signal()
''')]),
 ('C26','bug','accept does not look again',[(I,'	for len(l.pipes) == 0 && !l.closed {\n		mgr.cv.Wait()\n	}\n	if l.closed {','	if len(l.pipes) == 0 {\n		mgr.cv.Wait()\n	}\n	if l.closed || len(l.pipes) == 0 {')]),
 ('C26','bug','dial without the lock',[(I,'''	p := newPipe(l.addr)
	l.pipes = append''','''	mgr.mu.Unlock()
	p := newPipe(l.addr)
	mgr.mu.Lock()
	l.pipes = append''')]),
 ('C26','bug','dial returns the accepted end',[(I,'	return p.p2, nil','	return p.p1, nil')]),
 ('C26','bug','dial creates a listener',[(I,'''	if !ok || l == nil {
		return nil, ErrConnRefused
	}
''','''	if !ok || l == nil {
		l = &Listener{addr: Addr(addr)}
		mgr.db[addr] = l
	}
''')]),
 ('C26','bug','closed flag not set',[(I,'	l.closed = true\n','')]),
 ('C26','bug','accept lets the lock go',[(I,'''	p := l.pipes[0]
	l.pipes = l.pipes[1:]
''','''	p := l.pipes[0]
	mgr.mu.Unlock()
	mgr.mu.Lock()
	l.pipes = l.pipes[1:]
''')]),
 ('C26','bug','one queue for all',[(I,'	l, ok := mgr.db[addr]\n','	l, ok := mgr.db[addr]\n	for _, o := range mgr.db {\n		if ok {\n			l = o\n		}\n	}\n')]),
 ('C26','same','lookup helper',[(I,'''	l, ok := mgr.db[addr]
	if !ok || l == nil {''','''	l := lookup(addr)
	if l == nil {'''),(I,'','\nfunc lookup(addr string) *Listener { return mgr.db[addr] }\n')]),
 ('C26','same','deferred unlock in Listen',[(I,'''	mgr.mu.Lock()
	_, dup := mgr.db[addr]
	if dup {
		mgr.mu.Unlock()
''','''	mgr.mu.Lock()
	defer mgr.mu.Unlock()
	if _, dup := mgr.db[addr]; dup {
'''),(I,'''	mgr.cv.Broadcast()
	mgr.mu.Unlock()

	return l, nil''','''	mgr.cv.Broadcast()
	return l, nil''')]),
 ('C26','same','no broadcast in Listen',[(I,'''	mgr.cv.Broadcast()
	mgr.mu.Unlock()

	return l, nil''','''	mgr.mu.Unlock()

	return l, nil''')]),
 ('C26','same','accept with a loop and a switch',[(I,ACC,'''	for {
		switch {
		case l.closed:
			return nil, ErrClosed
		case len(l.pipes) > 0:
			p := l.pipes[0]
			l.pipes = append([]*pipe(nil), l.pipes[1:]...)
			return p.p1, nil
		}
		mgr.cv.Wait()
	}
''')]),
 ('C26','same','condition per listener',[(I,'	pipes  []*pipe\n	closed bool\n','	pipes  []*pipe\n	closed bool\n	cv     *sync.Cond\n'),(I,'		addr: Addr(addr),\n','		addr: Addr(addr),\n		cv:   sync.NewCond(&mgr.mu),\n'),(I,'		mgr.cv.Wait()','		l.cv.Wait()'),(I,'''	l.pipes = append(l.pipes, p)
	mgr.cv.Broadcast()
''','''	l.pipes = append(l.pipes, p)
	l.cv.Signal()
'''),(I,'''	delete(mgr.db, string(l.addr))
	mgr.cv.Broadcast()
''','''	delete(mgr.db, string(l.addr))
	l.cv.Broadcast()
''')]),
 ('C26','same','close loop',[(I,CLOSE,'''	var err error
	for _, p := range l.pipes {
		if e := p.Close(); e != nil {
			err = e
		}
	}
	l.pipes = l.pipes[:0]
''')]),
]
M=[m for m in M if m[2]!='pending closed at the wrong end']
