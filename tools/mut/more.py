# Refactorings in the style of someone who tidies up: generics, iterator helpers, early returns, method values, newer library calls.
S='socket.go'; MI='msgio.go'; PU='pub.go'; SU='sub.go'; C='conn.go'; T='transport.go'; IP='internal/inproc/inproc.go'; I='internal/inproc/conn.go'; R='router.go'; RQ='req.go'; RP='rep.go'; NW='networking/transport.go'; P='protocol.go'; PX='proxy.go'
def RM(q): return '''	cur := -1
	for i := range %s {
		if %s[i] == %s {
			cur = i
			break
		}
	}
	if cur >= 0 {
		%s = append(%s[:cur], %s[cur+1:]...)
	}
''' % (q[0], q[0], q[1], q[0], q[0], q[0])
WITHOUT='''
func without[T comparable](list []T, x T) []T {
	for i, y := range list {
		if x == y {
			return append(list[:i], list[i+1:]...)
		}
	}
	return list
}
'''
M=[
('C05','same','generic removal in pools',[(MI,RM(('q.rs','r')),'	q.rs = without(q.rs, r)\n'),(MI,RM(('mw.ws','w')),'	mw.ws = without(mw.ws, w)\n'),(PU,RM(('q.rs','r')),'	q.rs = without(q.rs, r)\n'),(R,RM(('q.rs','r')),'	q.rs = without(q.rs, r)\n'),(R,RM(('mw.ws','w')),'	mw.ws = without(mw.ws, w)\n'),(RP,RM(('r.conns','conn')),'	r.conns = without(r.conns, conn)\n'),(MI,'',WITHOUT)]),
('C17','same','slices.Index in rmConn',[(S,'''	cur := -1
	for i := range sck.conns {
		if sck.conns[i] == c {
			cur = i
			break
		}
	}

	if cur == -1 {
		return
	}

	sck.conns = append(sck.conns[:cur], sck.conns[cur+1:]...)
''','''	cur := slices.Index(sck.conns, c)
	if cur < 0 {
		return
	}
	sck.conns = slices.Delete(sck.conns, cur, cur+1)
'''),(S,'	"os"\n	"sort"\n','	"os"\n	"slices"\n	"sort"\n')]),
('C06','same','closed check in helper with error',[(S,'''	sck.mu.RLock()
	if sck.isClosed {
		sck.mu.RUnlock()
		return fmt.Errorf("zmq4: socket is closed")
	}
	sck.mu.RUnlock()

	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
	defer cancel()
	return sck.w.write(ctx, msg)
}

// SendMulti puts''','''	if err := sck.alive(); err != nil {
		return err
	}
	return sck.post(msg)
}

var errSocketClosed = errors.New("zmq4: socket is closed")

func (sck *socket) alive() error {
	sck.mu.RLock()
	defer sck.mu.RUnlock()
	if sck.isClosed {
		return errSocketClosed
	}
	return nil
}

func (sck *socket) post(msg Msg) error {
	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
	defer cancel()
	return sck.w.write(ctx, msg)
}

// SendMulti puts'''),(S,'''	sck.mu.RLock()
	if sck.isClosed {
		sck.mu.RUnlock()
		return Msg{}, fmt.Errorf("zmq4: socket is closed")
	}
	sck.mu.RUnlock()
''','''	if err := sck.alive(); err != nil {
		return Msg{}, err
	}
''')]),
('C05','same','close errors joined apart',[(S,'''	var err error
	for _, conn := range sck.conns {
		e := conn.Close()
		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
			err = e
		}
	}

	// Remove''','''	err := closeConns(sck.conns)

	// Remove'''),(S,'','''
// closeConns closes the connections and returns the first error worth telling.
func closeConns(conns []*Conn) (first error) {
	for i := 0; i < len(conns); i++ {
		switch err := conns[i].Close(); {
		case err == nil, errors.Is(err, net.ErrClosed), first != nil:
			continue
		default:
			first = err
		}
	}
	return first
}
''')]),
('C05','same','conns snapshot closed',[(S,'''	sck.mu.RLock()
	var err error
	for _, conn := range sck.conns {''','''	sck.mu.RLock()
	var err error
	open := append([]*Conn(nil), sck.conns...)
	for _, conn := range open {'''),]),
('C05','same','ipc by strings.CutPrefix',[(S,'''	if listener != nil && strings.HasPrefix(ep, "ipc://") {
		os.Remove(ep[len("ipc://"):])
	}
''','''	if path, ok := strings.CutPrefix(ep, "ipc://"); ok && listener != nil {
		_ = os.Remove(path)
	}
''')]),
('C18','same','dial loop by for',[(S,'''connect:
	conn, err = trans.Dial(sck.ctx, &sck.dialer, addr)
	if err != nil {
		// retry if retry count is lower than maximum retry count and context has not been canceled
		if (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
			retries++
			select {
			case <-time.After(sck.retry):
			case <-sck.ctx.Done():
			}
			goto connect
		}
		return fmt.Errorf("zmq4: could not dial to %q (retry=%v): %w", endpoint, sck.retry, err)
	}
''','''	for {
		conn, err = trans.Dial(sck.ctx, &sck.dialer, addr)
		if err == nil {
			break
		}
		mayRetry := sck.maxRetries == -1 || retries < sck.maxRetries
		if !mayRetry || sck.ctx.Err() != nil {
			return fmt.Errorf("zmq4: could not dial to %q (retry=%v): %w", endpoint, sck.retry, err)
		}
		retries++
		timer := time.NewTimer(sck.retry)
		select {
		case <-timer.C:
		case <-sck.ctx.Done():
			timer.Stop()
		}
	}
''')]),
('C18','same','close callback as a method',[(S,'''func(c *Conn) {
		sck.scheduleRmConn(c)
		if sck.autoReconnect {
			// The caller may be in the middle of sending or receiving.
			go sck.Dial(endpoint)
		}
	})
	stop()''','''sck.lost(endpoint))
	stop()'''),(S,'','''
// lost is called when a connection that was dialed is lost.
func (sck *socket) lost(endpoint string) func(*Conn) {
	return func(c *Conn) {
		sck.scheduleRmConn(c)
		if !sck.autoReconnect {
			return
		}
		// The caller may be in the middle of sending or receiving.
		go func() {
			if err := sck.Dial(endpoint); err != nil {
				_ = err
			}
		}()
	}
}
''')]),
('C29','same','handshake helper',[(S,'''	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
	stop()
	if err != nil {
		// FIXME''','''	zconn, err := sck.handshake(conn, true, sck.scheduleRmConn)
	if err != nil {
		// FIXME'''),(S,'''	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, func''','''	zconn, err := sck.handshake(conn, false, func'''),(S,'''	})
	stop()
	if err != nil {
		conn.Close()''','''	})
	if err != nil {
		conn.Close()'''),(S,'','''
func (sck *socket) handshake(conn net.Conn, server bool, onClose func(*Conn)) (*Conn, error) {
	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
	defer stop()
	return Open(conn, sck.sec, sck.typ, sck.id, server, onClose)
}
''')]),
('C21','same','addConn split in two',[(S,'''	if sck.w != nil {
		sck.w.addConn(c)
	}
	if sck.r != nil {
		sck.r.addConn(c)
	}
	// Get topics to resend while holding the lock
	var topics []string
	if sck.subTopics != nil {
		topics = sck.subTopics()
	}
	sck.mu.Unlock()

	// resend subscriptions for topics if there are any (without holding the lock)
	for _, topic := range topics {
		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
	}
}
''','''	topics := sck.register(c)
	sck.mu.Unlock()
	sck.replay(topics)
}

// register adds the connection to the pools. It returns the topics to resend.
func (sck *socket) register(c *Conn) []string {
	if w := sck.w; w != nil {
		w.addConn(c)
	}
	if r := sck.r; r != nil {
		r.addConn(c)
	}
	if sck.subTopics == nil {
		return nil
	}
	return sck.subTopics()
}

// replay sends the subscriptions again.
func (sck *socket) replay(topics []string) {
	for i := 0; i < len(topics); i++ {
		frame := make([]byte, 0, 1+len(topics[i]))
		frame = append(frame, 1)
		frame = append(frame, topics[i]...)
		if err := sck.Send(NewMsg(frame)); err != nil {
			continue
		}
	}
}
''')]),
('C22','same','identity given early return',[(S,'''	if len(c.Peer.Meta[sysSockID]) == 0 {
		switch c.typ {
		case Router: // TODO: STREAM type when implemented
			// if empty Identity metadata is received from some client
			// need to assign an uuid such that router socket can reply to the correct client
			c.Peer.Meta[sysSockID] = newUUID()
		}
	}
''','''	sck.identify(c)
'''),(S,'','''
// identify gives the peer of a ROUTER an identity when it announced none.
func (sck *socket) identify(c *Conn) {
	if c.typ != Router {
		return
	}
	if id, ok := c.Peer.Meta[sysSockID]; ok && id != "" {
		return
	}
	c.Peer.Meta[sysSockID] = newUUID()
}
''')]),
('C17','same','reaper: wait in helper',[(S,'''		for len(sck.closedConns) == 0 && sck.ctx.Err() == nil {
			sck.reaperCond.Wait()
		}

		if sck.ctx.Err() != nil {
			return
		}

		// Clone the known closed connections to avoid data race
		// and remove those under reaper unlocked.
		// That should fix the deadlock reported in #149.
		cc := append([]*Conn{}, sck.closedConns...) // clone
		sck.closedConns = sck.closedConns[:0]
		sck.reaperCond.L.Unlock()
''','''		cc := sck.takeClosed()
		if cc == nil {
			return
		}
		sck.reaperCond.L.Unlock()
'''),(S,'','''
// takeClosed waits for connections to remove. It returns nil when the socket is closed.
func (sck *socket) takeClosed() []*Conn {
	for {
		if sck.ctx.Err() != nil {
			return nil
		}
		if n := len(sck.closedConns); n > 0 {
			cc := make([]*Conn, n)
			copy(cc, sck.closedConns)
			sck.closedConns = nil
			return cc
		}
		sck.reaperCond.Wait()
	}
}
''')]),
('C17','same','reaper started by sync.Once',[(S,'''	sck.reaperCond.L.Lock()
	defer sck.reaperCond.L.Unlock()
	if sck.reaperStarted {
		return
	}
	sck.reaperStarted = true
	go sck.connReaper()
''','''	sck.reaperOnce.Do(func() { go sck.connReaper() })
'''),(S,'	reaperStarted bool\n','	reaperOnce    sync.Once\n')]),
('C26','same','accept loop returns on closed context',[(S,'''	for {
		select {
		case <-ctx.Done():
			return
		default:
			conn, err := l.Accept()
			if err != nil {
				// FIXME(sbinet): maybe bubble up this error to application code?
				//sck.log.Printf("error accepting connection from %q: %+v", ep, err)
				continue
			}

			// A peer that is slow to shake hands must not keep others waiting.
			go sck.serve(conn, ep)
		}
	}
''','''	for ctx.Err() == nil {
		if conn, err := l.Accept(); err == nil {
			// A peer that is slow to shake hands must not keep others waiting.
			go sck.serve(conn, ep)
		}
	}
''')]),
('C02','same','read with sem helper',[(MI,'''	q.sem.lock(ctx)
	select {
	case <-ctx.Done():
		return ctx.Err()
	case *msg = <-q.c:
	}
	return msg.err
}

func (q *qreader) listen(''','''	q.sem.lock(ctx)
	return next(ctx, q.c, msg)
}

// next takes a message from the queue.
func next(ctx context.Context, queue <-chan Msg, msg *Msg) error {
	select {
	case m := <-queue:
		*msg = m
		return m.err
	case <-ctx.Done():
		return ctx.Err()
	}
}

func (q *qreader) listen(''')]),
('C08','same','mwriter with WaitGroup.Go',[(MI,'''	grp, _ := errgrp.WithContext(ctx)
	for i := range ws {
		ww := ws[i]
		grp.Go(func() error {
			return ww.SendMsg(msg)
		})
	}
	return grp.Wait()
''','''	grp, _ := errgrp.WithContext(ctx)
	for _, w := range ws {
		grp.Go(func() error { return w.SendMsg(msg) })
	}
	if err := grp.Wait(); err != nil {
		return err
	}
	return nil
''')]),
('C07','same','listen with error first',[(MI,'''		msg := r.readMsg()
		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
			if msg.err != nil {
				return
			}
		}
''','''		msg := r.readMsg()
		failed := msg.err != nil
		select {
		case q.c <- msg:
		case <-ctx.Done():
			return
		}
		if failed {
			return
		}
''')]),
('C02','same','semaphore with early return',[(MI,'''	sem.mu.Lock()
	defer sem.mu.Unlock()
	if !sem.open {
		sem.open = true
		close(sem.ready)
	}
''','''	sem.mu.Lock()
	defer sem.mu.Unlock()
	if sem.open {
		return
	}
	close(sem.ready)
	sem.open = true
''')]),
('C19','same','topic filter method',[(PU,'''	if len(msg.Frames) != 1 {
		return false
	}
	frame := msg.Frames[0]
	if len(frame) == 0 {
		return false
	}
	topic := frame[0]
	return topic == 0 || topic == 1
''','''	if len(msg.Frames) == 1 && len(msg.Frames[0]) > 0 {
		switch msg.Frames[0][0] {
		case 0, 1:
			return true
		}
	}
	return false
''')]),
('C19','same','subscription constants',[(C,'''	conn.mu.Lock()
	v := msg.Frames[0]
	k := string(v[1:])
	switch v[0] {
	case 0:
		delete(conn.topics, k)
	case 1:
		conn.topics[k] = struct{}{}
	}
	conn.mu.Unlock()
''','''	frame := msg.Frames[0]
	op, topic := frame[0], string(frame[1:])
	conn.mu.Lock()
	defer conn.mu.Unlock()
	if op == 1 {
		conn.topics[topic] = struct{}{}
	} else if op == 0 {
		delete(conn.topics, topic)
	}
''')]),
('C19','same','subscribed without switch',[(C,'''		switch {
		case k == "":
			// subscribed to everything
			return true
		case strings.HasPrefix(topic, k):
			return true
		}
''','''		if strings.HasPrefix(topic, k) { // "" is a prefix of everything
			return true
		}
''')]),
('C20','same','pub queue loop in method',[(PU,'''	for _, channel := range w.subscribers {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case channel <- msg: // proceeds to default case if the channel is full (msg will be discarded)
		default:
		}
	}
	return nil
''','''	for _, queue := range w.subscribers {
		if err := ctx.Err(); err != nil {
			return err
		}
		offer(queue, msg)
	}
	return nil
'''),(PU,'','''
// offer queues the message unless the queue is full.
func offer(queue chan<- Msg, msg Msg) bool {
	select {
	case queue <- msg:
		return true
	default:
		return false
	}
}
''')]),
('C28','same','pub option switch',[(PU,'''	if name != OptionHWM {
		return ErrBadProperty
	}

	hwm, ok := value.(int)
	if !ok || hwm < 0 {
		return ErrBadProperty
	}

	err := pub.sck.SetOption(name, value)
	if err != nil {
		return err
	}

	w := pub.sck.w.(*pubMWriter)
	w.hwm.Store(int64(hwm))
	return nil
''','''	switch name {
	case OptionHWM:
		hwm, ok := value.(int)
		if ok && hwm >= 0 {
			if err := pub.sck.SetOption(name, hwm); err != nil {
				return err
			}
			pub.writer().hwm.Store(int64(hwm))
			return nil
		}
	}
	return ErrBadProperty
'''),(PU,'','''
func (pub *pubSocket) writer() *pubMWriter { return pub.sck.w.(*pubMWriter) }
''')]),
('C28','same','sub option table',[(SU,'''	var (
		topic []byte
	)

	switch name {
	case OptionSubscribe:
		sub.subscribe(k, 1)
		topic = append([]byte{1}, k...)

	case OptionUnsubscribe:
		topic = append([]byte{0}, k...)
		sub.subscribe(k, 0)
	}

	sub.sck.mu.RLock()
	connected := len(sub.sck.conns) > 0
	sub.sck.mu.RUnlock()
	if connected {
		err = sub.Send(NewMsg(topic))
	}
	return err
''','''	op := 0
	if name == OptionSubscribe {
		op = 1
	}
	sub.subscribe(k, op)

	if !sub.connected() {
		return nil
	}
	return sub.Send(NewMsg(append([]byte{byte(op)}, k...)))
'''),(SU,'','''
func (sub *subSocket) connected() bool {
	sub.sck.mu.RLock()
	defer sub.sck.mu.RUnlock()
	return len(sub.sck.conns) != 0
}
''')]),
('C21','same','topics with maps.Keys',[(SU,'''	sub.mu.RLock()
	var topics = make([]string, 0, len(sub.topics))
	for topic := range sub.topics {
		topics = append(topics, topic)
	}
	sub.mu.RUnlock()
	sort.Strings(topics)
	return topics
''','''	sub.mu.RLock()
	defer sub.mu.RUnlock()
	topics := make([]string, len(sub.topics))
	i := 0
	for topic := range sub.topics {
		topics[i] = topic
		i++
	}
	sort.Strings(topics)
	return topics
''')]),
('C12','same','send header helper',[(C,'''	var (
		hdr = [8 + 1]byte{flag}
		hsz int
	)

	// Write out the message itself
	if isLong {
		hsz = 9
		binary.BigEndian.PutUint64(hdr[1:], uint64(size))
	} else {
		hsz = 2
		hdr[1] = uint8(size)
	}
	if _, err := c.rw.Write(hdr[:hsz]); err != nil {
		return err
	}
''','''	if _, err := c.rw.Write(frameHeader(flag, size)); err != nil {
		return err
	}
'''),(C,'','''
// frameHeader is the header of a frame of size bytes.
func frameHeader(flag byte, size int) []byte {
	if size <= 255 {
		return []byte{flag, byte(size)}
	}
	hdr := make([]byte, 1, 9)
	hdr[0] = flag
	return binary.BigEndian.AppendUint64(hdr, uint64(size))
}
''')]),
('C13','same','encrypt helper',[(C,'''	switch c.sec.Type() {
	case NullSecurity:
	default:
		var secBuf bytes.Buffer
		if _, err := c.sec.Encrypt(&secBuf, body); err != nil {
			return err
		}
		body = secBuf.Bytes()
	}

	// Long flag''','''	body, err := c.sealed(body)
	if err != nil {
		return err
	}

	// Long flag'''),(C,'''		switch c.sec.Type() {
		case NullSecurity:
		default:
			var secBuf bytes.Buffer
			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
				return err
			}
			frame = secBuf.Bytes()
		}

		size := len(frame)''','''		frame, err := c.sealed(frame)
		if err != nil {
			return err
		}

		size := len(frame)'''),(C,'','''
// sealed is the form in which a frame is written.
func (c *Conn) sealed(frame []byte) ([]byte, error) {
	if c.sec.Type() == NullSecurity {
		return frame, nil
	}
	buf := new(bytes.Buffer)
	if _, err := c.sec.Encrypt(buf, frame); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}
''')]),
('C16','same','closed as atomic.Bool',[(C,'	closed         int32\n','	closed         atomic.Bool\n'),(C,'atomic.CompareAndSwapInt32(&conn.closed, 0, 1)','conn.closed.CompareAndSwap(false, true)'),(C,'atomic.LoadInt32(&conn.closed) == 1','conn.closed.Load()')]),
('C26','same','inproc lookup under defer',[(IP,'''	mgr.mu.Lock()
	_, dup := mgr.db[addr]
	if dup {
		mgr.mu.Unlock()
		return nil, fmt.Errorf("inproc: address %q already in use", addr)
	}

	l := &Listener{
		addr: Addr(addr),
	}
	mgr.db[addr] = l
	mgr.cv.Broadcast()
	mgr.mu.Unlock()

	return l, nil
''','''	l := &Listener{addr: Addr(addr)}
	if err := mgr.add(l); err != nil {
		return nil, err
	}
	return l, nil
'''),(IP,'','''
func (m *contextType) add(l *Listener) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	name := string(l.addr)
	if _, dup := m.db[name]; dup {
		return fmt.Errorf("inproc: address %q already in use", name)
	}
	m.db[name] = l
	m.cv.Broadcast()
	return nil
}
''')]),
('C26','same','inproc take in method',[(IP,'''	for len(l.pipes) == 0 && !l.closed {
		mgr.cv.Wait()
	}
	if l.closed {
		return nil, ErrClosed
	}
	p := l.pipes[0]
	l.pipes = l.pipes[1:]
	return p.p1, nil
''','''	for !l.closed {
		if len(l.pipes) > 0 {
			var p *pipe
			p, l.pipes = l.pipes[0], l.pipes[1:]
			return p.p1, nil
		}
		mgr.cv.Wait()
	}
	return nil, ErrClosed
''')]),
('C26','same','pipe close with errors.Join',[(IP,'''	if e1 != nil {
		return e1
	}
	if e2 != nil {
		return e2
	}
	return nil
''','''	return errors.Join(e1, e2)
''')]),
('C25','same','inproc write switch on deadline first',[(I,'''	switch {
	case isClosedChan(c.localDone):
		return 0, io.ErrClosedPipe
	case isClosedChan(c.remoteDone):
		return 0, io.ErrClosedPipe
	case isClosedChan(c.wdeadline.wait()):
		return 0, timeoutError{}
	}
''','''	if isClosedChan(c.localDone) || isClosedChan(c.remoteDone) {
		return 0, io.ErrClosedPipe
	}
	if isClosedChan(c.wdeadline.wait()) {
		return 0, timeoutError{}
	}
''')]),
('C33','same','transport lookup inline',[(T,'''	ts.Lock()
	defer ts.Unlock()

	if old, dup := ts.db[name]; dup {
		return fmt.Errorf("zmq4: duplicate transport %q (%T)", name, old)
	}

	ts.db[name] = trans
	return nil
''','''	ts.Lock()
	defer ts.Unlock()
	old, dup := ts.db[name]
	if !dup {
		ts.db[name] = trans
		return nil
	}
	return fmt.Errorf("zmq4: duplicate transport %q (%T)", name, old)
''')]),
('C33','same','default transports from a list',[(T,'''	must := func(err error) {
		if err != nil {
			panic(fmt.Errorf("%+v", err))
		}
	}

	must(RegisterTransport("ipc", transport.New("unix")))
	must(RegisterTransport("tcp", transport.New("tcp")))
	must(RegisterTransport("udp", transport.New("udp")))
	must(RegisterTransport("inproc", inproc.Transport{}))
''','''	mustRegister("ipc", transport.New("unix"))
	mustRegister("tcp", transport.New("tcp"))
	mustRegister("udp", transport.New("udp"))
	mustRegister("inproc", inproc.Transport{})
'''),(T,'','''
func mustRegister(name string, trans transport.Transport) {
	if err := RegisterTransport(name, trans); err != nil {
		panic(fmt.Errorf("%+v", err))
	}
}
''')]),
('C14','same','greet split in send and receive',[(C,'''	send := greeting{Version: defaultVersion}
	send.Sig.Header = sigHeader
	send.Sig.Footer = sigFooter
	kind := string(conn.sec.Type())
	if len(kind) > len(send.Mechanism) {
		return errSecMech
	}
	copy(send.Mechanism[:], kind)

	err = send.write(conn.rw)
	if err != nil {
		conn.checkIO(err)
		return fmt.Errorf("zmq4: could not send greeting: %w", err)
	}
''','''	kind := string(conn.sec.Type())
	send, err := newGreeting(kind)
	if err != nil {
		return err
	}
	if err = send.write(conn.rw); err != nil {
		conn.checkIO(err)
		return fmt.Errorf("zmq4: could not send greeting: %w", err)
	}
'''),(C,'func (conn *Conn) greet(server bool) error {\n	var err error\n','func (conn *Conn) greet(server bool) error {\n'),(C,'','''
func newGreeting(kind string) (*greeting, error) {
	g := &greeting{Version: defaultVersion}
	g.Sig.Header, g.Sig.Footer = sigHeader, sigFooter
	if n := copy(g.Mechanism[:], kind); n < len(kind) {
		return nil, errSecMech
	}
	return g, nil
}
''')]),
('C22','same','router write picks first',[(R,'''		pid := []byte(ww.Peer.Meta[sysSockID])
		if !bytes.Equal(pid, id) {
			continue
		}
		grp.Go(func() error {
			return ww.SendMsg(dmsg)
		})
''','''		if ww.Peer.Meta[sysSockID] == string(id) {
			grp.Go(func() error {
				return ww.SendMsg(dmsg)
			})
		}
'''),(R,'	"bytes"\n','')]),
('C23','same','split with bytes index',[(RP,'''	for i, frame := range envelope.Frames {
		if len(frame) != 0 {
			continue
		}
		preamble = envelope.Frames[:i+1]
		if i+1 < len(envelope.Frames) {
			msg = NewMsgFrom(envelope.Frames[i+1:]...)
		}
		break
	}
	return
''','''	n := 0
	for n < len(envelope.Frames) && len(envelope.Frames[n]) > 0 {
		n++
	}
	if n == len(envelope.Frames) {
		return nil, Msg{}
	}
	n++
	if rest := envelope.Frames[n:]; len(rest) > 0 {
		msg = NewMsgFrom(rest...)
	}
	return envelope.Frames[:n], msg
''')]),
('C34','same','networking decode helper',[(NW,'''	var message Message
	if err := json.Unmarshal(data, &message); err != nil {
		// Silently drop malformed messages
		t.msgDropped.Add(1)
		return
	}
''','''	message, err := decode(data)
	if err != nil {
		// Silently drop malformed messages
		t.msgDropped.Add(1)
		return
	}
'''),(NW,'go handler(&message)','go handler(message)'),(NW,'','''
func decode(data []byte) (*Message, error) {
	m := new(Message)
	if err := json.Unmarshal(data, m); err != nil {
		return nil, err
	}
	return m, nil
}
''')]),
('C04','same','networking loops share a body',[(NW,'''		select {
		case <-t.stopCh:
			return
		case <-t.ctx.Done():
			return
		default:
			msg, err := t.sub.Recv()
			if err != nil {
				if err == context.Canceled || err == context.DeadlineExceeded {
					return
				}
				// Transient error, continue
				continue
			}

			t.processMessage(msg.Bytes())
		}
	}
}
''','''		if t.stopped() {
			return
		}
		msg, err := t.sub.Recv()
		switch {
		case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
			return
		case err != nil:
			continue // transient error
		}
		t.processMessage(msg.Bytes())
	}
}

func (t *Transport) stopped() bool {
	select {
	case <-t.stopCh:
		return true
	case <-t.ctx.Done():
		return true
	default:
		return false
	}
}
'''),(NW,'	"encoding/json"\n','	"encoding/json"\n	"errors"\n')]),
('C01','same','networking peers by slices',[(NW,'''	// Remove from peers list
	newPeers := make([]string, 0, len(t.peers))
	for _, p := range t.peers {
		if p != peerID {
			newPeers = append(newPeers, p)
		}
	}
	t.peers = newPeers
''','''	// Remove from peers list
	t.peers = slices.DeleteFunc(t.peers, func(p string) bool { return p == peerID })
'''),(NW,'''	for _, p := range t.peers {
		if p == peerID {
			t.mu.Unlock()
			return nil // Already connected
		}
	}
''','''	if slices.Contains(t.peers, peerID) {
		t.mu.Unlock()
		return nil // Already connected
	}
'''),(NW,'''	peers := make([]string, len(t.peers))
	copy(peers, t.peers)
	return peers
''','''	return append([]string{}, t.peers...)
'''),(NW,'	"fmt"\n	"sync"\n','	"fmt"\n	"slices"\n	"sync"\n')]),
]
