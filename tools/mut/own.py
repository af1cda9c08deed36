R='router.go'; RQ='req.go'; RP='rep.go'; C='conn.go'; MS='msg.go'; I='internal/inproc/conn.go'; PU='pub.go'; PL='security/plain/plain.go'
IDS='''		id := []byte(r.Peer.Meta[sysSockID])
		msg.Frames = append([][]byte{id}, msg.Frames...)
'''
REPLY='''	var frames = make([][]byte, 0, len(r.preamble)+len(r.msg.Frames))
	frames = append(frames, r.preamble...)
	frames = append(frames, r.msg.Frames...)
	return NewMsgFrom(frames...)
'''
BODY='''		body := make([]byte, size)
		_, err := io.ReadFull(r, body)
		return body, err
'''
RW='	msg.Frames = append([][]byte{nil}, msg.Frames...)\n'
M=[
('C24','bug','identity made once',[(R,'	for {\n		msg := r.readMsg()','	id := []byte(r.Peer.Meta[sysSockID])\n	for {\n		msg := r.readMsg()'),(R,'		id := []byte(r.Peer.Meta[sysSockID])\n		msg.Frames','		msg.Frames')]),
('C24','bug','identity in a field',[(C,'	typ    SocketType\n','	typ    SocketType\n	idf    []byte\n'),(R,IDS,'''		if r.idf == nil {
			r.idf = []byte(r.Peer.Meta[sysSockID])
		}
		msg.Frames = append([][]byte{r.idf}, msg.Frames...)
''')]),
('C24','bug','reply appended to the envelope',[(RP,REPLY,'	return NewMsgFrom(append(r.preamble, r.msg.Frames...)...)\n')]),
('C24','bug','reply put in the caller list',[(RP,REPLY,'''	frames := append(r.msg.Frames, r.preamble...)
	copy(frames[len(r.preamble):], r.msg.Frames)
	copy(frames, r.preamble)
	return NewMsgFrom(frames...)
''')]),
('C24','bug','req shifts the caller list',[(RQ,RW,'	msg.Frames = append(msg.Frames, nil)\n	copy(msg.Frames[1:], msg.Frames)\n	msg.Frames[0] = nil\n')]),
('C24','bug','inproc sends the buffer itself',[(I,'buf := append([]byte(nil), data...)','buf := data')]),
('C24','bug','inproc appends to a kept buffer',[(I,'	rbuf []byte','	wbuf []byte\n	rbuf []byte'),(I,'	buf := append([]byte(nil), data...)\n','	c.wbuf = append(c.wbuf[:0], data...)\n	buf := c.wbuf\n')]),
('C24','bug','clone shares frames',[(MS,'		o.Frames[i] = make([]byte, len(frame))\n		copy(o.Frames[i], frame)\n','		o.Frames[i] = frame\n')]),
('C24','bug','clone by append to nothing',[(MS,'		o.Frames[i] = make([]byte, len(frame))\n		copy(o.Frames[i], frame)\n','		o.Frames[i] = append(frame[:0], frame...)\n')]),
('C24','bug','bytes of one frame',[(MS,'	buf := make([]byte, 0, msg.size())\n','	if len(msg.Frames) == 1 {\n		return msg.Frames[0]\n	}\n	buf := make([]byte, 0, msg.size())\n')]),
('C24','bug','body in a scratch buffer',[(C,'	typ    SocketType\n','	typ    SocketType\n	rbuf   [512]byte\n'),(C,'		body, msg.err = readBody(c.rw, size)\n','''		if size <= uint64(len(c.rbuf)) {
			body = c.rbuf[:size]
			_, msg.err = io.ReadFull(c.rw, body)
		} else {
			body, msg.err = readBody(c.rw, size)
		}
''')]),
('C24','bug','decrypt buffer kept',[(C,'	typ    SocketType\n','	typ    SocketType\n	dec    bytes.Buffer\n'),(C,'		buf := new(bytes.Buffer)\n		if _, msg.err = c.sec.Decrypt(buf, body)','		buf := &c.dec\n		buf.Reset()\n		if _, msg.err = c.sec.Decrypt(buf, body)')]),
('C24','bug','decrypt buffer shared by frames',[(C,'		hasMore = true\n		isCmd   = false\n	)\n','		hasMore = true\n		isCmd   = false\n		buf     bytes.Buffer\n	)\n'),(C,'		buf := new(bytes.Buffer)\n		if _, msg.err = c.sec.Decrypt(buf, body)','		buf.Reset()\n		if _, msg.err = c.sec.Decrypt(&buf, body)')]),
('C24','bug','frame list kept across messages',[(C,'	typ    SocketType\n','	typ    SocketType\n	frames [][]byte\n'),(C,'	for hasMore {\n\n		// Read','	msg.Frames = c.frames[:0]\n	defer func() { c.frames = msg.Frames }()\n	for hasMore {\n\n		// Read')]),
('C24','bug','encrypted in place',[(PL,'func (security) Encrypt(w io.Writer, data []byte) (int, error) {\n	return w.Write(data)','func (security) Encrypt(w io.Writer, data []byte) (int, error) {\n	for i := range data {\n		data[i] ^= 0\n	}\n	return w.Write(data)')]),
('C24','bug','frames used up by WriteTo',[(C,'	for _, frame := range msg.Frames {\n		_, err := c.rw.Write(frame)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n','	bufs := net.Buffers(msg.Frames)\n	_, err := bufs.WriteTo(c.rw)\n	return err\n')]),
('C24','bug','router identity cut off in place',[(R,'	dmsg := NewMsgFrom(msg.Frames[1:]...)\n','	dmsg := NewMsgFrom(append(msg.Frames[:0], msg.Frames[1:]...)...)\n')]),
('C24','bug','router clears the identity',[(R,'	id := msg.Frames[0]\n	dmsg','	id := msg.Frames[0]\n	msg.Frames[0] = nil\n	dmsg')]),
('C24','bug','pub lowers the topic',[(PU,'					topic = string(msg.Frames[0])','					for i, b := range msg.Frames[0] {\n						if b == 0 {\n							msg.Frames[0][i] = 0\n						}\n					}\n					topic = string(msg.Frames[0])')]),
('C24','bug','encrypted frame put back',[(C,'			frame = secBuf.Bytes()\n','			frame = secBuf.Bytes()\n			msg.Frames[i] = frame\n')]),
('C24','bug','identity made once, handed to a helper',[(R,'	for {\n		msg := r.readMsg()','	id := []byte(r.Peer.Meta[sysSockID])\n	for {\n		msg := r.readMsg()'),(R,IDS+'''		select {
		case <-ctx.Done():
			return
		case q.c <- msg:
		}
''','''		if !q.deliver(ctx, id, msg) {
			return
		}
'''),(R,'','''
func (q *routerQReader) deliver(ctx context.Context, id []byte, msg Msg) bool {
	msg.Frames = append([][]byte{id}, msg.Frames...)
	select {
	case <-ctx.Done():
		return false
	case q.c <- msg:
	}
	return true
}
''')]),
('C24','bug','decrypt buffer from a pool',[(C,'		buf := new(bytes.Buffer)\n		if _, msg.err = c.sec.Decrypt(buf, body)','		buf := decBufs.Get().(*bytes.Buffer)\n		buf.Reset()\n		defer decBufs.Put(buf)\n		if _, msg.err = c.sec.Decrypt(buf, body)'),(C,'','\nvar decBufs = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n')]),
('C24','bug','body from a pool',[(C,'		body := make([]byte, size)\n		_, err := io','		p := bodies.Get().(*[]byte)\n		defer bodies.Put(p)\n		if uint64(cap(*p)) < size {\n			*p = make([]byte, size)\n		}\n		body := (*p)[:size]\n		_, err := io'),(C,'','\nvar bodies = sync.Pool{New: func() interface{} { return new([]byte) }}\n')]),
('C24','bug','body in a global',[(C,'		body := make([]byte, size)\n		_, err := io','		body := scratch[:size]\n		_, err := io'),(C,'','\nvar scratch [1 << 20]byte\n')]),
('C24','bug','message list lives in listen',[(R,'	for {\n		msg := r.readMsg()','	var frames [][]byte\n	for {\n		msg := r.readMsg()'),(R,'		msg.Frames = append([][]byte{id}, msg.Frames...)\n','		frames = append(frames[:0], id)\n		frames = append(frames, msg.Frames...)\n		msg.Frames = frames\n')]),
('C24','same','pooled buffer, bytes copied',[(C,'		buf := new(bytes.Buffer)\n		if _, msg.err = c.sec.Decrypt(buf, body)','		buf := decBufs.Get().(*bytes.Buffer)\n		buf.Reset()\n		if _, msg.err = c.sec.Decrypt(buf, body)'),(C,'		msg.Frames = append(msg.Frames, buf.Bytes())\n','		msg.Frames = append(msg.Frames, append([]byte(nil), buf.Bytes()...))\n		decBufs.Put(buf)\n'),(C,'','\nvar decBufs = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n')]),
('C24','same','identity in helper',[(R,IDS,'		msg.Frames = append([][]byte{identityOf(r)}, msg.Frames...)\n'),(R,'','\nfunc identityOf(r *Conn) []byte { return []byte(r.Peer.Meta[sysSockID]) }\n')]),
('C24','same','identity string once, bytes per message',[(R,'	for {\n		msg := r.readMsg()','	name := r.Peer.Meta[sysSockID]\n	for {\n		msg := r.readMsg()'),(R,'		id := []byte(r.Peer.Meta[sysSockID])\n','		id := []byte(name)\n')]),
('C24','same','identity cloned',[(R,'	for {\n		msg := r.readMsg()','	name := []byte(r.Peer.Meta[sysSockID])\n	for {\n		msg := r.readMsg()'),(R,'		id := []byte(r.Peer.Meta[sysSockID])\n','		id := bytes.Clone(name)\n')]),
('C24','same','identity frames by make and copy',[(R,IDS,'''		frames := make([][]byte, 1+len(msg.Frames))
		frames[0] = []byte(r.Peer.Meta[sysSockID])
		copy(frames[1:], msg.Frames)
		msg.Frames = frames
''')]),
('C24','same','body piecewise',[(C,BODY,'''		body := make([]byte, 0, size)
		var b [512]byte
		for uint64(len(body)) < size {
			n := size - uint64(len(body))
			if n > 512 {
				n = 512
			}
			if _, err := io.ReadFull(r, b[:n]); err != nil {
				return body, err
			}
			body = append(body, b[:n]...)
		}
		return body, nil
''')]),
('C24','same','body into a named result',[(C,BODY,'''		body = make([]byte, size)
		_, err = io.ReadFull(r, body)
		return
'''),(C,'func readBody(r io.Reader, size uint64) ([]byte, error) {','func readBody(r io.Reader, size uint64) (body []byte, err error) {'),(C,'	_, err := io.CopyN(&buf, r, int64(size))','	_, err = io.CopyN(&buf, r, int64(size))')]),
('C24','same','decrypt into new buffer by helper',[(C,'''		buf := new(bytes.Buffer)
		if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
			c.SetClosed()
			return msg
		}
		msg.Frames = append(msg.Frames, buf.Bytes())
''','''		body, msg.err = c.decrypted(body)
		if msg.err != nil {
			c.SetClosed()
			return msg
		}
		msg.Frames = append(msg.Frames, body)
'''),(C,'','''
func (c *Conn) decrypted(body []byte) ([]byte, error) {
	buf := new(bytes.Buffer)
	_, err := c.sec.Decrypt(buf, body)
	return buf.Bytes(), err
}
''')]),
('C24','same','decrypt var in loop',[(C,'		buf := new(bytes.Buffer)\n		if _, msg.err = c.sec.Decrypt(buf, body)','		var buf bytes.Buffer\n		if _, msg.err = c.sec.Decrypt(&buf, body)')]),
('C24','same','reply by slices.Concat',[(RP,REPLY,'	return NewMsgFrom(slices.Concat(r.preamble, r.msg.Frames)...)\n'),(RP,'	"net"\n','	"net"\n	"slices"\n')]),
('C24','same','reply by clipped append',[(RP,REPLY,'	return NewMsgFrom(append(r.preamble[:len(r.preamble):len(r.preamble)], r.msg.Frames...)...)\n')]),
('C24','same','reply copied by index',[(RP,REPLY,'''	n := len(r.preamble)
	frames := make([][]byte, n+len(r.msg.Frames))
	copy(frames, r.preamble)
	copy(frames[n:], r.msg.Frames)
	return Msg{Frames: frames}
''')]),
('C24','same','clone with bytes.Clone',[(MS,'		o.Frames[i] = make([]byte, len(frame))\n		copy(o.Frames[i], frame)\n','		o.Frames[i] = append([]byte{}, frame...)\n')]),
('C24','same','clone appends',[(MS,'''	o := Msg{Frames: make([][]byte, len(msg.Frames))}
	for i, frame := range msg.Frames {
		o.Frames[i] = make([]byte, len(frame))
		copy(o.Frames[i], frame)
	}
	return o
''','''	frames := make([][]byte, 0, len(msg.Frames))
	for _, frame := range msg.Frames {
		frames = append(frames, bytes.Clone(frame))
	}
	return NewMsgFrom(frames...)
''')]),
('C24','same','bytes joined',[(MS,'''	buf := make([]byte, 0, msg.size())
	for _, frame := range msg.Frames {
		buf = append(buf, frame...)
	}
	return buf
''','	return bytes.Join(msg.Frames, nil)\n')]),
('C24','same','inproc copies with make',[(I,'	buf := append([]byte(nil), data...)\n','	buf := make([]byte, len(data))\n	copy(buf, data)\n')]),
('C24','same','frames by net.Buffers of a copy',[(C,'	for _, frame := range msg.Frames {\n		_, err := c.rw.Write(frame)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n','	bufs := append(net.Buffers(nil), msg.Frames...)\n	_, err := bufs.WriteTo(c.rw)\n	return err\n')]),
('C24','same','router frames copied',[(R,'	dmsg := NewMsgFrom(msg.Frames[1:]...)\n','	dmsg := NewMsgFrom(append([][]byte(nil), msg.Frames[1:]...)...)\n')]),
('C24','same','envelope copied',[(RP,'		preamble = envelope.Frames[:i+1]\n','		preamble = append(preamble, envelope.Frames[:i+1]...)\n')]),
('C24','same','req list made',[(RQ,RW,'	frames := make([][]byte, 1, 1+len(msg.Frames))\n	msg.Frames = append(frames, msg.Frames...)\n')]),
('C24','same','req clone sent',[(RQ,RW,'	msg = msg.Clone()\n'+RW)]),
('C24','same','header scratch in Conn',[(C,'	typ    SocketType\n','	typ    SocketType\n	hdr    [9]byte\n'),(C,'''	var (
		hdr = [8 + 1]byte{flag}
		hsz int
	)

	// Write out''','''	hdr := &c.hdr
	hdr[0] = flag
	var hsz int

	// Write out''')]),
]
