P='protocol.go'; PL='security/plain/plain.go'; I='internal/inproc/conn.go'
NW='networking/transport.go'
M=[
('C10','bug','prop empty',[(P,'	if len(data) == 0 {\n		return n, io.ErrUnexpectedEOF\n	}\n	klen','	klen')]),
('C10','bug','prop key check weaker',[(P,'if klen+4 > len(data)-n {','if klen > len(data)-n {')]),
('C10','bug','prop key off by one',[(P,'if klen+4 > len(data)-n {','if klen+4 > len(data) {')]),
('C10','bug','prop val check',[(P,'if vlen > len(data)-n {','if vlen > len(data) {')]),
('C10','bug','prop val nocheck',[(P,'	if vlen > len(data)-n {\n		return n, io.ErrUnexpectedEOF\n	}\n','')]),
('C10','same','prop key other form',[(P,'if klen+4 > len(data)-n {','if len(data) < n+klen+4 {')]),
('C10','same','prop with reslicing',[(P,'''	prop.K = toTitle(string(data[n : n+klen]))
	n += klen

	v := binary.BigEndian.Uint32(data[n : n+4])
''','''	rest := data[n:]
	prop.K = toTitle(string(rest[:klen]))
	rest = rest[klen:]
	n += klen

	v := binary.BigEndian.Uint32(rest)
''')]),
('C10','same','metadata loop skips, in bounds',[(P,'		i += n\n\n		name','		i += n + 1\n\n		name')]),
('C10','same','metadata loop by reslicing',[(P,'''	i := 0
	for i < len(p) {
		var kv Property
		n, err := kv.Write(p[i:])
		if err != nil {
			return err
		}
		i += n
''','''	for len(p) > 0 {
		var kv Property
		n, err := kv.Write(p)
		if err != nil {
			return err
		}
		p = p[n:]
''')]),
('C10','same','metadata loop for-form',[(P,'''	i := 0
	for i < len(p) {
		var kv Property
		n, err := kv.Write(p[i:])
		if err != nil {
			return err
		}
		i += n
''','''	n := 0
	for i := 0; i != len(p); i += n {
		var kv Property
		var err error
		n, err = kv.Write(p[i:])
		if err != nil {
			return err
		}
''')]),
('C10','bug','cmd name',[('msg.go','if n > len(data)-1 {','if n > len(data) {')]),
('C10','bug','cmd empty',[('msg.go','	if len(data) == 0 {\n		return io.ErrUnexpectedEOF\n	}\n	n := int','	if data == nil {\n		return io.ErrUnexpectedEOF\n	}\n	n := int')]),
('C10','same','cmd form',[('msg.go','if n > len(data)-1 {','if len(data) <= n {')]),
('C10','bug','topic empty',[('pub.go','	if len(frame) == 0 {\n		return false\n	}\n','')]),
('C10','bug','topic frames',[('pub.go','	if len(msg.Frames) != 1 {\n		return false\n	}\n','')]),
('C10','same','topic form',[('pub.go','	if len(frame) == 0 {\n		return false\n	}\n	topic := frame[0]\n	return topic == 0 || topic == 1','	return len(frame) >= 1 && frame[0] < 2')]),
('C10','bug','subscribe drops two',[('conn.go','k := string(v[1:])','k := string(v[2:])')]),
('C10','same','subscribe range',[('conn.go','	v := msg.Frames[0]\n	k := string(v[1:])','	first := msg.Frames[0]\n	v := first[:1]\n	k := string(first[1:])')]),
('C10','bug','cred empty',[(PL,'	if len(body) == 0 {\n		return nil, nil, errBadHello\n	}\n','')]),
('C10','bug','cred len',[(PL,'	if n > len(body) {\n		return nil, nil, errBadHello\n	}\n','')]),
('C10','bug','cred cap',[(PL,'	if n > len(body) {','	if n > cap(body) {')]),
('C10','bug','long conv',[('conn.go','make([]byte, size)','make([]byte, int8(size))')]),
('C10','bug','ping frames',[('conn.go','len(msg.Frames) != 1 || cmd.unmarshal','len(msg.Frames) > 1 || cmd.unmarshal')]),
('C10','bug','recvcmd frames',[('conn.go','	switch len(msg.Frames) {','	switch len(msg.Frames) | 1 {')]),
('C10','bug','stream n',[('conn.go','		msg.Frames = append(msg.Frames, buf[:n])','		msg.Frames = append(msg.Frames, buf[:n+1])')]),
('C10','bug','inproc slice',[(I,'c.rbuf = c.rbuf[nr:]','c.rbuf = c.rbuf[len(data):]')]),
('C10','same','inproc slice ok',[(I,'	nr := copy(data, c.rbuf)\n	c.rbuf = c.rbuf[nr:]','	nr := len(data)\n	if nr > len(c.rbuf) {\n		nr = len(c.rbuf)\n	}\n	copy(data, c.rbuf[:nr])\n	c.rbuf = c.rbuf[nr:]')]),
('C10','bug','identity cut',[('socket_types.go','	return string(id[:n])','	return string(id[:255])')]),
('C10','bug','socktype panic',[('socket_types.go','		switch peer {\n		case Pull:\n			return true\n		}','		switch peer {\n		case Pull:\n			return true\n		default:\n			panic("zmq4: bad peer")\n		}')]),
('C10','bug','recv in socket',[('req.go','	return req.sck.Recv()','	msg, err := req.sck.Recv()\n	if err == nil && msg.Frames[0] == nil {\n		return Msg{}, ErrBadFrame\n	}\n	return msg, err')]),
('C10','same','recv in socket ok',[('req.go','	return req.sck.Recv()','	msg, err := req.sck.Recv()\n	if err == nil && len(msg.Frames) > 0 && msg.Frames[0] == nil {\n		return Msg{}, ErrBadFrame\n	}\n	return msg, err')]),
('C10','bug','type assertion of wrapped error',[('req.go','	return req.sck.Recv()','	msg, err := req.sck.Recv()\n	if msg.err != nil {\n		panic(msg.err)\n	}\n	return msg, err')]),
('C11','bug','prealloc',[('conn.go','if size <= maxPrealloc {','if size <= maxPrealloc || size < 1<<32 {')]),
('C11','bug','prealloc eightfold',[('conn.go','	const maxPrealloc = 1 << 20','	const maxPrealloc = 1 << 40')]),
('C11','bug','grow',[('conn.go','	var buf bytes.Buffer\n	_, err := io.CopyN(&buf,','	var buf bytes.Buffer\n	buf.Grow(int(size))\n	_, err := io.CopyN(&buf,')]),
('C11','same','grow bounded',[('conn.go','	var buf bytes.Buffer\n	_, err := io.CopyN(&buf,','	var buf bytes.Buffer\n	buf.Grow(maxPrealloc)\n	_, err := io.CopyN(&buf,')]),
('C11','bug','cap',[('conn.go','	var buf bytes.Buffer\n	_, err := io.CopyN(&buf,','	buf := bytes.NewBuffer(make([]byte, 0, size))\n	_, err := io.CopyN(buf,')]),
('C11','bug','prop preallocates',[(P,'	vlen := int(v)\n','	vlen := int(v)\n	val := make([]byte, vlen)\n	copy(val, data[n:])\n')]),
('C11','same','prop allocates after check',[(P,'	prop.V = string(data[n : n+vlen])','	val := make([]byte, vlen)\n	copy(val, data[n:])\n	prop.V = string(val)')]),
('C11','same','prealloc smaller',[('conn.go','	const maxPrealloc = 1 << 20','	const maxPrealloc = 1 << 16')]),
('C11','same','readfull moved',[('conn.go','''		body := make([]byte, size)
		_, err := io.ReadFull(r, body)
		return body, err
''','''		body := make([]byte, int(size))
		if _, err := io.ReadFull(r, body); err != nil {
			return body, err
		}
		return body, nil
''')]),
('C11','bug','cred',[(PL,'	n := int(body[0])\n	body = body[1:]','	n := int(body[0])\n	if len(body) > 8 {\n		n = int(body[1])<<24 | int(body[2])\n		_ = make([]byte, n)\n	}\n	body = body[1:]')]),
('C10','bug','identity of peer cut',[('router.go','	id := []byte(r.Peer.Meta[sysSockID])','	id := []byte(r.Peer.Meta[sysSockID][:5])')]),
('C10','bug','identity of peer looked at',[('socket.go','	if len(c.Peer.Meta[sysSockID]) == 0 {','	if c.Peer.Meta[sysSockID][0] == 0 {')]),
('C10','same','identity of peer checked',[('router.go','	id := []byte(r.Peer.Meta[sysSockID])','	id := []byte(r.Peer.Meta[sysSockID])\n		if len(id) > 255 {\n			id = id[:255]\n		}')]),
]
