P='protocol.go'; PL='security/plain/plain.go'; N='security/null/null.go'
M=[
('C14','bug','header unchecked',[(P,'if g.Sig.Header != sigHeader {','if g.Sig.Header != sigHeader && g.Server > 9 {')]),
('C14','bug','footer mask',[(P,'if g.Sig.Footer != sigFooter {','if g.Sig.Footer&1 != sigFooter&1 {')]),
('C14','same','footer mask ok',[(P,'if g.Sig.Footer != sigFooter {','if sigFooter != g.Sig.Footer {')]),
('C14','bug','version minor lets older major',[(P,'g.Version[0] == ref[0] && g.Version[1] > ref[1]:','g.Version[1] > ref[1]:')]),
('C14','bug','version always',[(P,'if !g.validate(defaultVersion) {','if !g.validate(g.Version) {')]),
('C14','bug','mech prefix',[('conn.go','if peerKind != kind {','if !strings.HasPrefix(peerKind, kind) {')]),
('C14','bug','mech prefix2',[('conn.go','if peerKind != kind {','if !strings.HasPrefix(kind, peerKind) {')]),
('C14','bug','mech fold',[('conn.go','if peerKind != kind {','if !strings.EqualFold(kind, peerKind) {')]),
('C14','bug','mech null accepts',[('conn.go','if peerKind != kind {','if peerKind != kind && peerKind != "" {')]),
('C14','bug','asString cut',[(P,'		i = len(slice)\n','		i = 4\n')]),
('C14','bug','compat skipped on server',[('conn.go','if !peer.IsCompatible(conn.typ) {','if !conn.Server && !peer.IsCompatible(conn.typ) {')]),
('C14','bug','compat skipped on empty',[('conn.go','if !peer.IsCompatible(conn.typ) {','if peer != "" && !peer.IsCompatible(conn.typ) {')]),
('C14','bug','compat own',[('conn.go','if !peer.IsCompatible(conn.typ) {','if !conn.typ.IsCompatible(conn.typ) && !peer.IsCompatible(conn.typ) {')]),
('C14','same','compat swapped',[('conn.go','if !peer.IsCompatible(conn.typ) {','if ok := conn.typ.IsCompatible(peer); !ok {')]),
('C14','bug','handshake err dropped',[('conn.go','		return fmt.Errorf("zmq4: could not perform security handshake: %w", err)','		if !conn.Closed() {\n			return nil\n		}\n		return fmt.Errorf("zmq4: could not perform security handshake: %w", err)')]),
('C14','bug','role',[('conn.go','conn.sec.Handshake(conn, conn.Server)','conn.sec.Handshake(conn, conn.Peer.Server)')]),
('C14','bug','handshake before greeting',[('conn.go','''	err = conn.greet(conn.Server)
	if err != nil {
		return fmt.Errorf("zmq4: could not exchange greetings: %w", err)
	}

	err = conn.sec.Handshake(conn, conn.Server)
	if err != nil {
		return fmt.Errorf("zmq4: could not perform security handshake: %w", err)
	}
''','''	err = conn.sec.Handshake(conn, conn.Server)
	if err != nil {
		return fmt.Errorf("zmq4: could not perform security handshake: %w", err)
	}

	err = conn.greet(conn.Server)
	if err != nil {
		return fmt.Errorf("zmq4: could not exchange greetings: %w", err)
	}
''')]),
('C14','bug','timeout on greeting ok',[('conn.go','''		conn.checkIO(err)
		return fmt.Errorf("zmq4: could not send greeting: %w", err)''','''		conn.checkIO(err)
		if conn.Closed() {
			return fmt.Errorf("zmq4: could not send greeting: %w", err)
		}''')]),
('C14','bug','serve keeps failed',[('socket.go','''		conn.Close()
		return
	}

	sck.addConn(zconn)''','''		conn.Close()
		if zconn == nil {
			return
		}
	}

	sck.addConn(zconn)''')]),
('C14','same','helper',[('conn.go','	peer := SocketType(conn.Peer.Meta[sysSockType])\n	if !peer.IsCompatible(conn.typ) {\n		return fmt.Errorf("zmq4: peer=%q not compatible with %q", peer, conn.typ)\n	}\n','	return conn.checkPeer()\n}\n\nfunc (conn *Conn) checkPeer() error {\n	peer := SocketType(conn.Peer.Meta[sysSockType])\n	if peer.IsCompatible(conn.typ) {\n		return nil\n	}\n	return fmt.Errorf("zmq4: peer=%q not compatible with %q", peer, conn.typ)\n}\n\nfunc (conn *Conn) unused() error {\n')]),
('C14','same','trim mechanism',[('conn.go','peerKind := asString(recv.Mechanism[:])','peerKind := string(bytes.TrimRight(recv.Mechanism[:], "\\x00"))')]),
('C14','same','mech bytes',[('conn.go','''	peerKind := asString(recv.Mechanism[:])
	if peerKind != kind {''','''	if recv.Mechanism != send.Mechanism {''')]),
('C15','bug','null accepts any',[(N,'if cmd.Name != zmq4.CmdReady {','if cmd.Name != zmq4.CmdReady && len(cmd.Body) == 0 {')]),
('C15','bug','null accepts error',[('security.go','if cmd.Name != CmdReady {','if cmd.Name == CmdError {')]),
('C15','bug','null ignores decode',[(N,'''	err = conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
	if err != nil {
		return fmt.Errorf("security/null: could not unmarshal peer metadata: %w", err)
	}
''','''	_ = conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
''')]),
('C15','bug','null into own meta',[(N,'conn.Peer.Meta.UnmarshalZMTP','conn.Meta.UnmarshalZMTP')]),
('C15','same','null recv first',[(N,'''	err = conn.SendCmd(zmq4.CmdReady, raw)
	if err != nil {
		return fmt.Errorf("security/null: could not send metadata to peer: %w", err)
	}

	cmd, err := conn.RecvCmd()
	if err != nil {
		return fmt.Errorf("security/null: could not recv metadata from peer: %w", err)
	}
''','''	cmd, err := conn.RecvCmd()
	if err != nil {
		return fmt.Errorf("security/null: could not recv metadata from peer: %w", err)
	}
	if err = conn.SendCmd(zmq4.CmdReady, raw); err != nil {
		return fmt.Errorf("security/null: could not send metadata to peer: %w", err)
	}

''')]),
('C15','bug','plain or',[(PL,'if !okUser || !okPass {','if !okUser && !okPass {')]),
('C15','bug','plain prefix',[(PL,'okPass := subtle.ConstantTimeCompare(pass, sec.pass) == 1','okPass := subtle.ConstantTimeCompare(pass, sec.pass[:min(len(pass), len(sec.pass))]) == 1')]),
('C15','bug','plain swapped',[(PL,'subtle.ConstantTimeCompare(user, sec.user)','subtle.ConstantTimeCompare(user, sec.pass)')]),
('C15','bug','plain no user',[(PL,'if !okUser || !okPass {','if !okUser && len(sec.user) > 0 || !okPass {')]),
('C15','bug','welcome first',[(PL,'''		err = sec.validateHello(cmd.Body)
		if err != nil {
			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid")) // FIXME(sbinet) correct ERROR reason
			return fmt.Errorf("security/plain: could not authenticate client: %w", err)
		}

		err = conn.SendCmd(zmq4.CmdWelcome, nil)
		if err != nil {
			return fmt.Errorf("security/plain: could not send WELCOME to client: %w", err)
		}
''','''		err = conn.SendCmd(zmq4.CmdWelcome, nil)
		if err != nil {
			return fmt.Errorf("security/plain: could not send WELCOME to client: %w", err)
		}

		err = sec.validateHello(cmd.Body)
		if err != nil {
			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid")) // FIXME(sbinet) correct ERROR reason
			return fmt.Errorf("security/plain: could not authenticate client: %w", err)
		}
''')]),
('C15','bug','initiate unchecked',[(PL,'if cmd.Name != zmq4.CmdInitiate {','if cmd.Name != zmq4.CmdInitiate && cmd.Name != zmq4.CmdReady {')]),
('C15','bug','client ready unchecked',[(PL,'''		if cmd.Name != zmq4.CmdReady {
			_ =''','''		if cmd.Name == zmq4.CmdError {
			_ =''')]),
('C15','bug','client welcome err nil',[(PL,'return fmt.Errorf("security/plain: expected a WELCOME command from server: %w", err)','return err')]),
('C15','bug','client wipes pass',[(PL,'		cmd, err := conn.RecvCmd()\n		if err != nil {\n			return fmt.Errorf("security/plain: could not receive WELCOME','		sec.pass = nil\n		cmd, err := conn.RecvCmd()\n		if err != nil {\n			return fmt.Errorf("security/plain: could not receive WELCOME')]),
('C15','bug','client clears pass',[(PL,'		cmd, err := conn.RecvCmd()\n		if err != nil {\n			return fmt.Errorf("security/plain: could not receive WELCOME','		for i := range sec.pass {\n			sec.pass[i] = 0\n		}\n		cmd, err := conn.RecvCmd()\n		if err != nil {\n			return fmt.Errorf("security/plain: could not receive WELCOME')]),
('C15','bug','hello swaps',[(PL,'''		hello = append(hello, byte(len(sec.user)))
		hello = append(hello, sec.user...)
		hello = append(hello, byte(len(sec.pass)))
		hello = append(hello, sec.pass...)''','''		hello = append(hello, byte(len(sec.pass)))
		hello = append(hello, sec.pass...)
		hello = append(hello, byte(len(sec.user)))
		hello = append(hello, sec.user...)''')]),
('C15','bug','hello aliases',[(PL,'		hello := make([]byte, 0, len(sec.user)+len(sec.pass)+2)\n','		hello := sec.user[:0]\n')]),
('C15','same','bytes.Equal',[(PL,'subtle.ConstantTimeCompare(user, sec.user) == 1','string(user) == string(sec.user) && subtle.ConstantTimeCompare(user, user) == 1')]),
('C15','same','if role',[(PL,'	switch {\n	case server:\n','	switch server {\n	case true:\n'),(PL,'	case !server:','	default:')]),
('C15','same','hello copy',[(PL,'''		hello := make([]byte, 0, len(sec.user)+len(sec.pass)+2)
		hello = append(hello, byte(len(sec.user)))
		hello = append(hello, sec.user...)
		hello = append(hello, byte(len(sec.pass)))
		hello = append(hello, sec.pass...)''','''		hello := make([]byte, len(sec.user)+len(sec.pass)+2)
		hello[0] = byte(len(sec.user))
		n := 1 + copy(hello[1:], sec.user)
		hello[n] = byte(len(sec.pass))
		copy(hello[n+1:], sec.pass)''')]),
('C15','same','validate inline order',[(PL,'	if len(body) != 0 {\n		return errBadHello\n	}\n	okUser','	if len(body) > 0 {\n		return errBadHello\n	}\n	okUser')]),
('C30','bug','version offset',[(P,'	g.Version[1] = data[11]','	g.Version[1] = data[10]')]),
('C30','bug','server offset read',[(P,'	g.Server = data[32]','	g.Server = data[33]')]),
('C30','bug','server offset both',[(P,'	g.Server = data[32]','	g.Server = data[33]'),(P,'buf[32] = g.Server','buf[33] = g.Server')]),
('C30','bug','mech offset both',[(P,'copy(g.Mechanism[:], data[12:32])','copy(g.Mechanism[:], data[13:32])'),(P,'copy(buf[12:32], g.Mechanism[:])','copy(buf[13:32], g.Mechanism[:])')]),
('C30','bug','mech short',[(P,'copy(g.Mechanism[:], data[12:32])','copy(g.Mechanism[:], data[12:31])')]),
('C30','bug','footer not written',[(P,'	buf[9] = g.Sig.Footer\n','	buf[8] = g.Sig.Footer\n')]),
('C30','bug','prop little endian',[(P,'binary.BigEndian.PutUint32(data[n:n+4], uint32(vlen))','binary.LittleEndian.PutUint32(data[n:n+4], uint32(vlen))'),(P,'binary.BigEndian.Uint32(data[n : n+4])','binary.LittleEndian.Uint32(data[n : n+4])')]),
('C30','bug','prop len u16',[(P,'binary.BigEndian.PutUint32(data[n:n+4], uint32(vlen))','binary.BigEndian.PutUint32(data[n:n+4], uint32(uint16(vlen)))')]),
('C30','bug','prop long name',[(P,'if klen > 255 || ','if klen > 256 || ')]),
('C30','bug','prop klen of untitled',[(P,'	data[n] = byte(klen)','	data[n] = byte(len(prop.K))')]),
('C30','bug','prop value signed',[(P,'	vlen := int(v)\n','	vlen := int(v &^ 0x8000)\n')]),
('C30','bug','prop count',[(P,'	prop.V = string(data[n : n+vlen])\n	n += vlen','	prop.V = string(data[n : n+vlen])\n	n += vlen + 0*klen\n	if len(data) > n {\n		n++\n	}')]),
('C30','bug','marshal id lost',[(P,'		case sysSockID, sysSockType:','		case sysSockType:')]),
('C30','bug','marshal truncates',[(P,'	buf.Write(data[:n])','	buf.Write(data[:min(n, 512)])')]),
('C30','bug','unmarshal untitled',[(P,'		name := toTitle(kv.K)','		name := strings.ToLower(kv.K)')]),
('C30','bug','sockid name',[(P,'	sysSockID   = "Identity"','	sysSockID   = "Identity-Id"')]),
('C30','bug','type not announced',[('conn.go','conn.Meta[sysSockType] = string(conn.typ)','conn.Meta[sysSockType] = string(conn.id)')]),
('C30','bug','flag any',[(P,'	return false, errBoolCnv\n','	return b&1 == 1, nil\n')]),
('C30','same','unmarshal slices',[(P,'copy(g.Mechanism[:], data[12:32])','for i := range g.Mechanism {\n		g.Mechanism[i] = data[12+i]\n	}')]),
('C30','same','prop appends',[(P,'''	data[n] = byte(klen)
	n++
	n += copy(data[n:n+klen], key)
	binary.BigEndian.PutUint32(data[n:n+4], uint32(vlen))
	n += 4
	n += copy(data[n:n+vlen], prop.V)
	return n, io.EOF''','''	data[0] = byte(klen)
	copy(data[1:], key)
	binary.BigEndian.PutUint32(data[1+klen:], uint32(vlen))
	copy(data[5+klen:], prop.V)
	return size, io.EOF''')]),
('C30','same','prop reslice',[(P,'''	prop.V = string(data[n : n+vlen])
	n += vlen
	return n, nil''','''	data = data[n:]
	prop.V = string(data[:vlen])
	return n + vlen, nil''')]),
('C30','same','unmarshal reslice',[(P,'''	i := 0
	for i < len(p) {
		var kv Property
		n, err := kv.Write(p[i:])
		if err != nil {
			return err
		}
		i += n
''','''	for len(p) > 0 {
		var kv Property
		n, err := kv.Write(p)
		if err != nil {
			return err
		}
		p = p[n:]
''')]),
]
