M = []
def m(check, kind, name, *ed):
    M.append((check, kind, name, [tuple(ed[i:i+3]) for i in range(0, len(ed), 3)]))
C='conn.go'; G='msg.go'; P='protocol.go'
SM='''	nframes := len(msg.Frames)
	for i, frame := range msg.Frames {
		var flag byte
		if i < nframes-1 {
			flag ^= hasMoreBitFlag
		}
		err := c.send'''
m('C12','bug','more on last of 3',C,SM,SM.replace('if i < nframes-1','if i < nframes-1 || nframes > 2'))
m('C12','bug','size before encrypt',C,'''		switch c.sec.Type() {
		case NullSecurity:
		default:
			var secBuf bytes.Buffer
			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
				return err
			}
			frame = secBuf.Bytes()
		}

		size := len(frame)
''','''		size := len(frame)
		switch c.sec.Type() {
		case NullSecurity:
		default:
			var secBuf bytes.Buffer
			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
				return err
			}
			frame = secBuf.Bytes()
		}

''')
m('C12','bug','long at 255 multi',C,'''		size := len(frame)
		isLong := size > 255
''','''		size := len(frame)
		isLong := size > 256
''')
m('C12','bug','short hdr for long',C,'''	// Long flag
	size := len(body)
	isLong := size > 255
''','''	// Long flag
	size := len(body)
	isLong := size >= 255
''')
m('C12','bug','le',C,'''	if isLong {
		hsz = 9
		binary.BigEndian.PutUint64(hdr[1:], uint64(size))
	} else {
		hsz = 2
		hdr[1] = uint8(size)
	}
	if _''','''	if isLong {
		hsz = 9
		binary.LittleEndian.PutUint64(hdr[1:], uint64(size))
	} else {
		hsz = 2
		hdr[1] = uint8(size)
	}
	if _''')
m('C12','bug','skip empty frame',C,'''	if _, err := c.rw.Write(hdr[:hsz]); err != nil {
		return err
	}
''','''	if _, err := c.rw.Write(hdr[:hsz]); err != nil {
		return err
	}
	if isLong && isCommand {
		return nil
	}
''')
m('C12','bug','drop empty',C,'''		if i < nframes-1 {
			flag ^= hasMoreBitFlag
		}

		switch''','''		if i < nframes-1 {
			flag ^= hasMoreBitFlag
		}
		if len(frame) == 0 {
			continue
		}

		switch''')
m('C12','bug','reader 32 bit',C,'size = binary.BigEndian.Uint64(longHdr[:])','size = uint64(binary.BigEndian.Uint32(longHdr[4:]))')
m('C12','bug','reader cmd sticky',C,'isCmd = isCmd || fl.isCommand()','isCmd = isCmd || fl.isCommand() || fl.isLong() && hasMore')
m('C12','bug','reader body reuse',C,'''			msg.Frames = append(msg.Frames, body)
			continue''','''			if len(body) > 0 {
				msg.Frames = append(msg.Frames, body)
			}
			continue''')
m('C12','bug','decrypt one buf',C,'''		buf := new(bytes.Buffer)
		if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
			c.SetClosed()
			return msg
		}
		msg.Frames = append(msg.Frames, buf.Bytes())
''','''		if _, msg.err = c.sec.Decrypt(&secBuf, body); msg.err != nil {
			c.SetClosed()
			return msg
		}
		msg.Frames = append(msg.Frames, secBuf.Bytes())
''',C,'''		hasMore = true
		isCmd   = false
''','''		hasMore = true
		isCmd   = false
		secBuf  bytes.Buffer
''')
m('C12','bug','cmd name off',G,'cmd.Name = string(data[1 : n+1])','cmd.Name = string(data[1 : n])')
m('C12','bug','recvcmd accepts msg',C,'''	if !msg.isCmd() {
		return cmd, ErrBadFrame
	}
''','')
m('C12','bug','copyn short',C,'_, err := io.CopyN(&buf, r, int64(size))','_, err := io.CopyN(&buf, r, int64(size-1))')
m('C12','same','single write',C,'''	if _, err := c.rw.Write(hdr[:hsz]); err != nil {
		return err
	}

	if _, err := c.rw.Write(body); err != nil {
		return err
	}

	return nil''','''	out := make([]byte, 0, hsz+size)
	out = append(out, hdr[:hsz]...)
	out = append(out, body...)
	_, err := c.rw.Write(out)
	return err''')
HDR='''		hdr = [8 + 1]byte{flag}
		hsz int
	)

	// Write out the message itself
	if isLong {
		hsz = 9
		binary.BigEndian.PutUint64(hdr[1:], uint64(size))
	} else {
		hsz = 2
		hdr[1] = uint8(size)
	}
	if _, err := c.rw.Write(hdr[:hsz]); err != nil {'''
m('C12','same','hdr helper',C,'	var (\n'+HDR,'	if _, err := c.rw.Write(frameHeader(flag, size)); err != nil {',C,'','''
func frameHeader(flag byte, size int) []byte {
	if size > 255 {
		hdr := make([]byte, 9)
		hdr[0] = flag
		binary.BigEndian.PutUint64(hdr[1:], uint64(size))
		return hdr
	}
	return []byte{flag, byte(size)}
}
''')
m('C12','same','append uint64',C,'	var (\n'+HDR,'''	hdr := []byte{flag}
	if isLong {
		hdr = binary.BigEndian.AppendUint64(hdr, uint64(size))
	} else {
		hdr = append(hdr, uint8(size))
	}
	if _, err := c.rw.Write(hdr); err != nil {''')
m('C12','same','flag or',C,'''	if isLong {
		flag ^= isLongBitFlag
	}

	if isCommand {
		flag ^= isCommandBitFlag
	}
''','''	if isCommand {
		flag |= isCommandBitFlag
	}
	if isLong {
		flag |= isLongBitFlag
	}
''')
m('C12','same','more via last',C,SM,'''	nframes := len(msg.Frames)
	last := nframes - 1
	for i := 0; i < nframes; i++ {
		frame := msg.Frames[i]
		flag := byte(hasMoreBitFlag)
		if i == last {
			flag = 0
		}
		err := c.send''')
m('C12','same','buffers make',C,'''	var buffers net.Buffers

	nframes''','''	buffers := make(net.Buffers, 0, 2*len(msg.Frames))

	nframes''')
m('C12','same','bytes buffer',C,'''		buffers = append(buffers, hdr[:hsz], frame)
	}

	if _, err := buffers.WriteTo(c.rw); err != nil {''','''		buffers.Write(hdr[:hsz])
		buffers.Write(frame)
	}

	if _, err := buffers.WriteTo(c.rw); err != nil {''',C,'	var buffers net.Buffers','	var buffers bytes.Buffer')
m('C12','same','read header helper',C,'''		// Read out the header
		_, msg.err = io.ReadFull(c.rw, header[:])
		if msg.err != nil {''','''		// Read out the header
		if msg.err = c.fill(header[:]); msg.err != nil {''',C,'''			_, msg.err = io.ReadFull(c.rw, longHdr[1:])
			if msg.err''','''			if msg.err = c.fill(longHdr[1:]); msg.err''',C,'','''
func (c *Conn) fill(p []byte) error {
	_, err := io.ReadFull(c.rw, p)
	return err
}
''')
m('C12','same','loop for true',C,'''	for hasMore {

		// Read''','''	for {

		// Read''',C,'''			msg.Frames = append(msg.Frames, body)
			continue''','''			msg.Frames = append(msg.Frames, body)
			if hasMore {
				continue
			}
			if isCmd {
				msg.Type = CmdMsg
			}
			return msg''',C,'''		msg.Frames = append(msg.Frames, buf.Bytes())
	}''','''		msg.Frames = append(msg.Frames, buf.Bytes())
		if !hasMore {
			break
		}
	}''')
m('C12','same','cmd cut',G,'''	n := int(data[0])
	if n > len(data)-1 {
		return ErrBadCmd
	}
	cmd.Name = string(data[1 : n+1])
	cmd.Body = data[n+1:]''','''	n, rest := int(data[0]), data[1:]
	if len(rest) < n {
		return ErrBadCmd
	}
	cmd.Name, cmd.Body = string(rest[:n]), rest[n:]''')
m('C12','same','cmd make copy',G,'''	buf := make([]byte, 0, 1+n+len(cmd.Body))
	buf = append(buf, byte(n))
	buf = append(buf, []byte(cmd.Name)...)
	buf = append(buf, cmd.Body...)
	return buf, nil''','''	buf := make([]byte, 1+n+len(cmd.Body))
	buf[0] = byte(n)
	copy(buf[1:], cmd.Name)
	copy(buf[1+n:], cmd.Body)
	return buf, nil''')
m('C12','same','cmd buffer',G,'''	buf := make([]byte, 0, 1+n+len(cmd.Body))
	buf = append(buf, byte(n))
	buf = append(buf, []byte(cmd.Name)...)
	buf = append(buf, cmd.Body...)
	return buf, nil''','''	var buf bytes.Buffer
	buf.WriteByte(byte(n))
	buf.WriteString(cmd.Name)
	buf.Write(cmd.Body)
	return buf.Bytes(), nil''')
