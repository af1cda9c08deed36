M = []
def bug(name, *edits): M.append(('C13', 'bug', name, list(edits)))
def same(name, *edits): M.append(('C13', 'same', name, list(edits)))
C='conn.go'
SM='''	c.wmu.Lock()
	err := c.sendMsg(msg)
	c.wmu.Unlock()
	c.checkIO(err)
	return err
}
'''
SC='''	c.wmu.Lock()
	err = c.send(true, buf, 0)
	c.wmu.Unlock()
'''
LP='''		err := c.send(false, frame, flag)
		if err != nil {'''
bug('cmd-unlocked',(C,SC,'	err = c.send(true, buf, 0)\n'))
bug('msg-unlocked',(C,SM,SM.replace('	c.wmu.Lock()\n','').replace('	c.wmu.Unlock()\n','')))
bug('per-frame',(C,SM,SM.replace('	c.wmu.Lock()\n','').replace('	c.wmu.Unlock()\n','')),
 (C,LP,LP.replace('		err :=','		c.wmu.Lock()\n		err :=').replace('		if err','		c.wmu.Unlock()\n		if err')),
 (C,'	if _, err := buffers.WriteTo(c.rw); err','	c.wmu.Lock()\n	defer c.wmu.Unlock()\n	if _, err := buffers.WriteTo(c.rw); err'),
 (C,'		_, err := c.rw.Write(frame)','		c.wmu.Lock()\n		_, err := c.rw.Write(frame)\n		c.wmu.Unlock()'))
bug('yield',(C,LP,'		if i > 0 && i%64 == 0 {\n			c.wmu.Unlock()\n			c.wmu.Lock()\n		}\n'+LP))
bug('otherlock',(C,'	wmu sync.Mutex','	cmu sync.Mutex\n	wmu sync.Mutex'),(C,SC,SC.replace('wmu','cmu')))
bug('rlock',(C,SM,SM.replace('wmu.Lock','mu.RLock').replace('wmu.Unlock','mu.RUnlock')),(C,SC,SC.replace('wmu','mu')))
bug('trylock',(C,SM,SM.replace('	c.wmu.Lock()\n','	if c.wmu.TryLock() {\n		defer c.wmu.Unlock()\n	}\n').replace('	c.wmu.Unlock()\n','')))
bug('copylock',(C,SM,SM.replace('	c.wmu.Lock()','	var wmu sync.Mutex\n	wmu.Lock()').replace('	c.wmu.Unlock()','	wmu.Unlock()')))
bug('stream-unlocked',(C,SM,'''	if c.typ == Stream {
		err := c.sendStream(msg)
		c.checkIO(err)
		return err
	}
'''+SM))
bug('single-fast',(C,SM,'''	if len(msg.Frames) == 1 {
		err := c.sendMsg(msg)
		c.checkIO(err)
		return err
	}
'''+SM))
bug('goroutine',(C,SM,SM.replace('	err := c.sendMsg(msg)\n','''	errc := make(chan error, 1)
	go func() { errc <- c.sendMsg(msg) }()
	var err error
	select {
	case err = <-errc:
	default:
	}
''')))
bug('async-pong',(C,'		msg.err = c.SendCmd(CmdPong, nil)','		cmd := Cmd{Name: CmdPong}\n		raw, _ := cmd.marshalZMTP()\n		msg.err = c.send(true, raw, 0)'))
bug('early-unlock-body',(C,'	if _, err := c.rw.Write(body); err','	if size > 1<<20 {\n		c.wmu.Unlock()\n		defer c.wmu.Lock()\n	}\n	if _, err := c.rw.Write(body); err'))
bug('write-unlocked',(C,'	c.wmu.Lock()\n	n, err := c.rw.Write(p)\n	c.wmu.Unlock()','	n, err := c.rw.Write(p)'))
bug('helper-outside',('msgio.go','			return ww.SendMsg(msg)','			return ww.sendMsg(msg)'))
bug('encrypt-direct',(C,SC,'''	if c.sec.Type() == NullSecurity {
		_, err = c.sec.Encrypt(c.rw, nil)
	}
'''+SC))
same('defer',(C,SM,'''	err := c.sendLocked(msg)
	c.checkIO(err)
	return err
}

func (c *Conn) sendLocked(msg Msg) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	return c.sendMsg(msg)
}
'''))
same('closure',(C,SC,'''	err = func() error {
		c.wmu.Lock()
		defer c.wmu.Unlock()
		return c.send(true, buf, 0)
	}()
'''))
same('rename',(C,'	wmu sync.Mutex','	out struct{ sync.Mutex }'),(C,SC,SC.replace('wmu','out')),(C,SM,SM.replace('wmu','out')),(C,'	c.wmu.Lock()\n	n, err := c.rw.Write(p)\n	c.wmu.Unlock()','	c.out.Lock()\n	n, err := c.rw.Write(p)\n	c.out.Unlock()'))
same('joined',(C,'''	if _, err := c.rw.Write(hdr[:hsz]); err != nil {
		return err
	}

	if _, err := c.rw.Write(body); err != nil {
		return err
	}

	return nil
''','''	raw := make([]byte, 0, hsz+len(body))
	raw = append(raw, hdr[:hsz]...)
	raw = append(raw, body...)
	_, err := c.rw.Write(raw)
	return err
'''))
same('helper',(C,'''	if _, err := c.rw.Write(hdr[:hsz]); err != nil {
		return err
	}

	if _, err := c.rw.Write(body); err != nil {
		return err
	}

	return nil
}
''','''	return writeAll(c.rw, hdr[:hsz], body)
}

func writeAll(w io.Writer, bs ...[]byte) error {
	for _, b := range bs {
		if _, err := w.Write(b); err != nil {
			return err
		}
	}
	return nil
}
'''))
same('helper-lock',(C,SM,SM.replace('	c.wmu.Lock()\n	err := c.sendMsg(msg)\n	c.wmu.Unlock()\n','	err := c.exclusively(func() error { return c.sendMsg(msg) })\n')+'''
func (c *Conn) exclusively(f func() error) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	return f()
}
'''),(C,SC,'	err = c.exclusively(func() error { return c.send(true, buf, 0) })\n'))
bug('timer',(C,SM,SM.replace('	err := c.sendMsg(msg)\n','''	var err error
	time.AfterFunc(time.Second, func() { _ = c.sendMsg(msg) })
''')),(C,'	"sync/atomic"\n','	"sync/atomic"\n	"time"\n'))
