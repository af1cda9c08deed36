M = []
def m(check, kind, name, *ed):
    M.append((check, kind, name, [tuple(ed[i:i+3]) for i in range(0, len(ed), 3)]))
P='pub.go'
m('C28','bug','neg hwm',P,'if !ok || hwm < 0 {','if !ok {')
m('C28','bug','hwm-1',P,'if !ok || hwm < 0 {','if !ok || hwm < -1 {')
m('C28','bug','panic assert',P,'hwm, ok := value.(int)\n\tif !ok || hwm < 0 {','hwm := value.(int)\n\tif hwm < 0 {')
m('C28','bug','early set',P,'''	err := pub.sck.SetOption(name, value)
	if err != nil {
		return err
	}

	w := pub''','''	w := pub''', P,'''	hwm, ok := value.(int)
	if''','''	if err := pub.sck.SetOption(name, value); err != nil {
		return err
	}
	hwm, ok := value.(int)
	if''')
m('C28','bug','other name',P,'	if name != OptionHWM {','	if name != OptionHWM && name != OptionIdentity {')
m('C28','same','switch',P,'''	if name != OptionHWM {
		return ErrBadProperty
	}

	hwm, ok := value.(int)
	if !ok || hwm < 0 {
		return ErrBadProperty
	}
''','''	var hwm int
	switch v := value.(type) {
	case int:
		hwm = v
	default:
		return ErrBadProperty
	}
	if !(name == OptionHWM && hwm >= 0) {
		return fmt.Errorf("bad option %s: %w", name, ErrBadProperty)
	}
''')
m('C28','same','helper',P,'''	hwm, ok := value.(int)
	if !ok || hwm < 0 {
		return ErrBadProperty
	}
''','''	hwm, err := checkHWM(value)
	if err != nil {
		return err
	}
''',P,'	err := pub.sck.SetOption(name, value)','	err = pub.sck.SetOption(name, value)',P,'','''
func checkHWM(value interface{}) (int, error) {
	if hwm, ok := value.(int); ok && hwm >= 0 {
		return hwm, nil
	}
	return 0, ErrBadProperty
}
''')
X='proxy.go'
m('C31','bug','same dir',X,'if err := frontend.Send(msg)','if err := backend.Send(msg)')
m('C31','bug','ignore send err',X,'''			if err := backend.Send(msg); err != nil {
				errChan <- err
				return
			}''','''			if err := backend.Send(msg); err != nil {
				continue
			}''')
m('C31','bug','unbuffered',X,'make(chan error, 2)','make(chan error)')
m('C31','bug','buffer1',X,'make(chan error, 2)','make(chan error, 1)')
m('C31','bug','drop type',X,'			if err := backend.Send(msg); err','			if len(msg.Frames) == 0 {\n				continue\n			}\n			if err := backend.Send(msg); err')
m('C31','bug','modify',X,'			if err := backend.Send(msg); err','			if len(msg.Frames) > 1 {\n				msg.Frames = msg.Frames[1:]\n			}\n			if err := backend.Send(msg); err')
m('C31','bug','newmsg',X,'			if err := backend.Send(msg); err','			if err := backend.Send(NewMsg(msg.Bytes())); err')
m('C31','bug','go send',X,'''			if err := backend.Send(msg); err != nil {
				errChan <- err
				return
			}''','''			go func() {
				if err := backend.Send(msg); err != nil {
					errChan <- err
				}
			}()''')
m('C31','bug','retnil',X,'return <-errChan','if err := <-errChan; err != ErrClosedConn {\n		return err\n	}\n	return nil')
m('C31','same','helper',X,'''	go func() {
		for {
			msg, err := frontend.Recv()
			if err != nil {
				errChan <- err
				return
			}
			if err := backend.Send(msg); err != nil {
				errChan <- err
				return
			}
		}
	}()
''','''	go forward(frontend, backend, errChan)
''',X,'''	go func() {
		for {
			msg, err := backend.Recv()
			if err != nil {
				errChan <- err
				return
			}
			if err := frontend.Send(msg); err != nil {
				errChan <- err
				return
			}
		}
	}()
''','''	go func() { forward(backend, frontend, errChan) }()
''',X,'','''
func pump(from, to Socket) error {
	for {
		msg, err := from.Recv()
		if err != nil {
			return err
		}
		if err = to.Send(msg); err != nil {
			return err
		}
	}
}

func forward(from, to Socket, errc chan<- error) { errc <- pump(from, to) }
''')
m('C31','same','loop pairs',X,'''	// Frontend to backend''','''	for _, d := range [][2]Socket{{frontend, backend}, {backend, frontend}} {
		from, to := d[0], d[1]
		go func() {
			var err error
			for err == nil {
				var msg Msg
				if msg, err = from.Recv(); err == nil {
					err = to.Send(msg)
				}
			}
			errChan <- err
		}()
	}
	return <-errChan
}

func proxyOld(frontend, backend Socket) error {
	errChan := make(chan error, 2)
''')
T='transport.go'
m('C33','bug','dup overwrite',T,'''	if old, dup := ts.db[name]; dup {
		return''','''	if old, dup := ts.db[name]; dup && old != nil && name == "" {
		return''')
m('C33','bug','set before',T,'''	if old, dup := ts.db[name]; dup {''','''	old, dup := ts.db[name]
	ts.db[name] = trans
	if dup {''')
m('C33','bug','ipc tcp',T,'transport.New("unix")','transport.New("tcp")')
m('C33','bug','udp tcp',T,'"udp", transport.New("udp")','"udp", transport.New("tcp")')
m('C33','bug','listen tcp','transport/transport.go','net.Listen(trans.prot, addr)','net.Listen("tcp", addr)')
m('C33','same','get switch',T,'''	v, ok := ts.db[name]
	return v, ok''','''	if v, ok := ts.db[name]; ok {
		return v, true
	}
	return nil, false''')
m('C33','same','add inv',T,'''	if old, dup := ts.db[name]; dup {
		return fmt.Errorf("zmq4: duplicate transport %q (%T)", name, old)
	}

	ts.db[name] = trans
	return nil''','''	old, dup := ts.db[name]
	if !dup {
		ts.db[name] = trans
		return nil
	}
	return fmt.Errorf("zmq4: duplicate transport %q (%T)", name, old)''')
G='internal/errgroup/errgroup.go'
m('C34','bug','unbuf',G,'make(chan error, 1)','make(chan error)')
m('C34','bug','no first check',G,'''		select {
		case <-g.ctx.Done():
			return g.ctx.Err()
		default:
		}
''','')
m('C34','bug','nil on cancel',G,'''			return err
		case <-g.ctx.Done():
			return g.ctx.Err()''','''			return err
		case <-g.ctx.Done():
			return nil''')
m('C34','bug','direct',G,'''		select {
		case err := <-ch:
			return err
		case <-g.ctx.Done():
			return g.ctx.Err()
		}''','''		return <-ch''')
m('C34','bug','swallow',G,'''		case err := <-ch:
			return err''','''		case err := <-ch:
			if err == context.Canceled {
				return nil
			}
			return err''')
m('C34','bug','try nowrap',G,'TryGo(g.wrap(f))','TryGo(f)')
m('C34','same','err',G,'''		select {
		case <-g.ctx.Done():
			return g.ctx.Err()
		default:
		}
''','''		if err := g.ctx.Err(); err != nil {
			return err
		}
''')
m('C34','same','named',G,'''		go func() {
			ch <- f()
		}()
''','''		run := func() {
			err := f()
			ch <- err
		}
		go run()
''')
A='auth.go'
m('C35','bug','swap',A,'publicKey = hex.EncodeToString(secret.PublicKey().Bytes())','publicKey = hex.EncodeToString(secret.Bytes())')
m('C35','bug','derive echo',A,'return hex.EncodeToString(secret.PublicKey().Bytes()), nil','_ = secret\n\treturn secretKey, nil')
m('C35','bug','const rand',A,'ecdh.X25519().GenerateKey(rand.Reader)','ecdh.X25519().GenerateKey(strings.NewReader("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"))',A,'"fmt"','"fmt"\n\t"strings"',A,'\t"crypto/rand"\n','')
m('C35','bug','prefix',A,'return hex.EncodeToString(secret.PublicKey().Bytes()), nil','return hex.EncodeToString(append(secret.PublicKey().Bytes(), raw[0])), nil')
m('C35','same','helper',A,'publicKey = hex.EncodeToString(secret.PublicKey().Bytes())','publicKey = pubHex(secret)',A,'return hex.EncodeToString(secret.PublicKey().Bytes()), nil','return pubHex(secret), nil',A,'','\nfunc pubHex(k *ecdh.PrivateKey) string {\n	b := k.PublicKey().Bytes()\n	return hex.EncodeToString(b)\n}\n')
R='protocol.go'
