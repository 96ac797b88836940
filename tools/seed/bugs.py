# Planted bugs: bug(id, property, needs, what it breaks, [(file, old, new)...], body of TestDemo, race)

bug("connack-0x80", "C14", "a server that refuses the connection with reason 0x80 exactly (unspecified error)",
 "CONNACK with reason 0x80 counts as success: the client says it is connected although the server refused it",
 [(CL, "if connack.ReasonCode >= 128 {", "if connack.ReasonCode > 128 {")], '''
	p := newPeer(t)
	err := p.connect(nil, 0, 0x80, 0)
	if err == nil || p.client.IsConnected() {
		t.Fatalf("refused with 0x80: Connect returned %v, connected=%v", err, p.client.IsConnected())
	}
''')

bug("close-two-filters", "C18", "an event channel bound to two filters that is closed by the application, followed by a message for the other filter",
 "closing an event channel removes only one of its topic bindings; the next message for another one is sent on a closed channel (panic)",
 [(CL, """		if topicChan.id == channel.id {
			delete(c.topicChans, key)
		}
	}
}
""", """		if topicChan.id != channel.id {
			continue
		}
		delete(c.topicChans, key)
		break
	}
}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	ch := p.client.CreateEventChannel(4)
	p.poll()
	go func() {
		b := p.expect(8)
		p.pkt(0x90, b[1], b[2], 0, 0, 0)
	}()
	var ts []mqtt.Topic
	for _, f := range []string{"a", "b"} {
		x := mqtt.Topic{}
		x.SetFilter(f)
		x.SetEventChannel(ch)
		ts = append(ts, x)
	}
	if err := p.client.Subscribe(within(5*time.Second), ts); err != nil {
		t.Fatal(err)
	}
	p.client.CloseEventChannel(ch)
	mon := p.client.CreateEventChannel(8)
	p.pkt(0x30, publish("a", 0, "x")...)
	p.pkt(0x30, publish("b", 0, "x")...)
	for i := 0; i < 2; i++ {
		select {
		case <-mon.C:
		case <-time.After(5 * time.Second):
			t.Fatal("no event")
		}
	}
''')

bug("uint32-short-read", "C03", "a PUBLISH with a four-byte property whose bytes arrive in two segments",
 "four-byte integers are read with a single Read, so a value that is split by the transport is read wrongly and the stream position is lost",
 [(PR + "uint32.go", """	if err = binary.Read(r, binary.BigEndian, (*uint32)(p)); err != nil {
		return 0, err
	}
	return 4, nil
""", """	var buf [4]byte
	if _, err = r.Read(buf[:]); err != nil {
		return 0, err
	}
	*p = PrimitiveUint32(binary.BigEndian.Uint32(buf[:]))
	return 4, nil
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	mon := p.client.CreateEventChannel(8)
	p.poll()
	body := append(str("t"), 5, 2, 1, 2, 3, 4)
	body = append(body, "hello"...)
	pkt := append([]byte{0x30, byte(len(body))}, body...)
	p.send(pkt[:9]...)
	p.send(pkt[9:]...)
	select {
	case e := <-mon.C:
		pub, ok := e.Data.(*packets.Publish)
		if !ok || pub.MessageExpiryInterval != 0x01020304 || string(pub.Payload) != "hello" {
			t.Fatalf("wrong event %+v", e.Data)
		}
	case <-time.After(3 * time.Second):
		t.Fatalf("no event (Poll: %v)", p.pollErr())
	}
''')

bug("pingresp-from-deadline", "C10", "a client that pings more often than the interval demands, or a PINGRESP much later than the interval, over several intervals",
 "each PINGRESP moves the deadline by one interval instead of to twice the interval from now: pings slower than the interval time out early, faster ones delay the detection",
 [(CL, """		// Extend the ping response deadline
		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
""", """		// Extend the ping response deadline
		c.pingRespDeadline = c.pingRespDeadline.Add(c.keepAliveInterval)
""")], '''
	p := newPeer(t)
	if err := p.connect(&packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 1}); err != nil {
		t.Fatal(err)
	}
	p.poll()
	for i := 0; i < 20; i++ {
		if err := p.client.KeepAlive(); err != nil {
			t.Fatal(err)
		}
		p.expect(12)
		p.pkt(0xd0)
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(3500 * time.Millisecond) // silence for more than twice the interval
	var rc mqtt.ReasonCode
	if err := p.pollErr(); !errors.As(err, &rc) || byte(rc) != 0x8d {
		t.Fatalf("3.5 s of silence with an interval of 1 s: Poll returned %v", err)
	}
''')

bug("server-keepalive-deadline", "C10", "a server that answers CONNECT with a longer Server Keep Alive than the client asked for, and no PINGRESP before the client's own interval has passed twice",
 "the first keep-alive deadline is computed from the interval in CONNECT instead of the one the server prescribed",
 [(CL, """	c.mutex.Lock()

	// Handle server keep alive specification
	if connack.HasServerKeepAlive {""", """	c.mutex.Lock()

	// Set the ping response deadline
	c.pingRespDeadline = time.Now().Add(time.Second * time.Duration(packet.KeepAlive) * 2)

	// Handle server keep alive specification
	if connack.HasServerKeepAlive {"""),
  (CL, """	// Set the ping response deadline
	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)

	// Need to keep""", """	// Need to keep""")], '''
	p := newPeer(t)
	err := p.connect(&packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 1}, 0, 0, 3, 0x13, 0, 60)
	if err != nil {
		t.Fatal(err)
	}
	if k := p.client.KeepAliveInterval(); k != 60*time.Second {
		t.Fatalf("interval %v", k)
	}
	time.Sleep(2300 * time.Millisecond)
	if err := p.client.Poll(within(10 * time.Millisecond)); err != nil {
		t.Fatalf("Poll after 2.3 s with an interval of 60 s: %v", err)
	}
''')

bug("puback-dup-quota", "C08", "QoS 1 messages that the server sends with the DUP flag (redelivery), as many as the client's Receive Maximum",
 "the receive slot of a QoS 1 message with the DUP flag is never given back, so traffic within the limit is refused with 0x93 later",
 [(CL, """	c.mutex.Lock()
	c.receiveQuota++
	c.mutex.Unlock()

	// No response to wait for
""", """	if !publish.Duplicate {
		c.mutex.Lock()
		c.receiveQuota++
		c.mutex.Unlock()
	}

	// No response to wait for
""")], '''
	p := newPeer(t)
	err := p.connect(&packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 60, ReceiveMaximum: 2})
	if err != nil {
		t.Fatal(err)
	}
	p.poll()
	for i := 1; i <= 4; i++ {
		p.pkt(0x3a, publish("t", uint16(i), "x")...)
		if b := p.expect(4); id16(b, 1) != uint16(i) {
			t.Fatalf("PUBACK %x", b)
		}
	}
''')

bug("storage-drop-unlocked", "C19", "two concurrent Drop calls (or Drop and Store) on the memory storage, interleaved between the search and the removal",
 "Drop searches for the entry under the lock, releases it, and removes the position it found: a concurrent Drop shifts the entries, so another entry is lost",
 [(ST, """func (s *Storage) Drop(identifier uint16) (err error) {
	s.mutex.Lock()
	defer s.mutex.Unlock()

	for i, e := range s.store {
		if e.id == identifier {
			// Remove the entry by not including it in the re-slice domains.
			s.store = append(s.store[:i], s.store[i+1:]...)
			return
		}
	}

	// No entry was found
	return storage.ErrNoEntry
}""", """func (s *Storage) Drop(identifier uint16) (err error) {
	i := s.find(identifier)
	if i < 0 {
		// No entry was found
		return storage.ErrNoEntry
	}

	s.mutex.Lock()
	defer s.mutex.Unlock()

	// Remove the entry by not including it in the re-slice domains.
	s.store = append(s.store[:i], s.store[i+1:]...)
	return
}

// find returns the position of the entry with the identifier, or -1 if there is none.
func (s *Storage) find(identifier uint16) int {
	s.mutex.Lock()
	defer s.mutex.Unlock()

	for i, e := range s.store {
		if e.id == identifier {
			return i
		}
	}
	return -1
}""")], '''
	bad := false
	for round := 0; round < 400 && !bad; round++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					bad = true
				}
			}()
			s := memory.NewStorage()
			const n = 200
			for i := 1; i <= 2*n; i++ {
				s.Store(uint16(i), i)
			}
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							bad = true
						}
					}()
					for i := 1 + g; i <= n; i += 4 {
						s.Drop(uint16(i))
					}
				}(g)
			}
			wg.Wait()
			for i := n + 1; i <= 2*n && !bad; i++ {
				if v, err := s.Get(uint16(i)); err != nil || v != i {
					bad = true
				}
			}
			for i := 1; i <= n && !bad; i++ {
				if _, err := s.Get(uint16(i)); err == nil {
					bad = true
				}
			}
		}()
	}
	if bad {
		t.Fatal("an entry that nobody dropped is gone, or one that was dropped is there")
	}
''')

bug("dup-qos1-only", "C20", "a QoS 2 message that is published again after a reconnect",
 "the DUP flag is only written for QoS 1",
 [(P + "publish.go", """	if p.Duplicate {
		flags |= 1 << 3
	}

	p.Header.SetType(PUBLISH)""", """	if p.Duplicate && p.QoS == QoS1 {
		flags |= 1 << 3
	}

	p.Header.SetType(PUBLISH)""")], '''
	st := memory.NewStorage()
	p := newPeer(t)
	p.client.SetStorage(st)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	pub := &packets.Publish{QoS: packets.QoS2, Topic: "t", Payload: []byte("x")}
	if err := p.client.Publish(within(time.Second), pub); err != nil {
		t.Fatal(err)
	}
	p.expect(3)
	p.c.Close()
	q := newPeer(t)
	q.client.SetStorage(st)
	if err := q.connect(nil, 1, 0, 0); err != nil {
		t.Fatal(err)
	}
	again := &packets.Publish{QoS: packets.QoS2, Topic: "t", Payload: []byte("x"), PacketIdentifier: pub.PacketIdentifier, Duplicate: true}
	if err := q.client.Publish(within(time.Second), again); err != nil {
		t.Fatal(err)
	}
	if b := q.expect(3); b[0]&8 == 0 {
		t.Fatalf("DUP is not set: %x", b)
	}
''')

bug("retain-handling-bits", "C02", "an application that sets the retain handling option of a topic twice (0 or 1 after 2)",
 "SetRetainHandling does not clear the upper bit of the earlier setting, so the option on the wire is not the one that was set last",
 [(P + "topic.go", """	t.options &= ^primitives.PrimitiveByte(1 << 5)
	t.options &= ^primitives.PrimitiveByte(1 << 4)
	if handling""", """	t.options &= ^primitives.PrimitiveByte(1 << 4)
	if handling""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	x := mqtt.Topic{}
	x.SetFilter("a")
	x.SetRetainHandling(packets.DoNotSendRetainedMessages)
	x.SetRetainHandling(packets.SendAtTimeOfUniqueSubscribe)
	go p.client.Subscribe(within(200*time.Millisecond), []mqtt.Topic{x})
	if b := p.expect(8); b[len(b)-1]>>4 != 1 {
		t.Fatalf("options %x", b[len(b)-1])
	}
''')

bug("unsuback-nil-map", "C12", "an UNSUBACK with a user property",
 "the map of user properties of UNSUBACK is not created before it is written to: Poll panics",
 [(P + "unsuback.go", """			if u.UserProperties == nil {
				u.UserProperties = make(primitives.PrimitiveStringMap)
			}
""", "")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	go func() {
		b := p.expect(10)
		p.pkt(0xb0, b[1], b[2], 7, 0x26, 0, 1, 'k', 0, 1, 'v', 0)
	}()
	p.poll()
	if err := p.client.Unsubscribe(within(3*time.Second), []string{"a"}); err != nil {
		t.Fatal(err)
	}
''')

bug("channel-id-unlocked", "C13", "two goroutines that create event channels at the same time",
 "the channel counter is read and advanced outside of the lock: a data race, and two channels may get one identity",
 [(CL, """func (c *Client) CreateEventChannel(n int) EventChannel {
	c.eventMutex.Lock()
	defer c.eventMutex.Unlock()

	if n <= 0 {""", """func (c *Client) CreateEventChannel(n int) EventChannel {
	id := c.evChanIdCounter
	c.evChanIdCounter++

	c.eventMutex.Lock()
	defer c.eventMutex.Unlock()

	if n <= 0 {"""),
  (CL, "		id:   c.evChanIdCounter,\n", "		id:   id,\n"),
  (CL, "	c.eventChans[c.evChanIdCounter] = result\n	c.openChans[c.evChanIdCounter] = result\n	c.evChanIdCounter++\n", "	c.eventChans[id] = result\n	c.openChans[id] = result\n")], '''
	p := newPeer(t)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				p.client.CreateEventChannel(1)
			}
		}()
	}
	wg.Wait()
''', race=True)

bug("eof-is-no-data", "C16", "the server closes the network connection between two packets",
 "the end of the stream is taken for the absence of data: Poll returns nil for ever and the client stays connected",
 [(CL, """errors.Is(err, os.ErrDeadlineExceeded) {
		// No incoming data
		return nil
	} else if err != nil {
		// Some other error occurred. Return it
		c.closeConnection()
		return
	}
""", """errors.Is(err, os.ErrDeadlineExceeded) || errors.Is(err, io.EOF) {
		// No incoming data
		return nil
	} else if err != nil {
		// Some other error occurred. Return it
		c.closeConnection()
		return err
	}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	go func() {
		time.Sleep(100 * time.Millisecond)
		p.c.Close()
	}()
	err := p.pollOnce()
	if err == nil || p.client.IsConnected() {
		t.Fatalf("after the end of the stream: Poll %v, connected=%v", err, p.client.IsConnected())
	}
''')

bug("pubrel-stale-marker", "C06", "a QoS 2 message received on one connection and released on the next (crash or reconnect in between), then a new message with the same identifier",
 "the stored marker is only removed if the message was received on this connection; after a reconnect it stays, and a later message with that identifier is swallowed as a duplicate",
 [(CL, """		if err = c.dropFromStorage(pubrel.PacketIdentifier.Value(), true); err != nil {
			c.mutex.Unlock()
			return err
		}

		_, isReceived := c.received[pubrel.PacketIdentifier.Value()]
		delete(c.received, pubrel.PacketIdentifier.Value())
		c.mutex.Unlock()
""", """		_, isReceived := c.received[pubrel.PacketIdentifier.Value()]
		if isReceived {
			if err = c.dropFromStorage(pubrel.PacketIdentifier.Value(), true); err != nil {
				c.mutex.Unlock()
				return err
			}
			delete(c.received, pubrel.PacketIdentifier.Value())
		}
		c.mutex.Unlock()
"""), (CL, """		// Increment receive quota counter
		if isReceived {
			c.mutex.Lock()
			c.receiveQuota++
			c.mutex.Unlock()
		}
""", """		c.mutex.Lock()
		if isReceived {
			// Allow another publish
			c.receiveQuota++
		}
		c.mutex.Unlock()
""")], '''
	st := memory.NewStorage()
	p := newPeer(t)
	p.client.SetStorage(st)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	p.poll()
	p.pkt(0x34, publish("t", 7, "one")...)
	p.expect(5)
	p.c.Close()
	q := newPeer(t)
	q.client.SetStorage(st)
	if err := q.connect(nil, 1, 0, 0); err != nil {
		t.Fatal(err)
	}
	q.poll()
	q.pkt(0x62, 0, 7)
	q.expect(7)
	q.c.Close()
	r := newPeer(t)
	r.client.SetStorage(st)
	if err := r.connect(nil, 1, 0, 0); err != nil {
		t.Fatal(err)
	}
	mon := r.client.CreateEventChannel(8)
	r.poll()
	r.pkt(0x34, publish("t", 7, "two")...)
	r.expect(5)
	select {
	case <-mon.C:
	case <-time.After(2 * time.Second):
		t.Fatal("the new message with the released identifier was acknowledged but not delivered")
	}
''')

bug("suback-shared", "C15", "two acknowledgements of Subscribe that are processed before the first waiting call looks at its own",
 "Poll decodes every SUBACK into one shared structure, so a call can read the reason codes of another call's acknowledgement",
 [(CL, "	rngFn func() uint32\n", "	rngFn func() uint32\n\n	// suback is reused in order to avoid an allocation\n	suback packets.Suback\n"),
  (CL, "		suback := &packets.Suback{Header: header}\n", "		c.suback = packets.Suback{Header: header}\n		suback := &c.suback\n")], '''
	for round := 0; round < 300; round++ {
		p := newPeer(t)
		if err := p.connect(nil); err != nil {
			t.Fatal(err)
		}
		errs := make(chan error, 2)
		for _, f := range []string{"ok", "no"} {
			x := mqtt.Topic{}
			x.SetFilter(f)
			go func() {
				err := p.client.Subscribe(within(5*time.Second), []mqtt.Topic{x})
				if x.Filter() == "ok" && err != nil {
					errs <- fmt.Errorf("granted, but: %v", err)
				} else if x.Filter() == "no" && err == nil {
					errs <- fmt.Errorf("refused, but nil")
				} else {
					errs <- nil
				}
			}()
		}
		var all []byte
		for i := 0; i < 2; i++ {
			b := p.expect(8)
			code := byte(0)
			if strings.Contains(string(b), "no") {
				code = 0x87
			}
			all = append(all, 0x90, 4, b[1], b[2], 0, code)
		}
		p.poll()
		p.send(all...)
		for i := 0; i < 2; i++ {
			if err := <-errs; err != nil {
				t.Fatal(err)
			}
		}
	}
''', race=True)

bug("publish-long-properties", "C01", "a PUBLISH whose properties take 128 bytes or more",
 "the remaining length of PUBLISH assumes that the property length is encoded in one byte, so the stream is out of step afterwards",
 [(P + "publish.go", "	variableHeaderLen += propertiesLen.Length(false) + propertiesLen\n", "	// Account for the properties and their length\n	variableHeaderLen += 1 + propertiesLen\n")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	pub := &packets.Publish{Topic: "t", Payload: []byte("payload"), ContentType: primitives.PrimitiveString(strings.Repeat("c", 200))}
	if err := p.client.Publish(within(time.Second), pub); err != nil {
		t.Fatal(err)
	}
	if b := p.next(time.Second); b == nil || !strings.HasSuffix(string(b), "payload") {
		t.Fatalf("PUBLISH %q", b)
	}
''')

bug("quota-at-pubrec", "C07", "QoS 2 publishes beyond the server's Receive Maximum while earlier ones are between PUBREC and PUBCOMP",
 "the slot of a QoS 2 publish is given back when PUBREC arrives instead of PUBCOMP",
 [(CL, """		// Send PUBREL control packet
		pubrel := &packets.Pubrel{
			Puback: packets.Puback{
				PacketIdentifier: pubrec.PacketIdentifier,
			},
		}
""", """		// Perform rate limiting related operations
		c.releaseSendQuota(pubrec.PacketIdentifier.Value())

		// Send PUBREL control packet
		pubrel := &packets.Pubrel{Puback: packets.Puback{PacketIdentifier: pubrec.PacketIdentifier}}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil, 0, 0, 3, 0x21, 0, 1); err != nil {
		t.Fatal(err)
	}
	p.poll()
	if err := p.client.Publish(within(time.Second), &packets.Publish{QoS: packets.QoS2, Topic: "t"}); err != nil {
		t.Fatal(err)
	}
	b := p.expect(3)
	p.pkt(0x50, b[4], b[5])
	p.expect(6)
	if err := p.client.Publish(within(300*time.Millisecond), &packets.Publish{QoS: packets.QoS2, Topic: "t"}); err == nil {
		t.Fatal("a second PUBLISH was sent while the first is not complete; the Receive Maximum is 1")
	}
''')

bug("subscribe-lock-leak", "C11", "a Subscribe whose packet cannot be written (time-out or refused argument), followed by any other call",
 "Subscribe leaves the connection locked when sending fails",
 [(CL, """	var unlockConn sync.Once
	c.connMutex.Lock()
	defer unlockConn.Do(c.connMutex.Unlock)

	if !c.isConnected.Load() {
		return ErrClientNotConnected
	}

	// Set I/O deadline
	if err = c.setDeadline(deadline); err != nil {
		return err
	}

	var _topics []packets.Topic
	for index := range topics {
		_topics = append(_topics, topics[index].Topic)
	}

	// Create channel to receive the response on
	id, respChan, err := c.beginRequest()
	if err != nil {
		return err
	}
""", """	c.connMutex.Lock()

	if !c.isConnected.Load() {
		c.connMutex.Unlock()
		return ErrClientNotConnected
	}

	// Set I/O deadline
	if err = c.setDeadline(deadline); err != nil {
		c.connMutex.Unlock()
		return err
	}

	var _topics []packets.Topic
	for index := range topics {
		_topics = append(_topics, topics[index].Topic)
	}

	// Create channel to receive the response on
	id, respChan, err := c.beginRequest()
	if err != nil {
		c.connMutex.Unlock()
		return err
	}
"""), (CL, """	// Send the SUBSCRIBE control packet
	if err = c.send(subscribe); err != nil {
		c.takeRequest(id)
		return err
	}

	unlockConn.Do(c.connMutex.Unlock)
""", """	// Send the SUBSCRIBE control packet
	if err = c.send(subscribe); err != nil {
		c.takeRequest(id)
		return err
	}

	c.connMutex.Unlock()
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	x := mqtt.Topic{}
	x.SetFilter(strings.Repeat("x", 70000))
	if err := p.client.Subscribe(within(time.Second), []mqtt.Topic{x}); err == nil {
		t.Fatal("accepted")
	}
	p.call("KeepAlive", 3*time.Second, p.client.KeepAlive)
''')

bug("plus-empty-level", "C04", "a message on a topic with an empty level, and a filter with + at that level",
 "the single-level wildcard does not match an empty level",
 [(CL, """			for topicPos < len(topic) && topic[topicPos] != '/' {
				topicPos++
			}

			// Advance""", """			levelPos := topicPos
			for topicPos < len(topic) && topic[topicPos] != '/' {
				topicPos++
			}
			if levelPos == topicPos {
				// There is no level for the wildcard to match
				return false
			}

			// Advance"""),
  (CL, """			// Look around the wildcard
			if (filterPos != 0 && filter[filterPos-1] != '/') || (filterPos""", """			// Look around the single-level wildcard
			if (filterPos != 0 && filter[filterPos-1] != '/') || (filterPos""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	ch := p.client.CreateEventChannel(8)
	go func() {
		b := p.expect(8)
		p.pkt(0x90, b[1], b[2], 0, 0)
	}()
	p.poll()
	x := mqtt.Topic{}
	x.SetFilter("a/+/c")
	x.SetEventChannel(ch)
	if err := p.client.Subscribe(within(3*time.Second), []mqtt.Topic{x}); err != nil {
		t.Fatal(err)
	}
	for len(ch.C) > 0 {
		<-ch.C
	}
	p.pkt(0x30, publish("a//c", 0, "x")...)
	select {
	case <-ch.C:
	case <-time.After(2 * time.Second):
		t.Fatal("a//c was not delivered to a/+/c")
	}
''')

bug("pubrec-not-repeated", "C05", "a server that sends a QoS 2 message again because it did not see the PUBREC",
 "only the first copy of a QoS 2 message is acknowledged; a retransmission gets no PUBREC, so the exchange never completes",
 [(CL, """			c.signal(packets.PUBLISH, publish)
		}

		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
		if publish.QoS == packets.QoS1 {
			return c.sendPuback(ctx, publish)
		} else if publish.QoS == packets.QoS2 {
			if err := c.sendPubrec(ctx, publish); err != nil {
				return err
			}
		}
""", """			c.signal(packets.PUBLISH, publish)

			// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
			if publish.QoS == packets.QoS1 {
				return c.sendPuback(ctx, publish)
			} else if publish.QoS == packets.QoS2 {
				if err := c.sendPubrec(ctx, publish); err != nil {
					return err
				}
			}
		}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	p.poll()
	p.pkt(0x34, publish("t", 5, "x")...)
	p.expect(5)
	p.pkt(0x3c, publish("t", 5, "x")...)
	if b := p.next(2 * time.Second); len(b) < 3 || b[0] != 0x50 {
		t.Fatalf("no PUBREC for the retransmission: %x", b)
	}
''')

bug("pubcomp-failure-keeps", "C09", "a server that answers PUBREL with PUBCOMP 0x92 (packet identifier not found), as it does after it has lost the exchange",
 "PUBCOMP with a reason code other than success leaves the release in the storage for ever",
 [(CL, """		pubcomp := &packets.Pubcomp{}
		pubcomp.Header = header
		if err""", """		pubcomp := &packets.Pubcomp{Puback: packets.Puback{Header: header}}
		if err"""),
  (CL, """		err = c.dropFromStorage(pubcomp.PacketIdentifier.Value(), false)
		c.mutex.Unlock()

		c.signal(packets.PUBCOMP, pubcomp)""", """		if pubcomp.ReasonCode == 0 {
			err = c.dropFromStorage(pubcomp.PacketIdentifier.Value(), false)
		}
		c.mutex.Unlock()

		c.signal(packets.PUBCOMP, pubcomp)""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	st := memory.NewStorage()
	p.client.SetStorage(st)
	p.poll()
	pub := &packets.Publish{QoS: packets.QoS2, Topic: "t", Payload: []byte("x"), PacketIdentifier: 9}
	if err := p.client.Publish(within(2*time.Second), pub); err != nil {
		t.Fatal(err)
	}
	p.expect(3)
	p.pkt(0x50, 0, 9)
	p.expect(6)
	p.pkt(0x70, 0, 9, 0x92, 0)
	for i := 0; ; i++ {
		if _, err := st.Get(9); errors.Is(err, storage.ErrNoEntry) {
			return
		}
		if i == 100 {
			t.Fatal("still in the storage after PUBCOMP")
		}
		time.Sleep(20 * time.Millisecond)
	}
''')

bug("stored-made-dup", "C09", "a stored QoS 1 or QoS 2 publish that is looked at (or sent again) before it is acknowledged",
 "Publish sets the DUP flag of the packet after it was sent, and thereby changes the stored packet and the caller's",
 [(CL, """		c.releaseSendQuota(pub.PacketIdentifier.Value())
		c.mutex.Unlock()
	}

	return err
}
""", """		c.releaseSendQuota(pub.PacketIdentifier.Value())
		c.mutex.Unlock()
	} else if err == nil && stored {
		// The next time it is sent will be a retransmission
		pub.Duplicate = true
	}

	return err
}
"""), (CL, """	// Perform preflight packet persistence operations
	stored""", """	// Store the publish first
	stored""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	st := memory.NewStorage()
	p.client.SetStorage(st)
	pub := &packets.Publish{QoS: packets.QoS1, Topic: "t", Payload: []byte("x")}
	if err := p.client.Publish(within(2*time.Second), pub); err != nil {
		t.Fatal(err)
	}
	x, err := st.Get(pub.PacketIdentifier.Value())
	if err != nil || x.(*packets.Publish).Duplicate || pub.Duplicate {
		t.Fatalf("stored packet: %+v %v", x, err)
	}
''')

bug("disconnect-0-open", "C16", "a server that ends the connection with DISCONNECT reason 0x00",
 "the network connection is only closed for a DISCONNECT with a failure reason; after a normal one the client stays connected until a read fails",
 [(CL, """		disconnect := &packets.Disconnect{Header: header}
		if err = c.readPacket(header, disconnect); err != nil {
			return
		}
		// Close the connection. It is over even if that fails.
		c.closeConnection()
""", """		disconnect := new(packets.Disconnect)
		disconnect.Header = header
		if err = c.readPacket(header, disconnect); err != nil {
			return
		}
		// Close the connection unless this is a normal disconnection, which the server completes itself
		if disconnect.ReasonCode != 0 {
			c.closeConnection()
		}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	go p.pkt(0xe0, 0)
	if err := p.pollOnce(); err != nil {
		t.Fatal(err)
	}
	if p.client.IsConnected() {
		t.Fatal("connected after DISCONNECT")
	}
''')

bug("id-free-after-timeout", "C17", "a Subscribe whose context ends before SUBACK arrives, followed by a request or publish whose random identifier is the same",
 "a request gives its identifier back when nobody waits for it any longer although the server has not answered, so a second request can share it",
 [(CL, """	subscribe := &packets.Subscribe{
		PacketIdentifier: primitives.PrimitiveUint16(id),
		Topics:           _topics,

		// TODO: Use context to set these optional parameters
		//SubscriptionIdentifier: 0,
		//UserProperties:         nil,
	}

	// Send the SUBSCRIBE control packet
	if err = c.send(subscribe); err != nil {
		c.takeRequest(id)
		return err
	}
""", """	defer c.takeRequest(id)

	subscribe := &packets.Subscribe{
		PacketIdentifier: primitives.PrimitiveUint16(id),
		Topics:           _topics,

		// TODO: Use context to set these optional parameters
		//SubscriptionIdentifier: 0,
		//UserProperties:         nil,
	}

	// Send the SUBSCRIBE control packet
	if err := c.send(subscribe); err != nil {
		return err
	}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	p.client.SetRngFn(func() uint32 { return 7 })
	x := mqtt.Topic{}
	x.SetFilter("a")
	if err := p.client.Subscribe(within(200*time.Millisecond), []mqtt.Topic{x}); err == nil {
		t.Fatal("Subscribe returned nil without SUBACK")
	}
	first := id16(p.expect(8), 1)
	if err := p.client.Publish(within(2*time.Second), &packets.Publish{QoS: packets.QoS1, Topic: "t"}); err != nil {
		t.Fatal(err)
	}
	if b := p.expect(3); id16(b, 4) == first {
		t.Fatalf("identifier %d is used by an unanswered SUBSCRIBE and by a PUBLISH", first)
	}
''')

bug("varint-five-bytes", "C12", "a Remaining Length or property length of five bytes",
 "a variable byte integer of five bytes is accepted, and the packet that follows is reported",
 [(PR + "varint.go", """		if mul > 21 {
			// SPEC: The maximum number of bytes in the Variable Byte Integer field is four.
			return 0, errors.New("malformed variable byte integer")
		}

		if b[0]&128 == 0 {
			break
		}

		mul += 7
""", """		if b[0]&128 == 0 {
			break
		}

		mul += 7
		if mul > 28 {
			// SPEC: The maximum number of bytes in the Variable Byte Integer field is four.
			return 0, errors.New("malformed variable byte integer")
		}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	mon := p.client.CreateEventChannel(4)
	go p.send(0x30, 0x85, 0x80, 0x80, 0x80, 0x00, 0, 1, 't', 0, 'x')
	if err := p.pollOnce(); err == nil || len(mon.C) > 0 {
		t.Fatalf("Remaining Length of five bytes: Poll %v, %d events", err, len(mon.C))
	}
''')

bug("keepalive-interval-unlocked", "C13", "KeepAliveInterval while another goroutine connects",
 "the keep alive interval is read without the lock that Connect writes it under",
 [(CL, """	c.mutex.RLock()
	defer c.mutex.RUnlock()

	return c.keepAliveInterval
}""", """	interval := c.keepAliveInterval
	return interval
}""")], '''
	p := newPeer(t)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				p.client.KeepAliveInterval()
			}
		}
	}()
	err := p.connect(nil)
	close(stop)
	wg.Wait()
	if err != nil {
		t.Fatal(err)
	}
''', race=True)

bug("share-no-local", "C02", "an application that sets No Local before it sets a shared subscription as the filter",
 "the No Local option is not cleared when the filter becomes a shared subscription: SUBSCRIBE is a protocol error",
 [(P + "topic.go", """	if strings.HasPrefix(filter, "$share/") {
		// Unset no local option
		// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
		t.SetNoLocal(false)
	}
	t.filter""", """	t.filter""")], '''
	x := mqtt.Topic{}
	x.SetNoLocal(true)
	x.SetFilter("$share/g/a")
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	p.poll()
	go p.client.Subscribe(within(time.Second), []mqtt.Topic{x})
	if b := p.expect(8); b[len(b)-1]&4 != 0 {
		t.Fatalf("No Local on a shared subscription: %x", b)
	}
''')

bug("send-quota-own-maximum", "C07", "a client whose own Receive Maximum is smaller than the server's, with more publishes in flight than its own",
 "the send quota starts at the smaller of both Receive Maximums, so Publish blocks although the server has free slots",
 [(CL, """	// Initialize quotas
	c.sendQuota = c.serverReceiveMaximum
""", """	// Initialize quotas
	c.sendQuota = c.clientReceiveMaximum
	if c.serverReceiveMaximum < c.sendQuota {
		c.sendQuota = c.serverReceiveMaximum
	}
""")], '''
	p := newPeer(t)
	err := p.connect(&packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 60, ReceiveMaximum: 2})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if err := p.client.Publish(within(2*time.Second), &packets.Publish{QoS: packets.QoS1, Topic: "t"}); err != nil {
			t.Fatal(err)
		}
	}
''')

bug("keepalive-unlocked", "C01", "KeepAlive in the moment in which another goroutine's Disconnect has written DISCONNECT and not yet closed the connection",
 "KeepAlive does not take the connection lock, so PINGREQ can follow DISCONNECT",
 [(CL, """func (c *Client) KeepAlive() (err error) {
	c.connMutex.Lock()
	defer c.connMutex.Unlock()

	if !c.isConnected.Load() {
		return ErrClientNotConnected
	}

	// Wait for the response
""", """func (c *Client) KeepAlive() (err error) {
	if !c.isConnected.Load() {
		return ErrClientNotConnected
	}

	// Poll holds the connection while it waits for a packet, which must not delay the ping.
""")], '''
	p := newHookedPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	p.onWrite(func(b []byte) {
		if b[0] == 0xe0 {
			go func() {
				p.client.KeepAlive()
				close(done)
			}()
			select {
			case <-done:
			case <-time.After(300 * time.Millisecond):
			}
		}
	})
	if err := p.client.Disconnect(within(2*time.Second), false); err != nil {
		t.Fatal(err)
	}
	<-done
	seen := false
	for {
		b := p.next(200 * time.Millisecond)
		if b == nil {
			break
		}
		if seen {
			t.Fatalf("%x after DISCONNECT", b)
		}
		seen = b[0] == 0xe0
	}
	if !seen {
		t.Fatal("no DISCONNECT")
	}
''')

bug("storage-two-locks", "C19", "two concurrent Store calls with the same identifier",
 "Store looks for a duplicate and appends under two separate locks, so both calls may store their packet",
 [(ST, """	s.mutex.Lock()
	defer s.mutex.Unlock()

	// Ensure that this control packet is NOT already stored
	for _, e := range s.store {
		if e.id == identifier {
			return storage.ErrDuplicateEntry
		}
	}

	// Create""", """	// Ensure that this control packet is NOT already stored
	if _, err = s.Get(identifier); err == nil {
		return storage.ErrDuplicateEntry
	}

	s.mutex.Lock()
	defer s.mutex.Unlock()

	// Create"""), (ST, """	s.store = append(s.store, newEntry)

	return
}""", """	s.store = append(s.store, newEntry)
	return nil
}""")], '''
	for i := 0; i < 200000; i++ {
		s := memory.NewStorage()
		errs := make(chan error, 2)
		start := make(chan struct{})
		for g := 0; g < 2; g++ {
			go func() {
				<-start
				errs <- s.Store(1, g)
			}()
		}
		close(start)
		if a, b := <-errs, <-errs; a == nil && b == nil {
			t.Fatalf("both stored in round %d", i)
		}
	}
''')

bug("inbound-qos2-slot", "C08", "QoS 2 messages from the server beyond the client's Receive Maximum before the earlier ones are released",
 "the receive slot of a QoS 2 message is given back with PUBREC instead of PUBCOMP, so the client accepts more than it announced",
 [(CL, """	// Send the PUBREC control packet to the server
	if err = c.reply(pubrec); err != nil {
		return err
	}

	// No response to wait for

	return
}""", """	// Send the PUBREC control packet to the server
	if err = c.reply(pubrec); err != nil {
		return err
	}

	// Increment the receive quota counter so that more publishes (QoS > 0) can be received
	c.mutex.Lock()
	if c.receiveQuota < c.clientReceiveMaximum {
		c.receiveQuota++
	}
	c.mutex.Unlock()

	return
}"""), (CL, """		// Increment receive quota counter
		if isReceived {
			c.mutex.Lock()
			c.receiveQuota++
			c.mutex.Unlock()
		}
""", ""), (CL, """		_, isReceived := c.received[pubrel.PacketIdentifier.Value()]
""", "")], '''
	p := newPeer(t)
	err := p.connect(&packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 60, ReceiveMaximum: 2})
	if err != nil {
		t.Fatal(err)
	}
	p.poll()
	for i := 1; i <= 2; i++ {
		p.pkt(0x34, publish("t", uint16(i), "x")...)
		p.expect(5)
	}
	p.pkt(0x34, publish("t", 3, "x")...)
	if b := p.next(2 * time.Second); len(b) < 2 || b[0] != 0xe0 || b[1] != 0x93 {
		t.Fatalf("a third message beyond the Receive Maximum of 2 was answered with %x", b)
	}
''')


bug("transmit-shared-buffer", "C01", "a call whose arguments cannot be encoded (the encoder stops in the middle of the packet), followed by any other call",
 "the encoding buffer is kept between packets and only emptied after a successful one: the beginning of a packet that could not be encoded is sent in front of the next one",
 [(CL, """	buf := bytes.NewBuffer(make([]byte, 0, 128))
""", """	buf := &c.sendBuffer
"""), (CL, """	// Finally, write to the open connection
	if n, err = c.conn.Write(buf.Bytes()); err != nil {
""", """	// Finally, write to the open connection
	n, err = c.conn.Write(buf.Bytes())
	buf.Reset()
	if err != nil {
"""), (CL, """	rngFn func() uint32
""", """	rngFn func() uint32

	// sendBuffer is reused for every control packet that is sent. Protected by connMutex.
	sendBuffer bytes.Buffer
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	bad := &packets.Publish{Topic: "t", Payload: []byte("x"), ContentType: primitives.PrimitiveString(strings.Repeat("z", 70000))}
	if err := p.client.Publish(within(2*time.Second), bad); err == nil {
		t.Fatal("a string of 70000 bytes was accepted")
	}
	p.call("Publish", 2*time.Second, func() error {
		return p.client.Publish(within(time.Second), &packets.Publish{Topic: "ok", Payload: []byte("y")})
	})
	if b := p.next(2 * time.Second); !bytes.Equal(b, append([]byte{0x30}, publish("ok", 0, "y")...)) {
		t.Fatalf("sent %.40x", b)
	}
''')

bug("expiry-16-bit", "C02", "a Session Expiry Interval in CONNECT whose low 16 bits are zero (65536, ...), and a Disconnect with another one",
 "the session expiry interval of the connection is kept in 16 bits, so that DISCONNECT is sent without the interval the caller asked for",
 [(CL, """	sessionExpiryInterval uint32
""", """	sessionExpiryInterval uint16
"""), (CL, """	c.sessionExpiryInterval = uint32(packet.SessionExpiryInterval)
""", """	c.sessionExpiryInterval = uint16(packet.SessionExpiryInterval)
""")], '''
	p := newPeer(t)
	if err := p.connect(&packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 60, SessionExpiryInterval: 3 << 16}); err != nil {
		t.Fatal(err)
	}
	go p.client.DisconnectWithSessionExpiry(within(2*time.Second), false, 100)
	if b := p.expect(14); !bytes.Contains(b, []byte{0x11, 0, 0, 0, 100}) {
		t.Fatalf("DISCONNECT without the session expiry interval: %x", b)
	}
''')

bug("request-low-byte", "C15", "two requests in flight whose packet identifiers are equal modulo 256",
 "requests are found by the low byte of their identifier, so that one of two such requests gets no answer or that of the other",
 [(CL, """	c.responseChan[int(identifier)] = respChan
	return identifier, respChan, nil
""", """	c.responseChan[int(byte(identifier))] = respChan
	return identifier, respChan, nil
"""), (CL, """	respChan := c.responseChan[int(identifier)]
	delete(c.responseChan, int(identifier))
	return respChan
""", """	slot := int(byte(identifier))
	respChan := c.responseChan[slot]
	delete(c.responseChan, slot)
	return respChan
"""), (CL, """		responseChan:    make(map[int]chan any),
""", """		responseChan:    make(map[int]chan any, 256),
""")], '''
	p := newPeer(t)
	n := uint32(0x0005)
	p.client.SetRngFn(func() uint32 { n += 0x100; return n })
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	p.poll()
	errs := make(chan error, 2)
	var ids []uint16
	for i := 0; i < 2; i++ {
		f := []string{"a", "b"}[i]
		go func() {
			x := mqtt.Topic{}
			x.SetFilter(f)
			errs <- p.client.Subscribe(within(5*time.Second), []mqtt.Topic{x})
		}()
		ids = append(ids, id16(p.expect(8), 1))
	}
	p.pkt(0x90, byte(ids[0]>>8), byte(ids[0]), 0, 0)
	p.pkt(0x90, byte(ids[1]>>8), byte(ids[1]), 0, 0)
	for i := 0; i < 2; i++ {
		if err := <-errs; err != nil {
			t.Fatalf("one of the two was answered with %v", err)
		}
	}
''')

bug("default-receive-maximum", "C08", "a client that announces no Receive Maximum, a server that announces one, and more QoS 2 messages outstanding than that",
 "without a Receive Maximum of its own the client applies the server's to what it receives, and disconnects from a server that is within the limits",
 [(CL, """	if packet.ReceiveMaximum == 0 {
		c.clientReceiveMaximum = math.MaxUint16
	} else {
""", """	if packet.ReceiveMaximum == 0 {
		c.clientReceiveMaximum = c.serverReceiveMaximum
	} else {
"""), (CL, """	c.sendQuota = c.serverReceiveMaximum
	c.receiveQuota = c.clientReceiveMaximum
""", """	c.sendQuota, c.receiveQuota = c.serverReceiveMaximum, c.clientReceiveMaximum
""")], '''
	p := newPeer(t)
	if err := p.connect(nil, 0, 0, 3, 0x21, 0, 1); err != nil {
		t.Fatal(err)
	}
	p.poll()
	p.pkt(0x34, publish("t", 1, "x")...)
	p.expect(5)
	p.pkt(0x34, publish("t", 2, "x")...)
	if b := p.next(2 * time.Second); len(b) < 1 || b[0]>>4 != 5 {
		t.Fatalf("the second message was answered with %x", b)
	}
''')

bug("signal-outside-lock", "C18", "an event channel that is closed while an event is being signalled",
 "the event is sent to the general channels after the lock was released: it can be sent on a channel that has just been closed (panic), and the map is read while it is changed",
 [(CL, """	c.eventMutex.Lock()
	defer c.eventMutex.Unlock()

	e := &Event{
""", """	c.eventMutex.Lock()

	e := &Event{
"""), (CL, """	// Fanout to all other channels
	for _, channel := range c.eventChans {
		channel.signal(e)
	}
""", """	var channels []EventChannel
	for _, channel := range c.eventChans {
		channels = append(channels, channel)
	}
	c.eventMutex.Unlock()

	// Fanout to all other channels
	for _, channel := range channels {
		channel.signal(e)
	}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	p.poll()
	stop := make(chan struct{})
	go func() {
		defer close(stop)
		for i := 0; i < 4000; i++ {
			p.send(append([]byte{0x30, 5}, publish("t", 0, "x")...)...)
		}
	}()
	for {
		select {
		case <-stop:
			return
		default:
		}
		var all []mqtt.EventChannel
		for i := 0; i < 20; i++ {
			all = append(all, p.client.CreateEventChannel(64))
		}
		for _, ch := range all {
			p.client.CloseEventChannel(ch)
		}
	}
''', race=True)

bug("qos1-dup-unanswered", "C05", "a QoS 1 message that the server sends a second time (DUP) after a reconnect because the PUBACK was lost",
 "a retransmitted QoS 1 message is delivered but not acknowledged, so the server sends it again and again",
 [(CL, """	puback := &packets.Puback{
		PacketIdentifier: publish.PacketIdentifier,
	}

	// Send the PUBACK control packet to the server
	if err = c.reply(puback); err != nil {
		return err
	}

	// Increment the receive quota counter so that more publishes (QoS > 0) can be received
	c.mutex.Lock()
	c.receiveQuota++
	c.mutex.Unlock()
""", """	// It was acknowledged before if it is sent again on a resumed session
	if !publish.Duplicate || !c.sessionPresent {
		puback := &packets.Puback{
			PacketIdentifier: publish.PacketIdentifier,
		}

		// Send the PUBACK control packet to the server
		if err = c.reply(puback); err != nil {
			return err
		}
	}

	// Increment the receive quota counter so that more publishes (QoS > 0) can be received
	c.mutex.Lock()
	defer c.mutex.Unlock()
	c.receiveQuota++
""")], '''
	p := newPeer(t)
	if err := p.connect(nil, 1, 0, 0); err != nil {
		t.Fatal(err)
	}
	p.poll()
	p.pkt(0x3a, publish("t", 7, "x")...)
	if b := p.next(2 * time.Second); len(b) < 3 || b[0] != 0x40 || id16(b, 1) != 7 {
		t.Fatalf("answered with %x", b)
	}
''')

bug("dup-means-seen", "C06", "a QoS 2 message that is sent again (DUP) on a resumed session, while the first transmission never reached the client",
 "a QoS 2 PUBLISH with the DUP flag on a resumed session counts as already delivered even if it never was: the message is lost",
 [(CL, """	receiveQuota uint16
""", """	receiveQuota uint16

	// resumed is true until the server sends something new
	resumed bool
"""), (CL, """	c.receiveQuota = c.clientReceiveMaximum

	c.pending""", """	c.receiveQuota = c.clientReceiveMaximum
	c.resumed = connack.SessionPresent

	c.pending"""), (CL, """			c.receiveQuota--
		}
""", """			c.receiveQuota--
			c.resumed = c.resumed && publish.Duplicate
		}
"""), (CL, """			isDuplicate, err = c.storePubrec(publish)
		}
""", """			isDuplicate, err = c.storePubrec(publish)
			isDuplicate = isDuplicate || c.resumed && publish.Duplicate && c.storage != nil
		}
"""), (CL, """		// The server will not send the publish again after it was acknowledged, so signal it first
		if !isDuplicate {
""", """		// The server will not send the publish again after it was acknowledged, so signal it first
		if notSeen := !isDuplicate; notSeen {
"""), (CL, """		if publish.QoS == packets.QoS1 {
			return c.sendPuback""", """		if qos := publish.QoS; qos == packets.QoS1 {
			return c.sendPuback""")], '''
	p := newPeer(t)
	p.client.SetStorage(memory.NewStorage())
	if err := p.connect(nil, 1, 0, 0); err != nil {
		t.Fatal(err)
	}
	ch := p.client.CreateEventChannel(4)
	p.poll()
	p.pkt(0x3c, publish("t", 7, "x")...)
	p.expect(5)
	select {
	case <-ch.C:
	case <-time.After(2 * time.Second):
		t.Fatal("the message was acknowledged but never delivered")
	}
''')

bug("password-alone", "C01", "a CONNECT with a password but no user name, which MQTT 5 allows",
 "the password flag is only set together with a user name while the password is always in the payload: the CONNECT packet is malformed",
 [(P+"connect.go", """	if len(c.Password) > 0 {
		// Set bit 6
		flags |= 1 << 6
		payloadLen""", """	if len(c.Password) > 0 {
		// Set bit 6
		flags |= flags >> 1 & (1 << 6)
		payloadLen""")], '''
	var b bytes.Buffer
	c := &packets.Connect{Version: packets.MQTT5, ClientId: "d", Password: primitives.PrimitiveString("secret")}
	if _, err := c.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	if x := b.Bytes(); x[9]&0x40 == 0 {
		t.Fatalf("connect flags %02x: the password flag is not set", x[9])
	}
''')

bug("pubrec-0x80", "C05", "a PUBREC with reason code 0x80 exactly (unspecified error)",
 "PUBREC with reason 0x80 counts as success: PUBREL is sent for an exchange the server has ended, and the slot of the server's Receive Maximum is held until a PUBCOMP that need not come",
 [(CL, """		if pubrec.ReasonCode >= 0x80 {
			c.releaseSendQuota""", """		if pubrec.ReasonCode > 0x80 {
			c.releaseSendQuota"""), (CL, """		pubrec := &packets.Pubrec{}
		pubrec.Header = header
""", """		pubrec := &packets.Pubrec{Puback: packets.Puback{Header: header}}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil, 0, 0, 3, 0x21, 0, 1); err != nil {
		t.Fatal(err)
	}
	p.poll()
	go p.client.Publish(within(5*time.Second), &packets.Publish{Topic: "t", QoS: packets.QoS2})
	b := p.expect(3)
	id := id16(b, 4)
	p.pkt(0x50, byte(id>>8), byte(id), 0x80)
	if b := p.next(500 * time.Millisecond); b != nil {
		t.Fatalf("a PUBREC that refuses the message was answered with %x", b)
	}
''')

bug("channel-number-reused", "C18", "an event channel created after an earlier one was closed while a later one is still open",
 "the number of a new event channel is derived from how many are open, so that it can replace one that is still in use",
 [(CL, """		id:   c.evChanIdCounter,
""", """		id:   len(c.openChans) + 1,
"""), (CL, """	c.eventChans[c.evChanIdCounter] = result
	c.openChans[c.evChanIdCounter] = result
	c.evChanIdCounter++
""", """	c.eventChans[result.id] = result
	c.openChans[result.id] = result
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	a := p.client.CreateEventChannel(4)
	b := p.client.CreateEventChannel(4)
	p.client.CloseEventChannel(a)
	p.client.CreateEventChannel(4)
	p.poll()
	p.pkt(0x30, publish("t", 0, "x")...)
	select {
	case <-b.C:
	case <-time.After(2 * time.Second):
		t.Fatal("an open event channel gets no events any more")
	}
''')

bug("suback-first-code", "C15", "a Subscribe with several filters of which the first is granted and a later one is refused",
 "after a granted filter the reason codes of the following ones are only looked at if they carry a channel: Subscribe returns nil although a filter was refused",
 [(CL, """			if err == nil {
				err = ReasonCode(code)
			}
		} else {
			// TODO: Consider session retention details here
""", """			if err == nil && (i == 0 || topics[i].channel.channel != nil) {
				err = ReasonCode(code)
			}
		} else {
			// TODO: Consider what a retained session means here
"""), (CL, """	var _topics []packets.Topic
	for index := range topics {
		_topics = append(_topics, topics[index].Topic)
	}
""", """	_topics := make([]packets.Topic, len(topics))
	for index := range topics {
		_topics[index] = topics[index].Topic
	}
""")], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	p.poll()
	go func() {
		b := p.expect(8)
		p.pkt(0x90, b[1], b[2], 0, 0, 0x87)
	}()
	var ts []mqtt.Topic
	for _, f := range []string{"a", "b"} {
		x := mqtt.Topic{}
		x.SetFilter(f)
		ts = append(ts, x)
	}
	if err := p.client.Subscribe(within(5*time.Second), ts); err == nil {
		t.Fatal("Subscribe returned nil although the second filter was refused")
	}
''')

bug("ping-deadline-16-bit", "C10", "an interval of 32768 seconds or more (from CONNECT or as Server Keep Alive)",
 "twice the interval is computed in 16 bits: the connection is given up although the server is silent for much shorter than that",
 [(CL, """	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)

	// Need""", """	c.pingRespDeadline = time.Now().Add(time.Second * time.Duration(2*uint16(c.keepAliveInterval/time.Second)))

	// Need""")], '''
	p := newPeer(t)
	if err := p.connect(nil, 0, 0, 3, 0x13, 0x80, 0x00); err != nil {
		t.Fatal(err)
	}
	time.Sleep(1200 * time.Millisecond)
	if err := p.client.Poll(within(50 * time.Millisecond)); err != nil {
		t.Fatalf("Server Keep Alive 32768, and Poll returned %v after a second", err)
	}
''')

bug("redelivery-rolled-back", "C20", "a stored message that is published again after a reconnect, and the connection fails before anything of it is sent",
 "a publish that was already stored counts as stored by this call: when the redelivery fails before anything is sent, the message is removed from the storage and lost",
 [(CL, """			// A publish that was stored on an earlier connection can be sent again
""", """			stored = true
"""), (CL, """		} else {
			stored = err == nil
		}

		if err != nil {
			if assigned {""", """		}

		if stored = err == nil; err != nil {
			if assigned {"""), (CL, """		return ErrClientNotConnected
	}

	var deadline time.Time
	var ok bool
	if deadline, ok = ctx.Deadline(); !ok {
		deadline = time.Time{}
	}

	// SPEC: Each time the Client or Server sends""", """		return ErrClientNotConnected
	}

	deadline, ok := ctx.Deadline()
	if !ok {
		deadline = time.Time{}
	}

	// SPEC: Each time the Client or Server sends""")], '''
	st := memory.NewStorage()
	mk := func(dup bool) *packets.Publish {
		m := &packets.Publish{Topic: "t", QoS: packets.QoS1, Payload: []byte("x"), Duplicate: dup}
		if dup {
			m.PacketIdentifier = 7
		}
		return m
	}
	p := newPeer(t)
	p.client.SetStorage(st)
	p.client.SetRngFn(func() uint32 { return 7 })
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	if err := p.client.Publish(within(time.Second), mk(false)); err != nil {
		t.Fatal(err)
	}
	q := newPeer(t)
	q.client.SetStorage(st)
	if err := q.connect(nil, 1, 0, 0); err != nil {
		t.Fatal(err)
	}
	q.c.Close()
	if err := q.client.Publish(within(time.Second), mk(true)); err == nil {
		t.Fatal("published over a closed connection")
	}
	if _, err := st.Get(7); err != nil {
		t.Fatalf("the stored message is gone after a redelivery that failed: %v", err)
	}
''')

bug("puback-late-context", "C05", "a QoS 1 PUBLISH that is still being processed when the deadline of Poll passes (it arrives in pieces, say)",
 "a Poll whose context has ended in the meantime does not acknowledge the QoS 1 message it has just delivered; the server repeats it for ever or stops sending",
 [(CL, '''		if publish.QoS == packets.QoS1 {
			return c.sendPuback(ctx, publish)
''', '''		if ctx.Err() != nil {
			return nil
		} else if publish.QoS == packets.QoS1 {
			return c.sendPuback(ctx, publish)
''')], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	body := publish("a/b", 7, "hello")
	go func() {
		time.Sleep(100 * time.Millisecond)
		p.send(append([]byte{0x32, byte(len(body))}, body[:4]...)...)
		time.Sleep(600 * time.Millisecond)
		p.send(body[4:]...)
	}()
	if err := p.client.Poll(within(400 * time.Millisecond)); err != nil {
		t.Fatal(err)
	}
	if b := p.next(3 * time.Second); b == nil || b[0] != 0x40 {
		t.Fatalf("no PUBACK: % x", b)
	}
''')

bug("ping-deadline-accumulates", "C10", "several PINGRESP packets received well before the deadline, and then none",
 "each PINGRESP adds twice the interval to the old deadline instead of counting from its arrival: a client that pings often never notices that the server is gone",
 [(CL, '''		// Extend the ping response deadline
		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
''', '''		// Extend the ping response deadline
		c.pingRespDeadline = c.pingRespDeadline.Add(c.keepAliveInterval * 2)
''')], '''
	p := newPeer(t)
	if err := p.connect(&packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 1}); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 5; i++ {
		go p.client.KeepAlive()
		p.expect(12)
		go p.pkt(0xD0)
		if err := p.pollOnce(); err != nil {
			t.Fatal(err)
		}
	}
	for end := time.Now().Add(4 * time.Second); time.Now().Before(end); {
		if err := p.client.Poll(within(50 * time.Millisecond)); err != nil {
			return
		}
	}
	t.Fatal("no keep-alive timeout")
''')

bug("expiry-not-raised", "C02", "a DISCONNECT that raises the session expiry interval above the one of CONNECT",
 "a session expiry interval greater than that of CONNECT is left out of DISCONNECT: the server drops the session early",
 [(CL, '''	if c.sessionExpiryInterval != 0 {
		disconnect.SessionExpiryInterval = primitives.PrimitiveUint32(sessionExpiryInterval)
''', '''	if c.sessionExpiryInterval != 0 && uint32(sessionExpiryInterval) <= c.sessionExpiryInterval {
		disconnect.SessionExpiryInterval = primitives.PrimitiveUint32(sessionExpiryInterval)
''')], '''
	p := newPeer(t)
	if err := p.connect(&packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 60, SessionExpiryInterval: 100}); err != nil {
		t.Fatal(err)
	}
	go p.client.DisconnectWithSessionExpiry(within(2*time.Second), false, 500)
	if b := p.expect(14); !bytes.Contains(b, []byte{0x11, 0, 0, 1, 0xF4}) {
		t.Fatalf("DISCONNECT % x", b)
	}
''')

bug("storage-get-snapshot", "C19", "a Get that runs while a Drop moves the entries behind the one it removes",
 "Get searches a snapshot of the slice header without the lock; a concurrent Drop shifts the shared elements, so an entry that is present all the time is not found",
 [(ST, '''func (s *Storage) Get(identifier uint16) (packet any, err error) {
	s.mutex.Lock()
	defer s.mutex.Unlock()

	for _, e := range s.store {
''', '''func (s *Storage) Get(identifier uint16) (packet any, err error) {
	s.mutex.Lock()
	entries := s.store
	s.mutex.Unlock()

	for _, e := range entries {
''')], '''
	s := memory.NewStorage()
	for i := 1; i <= 50; i++ {
		s.Store(uint16(i), i)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 1; i <= 49; i++ {
			s.Drop(uint16(i))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 100; i++ {
			if x, err := s.Get(50); err != nil || x != 50 {
				t.Errorf("Get: %v %v", x, err)
			}
		}
	}()
	wg.Wait()
''', True)

bug("channel-id-byte", "C18", "more than 256 event channels of one client",
 "the number of an event channel is cut to a byte: channel 257 takes the place of the first one, which receives nothing any more and cannot be closed",
 [(CL, '''		id:   c.evChanIdCounter,
''', '''		id:   c.evChanIdCounter & 0xFF,
'''), (CL, '''	c.eventChans[c.evChanIdCounter] = result
	c.openChans[c.evChanIdCounter] = result
''', '''	c.eventChans[result.id] = result
	c.openChans[result.id] = result
''')], '''
	p := newPeer(t)
	var chans []mqtt.EventChannel
	for i := 0; i < 300; i++ {
		chans = append(chans, p.client.CreateEventChannel(2))
	}
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	for i, c := range chans {
		select {
		case <-c.C:
		case <-time.After(time.Second):
			t.Fatalf("channel %d has received nothing", i)
		}
	}
''')

bug("payload-shared", "C03", "a short message that is still waiting in an event channel when the next one arrives",
 "short payloads are read into one buffer that all messages share, so a message that has not been consumed yet changes when the next one is received",
 [(P + "publish.go", '''		p.Payload = make([]byte, payloadLen)
''', '''		if payloadLen <= int64(cap(smallPayload)) {
			p.Payload = smallPayload[:payloadLen]
		} else {
			p.Payload = make([]byte, payloadLen)
		}
'''), (P + "publish.go", '''type Publish struct {
''', '''// smallPayload saves the allocation for short payloads.
var smallPayload = make([]byte, 0, 16)

type Publish struct {
''')], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	ch := p.client.CreateEventChannel(4)
	p.poll()
	p.pkt(0x30, publish("a", 0, "first")...)
	p.pkt(0x30, publish("a", 0, "other")...)
	var got []string
	for i := 0; i < 2; i++ {
		time.Sleep(200 * time.Millisecond)
		select {
		case e := <-ch.C:
			got = append(got, string(e.Data.(*packets.Publish).Payload))
		case <-time.After(3 * time.Second):
			t.Fatal("no event")
		}
	}
	if got[0] != "first" || got[1] != "other" {
		t.Fatalf("got %q", got)
	}
''')

bug("connect-packet-changed", "C02", "a server with a Server Keep Alive and an application that connects again with the same CONNECT packet",
 "Connect writes the Server Keep Alive into the caller's packet, so the next connection made with it asks for another interval than the application wanted",
 [(CL, '''		c.keepAliveInterval = time.Second * time.Duration(connack.ServerKeepAlive)
''', '''		packet.KeepAlive = connack.ServerKeepAlive
		c.keepAliveInterval = time.Second * time.Duration(packet.KeepAlive)
''')], '''
	c := &packets.Connect{Version: packets.MQTT5, ClientId: "demo", KeepAlive: 60}
	for i := 0; i < 2; i++ {
		p := newPeer(t)
		done := make(chan error, 1)
		go func() { done <- p.client.Connect(within(5*time.Second), c) }()
		b := p.expect(1)
		if b[9] != 0 || b[10] != 60 {
			t.Fatalf("CONNECT %d asks for a keep alive of %d", i, id16(b, 9))
		}
		p.pkt(0x20, 0, 0, 3, 0x13, 0, 9)
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
''')

bug("varint-length-16384", "C01", "a packet or a property block of exactly 16384 bytes",
 "the length of a variable byte integer is off by one at 16384, so a packet whose properties have exactly that length has a wrong remaining length",
 [(PR + "varint.go", '''*v < 16_384''', '''*v <= 16_384''')], '''
	for n := 16330; n < 16390; n++ {
		pub := &packets.Publish{QoS: packets.QoS1, PacketIdentifier: 1, Topic: "a", ContentType: primitives.PrimitiveString(strings.Repeat("x", n))}
		var buf bytes.Buffer
		if _, err := pub.WriteTo(&buf); err != nil {
			t.Fatal(err)
		}
		b, rem, shift := buf.Bytes()[1:], 0, 0
		for {
			c := b[0]
			b = b[1:]
			rem |= int(c&127) << shift
			shift += 7
			if c < 128 {
				break
			}
		}
		if rem != len(b) {
			t.Fatalf("content type of %d bytes: remaining length %d, %d bytes follow", n, rem, len(b))
		}
	}
''')

bug("payload-short-write", "C21", "a writer that takes a part of the payload and then fails",
 "WriteTo of PUBLISH reports success when the writer failed after taking some bytes of the payload: a torn record counts as stored",
 [(P + "publish.go", '''		if count, err := w.Write(p.Payload); err != nil {
			return 0, err
''', '''		if count, err := w.Write(p.Payload); err != nil && count == 0 {
			return 0, err
''')], '''
	pub := &packets.Publish{QoS: packets.QoS1, PacketIdentifier: 1, Topic: "a", Payload: []byte(strings.Repeat("p", 100))}
	if _, err := pub.WriteTo(&full{left: 60}); err == nil {
		t.Fatal("WriteTo reported success although the writer was full")
	}
}

// full is a disk with little room.
type full struct{ left int }

func (f *full) Write(b []byte) (int, error) {
	if len(b) <= f.left {
		f.left -= len(b)
		return len(b), nil
	}
	n := f.left
	f.left = 0
	return n, errors.New("no space left")
''')

bug("suback-low-bits", "C03", "a SUBSCRIBE with more than 127 filters",
 "the number of reason codes is cut to seven bits when SUBACK is read, so a large subscription that was granted fails and ends the connection",
 [(P + "suback.go", '''s.ReasonCodes = make([]byte, int64(s.Header.Remaining)-n)''', '''s.ReasonCodes = make([]byte, (int64(s.Header.Remaining)-n)&0x7F)''')], '''
	p := newPeer(t)
	if err := p.connect(nil); err != nil {
		t.Fatal(err)
	}
	p.poll()
	var ts []mqtt.Topic
	for i := 0; i < 140; i++ {
		x := mqtt.Topic{}
		x.SetFilter(fmt.Sprintf("f/%d", i))
		ts = append(ts, x)
	}
	go func() {
		b := p.expect(8)
		n := 3 + len(ts)
		p.send(append([]byte{0x90, byte(n&127 | 128), byte(n >> 7), b[1], b[2], 0}, make([]byte, len(ts))...)...)
	}()
	if err := p.client.Subscribe(within(5*time.Second), ts); err != nil {
		t.Fatal(err)
	}
''')
