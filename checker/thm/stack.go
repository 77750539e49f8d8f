package thm

import (
	"errors"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
)

// C06: the client with its transactions and subscriptions, and goroutines.

type packet struct {
	from btypes.Address
	data []byte
}

// world is a data link with devices that answer.
type world struct {
	wire
	inbox   []packet
	answer  func(w *world, data []byte, to btypes.Address)
	between bool // what was received is handled before the next is
	first   bool // what came last is received first
	single  bool // one message is received at a time
	odd     bool
}

func (w *world) Send(data []byte, npdu *btypes.NPDU, dest *btypes.Address) (int, error) {
	to := *dest
	w.answer(w, append([]byte{}, data...), to)
	return len(data), nil
}

func (w *world) Receive(b []byte) (*btypes.Address, int, error) {
	if w.odd = !w.odd; w.single && !w.odd {
		return nil, 0, errors.New("closed")
	}
	if w.between || len(w.inbox) == 0 {
		Settle()
	}
	if len(w.inbox) == 0 {
		return nil, 0, errors.New("closed")
	}
	p := w.inbox[0]
	if w.first {
		p = w.inbox[len(w.inbox)-1]
		w.inbox = w.inbox[:len(w.inbox)-1]
	} else {
		w.inbox = w.inbox[1:]
	}
	a := p.from
	return &a, copy(b, p.data), nil
}

func newWorld(how byte) (*world, bacnet.Client) {
	w := &world{wire: wire{my: &btypes.Address{Mac: []byte{10, 0, 0, 1, 0xba, 0xc0}, MacLen: 6}, broadcast: &btypes.Address{Mac: []byte{10, 0, 0, 255, 0xba, 0xc0}, MacLen: 6}}}
	w.between, w.first = how&1 != 0, how&2 != 0
	c, err := bacnet.NewClient(&bacnet.ClientBuilder{DataLink: w})
	Assert(err == nil && c != nil, "a client is made for a data link")
	return w, c
}

func valueAck(id byte, instance, v uint32) []byte {
	b := put([]byte{1, 0, 0x30, id, 12, 0x0c}, instance, 4)
	b = append(b, 0x19, 85, 0x3e, 0x24)
	return bvlc(0x0a, append(put(b, v, 4), 0x3f))
}

func theValue(instance uint32) btypes.PropertyData {
	return btypes.PropertyData{Object: btypes.Object{ID: btypes.ObjectID{Type: 0, Instance: btypes.ObjectInstance(instance)},
		Properties: []btypes.Property{{Type: 85, ArrayIndex: bacnet.ArrayAll}}}}
}

func localDevice(last byte) btypes.Device {
	return btypes.Device{Addr: address(10, 0, 0, last, 47808)}
}

func hasValue(rp btypes.PropertyData, err error, v uint32) {
	Assert(err == nil && len(rp.Object.Properties) == 1, "the answer is returned")
	got, ok := rp.Object.Properties[0].Data.(uint32)
	Assert(ok && got == v, "the value is that of the device that was asked")
}

// One request, the answer among other messages.
func C06_One(v uint32, how, noise, other byte) {
	Prompt()
	w, c := newWorld(how)
	w.answer = func(w *world, data []byte, to btypes.Address) {
		id := data[8]
		ack := packet{to, valueAck(id, 1, v)}
		switch noise {
		case 0:
			w.inbox = []packet{ack}
		case 1: // an answer of no transaction
			w.inbox = []packet{{to, valueAck(id^0x80, 1, v+1)}, ack}
		case 2: // not BACnet
			w.inbox = []packet{{to, []byte{other}}, ack, {to, []byte{}}}
		case 3: // the answer comes twice
			w.inbox = []packet{ack, ack}
		default: // a request of another device, with the same invoke id
			w.inbox = []packet{{to, bvlc(0x0a, []byte{1, 4, 0, 5, id, 12, 0x0c, 0, 0, 0, 1, 0x19, 85})}, ack}
		}
	}
	for i := 0; i < 2; i++ {
		go c.ClientRun()
		rp, err := c.ReadProperty(localDevice(7), theValue(1))
		hasValue(rp, err, v)
	}
	Settle()
}

// Two requests at once: each gets the answer of its device.
func C06_Two(v, u uint32, how byte) {
	Prompt()
	w, c := newWorld(how)
	w.answer = func(w *world, data []byte, to btypes.Address) {
		value := v
		if to.Mac[3] == 8 {
			value = u
		}
		w.inbox = append(w.inbox, packet{to, valueAck(data[8], uint32(to.Mac[3]), value)})
	}
	ended := false
	go func() {
		rp, err := c.ReadProperty(localDevice(8), theValue(8))
		if err == nil {
			hasValue(rp, err, u)
		}
		ended = true
	}()
	go c.ClientRun()
	rp, err := c.ReadProperty(localDevice(7), theValue(7))
	if err == nil {
		hasValue(rp, err, v)
	}
	Settle()
	Assert(ended, "the other request ends")
}

// A request that is given up, perhaps just when its answer comes: the next
// one gets its own answer, or none.
func C06_GivenUp(v, u uint32, how byte, late bool) {
	Tick()
	w, c := newWorld(how)
	w.answer = func(w *world, data []byte, to btypes.Address) {
		value := v
		if to.Mac[3] == 8 {
			value = u
		}
		ack := packet{to, valueAck(data[8], uint32(to.Mac[3]), value)}
		w.inbox = append(w.inbox, ack)
		if late {
			w.inbox = append(w.inbox, ack)
		}
	}
	go c.ClientRun()
	rp, err := c.ReadProperty(localDevice(7), theValue(7))
	if err == nil {
		hasValue(rp, err, v)
	}
	go c.ClientRun()
	rp, err = c.ReadProperty(localDevice(8), theValue(8))
	if err == nil {
		hasValue(rp, err, u)
	}
	Settle()
}

// Every device that answers Who-Is is found, with its own id and address.
func C06_Discover(a, b, d uint32, p, q, r byte, how byte) {
	Prompt()
	a, b, d = a&0x3fffff, b&0x3fffff, d&0x3fffff
	if a == b || b == d || a == d {
		return
	}
	w, c := newWorld(how)
	w.answer = func(w *world, data []byte, to btypes.Address) {
		i := func(id uint32, m byte) packet {
			return packet{address(10, 0, 0, m, 47808), bvlc(0x0b, append([]byte{1, 0x20, 0xff, 0xff, 0, 0xff}, iam(8, id, 1476, 0, 5)...))}
		}
		w.inbox = []packet{i(a, p), i(b, q), i(d, r)}
		for range w.inbox {
			go c.ClientRun()
		}
	}
	w.single, w.between = true, false
	devs, err := c.WhoIs(&bacnet.WhoIsOpts{Low: 0, High: 4194303})
	Settle()
	Assert(err == nil && len(devs) == 3, "every device is found, once")
	for _, dev := range devs {
		id := uint32(dev.ID.Instance)
		Assert(id == a || id == b || id == d, "only devices that answer are found")
		m := p
		if id == b {
			m = q
		}
		if id == d {
			m = r
		}
		want := address(10, 0, 0, m, 47808)
		Equal(dev.Addr.Mac, want.Mac, "a device has its own address")
	}
}
