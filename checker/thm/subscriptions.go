package thm

import (
	"time"

	"github.com/NubeDev/bacnet/utsm"
)

// C07: subscriptions.

func newManager(how byte) *utsm.Manager {
	switch how {
	case 1:
		return utsm.NewManager(utsm.DefaultSubscriberTimeout(time.Second))
	case 2:
		return utsm.NewManager(utsm.DefaultSubscriberLastReceivedTimeout(time.Second), utsm.DefaultSubscriberTimeout(2*time.Second))
	}
	return utsm.NewManager()
}

// What is published in the range is received, what is outside is not.
func C07_Range(start, end, id int, v uint32, how byte) {
	Prompt()
	m := newManager(how)
	before := Kept(m)
	got, err := m.Subscribe(start, end, utsm.OnSubscribed(func() {
		go m.Publish(id, v)
	}))
	Assert(err == nil, "a subscription ends without an error")
	if id >= start && id <= end {
		Assert(len(got) == 1, "what is published in the range is received once")
		Same(got[0], v, "what is received is what was published")
	} else {
		Assert(len(got) == 0, "what is published outside of the range is not received")
	}
	Settle()
	Assert(Kept(m) == before, "nothing is kept of a subscription that has ended")
}

// Several values, each received once, in the order in which they are published.
func C07_Several(a, b, c int, v, w, x uint32, how byte) {
	Prompt()
	m := newManager(how)
	var sent []uint32
	publish := func(id int, v uint32) {
		m.Publish(id, v)
		if id >= 5 && id <= 9 {
			sent = append(sent, v)
		}
	}
	got, err := m.Subscribe(5, 9, utsm.OnSubscribed(func() {
		go publish(a, v)
		go publish(b, w)
		go publish(c, x)
	}))
	Assert(err == nil, "a subscription ends without an error")
	Assert(len(got) == len(sent), "everything that is published in the range is received, once")
	for i := range got {
		Same(got[i], sent[i], "what is received is what was published, in order")
	}
}

// The answers come when they may: nothing is received twice or made up, and
// publishing ends even if nobody receives any more.
func C07_AnyTime(v, w uint32, how byte) {
	m := newManager(how)
	before := Kept(m)
	got, err := m.Subscribe(5, 9, utsm.OnSubscribed(func() {
		go m.Publish(7, v)
		go m.Publish(5, w)
	}))
	Assert(err == nil, "a subscription ends without an error")
	Assert(len(got) <= 2, "nothing is received twice")
	n := len(got)
	Settle()
	Assert(len(got) == n && Kept(m) == before, "nothing is kept of a subscription that has ended")
	m.Publish(7, v)
	m.Publish(7, w)
	m.Publish(7, w)
	Prompt()
	got, err = m.Subscribe(5, 9, utsm.OnSubscribed(func() {
		go m.Publish(6, w)
	}))
	Assert(err == nil, "a subscription ends without an error")
	Assert(len(got) == 1, "what was published earlier is not received")
	Same(got[0], w, "what is received is what was published")
}

// Each subscriber receives what is in its range.
func C07_Two(id int, v uint32, s1, e1, s2, e2 int) {
	Prompt()
	m := newManager(0)
	var inner []interface{}
	outer, err := m.Subscribe(s1, e1, utsm.OnSubscribed(func() {
		go func() {
			var err error
			inner, err = m.Subscribe(s2, e2, utsm.OnSubscribed(func() {
				go m.Publish(id, v)
			}))
			Assert(err == nil, "a subscription ends without an error")
		}()
	}))
	Assert(err == nil, "a subscription ends without an error")
	want := 0
	if id >= s1 && id <= e1 {
		want = 1
	}
	Assert(len(outer) == want, "the first subscriber receives what is in its range, and only this")
	want = 0
	if id >= s2 && id <= e2 {
		want = 1
	}
	Assert(len(inner) == want, "the second subscriber receives what is in its range, and only this")
	Assert(Kept(m) == 0, "nothing is kept of a subscription that has ended")
}

// A subscription that ends leaves the others as they are.
func C07_Others(id uint16, before, after byte) {
	Prompt()
	Hold()
	m := newManager(0)
	n := upTo2(before)
	for i := 0; i < n; i++ {
		go m.Subscribe(10*(i+1), 10*(i+1)+20)
		Settle()
	}
	Assert(Kept(m) == n, "a subscriber that waits is known")
	k := upTo2(after)
	got, err := m.Subscribe(0, 1000, utsm.OnSubscribed(func() {
		for i := 0; i < k; i++ {
			go m.Subscribe(100*(i+1), 100*(i+1)+150)
		}
	}))
	Assert(err == nil && len(got) == 0, "a subscription ends without an error")
	Settle()
	Assert(Kept(m) == n+k, "the other subscribers are still known")
	m.Publish(int(id), "news")
	want := 0
	for i := 0; i < n; i++ {
		if int(id) >= 10*(i+1) && int(id) <= 10*(i+1)+20 {
			want++
		}
	}
	for i := 0; i < k; i++ {
		if int(id) >= 100*(i+1) && int(id) <= 100*(i+1)+150 {
			want++
		}
	}
	Assert(Queued(m) == want, "the other subscribers still receive what is in their range")
}

// A subscription lasts as long as its manager was told.
func C07_Times(silence, whole time.Duration, id int, v, w uint32) {
	Prompt()
	Assume(silence > 0 && whole > silence)
	m := utsm.NewManager(utsm.DefaultSubscriberTimeout(whole), utsm.DefaultSubscriberLastReceivedTimeout(silence))
	got, err := m.Subscribe(id, id, utsm.OnSubscribed(func() {
		go m.Publish(id, v)
	}))
	Assert(err == nil, "a subscription ends without an error")
	Assert(Waits(whole) > 0, "a subscription ends when its whole time is over")
	Assert(len(got) == 1 && Waits(silence) > 1, "the time without a value starts again with every value")
}

// What comes before the subscriber can take it is not given up.
func C07_Waiting(start, end, id int, v, w, x uint32, how byte) {
	Hold()
	Tick()
	m := newManager(how)
	Assume(start <= id && id <= end)
	m.Subscribe(start, end, utsm.OnSubscribed(func() {
		known, ended := Kept(m), 0
		publish := func(v uint32) {
			m.Publish(id, v)
			ended++
		}
		go publish(v)
		go publish(w)
		go publish(x)
		Settle()
		Assert(Queued(m)+Kept(m)-known >= ended, "what is published waits for the subscriber while it lasts")
	}))
}
