package thm

import (
	"context"
	"errors"
	"time"

	"github.com/NubeDev/bacnet/tsm"
)

// C01: invoke ids; C02: answers.

func soon() context.Context {
	ctx, _ := context.WithTimeout(context.Background(), time.Second)
	return ctx
}

func take(t *tsm.TSM) int {
	id, err := t.ID(soon())
	Assert(err == nil, "an id is free")
	Assert(id > 0 && id < 256, "an id is an octet other than zero")
	return id
}

func none(t *tsm.TSM) {
	_, err := t.ID(soon())
	Assert(err != nil, "when no id is free an error is returned in time")
}

func give(t *tsm.TSM, id int) {
	err := t.Put(id)
	Assert(err == nil, "an id is put back")
}

func C01_All(size byte) {
	n := 12
	switch size {
	case 1:
		n = 1
	case 2:
		n = 2
	}
	t := tsm.New(n)
	ids := make([]int, n)
	for round := 0; round < 2; round++ {
		for i := range ids {
			ids[i] = take(t)
			for j := 0; j < i; j++ {
				Assert(ids[j] != ids[i], "no two transactions have the same id")
			}
		}
		none(t)
		for i := range ids {
			give(t, ids[i])
		}
	}
}

// More transactions than ids.
func C01_Many() {
	t := tsm.New(400)
	n := 0
	ids := make([]int, 256)
	for i := 0; i < 254; i++ {
		ids[i] = take(t)
		n++
	}
	for i := 0; i < 254; i += 50 {
		for j := 0; j < i; j++ {
			Assert(ids[j] != ids[i], "no two transactions have the same id")
		}
	}
	none(t)
	none(t)
	give(t, ids[7])
	Assert(take(t) == ids[7], "the id that is put back is free again")
	none(t)
}

// Any of the ids is put back, twice, and taken again.
func C01_Order(first, again, x byte) {
	t := tsm.New(3)
	ids := [3]int{take(t), take(t), take(t)}
	Assert(ids[0] != ids[1] && ids[1] != ids[2] && ids[0] != ids[2], "no two transactions have the same id")
	none(t)
	i, k := upTo2(first), upTo2(again)
	give(t, ids[i])
	err := t.Put(ids[i])
	Assert(err != nil, "an id is put back once only")
	err = t.Put(int(x))
	if int(x) != ids[0] && int(x) != ids[1] && int(x) != ids[2] {
		Assert(err != nil, "an id that was not taken can not be put back")
	} else {
		return
	}
	a := take(t)
	none(t)
	for j := range ids {
		Assert(j == i || ids[j] != a, "no two transactions have the same id")
	}
	ids[i] = a
	give(t, ids[k])
	if k != i {
		give(t, ids[i])
		ids[i] = take(t)
	}
	ids[k] = take(t)
	none(t)
	Assert(ids[0] != ids[1] && ids[1] != ids[2] && ids[0] != ids[2], "no two transactions have the same id")
}

func upTo2(n byte) int {
	switch n {
	case 1:
		return 1
	case 2:
		return 2
	}
	return 0
}

// Transactions that are given up while they wait for an id, or just when they
// get one.
func C01_GivenUp(size byte) {
	Tick()
	n := 3
	if size == 1 {
		n = 1
	}
	t := tsm.New(n)
	for i := 0; i < 3; i++ {
		if id, err := t.ID(soon()); err == nil {
			give(t, id)
		}
	}
	for i := 0; i < n; i++ {
		id, err := t.ID(context.Background())
		Assert(err == nil && id > 0 && id < 256, "an id that was not taken is free")
	}
}

func C01_Long() {
	t := tsm.New(2)
	a := take(t)
	for i := 0; i < 300; i++ {
		b := take(t)
		Assert(a != b, "no two transactions have the same id")
		give(t, b)
	}
	b := take(t)
	none(t)
	give(t, a)
	give(t, b)
}

func receive(t *tsm.TSM, id int) (interface{}, error) { return t.Receive(id, time.Second) }

func C02_Answer(v uint32, which, late byte) {
	t := tsm.New(3)
	ids := [3]int{take(t), take(t), take(t)}
	i := upTo2(which)
	for j := range ids {
		if j != i {
			_, err := receive(t, ids[j])
			Assert(err != nil, "waiting ends in time")
		}
	}
	err := t.Send(ids[i], v)
	Assert(err == nil, "an answer is taken")
	for j := range ids {
		if j != i {
			_, err := receive(t, ids[j])
			Assert(err != nil, "an answer is for its own transaction only")
		}
	}
	err = t.Send(ids[i], "second")
	got, failed := receive(t, ids[i])
	Assert(failed == nil, "an answer is received")
	Same(got, v, "the answer is the one that was sent")
	if err != nil {
		_, failed = receive(t, ids[i])
		Assert(failed != nil, "an answer is received once")
	}
	err = t.Send(ids[i], v)
	Assert(err == nil, "the next answer is taken")
}

// An answer that comes after its transaction has ended goes to nobody.
func C02_Late(v uint32, read bool) {
	t := tsm.New(1)
	a := take(t)
	err := t.Send(a, v)
	Assert(err == nil, "an answer is taken")
	if read {
		_, err = receive(t, a)
		Assert(err == nil, "an answer is received")
	}
	give(t, a)
	err = t.Send(a, v)
	Assert(err != nil, "an answer without a transaction is reported")
	_, err = receive(t, a)
	Assert(err != nil, "what is not a transaction receives nothing")
	for i := 0; i < 3; i++ {
		b := take(t)
		_, err = receive(t, b)
		Assert(err != nil, "a transaction receives no answer of an earlier one")
		err = t.Send(b, v)
		Assert(err == nil, "an answer is taken")
		got, err := receive(t, b)
		Assert(err == nil, "an answer is received")
		Same(got, v, "the answer is the one that was sent")
		err = t.Send(b, errors.New("late"))
		give(t, b)
	}
}

func C02_Unknown(id int, v uint32) {
	t := tsm.New(1)
	a := take(t)
	if id == a {
		return
	}
	err := t.Send(id, v)
	Assert(err != nil, "an answer without a transaction is reported")
	_, err = receive(t, a)
	Assert(err != nil, "an answer is for its own transaction only")
}

// Waiting for an answer takes the time that is asked for.
func C02_Time(timeout time.Duration, v uint32) {
	Assume(timeout > 0)
	t := tsm.New(2)
	a := take(t)
	_, err := t.Receive(a, timeout)
	Assert(err != nil, "waiting ends in time")
	Assert(Waits(timeout) > 0, "waiting lasts as long as asked")
}
