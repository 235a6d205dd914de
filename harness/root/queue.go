package ant

import (
	"context"
	"io"

	vt "github.com/yields/ant/internal/zzvt"
)

// Exactly once and in order, under concurrent producers and consumers.
//
// verif: all races
// verif: quick delay=3 batches=1
// verif: thorough delay=4 batches=2
func Verif_Q01_fifo() {
	vt.Expect("two-consumers", "one-consumer", "batch")
	q := MemoryQueue(vt.Choose("size", 2))
	ctx := context.Background()
	batches := vt.Param("batches", 1)
	consumers := 1 + vt.Choose("consumers", 2)
	type rec struct {
		u          *URL
		host       string
		prod, seq  int
		start, end int
		got        int
	}
	clock := 0
	var recs []*rec
	total := 0
	for p := 0; p < 2; p++ {
		p := p
		sizes := make([]int, batches)
		for b := range sizes {
			sizes[b] = 1
			if vt.Bool("pair") {
				sizes[b] = 2
			}
			total += sizes[b]
			if sizes[b] == 2 {
				vt.Reach("batch")
			}
		}
		var mine [][]*rec
		for _, n := range sizes {
			var rs []*rec
			for i := 0; i < n; i++ {
				r := &rec{host: string([]byte{vt.Byte("host", "")}), prod: p, seq: len(recs)}
				r.u = &URL{Host: r.host}
				recs = append(recs, r)
				rs = append(rs, r)
			}
			mine = append(mine, rs)
		}
		vt.Go(func() {
			for _, rs := range mine {
				var urls URLs
				for _, r := range rs {
					urls = append(urls, r.u)
				}
				clock++
				for _, r := range rs {
					r.start = clock
				}
				err := q.Enqueue(ctx, urls)
				clock++
				for _, r := range rs {
					r.end = clock
				}
				vt.Assert("enqueue", err == nil, "Enqueue on an open queue failed")
				// the batch belongs to the caller again
				for i := range urls {
					urls[i] = nil
				}
			}
		})
	}
	got := 0
	var order []*rec
	var hosts []string
	for c := 0; c < consumers; c++ {
		vt.Go(func() {
			for {
				u, err := q.Dequeue(ctx)
				if err != nil {
					vt.Assert("dequeue", err == io.EOF && got == total, "Dequeue failed on an open queue")
					return
				}
				got++
				var r *rec
				for _, x := range recs {
					if x.u == u {
						r = x
					}
				}
				vt.Assert("invented", r != nil, "Dequeue returned a URL that was not enqueued")
				vt.Assert("altered", vt.EqStr(u.Host, r.host), "Dequeue returned another URL than was enqueued")
				r.got++
				vt.Assert("repeated", r.got == 1, "a URL was dequeued twice")
				order = append(order, r)
				hosts = append(hosts, u.Host)
				q.Done(ctx, u)
			}
		})
	}
	vt.WaitUntil(func() bool { return got == total })
	q.Wait()
	q.Close(ctx)
	vt.Quiesce()
	vt.Assert("blocked", vt.Live() == 0, "a consumer is still blocked after Close")
	// by value: as many URLs with any given host left as came
	any := string([]byte{vt.Byte("any", "")})
	in, out := int64(0), int64(0)
	for _, r := range recs {
		in += vt.IteInt(vt.EqStr(r.host, any), 1, 0)
	}
	for _, h := range hosts {
		out += vt.IteInt(vt.EqStr(h, any), 1, 0)
	}
	vt.Assert("multiset", in == out, "other URLs left the queue than entered it")
	if consumers == 1 {
		vt.Reach("one-consumer")
		for i, r := range order {
			for _, s := range order[:i] {
				// s left before r
				vt.Assert("batch-order", !(s.prod == r.prod && s.seq > r.seq), "URLs of one producer left out of order")
				vt.Assert("real-time", !(r.end > 0 && r.end < s.start), "a URL left before one whose Enqueue had returned earlier")
			}
		}
	} else {
		vt.Reach("two-consumers")
	}
}

// Consumers which take one URL each: none of them stays blocked while there
// are URLs, however they came.
//
// verif: all races
// verif: quick preempt=2 consumers=3
// verif: thorough preempt=3 consumers=4
func Verif_Q01_wakeup() {
	vt.Expect("batch", "single")
	q := MemoryQueue(vt.Choose("size", 2))
	ctx := context.Background()
	n := vt.Param("consumers", 3)
	var got URLs
	for c := 0; c < n; c++ {
		vt.Go(func() {
			u, err := q.Dequeue(ctx)
			vt.Assert("dequeue", err == nil && u != nil, "Dequeue failed on an open queue")
			got = append(got, u)
		})
	}
	var all URLs
	for len(all) < n {
		size := 1 + vt.Choose("batch", n-len(all))
		if size > 1 {
			vt.Reach("batch")
		} else {
			vt.Reach("single")
		}
		var urls URLs
		for i := 0; i < size; i++ {
			urls = append(urls, &URL{})
		}
		all = append(all, urls...)
		vt.Assert("enqueue", q.Enqueue(ctx, urls) == nil, "Enqueue on an open queue failed")
	}
	vt.Quiesce()
	vt.Assert("stranded", vt.Live() == 0 && len(got) == n, "a consumer is blocked although URLs are queued")
	for _, u := range all {
		k := 0
		for _, g := range got {
			if g == u {
				k++
			}
		}
		vt.Assert("once", k == 1, "a URL was not dequeued exactly once")
	}
}

// Close wakes everybody, nothing is delivered afterwards.
//
// verif: all races
// verif: quick preempt=3
// verif: thorough preempt=4
func Verif_Q02_close() {
	vt.Expect("eof", "delivered", "refused", "enqueued")
	q := MemoryQueue(1)
	ctx := context.Background()
	closed := false
	n := 0
	for c := 0; c < 2; c++ {
		vt.Go(func() {
			for {
				was := closed
				u, err := q.Dequeue(ctx)
				if err != nil {
					vt.Assert("eof", err == io.EOF && u == nil, "Dequeue returned another error than io.EOF")
					vt.Reach("eof")
					return
				}
				vt.Assert("after-close", !was, "a URL was delivered after Close had returned")
				vt.Reach("delivered")
				n++
				vt.Yield()
				q.Done(ctx, u)
			}
		})
	}
	vt.Go(func() {
		was := closed
		err := q.Enqueue(ctx, URLs{&URL{Host: "a"}, &URL{Host: "b"}})
		if err != nil {
			vt.Reach("refused")
			vt.Assert("enqueue", err == io.EOF, "Enqueue returned another error than io.EOF")
		} else {
			vt.Reach("enqueued")
			vt.Assert("enqueue-closed", !was, "Enqueue succeeded after Close had returned")
		}
	})
	vt.Yield()
	err := q.Close(ctx)
	closed = true
	vt.Assert("close", err == nil, "Close failed")
	q.Wait()
	vt.Quiesce()
	vt.Assert("blocked", vt.Live() == 0, "a caller is still blocked after Close")
	_, err = q.Dequeue(ctx)
	vt.Assert("eof", err == io.EOF, "Dequeue after Close did not return io.EOF")
	err = q.Enqueue(ctx, URLs{&URL{}})
	vt.Assert("eof", err == io.EOF, "Enqueue after Close did not return io.EOF")
	q.Wait()
	vt.Assert("once", n <= 2, "a URL was delivered twice")
}

// Wait returns when everything was acknowledged or discarded, not earlier.
//
// verif: all races
// verif: quick preempt=3
// verif: thorough preempt=4
func Verif_Q02_wait() {
	vt.Expect("drained", "discarded")
	q := MemoryQueue(1)
	ctx := context.Background()
	n := 1 + vt.Choose("n", 3)
	var urls URLs
	for i := 0; i < n; i++ {
		urls = append(urls, &URL{})
	}
	vt.Assert("enqueue", q.Enqueue(ctx, urls) == nil, "Enqueue failed")
	take := vt.Int("take", 0, n)
	tries, out, acked := 0, 0, 0
	closing := false
	for c := 0; c < 2; c++ {
		vt.Go(func() {
			for tries < take {
				tries++
				u, err := q.Dequeue(ctx)
				if err != nil {
					return
				}
				out++
				vt.Yield()
				acked++
				q.Done(ctx, u)
			}
		})
	}
	if take < n {
		vt.Reach("discarded")
		vt.Go(func() {
			vt.Yield()
			closing = true
			q.Close(ctx)
		})
	} else {
		vt.Reach("drained")
	}
	q.Wait()
	if closing {
		vt.Assert("early", acked == out, "Wait returned although a dequeued URL was not acknowledged")
	} else {
		vt.Assert("early", acked == n, "Wait returned although URLs are outstanding")
	}
}

// Cancelled contexts change nothing.
//
// verif: all preempt=1
func Verif_Q02_canceled() {
	q := MemoryQueue(vt.Choose("size", 3))
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	ctx, want := zzEnded(ctx)
	bg := context.Background()
	n := vt.Choose("n", 3)
	var urls URLs
	for i := 0; i < n; i++ {
		urls = append(urls, &URL{Host: string([]byte{vt.Byte("h", "")})})
	}
	vt.Assert("enqueue", q.Enqueue(bg, urls) == nil, "Enqueue failed")
	err := q.Enqueue(ctx, URLs{&URL{Host: "bad"}})
	vt.Assert("enqueue-canceled", err == want, "Enqueue with a canceled context did not return its error")
	for i := 0; i < n; i++ {
		u, err := q.Dequeue(bg)
		vt.Assert("kept", err == nil && u == urls[i], "a canceled call changed the queue")
	}
	_, err = q.Dequeue(ctx)
	vt.Assert("dequeue-canceled", err == want, "a blocking Dequeue with a canceled context did not return its error")
	for i := 0; i < n; i++ {
		q.Done(bg, urls[i])
	}
	q.Wait()
	vt.Assert("open", q.Enqueue(bg, URLs{&URL{}}) == nil, "the queue was closed by a canceled call")
	q.Close(bg)
	q.Wait()
}

// The queue is used on while somebody waits.
//
// verif: all races
// verif: quick preempt=2
// verif: thorough preempt=3
func Verif_Q02_reused() {
	vt.Expect("again", "closed", "late")
	q := MemoryQueue(vt.Choose("size", 2))
	ctx := context.Background()
	n, acked, closed := 1, 0, false
	vt.Assert("enqueue", q.Enqueue(ctx, URLs{&URL{}}) == nil, "Enqueue failed")
	zero := false // at some moment nothing was outstanding
	rounds := 1 + vt.Choose("rounds", 2)
	closes := vt.Choose("closes", 2) == 1
	vt.Go(func() {
		for i := 0; i < rounds; i++ {
			if u, err := q.Dequeue(ctx); err == nil {
				acked++
				zero = zero || acked == n
				q.Done(ctx, u)
			}
			n++
			if err := q.Enqueue(ctx, URLs{&URL{}}); err != nil {
				vt.Assert("eof", vt.And(closed, err == io.EOF), "Enqueue failed on an open queue")
				n--
				vt.Reach("late")
			} else {
				vt.Reach("again")
			}
		}
		if u, err := q.Dequeue(ctx); err == nil {
			acked++
			zero = zero || acked == n
			q.Done(ctx, u)
		}
	})
	if closes {
		vt.Go(func() {
			closed = true
			q.Close(ctx)
			vt.Reach("closed")
		})
	}
	q.Wait()
	vt.Assert("early", vt.Or(zero, closed), "Wait returned although a URL was outstanding all the time")
}

// Several goroutines wait: all of them return.
//
// verif: all races
// verif: quick preempt=2 waiters=2
// verif: thorough preempt=3 waiters=3
func Verif_Q02_waiters() {
	vt.Expect("acked", "closed")
	q := MemoryQueue(1)
	ctx := context.Background()
	n := 1 + vt.Choose("n", 2)
	urls := make(URLs, n)
	for i := range urls {
		urls[i] = &URL{}
	}
	vt.Assert("enqueue", q.Enqueue(ctx, urls) == nil, "Enqueue failed")
	take := n - vt.Choose("left", 2)
	acked, closed := 0, false
	for c := vt.Param("waiters", 2); c > 0; c-- {
		vt.Go(func() {
			q.Wait()
			vt.Assert("early", closed || acked == n, "Wait returned although URLs are outstanding")
		})
	}
	for i := 0; i < take; i++ {
		u, err := q.Dequeue(ctx)
		vt.Assert("dequeue", err == nil, "Dequeue failed on an open queue")
		vt.Yield()
		acked++
		q.Done(ctx, u)
	}
	if take < n {
		vt.Reach("closed")
		vt.Yield()
		closed = true
		q.Close(ctx)
	} else {
		vt.Reach("acked")
	}
	vt.Quiesce()
	vt.Assert("blocked", vt.Live() == 0, "a Wait did not return although nothing is outstanding")
}

// zzDeadlined is a context that ends by its deadline.
type zzDeadlined struct{ context.Context }

func (c zzDeadlined) Err() error {
	if c.Context.Err() != nil {
		return context.DeadlineExceeded
	}
	return nil
}

// zzEnded chooses how ctx ends, and returns its error.
func zzEnded(ctx context.Context) (context.Context, error) {
	if vt.Choose("ends", 2) == 1 {
		return zzDeadlined{ctx}, context.DeadlineExceeded
	}
	return ctx, context.Canceled
}
