package drv

import (
	stdlog "log"
	"net"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"

	"verifh/ref"
	"verifh/v"
)

// guard catches two users of one connection.
func guard(ss []*Server) {
	for _, s := range ss {
		s.yield = true
	}
}

// user takes a connection, runs a query, and gives it back.
func (w *pworld) user(q string, rounds int) {
	for i := 0; i < rounds; i++ {
		c, err := w.pool.OpenPool()
		v.Assert(err == nil, "OpenPool: succeeds")
		r, err := c.ExecNeo(q, nil)
		v.Assert(err == nil, "ExecNeo: succeeds")
		x, ok := r.Metadata()["sum"].(string)
		v.Assert(ok && x == q, "ExecNeo: its own result")
		v.Assert(c.Close() == nil, "Close: succeeds")
	}
}

func together(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		v.Go(func() {
			defer wg.Done()
			f()
		})
	}
	wg.Wait()
}

// C20_One: two users twice each share a pool of one connection, under every schedule with up to 2 (thorough 3) preemptions.
func C20_One() {
	w := newPool(1, 3)
	guard(w.ss)
	v.Concurrent(2 + v.Tier())
	together(func() { w.user("A", 2) }, func() { w.user("B", 2) })
	v.Assert(*w.dials == 1, "the connection is reused")
	w.full()
}

// C20_Two: three users share a pool of two connections.
func C20_Two() {
	w := newPool(2, 4)
	guard(w.ss)
	v.Concurrent(1 + v.Tier())
	together(func() { w.user("A", 1) }, func() { w.user("B", 1) }, func() { w.user("C", 1) })
	v.Assert(*w.dials <= 2, "no more connections than the pool's size")
	w.full()
}

// C20_Faults: two users share a pool of one or two connections, the first connection is lost at any point: each call gives the right result or an error, and nobody waits forever.
func C20_Faults() {
	w := newPool(1+v.Choose(2), 5)
	guard(w.ss)
	s := w.ss[0]
	s.faultOp = v.Int(0, 30)
	s.fault = v.Choose(2)
	v.Concurrent(1 + v.Tier())
	f := func(q string) func() {
		return func() {
			c, err := w.pool.OpenPool()
			if err != nil {
				return
			}
			r, err := c.ExecNeo(q, nil)
			if err == nil {
				x, ok := r.Metadata()["sum"].(string)
				v.Assert(ok && x == q, "ExecNeo: its own result")
			}
			c.Close()
		}
	}
	together(f("A"), f("B"))
	if s.faulted {
		v.Assert(s.closed == 1, "a lost connection is released")
		v.Assert(s.late == 0, "a lost connection is not used again")
		v.Reach("lost")
	}
	s.faultOp = -1
	w.full()
}

// C20_Driver: two users open connections of their own through one driver at the same time.
func C20_Driver() {
	w := newPool(1, 2)
	guard(w.ss)
	d := bolt.NewDriver()
	v.Concurrent(1 + v.Tier())
	f := func(q string) func() {
		return func() {
			c, err := d.OpenNeo(connStr)
			v.Assert(err == nil, "OpenNeo: succeeds")
			r, err := c.ExecNeo(q, nil)
			v.Assert(err == nil, "ExecNeo: succeeds")
			x, ok := r.Metadata()["sum"].(string)
			v.Assert(ok && x == q, "ExecNeo: its own result")
			v.Assert(c.Close() == nil, "Close: succeeds")
		}
	}
	together(f("A"), f("B"))
	for _, s := range w.ss {
		v.Assert(s.closed == 1, "Close: the socket is released")
	}
}

type nowhere struct{}

func (nowhere) Write(b []byte) (int, error) { return len(b), nil }

// apart makes two servers, reached as a:7687 and b:7687, and sets the log level.
func apart() []*Server {
	var ss []*Server
	for i := 0; i < 2; i++ {
		s := newServer()
		s.id = i
		s.tag = "ab"[i : i+1]
		ss = append(ss, s)
	}
	guard(ss)
	v.Dial = func(network, addr string, timeout time.Duration) (net.Conn, error) {
		return ss[addr[0]-'a'], nil
	}
	if v.Choose(2) == 1 {
		log.ErrorLog = stdlog.New(nowhere{}, "", 0)
		log.InfoLog = stdlog.New(nowhere{}, "", 0)
		log.TraceLog = stdlog.New(nowhere{}, "", 0)
		log.SetLevel("trace")
	}
	return ss
}

// C20_Calls: two users, each with a connection of its own from one driver, make any one call of the API at the same time, which succeeds or is refused: each gets its own answers.
func C20_Calls() {
	ss := apart()
	defer log.SetLevel("")
	bad := v.Choose(3)
	for _, s := range ss {
		s.onPlan = func(p *Plan) {
			p.N = 1
			p.RunFail, p.PullFail = bad == 1, bad == 2
		}
	}
	d := bolt.NewDriver()
	k := v.Choose(len((&world{}).calls()))
	v.Concurrent(v.Tier())
	f := func(i int) func() {
		return func() {
			w := &world{s: ss[i], sticky: true}
			var err error
			w.c, err = d.OpenNeo("bolt://u:p@" + "ab"[i:i+1] + ":7687")
			v.Assert(err == nil, "OpenNeo: succeeds")
			w.calls()[k]()
			w.acked()
			w.c.Close()
			v.Assert(w.s.closed == 1, "Close: the socket is released")
		}
	}
	together(f(0), f(1))
}

// C20_Values: two users, each with a connection of its own, send and receive values of every kind and size of header at the same time: each gets its own.
func C20_Values() {
	ss := apart()
	defer log.SetLevel("")
	d := bolt.NewDriver()
	chunk := []uint16{0, 3, 65535}[v.Choose(3)]
	long := v.Choose(2)
	v.Concurrent(v.Tier())
	f := func(i int) func() {
		x := "xy"[i : i+1]
		str := func(n int) string {
			b := make([]byte, n)
			for j := range b {
				b[j] = x[0]
			}
			return string(b)
		}
		n := graph.Node{NodeIdentity: int64(i), Labels: []string{x}, Properties: map[string]interface{}{x: x}}
		u := graph.UnboundRelationship{RelIdentity: int64(i), Type: x, Properties: map[string]interface{}{}}
		vals := []interface{}{nil, i == 0, int64(i), int64(-100 - i), int64(200 + i), int64(-200 - i), int64(70000 + i), int64(-70000 - i), int64(1)<<40 + int64(i), -int64(1)<<40 - int64(i),
			1.5 + float64(i), str(3 + i), str(20 + i), str(260 + i), []interface{}{x}, map[string]interface{}{x: x, "n": nil},
			n, u, graph.Relationship{RelIdentity: int64(i), StartNodeIdentity: 1, EndNodeIdentity: 2, Type: x, Properties: map[string]interface{}{x: int64(i)}},
			graph.Path{Nodes: []graph.Node{n}, Relationships: []graph.UnboundRelationship{u}, Sequence: []int{1, i}}}
		if long == 1 {
			var l []interface{}
			m := map[string]interface{}{}
			for j := 0; j < 280; j++ {
				l = append(l, int64(i))
				if j < 17 {
					m[x+string(rune('a'+j))] = int64(i)
				}
			}
			vals = []interface{}{l[:280], m, l[:16], str(400)}
		}
		s := ss[i]
		s.onPlan = func(p *Plan) {
			p.N = 1
			p.Meta = map[string]interface{}{"stats": map[string]interface{}{"nodes-created": int64(i + 1)}}
		}
		s.rec = func(p *Plan, i int) []interface{} { return vals }
		params := map[string]interface{}{}
		for j, y := range vals {
			params["p"+string(rune('a'+j))] = y
		}
		return func() {
			c, err := d.OpenNeo("bolt://" + x + ":" + x + "@" + "ab"[i:i+1] + ":7687?timeout=5")
			v.Assert(err == nil, "OpenNeo: succeeds")
			c.SetChunkSize(chunk)
			rows, _, _, err := c.QueryNeoAll(x, params)
			v.Assert(err == nil && len(rows) == 1, "QueryNeoAll: its own row")
			ref.Same(rows[0], vals, "QueryNeoAll: its own values")
			ref.Same(s.plans[0].Params, params, "its own parameters")
			r, err := c.ExecNeo(x, nil)
			v.Assert(err == nil, "ExecNeo: succeeds")
			k, err := r.RowsAffected()
			v.Assert(err == nil && k == int64(i+1), "RowsAffected: its own")
			_, err = c.ExecNeo(x, map[string]interface{}{"c": make(chan int)})
			v.Assert(err != nil, "a parameter that cannot be encoded")
			v.Assert(len(err.Error()) > 0, "the text of an error")
			v.Assert(c.Close() == nil, "Close: succeeds")

			b, err := encoding.Marshal(params)
			v.Assert(err == nil, "Marshal: succeeds")
			y, err := encoding.Unmarshal(b)
			v.Assert(err == nil, "Unmarshal: succeeds")
			ref.Same(y, params, "Unmarshal: its own")
		}
	}
	together(f(0), f(1))
}
