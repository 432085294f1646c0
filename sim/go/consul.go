package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Consul is the simulated lock service: sessions with TTL and lock delay, and a
// key-value store with acquire/release and blocking queries, behind the HTTP API.
type Consul struct {
	w        *World
	kv       map[string]*kvEnt
	sessions map[string]*session
	index    uint64
	notify   chan struct{}
	rng      *Rng
	delayTo  map[string]time.Time // key -> end of lock delay
	cut      map[string]bool      // hosts whose agent has lost the servers
	down     bool
	nextSess int
	Latency  time.Duration
	patience time.Duration // of an agent without servers, before it reports an error
	lockKey  string
}

type kvEnt struct {
	value   []byte
	flags   uint64
	session string
	create  uint64
	modify  uint64
	lockIdx uint64
}

type session struct {
	id        string
	node      uint32
	ttl       time.Duration
	lockDelay time.Duration
	gen       int
}

func NewConsul(w *World, seed uint64) *Consul {
	c := &Consul{w: w, kv: map[string]*kvEnt{}, sessions: map[string]*session{}, index: 10,
		notify: make(chan struct{}), rng: NewRng(seed), delayTo: map[string]time.Time{}, cut: map[string]bool{},
		Latency: time.Millisecond, patience: 2 * time.Second, lockKey: kvPath + "/lock"}
	l := w.net.Listen(consulAddr, 0)
	srv := &http.Server{Handler: c, ErrorLog: log.New(io.Discard, "", 0),
		ConnContext: func(ctx context.Context, cn net.Conn) context.Context { return context.WithValue(ctx, connKey{}, cn) }}
	go srv.Serve(l)
	return c
}

func (c *Consul) changed() {
	c.index++
	close(c.notify)
	c.notify = make(chan struct{})
}

func (c *Consul) heal() {
	c.down = false
	for h := range c.cut {
		delete(c.cut, h)
	}
	c.changed()
}

func (c *Consul) Cut(host string)   { c.cut[host] = true; c.changed() }
func (c *Consul) Uncut(host string) { delete(c.cut, host) }

func (c *Consul) arm(s *session) {
	s.gen++
	gen := s.gen
	d := s.ttl + time.Duration(c.rng.Intn(int(s.ttl)))
	go func() {
		time.Sleep(d)
		if c.sessions[s.id] == s && s.gen == gen {
			c.w.event("lock service: session of %s expires", c.w.name(s.node))
			c.w.count("consul:session-expired")
			c.invalidate(s)
		}
	}()
}

func (c *Consul) invalidate(s *session) {
	if c.sessions[s.id] != s {
		return
	}
	delete(c.sessions, s.id)
	keys := make([]string, 0, len(c.kv))
	for k := range c.kv {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := c.kv[k]
		if e.session == s.id {
			e.session = ""
			c.changed()
			e.modify = c.index
			if s.lockDelay > 0 {
				c.delayTo[k] = time.Now().Add(s.lockDelay)
			}
			if k == c.lockKey {
				c.w.o.onLockLost(s.node)
			}
		}
	}
	c.changed()
}

// InvalidateOf drops the session of a node, as an operator or a failed health check would.
func (c *Consul) InvalidateOf(node uint32) {
	ids := make([]string, 0)
	for id, s := range c.sessions {
		if s.node == node {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		c.w.event("lock service: session of %s invalidated", c.w.name(node))
		c.w.fault("dropsession")
		c.invalidate(c.sessions[id])
	}
}

// Set stores a value directly.
func (c *Consul) Set(key string, value []byte) {
	c.changed()
	c.kv[key] = &kvEnt{value: value, create: c.index, modify: c.index}
}

func (c *Consul) Holder() uint32 {
	if e := c.kv[c.lockKey]; e != nil && e.session != "" {
		if s := c.sessions[e.session]; s != nil {
			return s.node
		}
	}
	return 0
}

func (c *Consul) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	conn, _ := r.Context().Value(connKey{}).(*Conn)
	node := uint32(0)
	host := ""
	if conn != nil {
		node, host = conn.peer.node, conn.rhost
	}
	body, err := io.ReadAll(r.Body)
	if err != nil || c.w.nodeDead(node) {
		return
	}
	q := r.URL.Query()
	path := strings.TrimPrefix(r.URL.Path, "/v1/")
	op := ""
	switch {
	case r.Method == "PUT" && path == "session/create":
		op = "session-create"
	case r.Method == "PUT" && strings.HasPrefix(path, "session/renew/"):
		op = "renew"
	case r.Method == "PUT" && strings.HasPrefix(path, "session/destroy/"):
		op = "destroy"
	case r.Method == "PUT" && strings.HasPrefix(path, "kv/") && q.Has("acquire"):
		op = "acquire"
	case r.Method == "PUT" && strings.HasPrefix(path, "kv/") && q.Has("release"):
		op = "release"
	case r.Method == "PUT" && strings.HasPrefix(path, "kv/"):
		op = "kvput"
	case r.Method == "GET" && strings.HasPrefix(path, "kv/"):
		op = "kvget"
	case r.Method == "GET" && strings.HasPrefix(path, "session/info/"):
		op = "session-info"
	default:
		c.w.notes = append(c.w.notes, "lock service: unsupported request "+r.Method+" "+path)
		http.Error(w, "unsupported", 400)
		return
	}
	fail := func() { http.Error(w, "rpc error: No cluster leader", 500) }
	time.Sleep(c.Latency)
	f := c.w.matchOp(op, "consul", path, node)
	if f != nil {
		switch f.Act {
		case "err":
			fail()
			return
		case "reset":
			abortConn(r)
		case "stall":
			time.Sleep(time.Duration(f.Dur) * time.Millisecond)
		case "crash":
			c.w.crash(node, "fault")
			return
		case "crash-after":
			defer c.w.crash(node, "fault")
		case "err-after", "reset-after":
			defer func() {}()
		}
	}
	if c.down || c.cut[host] {
		time.Sleep(c.patience)
		fail()
		return
	}
	after := func() bool {
		if f != nil && f.Act == "err-after" {
			fail()
			return true
		}
		if f != nil && f.Act == "reset-after" {
			abortConn(r)
		}
		return false
	}
	meta := func() {
		w.Header().Set("Content-Type", "application/json")
		w.Header().Set("X-Consul-Index", strconv.FormatUint(c.index, 10))
		w.Header().Set("X-Consul-LastContact", "0")
		w.Header().Set("X-Consul-KnownLeader", "true")
	}
	switch op {
	case "session-create":
		var in struct {
			TTL       string
			LockDelay any
		}
		json.Unmarshal(body, &in)
		c.nextSess++
		s := &session{id: fmt.Sprintf("00000000-0000-0000-0000-%012d", c.nextSess), node: node, ttl: 15 * time.Second, lockDelay: 15 * time.Second}
		if d, err := time.ParseDuration(in.TTL); err == nil {
			s.ttl = d
		}
		switch v := in.LockDelay.(type) {
		case string:
			if d, err := time.ParseDuration(v); err == nil {
				s.lockDelay = d
			}
		case float64:
			s.lockDelay = time.Duration(v)
		}
		if n := c.w.nodes[node]; n != nil {
			n.session = s.id
		}
		c.sessions[s.id] = s
		c.arm(s)
		if after() {
			return
		}
		meta()
		json.NewEncoder(w).Encode(map[string]string{"ID": s.id})
	case "renew":
		s := c.sessions[strings.TrimPrefix(path, "session/renew/")]
		if s == nil {
			http.Error(w, "Session id not found", 404)
			return
		}
		c.arm(s)
		meta()
		json.NewEncoder(w).Encode([]map[string]any{{"ID": s.id, "TTL": s.ttl.String(), "LockDelay": s.lockDelay}})
	case "destroy":
		if s := c.sessions[strings.TrimPrefix(path, "session/destroy/")]; s != nil {
			c.w.event("lock service: session of %s destroyed", c.w.name(s.node))
			c.invalidate(s)
		}
		meta()
		io.WriteString(w, "true")
	case "session-info":
		meta()
		io.WriteString(w, "[]")
	case "acquire", "release", "kvput":
		key := strings.TrimPrefix(path, "kv/")
		e := c.kv[key]
		ok := true
		if op == "acquire" {
			s := c.sessions[q.Get("acquire")]
			if s == nil {
				http.Error(w, "invalid session", 500)
				return
			}
			if e != nil && e.session != "" && e.session != s.id || time.Now().Before(c.delayTo[key]) {
				ok = false
			}
		}
		if op == "release" && (e == nil || e.session != q.Get("release") || e.session == "") {
			ok = false
		}
		if ok {
			if e == nil {
				e = &kvEnt{create: c.index + 1}
				c.kv[key] = e
			}
			e.value = append([]byte(nil), body...)
			e.flags, _ = strconv.ParseUint(q.Get("flags"), 10, 64)
			switch op {
			case "acquire":
				if e.session == "" {
					e.lockIdx++
				}
				e.session = q.Get("acquire")
			case "release":
				e.session = ""
			}
			c.changed()
			e.modify = c.index
			if key == c.lockKey {
				if op == "acquire" {
					c.w.event("lock service: %s holds the lock", c.w.name(node))
					c.w.o.onLockAcquired(node)
				} else if op == "release" {
					c.w.event("lock service: %s releases the lock", c.w.name(node))
					c.w.o.onLockReleased(node)
				}
			}
		}
		if after() {
			return
		}
		meta()
		fmt.Fprint(w, ok)
	case "kvget":
		key := strings.TrimPrefix(path, "kv/")
		idx, _ := strconv.ParseUint(q.Get("index"), 10, 64)
		if idx > 0 {
			wait := 5 * time.Minute
			if d, err := time.ParseDuration(q.Get("wait")); err == nil && d > 0 {
				wait = d
			}
			deadline := time.NewTimer(wait + wait/16)
			for {
				if c.down || c.cut[host] {
					deadline.Stop()
					time.Sleep(c.patience)
					fail()
					return
				}
				cur := uint64(0)
				if e := c.kv[key]; e != nil {
					cur = e.modify
				}
				if cur > idx || idx > c.index {
					break
				}
				nf := c.notify
				expired := false
				select {
				case <-nf:
				case <-deadline.C:
					expired = true
				case <-r.Context().Done():
					deadline.Stop()
					return
				}
				if expired {
					break
				}
			}
			deadline.Stop()
		}
		e := c.kv[key]
		meta()
		if e == nil {
			w.WriteHeader(404)
			return
		}
		if idx > 0 || true {
			w.Header().Set("X-Consul-Index", strconv.FormatUint(e.modify, 10))
		}
		out := map[string]any{"Key": key, "CreateIndex": e.create, "ModifyIndex": e.modify, "LockIndex": e.lockIdx,
			"Flags": e.flags, "Value": base64.StdEncoding.EncodeToString(e.value)}
		if e.session != "" {
			out["Session"] = e.session
		}
		json.NewEncoder(w).Encode([]any{out})
	}
}
