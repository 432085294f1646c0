package main

// A Plan is everything that decides a run: configuration, scheduling policy,
// workload steps and faults. Run(plan) is a function of the plan and the code.
type Plan struct {
	Profile string  `json:"profile"`
	Seed    uint64  `json:"seed"`
	Sched   Sched   `json:"sched"`
	Cfg     Cfg     `json:"cfg"`
	Steps   []Step  `json:"steps"`
	Faults  []Fault `json:"faults"`
}

type Sched struct {
	Mode    uint32 `json:"mode"` // 0 FIFO, 1 uniform, 2 priorities
	Seed    uint64 `json:"seed"`
	Yield   uint32 `json:"yield"`   // yield at a sync point when rnd&mask==0 (0: never)
	Change  uint32 `json:"change"`  // mode 2: re-draw a priority when rnd&mask==0
	Preempt uint32 `json:"preempt"` // preempt at an allocation when rnd&mask==0 (0: never)
	Point   uint32 `json:"point"`   // switch between two statements of itko, about every so many (0: never)
}

type Cfg struct {
	Kind      string  `json:"kind"` // "log", "setup", "fsstore", "edge", "index"
	Machines  int     `json:"machines"`
	FS        bool    `json:"fs"`
	Mask      int     `json:"mask"`
	FlushMs   int     `json:"flush_ms"`
	NetUs     int     `json:"net_us"`
	NetJitUs  int     `json:"net_jit_us"`
	S3Us      int     `json:"s3_us"`
	S3JitUs   int     `json:"s3_jit_us"`
	FsUs      int     `json:"fs_us"`
	InitSize  uint64  `json:"init_size"`
	InitReal  int     `json:"init_real,omitempty"` // full tiles of the installed log that are known entry by entry
	InitBig   bool    `json:"init_big,omitempty"`  // its last entries are large
	InitAgeS  int     `json:"init_age_s,omitempty"`
	Trust     bool    `json:"trust,omitempty"` // setup: not repeated once it reported success
	RestartMs int     `json:"restart_ms"`
	SkewMs    []int64 `json:"skew_ms"`
	RunMs     int     `json:"run_ms"`          // workload phase
	Align     int     `json:"align,omitempty"` // fill up the last tile at the end; 2: and start again from there
	AuditMax  int     `json:"audit_max"`       // entries looked at one by one in the audit
	IdleMs    int     `json:"idle_ms"`
	Backend   string  `json:"backend,omitempty"` // edge: cache behaviour
	Pops      int     `json:"pops,omitempty"`
	Evict     int     `json:"evict,omitempty"`      // one hit in so many finds its object evicted
	CacheErr  int     `json:"cache_err,omitempty"`  // one operation of the edge platform in so many fails
	OtherSize int     `json:"other_size,omitempty"` // edge: size of a second log behind the same service
	PreInit   string  `json:"preinit,omitempty"`
}

// Step is one workload or environment event at an absolute simulated time.
type Step struct {
	At  int    `json:"at"` // ms after the start
	Op  string `json:"op"`
	A   int    `json:"a,omitempty"`
	B   int    `json:"b,omitempty"`
	C   int    `json:"c,omitempty"`
	S   string `json:"s,omitempty"`
	Dur int    `json:"dur,omitempty"` // ms
}

// Fault fires when an operation it matches happens.
type Fault struct {
	On     string `json:"on"`             // "put:sth", "get:*", "head:issuer", "fs:write:sth", ...
	Role   string `json:"role,omitempty"` // default "submit"
	Nth    int    `json:"nth,omitempty"`  // fire from the Nth match on (0 and 1: the first)
	From   int    `json:"from,omitempty"` // ms: not before
	Act    string `json:"act"`
	Status int    `json:"status,omitempty"`
	Count  int    `json:"count,omitempty"` // how many times (0 and 1: once)
	Sticky bool   `json:"sticky,omitempty"`
	Dur    int    `json:"dur,omitempty"` // ms
}

type Violation struct {
	Props []string `json:"props"`
	Msg   string   `json:"msg"`
	Key   string   `json:"key"` // stable identification (no times, no random data)
	AtMs  int64    `json:"at_ms"`
}

type Result struct {
	OK         bool           `json:"ok"`
	Profile    string         `json:"profile"`
	Seed       uint64         `json:"seed"`
	Violations []Violation    `json:"violations"`
	SimMs      int64          `json:"sim_ms"`
	Steps      uint64         `json:"steps"`
	Picks      uint64         `json:"picks"`
	Hash       string         `json:"hash"`  // whole schedule
	Trace      string         `json:"trace"` // externally visible history
	Counts     map[string]int `json:"counts"`
	Events     []string       `json:"events,omitempty"`
	Notes      []string       `json:"notes,omitempty"`
}
