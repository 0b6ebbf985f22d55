package registry

import (
	"common/verifrt"
	"strconv"
	"time"
)

// zzWord makes a name of n symbolic bytes.
func zzWord(name string, n int) string {
	s := verifrt.AnyString(name, n)
	for i := 0; i < n; i++ {
		verifrt.Assume(s[i] != '/')
	}
	return s
}

type zzServer struct {
	cfg  Config
	reg  *EtcdRegistry
	role int // 0 none, 1 master, 2 slave
	up   bool
	addr string
}

func zzServers(e *VerifEtcd, group string, names ...string) []*zzServer {
	var ss []*zzServer
	for i, n := range names {
		s := &zzServer{addr: "10.0.0." + strconv.Itoa(i+1) + ":8080"}
		s.cfg = Config{ServerIP: "10.0.0." + strconv.Itoa(i+1), ServerPort: "8080", Group: group, Name: n, ServerID: zzWord("id", 2)}
		for _, o := range ss {
			verifrt.Assume(o.cfg.ServerID != s.cfg.ServerID)
		}
		s.reg = NewEtcdRegistry(e.Client(), &s.cfg)
		ss = append(ss, s)
	}
	return ss
}

// step lets the server appear, take a role or disappear.
func (s *zzServer) step() {
	switch k := verifrt.Choice("step", 4); k {
	case 3:
		s.reg.Unregister()
		s.up = false
	case 0:
		s.reg.Register(0)
		s.up = true
	case 1:
		s.reg.AsMaster().Register(0)
		s.up, s.role = true, 1
	case 2:
		s.reg.AsSlave().Register(0)
		s.up, s.role = true, 2
	}
}

// zzKnows checks that exactly the servers of service that are up are known.
func zzKnows(ss []*zzServer, service string, ls []string, mp map[string]string, masters, slaves map[string]string) {
	n, nm, nsl := 0, 0, 0
	for _, s := range ss {
		if s.cfg.Name != service || !s.up {
			continue
		}
		n++
		c := 0
		for _, a := range ls {
			if a == s.addr {
				c++
			}
		}
		verifrt.Assert(c == 1, "a registered server is listed once")
		verifrt.Assert(mp[s.cfg.ServerID] == s.addr, "a registered server is found by its id")
		if masters == nil {
			continue
		}
		if s.role == 2 {
			nsl++
			verifrt.Assert(slaves[s.cfg.ServerID] == s.addr, "a slave is found among slaves")
		} else {
			nm++
			verifrt.Assert(masters[s.cfg.ServerID] == s.addr, "a master is found among masters")
		}
	}
	verifrt.Assert(len(ls) == n && len(mp) == n, "only registered servers are known")
	if masters != nil {
		verifrt.Assert(len(masters) == nm && len(slaves) == nsl, "servers are known in their role only")
	}
}

// Discovery follows registrations, whatever comes between.
//
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C25 quick=90s thorough=900s
func VerifC25Discovery() {
	e := VerifNewEtcd()
	group := zzWord("group", 2)
	ss := zzServers(e, group, "obj", "obj-cold", "obj")
	n := verifrt.Bound("changes", 2, 3)
	fault := verifrt.Choice("fault", 4) // 1: first listing fails, 2: watches end, 3: watches are cancelled
	at := make([]int, n)                // when: before, while listing is answered, after, after a fault
	for i := range at {
		at[i] = verifrt.Choice("when", 4)
		if i > 0 {
			verifrt.Assume(at[i] >= at[i-1])
		}
	}
	who := 0
	run := func(when int) {
		for i := range at {
			if at[i] == when {
				ss[who%3].step()
				who += 1 + verifrt.Choice("next server", 2)
			}
		}
	}
	run(0)
	once := false
	e.AfterGet = func() {
		if !once {
			once = true
			run(1)
		}
	}
	if fault == 1 {
		e.GetErrs = 1
	}
	d := NewEtcdDiscovery(e.Client(), &Config{ServerIP: "10.0.0.9", ServerPort: "1", Group: group, Name: "api", ServerID: "me", Services: []string{"obj", "obj-cold"}})
	verifrt.Drain()
	if fault == 1 {
		verifrt.Advance(int64(2500 * time.Millisecond))
		verifrt.Drain()
	}
	run(2)
	verifrt.Drain()
	if fault >= 2 {
		e.Break(fault == 3)
		run(3)
		verifrt.Advance(int64(2500 * time.Millisecond))
		verifrt.Drain()
	} else {
		run(3)
		verifrt.Drain()
	}
	for _, s := range []string{"obj", "obj-cold"} {
		zzKnows(ss, s, d.GetServices(s), d.GetServiceMapping(s), d.GetServiceMappingWith(s, true), d.GetServiceMappingWith(s, false))
		verifrt.Assert(d.GetServiceCount(s) == len(d.GetServices(s)), "servers are counted")
		zzKnows(ss, s, ss[0].reg.GetServices(s), ss[0].reg.GetServiceMapping(s), nil, nil)
	}
	for _, s := range ss {
		a, ok := d.GetService(s.cfg.Name, s.cfg.ServerID)
		verifrt.Assert(ok == s.up && (!ok || a == s.addr), "a server is found exactly while it is registered")
	}
	verifrt.Assert(len(d.GetServices("other")) == 0, "unknown services have no servers")
	d.Close()
	verifrt.Drain()
	verifrt.Advance(int64(2500 * time.Millisecond))
	verifrt.Drain()
	verifrt.Assert(e.Watching() == 0, "closing ends watching")
	verifrt.Reach("followed")
}

// A server knows itself, once.
//
//gosym:harness C25 quick=40s thorough=300s
func VerifC25Self() {
	e := VerifNewEtcd()
	group := zzWord("group", 2)
	ss := zzServers(e, group, "obj", "obj")
	ss[0].cfg.Services = []string{"obj"}
	early := verifrt.Choice("registered before", 2) == 1
	if early {
		ss[0].reg.Register(0)
	}
	d := NewEtcdDiscovery(e.Client(), &ss[0].cfg)
	ss[0].up = true
	zzKnows(ss[:1], "obj", d.GetServices("obj"), d.GetServiceMapping("obj"), nil, nil)
	verifrt.Drain()
	zzKnows(ss, "obj", d.GetServices("obj"), d.GetServiceMapping("obj"), nil, nil)
	if !early {
		ss[0].reg.Register(0)
	}
	ss[1].reg.Register(0)
	ss[1].up = true
	verifrt.Drain()
	zzKnows(ss, "obj", d.GetServices("obj"), d.GetServiceMapping("obj"), nil, nil)
	d.Close()
	verifrt.Reach("knows itself")
}

// Servers get different ids when none is configured.
//
//gosym:harness C25 quick=20s thorough=60s
func VerifC25ID() {
	host := func(name string) (string, [4]int) {
		var o [4]int
		s := ""
		for i := range o {
			o[i] = []int{1, 11, 111}[verifrt.Choice(name, verifrt.Bound("octets", 2, 3))]
			if i > 0 {
				s += "."
			}
			s += strconv.Itoa(o[i])
		}
		return s, o
	}
	a, oa := host("a")
	b, ob := host("b")
	pa, pb := verifrt.Choice("port", 2), verifrt.Choice("port", 2)
	ca := Config{ServerIP: a, ServerPort: strconv.Itoa(80 + pa), Group: "g", Name: "obj"}
	cb := Config{ServerIP: b, ServerPort: strconv.Itoa(80 + pb), Group: "g", Name: "obj"}
	x, y := ca.SID(), cb.SID()
	verifrt.Assert(ca.SID() == x, "an id stays")
	if a == b && pa == pb {
		verifrt.Assert(x == y, "the same server has the same id")
	} else {
		verifrt.Finding("default-id-without-dots", pa == pb && oa != ob)
		verifrt.Assert(x != y, "different servers have different ids")
	}
	verifrt.Reach("ids")
}
