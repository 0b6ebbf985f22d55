package registry

// VerifDiscovery makes a discovery that knows the given services: name -> id -> address.
func VerifDiscovery(services map[string]map[string]string) *EtcdDiscovery {
	d := &EtcdDiscovery{group: "g", services: map[string]*serviceList{}, Close: func() {}}
	for name, ids := range services {
		d.services[name] = newServiceList()
		for id, addr := range ids {
			d.addService(name, addr, "g/registry/"+name+"/"+id)
		}
	}
	return d
}

// VerifRemove forgets a service.
func (e *EtcdDiscovery) VerifRemove(name, id string) {
	e.removeService(name, "g/registry/"+name+"/"+id)
}
