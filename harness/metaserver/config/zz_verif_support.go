package config

import "sync"

// VerifConfig is a configuration that persists itself to a file.
func VerifConfig(path string) *Config { return &Config{filePath: path, persistLock: &sync.Mutex{}} }

// VerifPersist stands for writing the configuration file.
//
//gosym:model (*metaserver/config.Config).Persist
func VerifPersist(c *Config) error {
	VerifPersisted[c] = append([]string{}, c.Cluster.Nodes...)
	return nil
}

// VerifPersisted are the nodes of a cluster in persisted configurations.
var VerifPersisted = map[*Config][]string{}
