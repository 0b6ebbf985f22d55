package component

import (
	"common/collection/set"
	"common/datasize"
)

// VerifManager makes a manager of mount points with the given free space.
func VerifManager(mps []string, free []int) *DriverManager {
	dm := &DriverManager{balancer: SpaceFirstBalancer(), Excludes: set.NewMapSet(), Includes: set.NewMapSet()}
	for i, p := range mps {
		dm.drivers = append(dm.drivers, &Driver{MountPoint: p, FreeSpace: datasize.DataSize(free[i]), TotalSpace: 1000})
	}
	return dm
}
