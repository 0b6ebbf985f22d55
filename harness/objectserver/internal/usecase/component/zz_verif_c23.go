package component

import (
	"common/collection/set"
	"common/datasize"
	"common/system/disk"
	"common/verifrt"
	_ "common/verifrt/fsm"
	"errors"
	"os"
	"path/filepath"
	"strconv"
)

// The mount point with the most free space is chosen, and choosing does not disturb the set of mount points.
//
//gosym:with common/system/disk/zz_verif_mounts.go
//gosym:harness C23 quick=40s thorough=600s
func VerifC23Select() {
	n := verifrt.Choice("drivers", verifrt.Bound("mount points", 4, 6))
	dm := NewDriverManager(SpaceFirstBalancer())
	for i := 0; i < n; i++ {
		dm.drivers = append(dm.drivers, &Driver{
			MountPoint: "/m" + strconv.Itoa(i),
			FreeSpace:  datasize.DataSize(verifrt.AnyUint64("free")),
			TotalSpace: ^datasize.DataSize(0),
		})
	}
	before := append([]*Driver{}, dm.drivers...)
	frees := make([]datasize.DataSize, n)
	for i, d := range before {
		frees[i] = d.FreeSpace
	}
	all := dm.GetAllMountPoint()
	d, err := dm.SelectDriver()
	mp := dm.SelectMountPointFallback("/base")
	if n == 0 {
		verifrt.Assert(err != nil && mp == "/base", "without mount points the fallback is used")
		verifrt.Reach("fallback")
		return
	}
	verifrt.Assert(err == nil && d != nil, "a mount point is chosen")
	member := false
	for i, x := range before {
		if x == d {
			member = true
		}
		verifrt.Assert(x.FreeSpace == frees[i], "choosing changes no mount point")
		verifrt.Assert(x.FreeSpace <= d.FreeSpace, "the chosen mount point has the most free space")
		if x.MountPoint == mp {
			verifrt.Assert(x.FreeSpace == d.FreeSpace, "a fallback is not used while there is a mount point")
		}
	}
	verifrt.Assert(member && mp != "/base", "a known mount point is chosen")
	now := dm.GetAllMountPoint()
	verifrt.Assert(len(all) == n && len(now) == n, "choosing keeps all mount points")
	for i := range all {
		verifrt.Assert(all[i] == before[i].MountPoint && dm.drivers[i] == before[i], "choosing does not move mount points under readers")
	}
	verifrt.Assert(now[0] == all[0], "choosing does not move mount points under readers")
	verifrt.Reach("chosen")
}

// After an update the mount points are those reported, allowed and readable, with their free space.
//
//gosym:harness C23 quick=60s thorough=600s
func VerifC23Update() {
	n := verifrt.Bound("mount points", 3, 4)
	dm := NewDriverManager(SpaceFirstBalancer())
	inc, exc := set.NewMapSet(), set.NewMapSet()
	names := []string{"/data", "/data2", "/", "/data/x"}[:n]
	included, excluded := make([]bool, n), make([]bool, n)
	anyInc := false
	for i, m := range names {
		switch verifrt.Choice("config", 4) {
		case 1:
			inc.Add(m)
			included[i], anyInc = true, true
		case 2:
			exc.Add(m)
			excluded[i] = true
		case 3:
			inc.Add(m)
			exc.Add(m)
			included[i], excluded[i], anyInc = true, true, true
		}
	}
	if verifrt.Choice("other", 2) == 1 { // a name that is not mounted
		inc.Add("/gone")
		anyInc = true
	}
	dm.Includes, dm.Excludes = inc, exc
	var want []*Driver
	rounds := 2
	for r := 0; r < rounds; r++ {
		fail := verifrt.Choice("report", 3)
		var mounted, broken []bool
		var free []datasize.DataSize
		for i := 0; i < n; i++ {
			m := r == 0 || verifrt.Choice("mounted", 2) == 0
			mounted = append(mounted, m)
			broken = append(broken, fail == 2 && i == 1)
			free = append(free, datasize.DataSize(verifrt.AnyUint64("free")))
		}
		disk.VerifMounts = func() ([]string, error) {
			if fail == 1 {
				return nil, errors.New("no report")
			}
			var l []string
			for i, m := range names {
				if mounted[i] {
					l = append(l, m)
				}
			}
			return l, nil
		}
		disk.VerifInfo = func(p string) (disk.Info, error) {
			for i, m := range names {
				if m == p {
					if broken[i] {
						return disk.Info{Free: 1 << 62, Total: 1}, errors.New("broken")
					}
					return disk.Info{Free: free[i], Total: free[i] | 1}, nil
				}
			}
			verifrt.Assert(false, "only mounted paths are examined")
			return disk.Info{}, errors.New("unknown")
		}
		if fail != 1 {
			want = nil
			for i, m := range names {
				if mounted[i] && !broken[i] && (anyInc && included[i] || !anyInc && !excluded[i]) {
					want = append(want, &Driver{MountPoint: m, FreeSpace: free[i]})
				}
			}
		}
		dm.Update()
		got := dm.GetAllMountPoint()
		verifrt.Assert(len(got) == len(want), "an update yields the allowed mount points")
		max := datasize.DataSize(0)
		for _, w := range want {
			found := false
			for _, g := range got {
				found = found || g == w.MountPoint
			}
			verifrt.Assert(found, "an update yields every allowed mount point")
			if w.FreeSpace > max {
				max = w.FreeSpace
			}
		}
		mp := dm.SelectMountPointFallback("fallback")
		if len(want) == 0 {
			verifrt.Assert(mp == "fallback", "the fallback is used when nothing is allowed")
			continue
		}
		ok := false
		for _, w := range want {
			ok = ok || w.MountPoint == mp && w.FreeSpace == max
		}
		verifrt.Assert(ok, "the mount point with the most free space of the last report is chosen")
	}
	verifrt.Reach("updated")
}

// A file is found on whichever mount point it is.
//
//gosym:harness C23 quick=40s thorough=300s
func VerifC23Find() {
	root := verifrt.TempDir()
	n := verifrt.Choice("drivers", verifrt.Bound("mount points", 4, 5))
	dm := NewDriverManager(SpaceFirstBalancer())
	var at []string
	rel := "objects/h.0"
	for i := 0; i < n; i++ {
		m := filepath.Join(root, "m"+strconv.Itoa(i))
		verifrt.Assert(os.MkdirAll(filepath.Join(m, "objects"), 0o755) == nil, "a mount point exists")
		dm.drivers = append(dm.drivers, &Driver{MountPoint: m, FreeSpace: datasize.DataSize(verifrt.AnyUint32("free"))})
		name := "h.1"
		if verifrt.Choice("here", 2) == 1 {
			name = "h.0"
			at = append(at, filepath.Join(m, rel))
		}
		verifrt.Assert(os.WriteFile(filepath.Join(m, "objects", name), []byte("x"), 0o644) == nil, "a file is stored")
	}
	for r := 0; r < 2; r++ {
		p, err := dm.FindMountPath(rel)
		verifrt.Assert(dm.IsPathExist(rel) == (len(at) > 0), "a file exists when it is on any mount point")
		if len(at) == 0 {
			verifrt.Assert(errors.Is(err, os.ErrNotExist), "a file on no mount point is not found")
		} else {
			ok := false
			for _, a := range at {
				ok = ok || a == p
			}
			verifrt.Assert(err == nil && ok, "a file is found where it is")
		}
		if n > 0 {
			_, err = dm.SelectDriver()
			verifrt.Assert(err == nil, "a mount point is chosen")
		}
	}
	verifrt.Reach("found")
}
