package disk

// VerifMounts and VerifInfo are what the system reports.
var (
	VerifMounts func() ([]string, error)
	VerifInfo   func(string) (Info, error)
)

//gosym:stub AllMountPoints
func verifAllMountPoints() ([]string, error) { return VerifMounts() }

//gosym:stub GetInfo
func verifGetInfo(path string) (Info, error) { return VerifInfo(path) }
