package disk

// VerifIO is what the system reports of its drives.
var VerifIO func() (AllDrivesIOStats, error)

//gosym:stub GetAllDrivesIOStats
func verifGetAllDrivesIOStats() (AllDrivesIOStats, error) { return VerifIO() }
