package bolt

// Hooks the checks use. They are not in the original package.
var (
	// AfterCommit is called when a writable transaction is on disk
	AfterCommit func(path string)
	// FailCommit is called before a commit; an error fails the commit
	FailCommit func(path string) error
)
