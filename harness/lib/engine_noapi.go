//go:build cliengine

package lib

// HasAPI tells that cases are executed in process.
const HasAPI = false

func initAPI() {}

// RunAPI is not available in this build, the real program is used instead.
func RunAPI(c *Case, dir string) *Outcome {
	if c.Run != nil {
		return c.Run()
	}
	return nil
}

// InitAPI does nothing.
func InitAPI() {}
