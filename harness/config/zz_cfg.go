package config

// ZZLoaded marks c as successfully loaded.
func ZZLoaded(c *Configuration) { c.loaded = true }

// ZZUnloaded marks c as not loaded.
func ZZUnloaded(c *Configuration) { c.loaded = false }
