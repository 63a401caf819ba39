package main

// the servers come from the configuration files
func init() { staticConfig = false }
