// Package c15reg holds the types generated for C15's schemas; the check adds a
// file to it.
package c15reg

// New makes a message: "file.Message" -> constructor.
var New = map[string]func() interface{}{}

// Fail says why a schema has no compiled package.
var Fail = map[string]string{}
