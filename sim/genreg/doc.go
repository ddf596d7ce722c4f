// Package genreg registers the message types generated from the schemas. The
// file that does it is written by check.py for the checks that use them.
package genreg
