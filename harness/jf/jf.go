// Package jf gives the harness the field under jindo/internal.
package jf

import "github.com/sp301415/ringo-snark/jindo/internal/zp"

// Uint is the field element.
type Uint = zp.Uint
