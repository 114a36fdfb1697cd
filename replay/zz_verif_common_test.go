package ustack_test

import (
	"log"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

// Concrete search harness used only to replay a failed proof obligation against
// the real code: seeded random histories against simple reference models.

func verifRand() *rand.Rand {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return rand.New(rand.NewSource(s))
}

// verifLoop runs f with fresh randomness until the budget is used.
func verifLoop(t *testing.T, budget time.Duration, max int, f func(r *rand.Rand)) {
	r := verifRand()
	defer verifQuiet()()
	end := time.Now().Add(budget)
	for i := 0; i < max && time.Now().Before(end) && !t.Failed(); i++ {
		f(r)
	}
}

// verifQuiet drops what the code under test prints.
func verifQuiet() func() {
	out, lo := os.Stdout, log.Writer()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		log.SetOutput(null)
	}
	return func() { os.Stdout = out; log.SetOutput(lo) }
}

// verifNoPanic reports a panic of f as a failure with the given description.
func verifNoPanic(t *testing.T, what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("%s: panic: %v", what, e)
			ok = false
		}
	}()
	f()
	return true
}

func verifPanics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func verifBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}
