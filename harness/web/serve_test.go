// Package main's part of the checks of the web demo. It is compiled into the
// repository's main package through an overlay: it starts the demo and serves
// the requests it reads from standard input with the demo's handlers.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"testing"
	"time"
)

type verifAnswer struct {
	Status int    `json:"status"`
	Type   string `json:"type"`
	Body   []byte `json:"body"`
	Panic  string `json:"panic"`
}

func verifServe(url string) (a verifAnswer) {
	defer func() {
		if r := recover(); r != nil {
			a.Panic = fmt.Sprint(r)
		}
	}()
	w := httptest.NewRecorder()
	http.DefaultServeMux.ServeHTTP(w, httptest.NewRequest("GET", url, nil))
	return verifAnswer{Status: w.Code, Type: w.Header().Get("Content-Type"), Body: w.Body.Bytes()}
}

func verifGet(url string) (a verifAnswer) {
	r, err := http.Get("http://localhost:8080" + url)
	if err != nil {
		return verifAnswer{Panic: err.Error()}
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return verifAnswer{Panic: err.Error()}
	}
	return verifAnswer{Status: r.StatusCode, Type: r.Header.Get("Content-Type"), Body: b}
}

// TestVerifProgram runs the demo with a command line.
func TestVerifProgram(t *testing.T) {
	raw := os.Getenv("VERIF_ARGS")
	if raw == "" {
		t.Skip()
	}
	var in struct {
		Args []string
		Out  string
	}
	if err := json.Unmarshal([]byte(raw), &in); err != nil {
		panic("harness: " + err.Error())
	}
	os.Args = append([]string{"main"}, in.Args...)
	done := make(chan bool)
	go func() {
		WebDemo()
		close(done)
	}()
	req := httptest.NewRequest("GET", "/patch?car=1&patch=1", nil)
	for n, ended := 0, false; !ended; n++ {
		select {
		case <-done:
			ended = true
		case <-time.After(5 * time.Millisecond):
			if _, pattern := http.DefaultServeMux.Handler(req); strings.HasSuffix(pattern, "/patch") || n > 60000 {
				t.Fatal("the program serves pages, or does not end")
			}
		}
	}
	if err := os.WriteFile(in.Out+"/done", nil, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
}

func TestVerifServe(t *testing.T) {
	if os.Getenv("VERIF_SERVE") == "" {
		t.Skip()
	}
	out := json.NewEncoder(os.NewFile(3, "answers"))
	os.Args = os.Args[:1]
	go WebDemo()
	// The demo is ready when its last page is registered. A demo which does not use
	// the default mux is asked at its port.
	req := httptest.NewRequest("GET", "/patch?car=1&patch=1", nil)
	serve := verifServe
	for n := 0; ; n++ {
		if _, pattern := http.DefaultServeMux.Handler(req); strings.HasSuffix(pattern, "/patch") {
			// Other pages may be registered after this one, but before it listens
			for n := 0; n < 500 && verifGet("/").Panic != ""; n++ {
				time.Sleep(4 * time.Millisecond)
			}
			break
		}
		if n > 2500 {
			if a := verifGet("/"); a.Panic == "" {
				serve = verifGet
				break
			}
		}
		if n > 20000 {
			t.Fatal("the demo does not come up")
		}
		time.Sleep(4 * time.Millisecond)
	}
	out.Encode("ready")
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<24)
	for in.Scan() {
		var urls []string
		if err := json.Unmarshal(in.Bytes(), &urls); err != nil {
			t.Fatal(err)
		}
		answers := make([]verifAnswer, len(urls))
		var wg sync.WaitGroup
		for i, u := range urls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				answers[i] = serve(u)
			}()
		}
		wg.Wait()
		out.Encode(answers)
	}
}
