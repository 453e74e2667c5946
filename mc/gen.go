package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/lib/engine"
)

// Base is the base package of the generated code.
const Base = "example.com/gen"

// BuildTool builds the tool from the current tree.
func (e *Env) BuildTool() {
	code, out := e.run(e.Repo, nil, 600*time.Second, "go", "build", "-o", e.tool(), "./cmd/metamodel")
	if code != 0 {
		fmt.Fprintf(os.Stderr, "can't build the tool: %s\n", out)
		os.Exit(2)
	}
}

func (e *Env) tool() string { return filepath.Join(e.Work, "metamodel") }

// buildTool is the preparation of the properties that only need the tool.
func buildTool(env *Env, r *engine.Report) { env.BuildTool() }

// run executes a command and returns the exit code and the output. The exit code is -1 if the process
// was terminated.
func (e *Env) run(dir string, vars []string, limit time.Duration, name string, args ...string) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), vars...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	if err == nil {
		return 0, out.String()
	}
	var exit *exec.ExitError
	if errors.As(err, &exit) {
		return exit.ExitCode(), out.String()
	}
	return -2, out.String() + err.Error()
}

// Tool runs the tool in the given directory.
func (e *Env) Tool(dir string, args ...string) (int, string) {
	return e.run(dir, nil, 300*time.Second, e.tool(), args...)
}

// tail returns the end of the text.
func tail(text string, n int) string {
	text = strings.TrimSpace(text)
	if len(text) > n {
		text = "..." + text[len(text)-n:]
	}
	return text
}

// toolLog removes the information messages.
func toolLog(text string) string {
	var lines []string
	for _, line := range strings.Split(text, "\n") {
		if !strings.Contains(line, "I:\x1b") && !strings.Contains(line, "W:\x1b") && line != "" {
			lines = append(lines, line)
		}
	}
	return tail(strings.Join(lines, "\n"), 2000)
}

// Module creates a directory with a Go module without requirements, ready to run the generator of Go
// code.
func (e *Env) Module() string {
	dir := e.Dir()
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+Base+"\n\ngo 1.24\n"), 0o644))
	return dir
}

// GenerateGo generates the Go code of the model in a new module and returns the directory. The module
// has the requirements of the generated code. The text is empty if it worked.
func (e *Env) GenerateGo(files Files) (dir string, problem string) {
	model := e.Dir()
	writeFiles(model, files)
	dir = e.Module()
	code, out := e.Tool(dir, "generate", "go", "--model", model, "--base", Base, "--output", dir)
	os.RemoveAll(model)
	if code != 0 {
		problem = fmt.Sprintf("generation failed with code %d: %s", code, toolLog(out))
		return
	}
	e.requirements(dir)
	return
}

func (e *Env) requirements(dir string) {
	for _, name := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(e.Root, "drv", "gen."+name))
		must(err)
		must(os.WriteFile(filepath.Join(dir, name), data, 0o644))
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// tree returns the content of the files of the directory.
func tree(dir string) Files {
	files := Files{}
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if !d.IsDir() {
			data, _ := os.ReadFile(path)
			rel, _ := filepath.Rel(dir, path)
			files[rel] = string(data)
		}
		return nil
	})
	return files
}

func (f Files) names() []string {
	var r []string
	for name := range f {
		r = append(r, name)
	}
	sort.Strings(r)
	return r
}
