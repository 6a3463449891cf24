package loader

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

var errSpec = errors.New("some error")

// Reference definitions of how templates are fetched.

func specGet(l Loader, url string) (b []byte, err error) {
	rq, err := http.NewRequest("GET", url, nil)
	if err != nil {
		return nil, err
	}
	rs, err := l.client.Do(rq)
	if err != nil {
		return nil, err
	}
	if rs.StatusCode != http.StatusOK {
		rs.Body.Close()
		return nil, errSpec
	}
	b, err = io.ReadAll(rs.Body)
	if e := rs.Body.Close(); e != nil {
		return nil, e
	}
	return b, err
}

func specGithub(l Loader, name string) ([]byte, string, error) {
	b, err := l.get(fmt.Sprintf("https://api.github.com/repos/hexdigest/gowrap/commits?path=templates/%s&per_page=1", name))
	if err != nil {
		return nil, "", err
	}
	commits := []struct{ SHA string }{}
	if err := json.Unmarshal(b, &commits); err != nil {
		return nil, "", err
	}
	if len(commits) == 0 {
		return nil, "", errSpec
	}
	from := fmt.Sprintf("https://raw.githubusercontent.com/hexdigest/gowrap/%s/templates/%s", commits[0].SHA, name)
	b, err = l.get(from)
	if err != nil {
		return nil, "", err
	}
	return b, from, nil
}

func specLoad(l Loader, path string) ([]byte, string, error) {
	switch {
	case strings.HasPrefix(path, "http://"), strings.HasPrefix(path, "https://"):
		b, err := l.get(path)
		if err != nil {
			return nil, "", err
		}
		return b, path, nil
	case strings.HasPrefix(path, "file://"):
		file := strings.TrimPrefix(path, "file://")
		if _, err := os.Stat(file); os.IsNotExist(err) {
			root, err := l.gitRoot()
			if err != nil {
				return nil, "", err
			}
			file = filepath.Join(root, file)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			return nil, "", err
		}
		return b, file, nil
	}
	return l.fetchFromGithub(path)
}

func specList(l Loader) ([]string, error) {
	b, err := l.get("https://api.github.com/repos/hexdigest/gowrap/git/trees/master?recursive=1")
	if err != nil {
		return nil, err
	}
	tree := struct{ Tree []struct{ Path string } }{}
	if err := json.Unmarshal(b, &tree); err != nil {
		return nil, err
	}
	var l2 []string
	for _, e := range tree.Tree {
		if e.Path != "templates/" && strings.HasPrefix(e.Path, "templates/") {
			l2 = append(l2, e.Path[len("templates/"):])
		}
	}
	return l2, nil
}

func specNew(c httpClient) Loader {
	if c == nil {
		return Loader{http.DefaultClient, gitRootPath}
	}
	return Loader{c, gitRootPath}
}

func specGitRoot() (string, error) {
	out, err := exec.Command("git", "rev-parse", "--show-toplevel").Output()
	if err != nil {
		return "", err
	}
	return strings.TrimSpace(string(out)), nil
}
