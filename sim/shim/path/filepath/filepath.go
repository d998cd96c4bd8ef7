package filepath

import (
	"io/fs"
	real "path/filepath"

	"MODPATH/verifsim/shim/os"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	d, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return real.Join(d, p), nil
}
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	return real.Clean(p), nil
}
func Glob(pat string) (out []string, err error) {
	if _, err := real.Match(pat, ""); err != nil {
		return nil, err
	}
	meta := func(s string) bool {
		for _, c := range s {
			switch c {
			case '*', '?', '[', '\\':
				return true
			}
		}
		return false
	}
	if !meta(pat) {
		if _, err := os.Lstat(pat); err != nil {
			return nil, nil
		}
		return []string{pat}, nil
	}
	dir, file := real.Split(pat)
	dir = real.Clean(dir)
	dirs := []string{dir}
	if meta(dir) {
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	for _, d := range dirs {
		es, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := real.Match(file, e.Name()); ok {
				out = append(out, real.Join(d, e.Name()))
			}
		}
	}
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	st, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(st), fn)
	}
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == real.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == real.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(real.Join(p, e.Name()), e, fn); err != nil {
			if err == real.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn real.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var st fs.FileInfo
		if d != nil {
			var e2 error
			if st, e2 = d.Info(); e2 != nil && err == nil {
				err = e2
			}
		}
		return fn(p, st, err)
	})
}
