package spec

// Decorations is the number of patterns of Decorate.
const Decorations = 8

// Decorate returns the file with settings added that change nothing of which commands are
// run and with what result, where the file does not have such settings itself.
func Decorate(f File, pattern int) File {
	dirs := f.anyDir()
	n := 0
	return decorate(f, pattern, !dirs, &n)
}

func (f *File) anyDir() bool {
	if f.Dir != "" {
		return true
	}
	for _, t := range f.Tasks {
		if t.Dir != "" {
			return true
		}
		for _, it := range t.Run {
			if it.Dir != "" {
				return true
			}
		}
	}
	for _, i := range f.Includes {
		if i.File != nil && i.File.anyDir() {
			return true
		}
	}
	return false
}

func decorate(f File, pattern int, dirs bool, n *int) File {
	tasks := f.Tasks
	f.Tasks = nil
	for _, t := range tasks {
		p := next(pattern, n)
		switch p {
		case 1:
			tri(&t.Silent, Yes)
		case 2:
			tri(&t.Output, No)
		case 3:
			str(&t.When, "a == 'a'")
		case 5:
			t.Vars = append(append([]KV(nil), t.Vars...), KV{"zz", "z"})
			t.Env = append(append([]KV(nil), t.Env...), KV{"ZZ1", "z"})
			if dirs {
				str(&t.Dir, ".")
			}
		case 6:
			tri(&t.Silent, No)
			tri(&t.Output, Yes)
		}
		t.Run = items(t.Run, pattern, dirs, n)
		f.Tasks = append(f.Tasks, t)
	}
	incs := f.Includes
	f.Includes = nil
	for _, i := range incs {
		if i.File != nil {
			g := decorate(*i.File, pattern, dirs, n)
			i.File = &g
		}
		f.Includes = append(f.Includes, i)
	}
	return f
}

func next(pattern int, n *int) int {
	if pattern < 7 {
		return pattern
	}
	*n++
	return 1 + *n%6
}

func tri(t *Tri, v Tri) {
	if *t == Unset {
		*t = v
	}
}

func str(s *string, v string) {
	if *s == "" {
		*s = v
	}
}

func items(l []Item, pattern int, dirs bool, n *int) (r []Item) {
	for _, it := range l {
		p := next(pattern, n)
		shell := it.Cmd != "" || it.Task != "" || len(it.Parallel) > 0
		switch p {
		case 1:
			if shell {
				tri(&it.Silent, Yes)
			}
		case 2:
			if shell {
				tri(&it.Output, No)
			}
		case 3:
			str(&it.When, "yes")
		case 4:
			if len(it.Platforms) == 0 {
				it.Platforms = []string{"linux", "darwin", "windows"}
			}
			if len(it.Parallel) > 0 {
				tri(&it.Color, No)
			}
		case 5:
			if it.Cmd != "" {
				it.Env = append(append([]KV(nil), it.Env...), KV{"ZZ2", "z"})
				if dirs {
					str(&it.Dir, ".")
				}
			}
			if len(it.Parallel) > 0 && it.Limit == 0 {
				it.Limit = 9
			}
		case 6:
			if shell {
				tri(&it.Silent, No)
				tri(&it.Output, Yes)
			}
			if len(it.Parallel) > 0 {
				str(&it.Mode, "interleaved")
			}
		}
		if len(it.Parallel) > 0 {
			it.Parallel = items(it.Parallel, pattern, dirs, n)
		}
		r = append(r, it)
	}
	return
}
