package mdl

import (
	"github.com/uber/prototool/internal/desc"
	"github.com/uber/prototool/internal/zzvp/vp"
)

func variant(name string, v int) *file {
	f := &file{Name: str(name), Package: str("a")}
	switch v {
	case 1:
		f.MessageType = []*msg{{Name: str("M")}}
	case 2:
		f.MessageType = []*msg{{Name: str("N")}}
	}
	return f
}

// Up to three files in one to three descriptor sets, each with any of the names a, b, c or none and any of two contents, so that repeated, differing and unnamed files and empty sets all occur.
//
//vp:harness D01 reach=ok,differ,unnamed shards=4
func Merge() {
	n := vp.Shard(4)
	var vs [4]int
	for i := 0; i < n; i++ {
		vs[i] = vp.Choice("var"+d(i), 2)
	}
	merge(n, 0, vs)
}

// Two files in two descriptor sets, with names of up to three of the bytes "aA./_".
//
//vp:harness D01 reach=ok,differ
func MergeNames() {
	a, b := vp.String("a", "aA./_", 1, 3), vp.String("b", "aA./_", 1, 3)
	v := vp.Choice("var", 2)
	r, err := desc.MergeFileDescriptorSets([]*fset{{File: []*file{variant(a, 0)}}, {File: []*file{variant(b, v)}}})
	if a == b && v == 1 {
		vp.Assert(err != nil, "different content under one file name is an error")
		vp.Reach("differ")
		return
	}
	vp.Assert(err == nil, "equal or different files are merged")
	if a == b {
		vp.Assert(len(r.File) == 1 && r.File[0].GetName() == a, "a file that is given twice is there once")
	} else {
		vp.Assert(len(r.File) == 2, "no file is lost or added")
		x, y := r.File[0], r.File[1]
		vp.Assert(x.GetName() < y.GetName(), "files are in ascending order")
		vp.Assert(x.GetName() == a && len(x.MessageType) == 0 && y.GetName() == b && len(y.MessageType) == v || x.GetName() == b && len(x.MessageType) == v && y.GetName() == a && len(y.MessageType) == 0, "files keep their names and content")
	}
	vp.Reach("ok")
}

// Four files in one to three descriptor sets, each with any of the names a, b, c and any of two contents.
//
//vp:harness D01 reach=ok,differ tier=thorough shards=16
func MergeFour() {
	sh := vp.Shard(16)
	merge(4, 1, [4]int{sh & 1, sh >> 1 & 1, sh >> 2 & 1, sh >> 3})
}

func merge(n, min int, vs [4]int) {
	names := make([]string, n)
	vars := make([]int, n)
	sets := []*fset{{}, {}, {}}
	unnamed, differ := false, false
	for i := range names {
		names[i] = vp.String("name"+d(i), "abc", min, 1)
		vars[i] = vs[i]
		k := 0
		if i > 0 {
			k = vp.Choice("set"+d(i), 3)
		}
		sets[k].File = append(sets[k].File, variant(names[i], vars[i]))
		if names[i] == "" {
			unnamed = true
		}
		for j := 0; j < i; j++ {
			if names[j] == names[i] && vars[j] != vars[i] {
				differ = true
			}
		}
	}
	r, err := desc.MergeFileDescriptorSets(sets)
	if unnamed {
		vp.Assert(err != nil, "a file without name is an error")
		vp.Reach("unnamed")
		return
	}
	if differ {
		vp.Assert(err != nil, "different content under one file name is an error")
		vp.Reach("differ")
		return
	}
	vp.Assert(err == nil && r != nil, "equal or different files are merged")
	for i, f := range r.File {
		if i > 0 {
			vp.Assert(r.File[i-1].GetName() < f.GetName(), "files are in ascending order, each once")
		}
		ok := false
		for j, w := range names {
			if w == f.GetName() {
				ok = true
				vp.Assert(len(f.MessageType) == vars[j] && f.GetPackage() == "a", "a file keeps its content")
			}
		}
		vp.Assert(ok, "no file is added")
	}
	for _, w := range names {
		found := false
		for _, f := range r.File {
			if f.GetName() == w {
				found = true
			}
		}
		vp.Assert(found, "no file is lost")
	}
	vp.ObserveInt("n", len(r.File))
	vp.Reach("ok")
}

// A descriptor set of 0 to 3 files with names of up to one byte, and a file of any such name, to be moved to the end.
//
//vp:harness D01 reach=ok,error shards=4
func MoveToEnd() {
	n := vp.Shard(4)
	s := &fset{}
	var names []string
	dup, unnamed, found := false, false, false
	last := vp.String("last", "abc", 1, 1)
	for i := 0; i < n; i++ {
		w := vp.String("name"+d(i), "abc", 0, 1)
		for _, o := range names {
			if o == w {
				dup = true
			}
		}
		if w == "" {
			unnamed = true
		}
		if w == last {
			found = true
		}
		names = append(names, w)
		s.File = append(s.File, variant(w, 1))
	}
	r, err := desc.SortFileDescriptorSet(s, variant(last, 1))
	if dup || unnamed || !found {
		vp.Assert(err != nil, "repeated, unnamed and missing files are errors")
		vp.Reach("error")
		return
	}
	vp.Assert(err == nil, "a valid set is sorted")
	vp.Assert(len(r.File) == n && r.File[n-1].GetName() == last, "the given file is last")
	k := 0
	for _, w := range names {
		if w != last {
			vp.Assert(r.File[k].GetName() == w, "other files keep their order")
			k++
		}
	}
	vp.Assert(len(s.File) == n, "the given set is not changed")
	for i, f := range s.File {
		vp.Assert(f.GetName() == names[i], "the given set is not changed")
	}
	vp.Reach("ok")
}
